"""C21  Particle beliefs hold genuine samples."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *

BEL = 'task_models.lib.belief:'
PB = BEL + 'ParticleBelief'
SS = BEL + '_SuccessorSampler'
MAX = BEL + 'MaxSamplesReached'
GOOD = z3.Function('GOOD', z3.IntSort(), z3.BoolSort())
NEXT, OBS, START = [z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('out_state', 'out_obs', 'parent_particle')]
TRIAL = TTup(TInt, TInt, TInt, TInt)


def world(I):
    """Any simulator and any parent belief; both log what they are asked and what they answer."""
    E = I.E

    def sample_transition(I, m, args, kw):
        k = content(I, F(I, m, 'log')).n
        I.call(I.getattr(F(I, m, 'log'), 'append'), [(args[0], args[1], OBS(intx(k)), NEXT(intx(k)))], {})
        return NEXT(intx(k)), OBS(intx(k)), E.fresh(TReal, 'reward')

    def sample(I, b, args, kw):
        k = content(I, F(I, b, 'drawn')).n
        I.call(I.getattr(F(I, b, 'drawn'), 'append'), [START(intx(k))], {})
        return START(intx(k))
    I.refclasses['Model'] = RefClass('Model', {'log': TList(TRIAL)}, methods={'sample_transition': sample_transition})
    I.refclasses['Parent'] = RefClass('Parent', {'drawn': TList(TInt)}, methods={'sample': sample})
    return RefV('Model', E.fresh_int('model')), RefV('Parent', E.fresh_int('belief'))


def raised(I, e, cls):
    return e.cls is I.get_class(cls)


class Returns(Contract):
    """Contracts whose exceptional outcome is specified in the state after the call."""
    may = (MAX,)

    def call(self, I, a):
        try:
            return ('ok', Contract.call(self, I, a))
        except PyExc as e:
            for c in self.may:
                if raised(I, e, c):
                    return ('raised', e)
            raise


class Trials(Returns):
    """Simulates transitions from particles of the parent, one trial each, until one gives the
    observation, whose end state is returned; stops with MaxSamplesReached after max_samples
    trials in all."""
    qual = SS + '.__call__'
    title = '_SuccessorSampler.__call__'

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        E = I.E
        self.m, self.b = world(I)
        self.o = obj(I, SS, n_sampled=E.fresh_int('n_sampled'), model=self.m, belief=self.b, a=E.fresh_int('a'),
                     o=E.fresh_int('o'), max_samples=E.fresh_int('max_samples'))
        return [self.o]

    def pre(self, I, a):
        return [('trials so far', AND(le(0, F(I, a[0], 'n_sampled')), le(F(I, a[0], 'n_sampled'), F(I, a[0], 'max_samples'))))]

    def capture(self, I, a):
        self.old = (F(I, a[0], 'n_sampled'), content(I, F(I, self.m, 'log')), content(I, F(I, self.b, 'drawn')))
        return self.old

    def writes(self, I, a):
        return [(a[0], 'n_sampled'), ('heap', 'Model', 'log'), ('heap', 'Parent', 'drawn')]

    def trials(self, I, k):
        """Exactly k trials made since the start."""
        n0, log0, drawn0 = self.old
        log, drawn = content(I, F(I, self.m, 'log')), content(I, F(I, self.b, 'drawn'))
        o = self.o
        return [('one trial counted', eqn(F(I, o, 'n_sampled'), add(n0, k))),
                ('trials made', AND(eqn(log.n, add(log0.n, k)), eqn(drawn.n, add(drawn0.n, k)))),
                ('within the maximum', le(add(n0, k), F(I, o, 'max_samples'))),
                ('simulated from particles of the parent under the action', ALL(k, lambda i: AND(
                    eqn(log.get(add(log0.n, i))[0], F(I, o, 'a')),
                    eqn(log.get(add(log0.n, i))[1], drawn.get(add(drawn0.n, i))))))]

    def last(self, I):
        log = content(I, F(I, self.m, 'log'))
        return log.get(sub(log.n, 1))

    def invariant(self, I, st):
        k = z3.simplify(intx(add(st.k, st.done)))
        o = st.var('o')
        out = self.trials(I, k)
        out += [('no observation before the first trial', is_none(o) == boolx(eqn(k, 0)))]
        if not (z3.is_int_value(k) and k.as_long() == 0):
            out += [('last outcome', IMP(lt(0, k), AND(eqn(val(o), self.last(I)[2]), eqn(st.var('s'), self.last(I)[3])))),
                    ('only the last one can have the observation', ALL(sub(k, 1), lambda i: NOT(eqn(
                        content(I, F(I, self.m, 'log')).get(add(self.old[1].n, i))[2], F(I, self.o, 'o')))))]
        else:
            out += [('last outcome', True), ('only the last one can have the observation', True)]
        return out

    def post(self, I, a, old, res):
        k = sub(F(I, a[0], 'n_sampled'), old[0])
        how, r = res
        if how == 'raised':
            log = content(I, F(I, self.m, 'log'))
            return [('all trials used', eqn(F(I, a[0], 'n_sampled'), add(F(I, a[0], 'max_samples'), 1))),
                    ('at most the maximum number of trials', le(sub(log.n, old[1].n), sub(F(I, a[0], 'max_samples'), old[0])))]
        return self.trials(I, k) + [
            ('some trial', lt(0, k)), ('the observation', eqn(self.last(I)[2], F(I, a[0], 'o'))),
            ('its end state', eqn(r, self.last(I)[3]))]


def is_none(v):
    if v is None:
        return z3.BoolVal(True)
    return v.none if isinstance(v, Opt) else z3.BoolVal(False)


def val(v):
    return v.val if isinstance(v, Opt) else (z3.IntVal(0) if v is None else v)


def sampler(I):
    """Any sampler: each call gives a GOOD state or gives out."""
    def call(I, s, args, kw):
        if I.E.choose(2):
            raise PyExc(I.get_class(MAX), obj=I.alloc(I.get_class(MAX), {'msg': 'x', 'action': 0, 'observation': 0}))
        x = I.E.fresh_int('particle')
        I.E.assume(GOOD(x))
        return x
    I.refclasses['Sampler'] = RefClass('Sampler', {}, methods={'__call__': call})
    return RefV('Sampler', I.E.fresh_int('sampler'))


def particles(I, o):
    return content(I, F(I, o, 'part_states'))


def all_good(s):
    return ALL(s.n, lambda k: GOOD(intx(s.get(k))))


class Populate(Returns):
    """Exactly the requested number of particles, each one produced by the sampler (GOOD is any
    predicate that holds of what the sampler produces) or repeated from those; fails only when
    there is none."""
    qual = PB + '._populate'
    title = 'ParticleBelief._populate'

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True
        I.contracts[self.qual] = self

    def args(self, I):
        s = sampler(I)
        self.o = obj(I, PB, n_states=I.E.fresh_int('n_states'), n_particles=I.E.fresh_int('n_particles'),
                     part_states=lst(I, 'particles', TInt))
        return [self.o, s]

    def good_sampler(self, I, a):
        """Called with more particles, it gives a GOOD state."""
        s = a[1]
        if isinstance(s, RefV) and s.cls == 'Sampler':
            return True
        E = I.E
        snap = E.snapshot()
        p = F(I, a[0], 'part_states')
        old = content(I, p)
        more = content(I, lst(I, E.fresh_name('more'), TInt))
        new = Seq(add(old.n, more.n), lambda k: ite(boolx(lt(k, old.n)), old.get(k), more.get(sub(k, old.n))))
        I.write(I.resolve(p).lv, new)
        E.assume(all_good(new))
        ok = 'call of the sampler: a genuine state, never gives out'
        try:
            x = I.call(s, [], {})
            if not E.silent:
                E.prove(ok, GOOD(intx(x)))
        except PyExc as e:
            if not E.silent:
                E.prove(ok, False, where=str(e))
        E.restore(snap)
        return True

    def pre(self, I, a):
        p = particles(I, a[0])
        return [('particles so far', all_good(p)), ('not too many', le(p.n, F(I, a[0], 'n_particles'))),
                ('the sampler gives genuine states', self.good_sampler(I, a))]

    def capture(self, I, a):
        return particles(I, a[0])

    def writes(self, I, a):
        return [F(I, a[0], 'part_states')]

    def modifies(self, I, a):
        s = content(I, lst(I, I.E.fresh_name('particles'), TInt))
        I.write(I.resolve(F(I, a[0], 'part_states')).lv, s)

    def result(self, I, a, old):
        # the sampler of a recursive call never gives out (checked by running it)
        return ('ok', None)

    def apply(self, I, f, args, kw):
        if isinstance(args[1], RefV):
            raise Unsupported('recursion with the given sampler')
        return Returns.apply(self, I, f, args, kw)[1]

    def invariant(self, I, st):
        p = particles(I, self.o)
        return [('particles', all_good(p)), ('not too many', le(p.n, F(I, self.o, 'n_particles')))]

    def post(self, I, a, old, res):
        p = particles(I, a[0])
        if res[0] == 'raised':
            return [('fails only when nothing can be sampled', eqn(p.n, 0))]
        return [('as many as requested', eqn(p.n, F(I, a[0], 'n_particles'))), ('genuine samples', all_good(p))]


class Init(Returns):
    qual = PB + '.__init__'
    title = 'ParticleBelief.__init__'
    uses = [Populate()]

    def args(self, I):
        n = I.E.fresh_int('n_particles')
        I.E.assume(n >= 0)
        return [obj(I, PB), sampler(I), I.E.fresh_int('n_states'), n]

    def writes(self, I, a):
        return [a[0]]

    def modifies(self, I, a):
        I.setattr(a[0], 'part_states', lst(I, I.E.fresh_name('particles'), TInt))

    def post(self, I, a, old, res):
        if res[0] == 'raised':
            return []
        p = particles(I, a[0])
        return [('states', eqn(F(I, a[0], 'n_states'), a[2])), ('requested number', eqn(F(I, a[0], 'n_particles'), a[3])),
                ('as many as requested', eqn(p.n, a[3])), ('genuine samples', all_good(p))]


class Populate_(Populate):
    """As seen by callers."""

    def setup(self, I):
        pass

    def result(self, I, a, old):
        if I.E.choose(2):
            I.E.assume(eqn(particles(I, a[0]).n, 0))
            raise PyExc(I.get_class(MAX), obj=I.alloc(I.get_class(MAX), {'msg': 'x'}))
        return ('ok', None)

    def apply(self, I, f, args, kw):
        return Returns.apply(self, I, f, args, kw)[1]


Init.uses = [Populate_()]


def belief(I):
    """Any particle belief."""
    n = I.E.fresh_int('n_particles')
    I.E.assume(n >= 1)
    return obj(I, PB, n_states=I.E.fresh_int('n_states'), n_particles=n, part_states=lst(I, 'particles', TInt, n))


class Sample(Contract):
    qual = PB + '.sample'
    title = 'ParticleBelief.sample'

    def args(self, I):
        return [belief(I)]

    def post(self, I, a, old, r):
        p = particles(I, a[0])
        d = I.E.ghost.get('last_draw')
        if d is None:
            return [('a particle is drawn', False)]
        return [('a particle', AND(le(0, d[0]), lt(d[0], p.n), eqn(r, p.get(d[0])))),
                ('any of them', eqn(d[1], p.n))]


class Successor(Contract):
    """The successor's particles come from a sampler on this belief, action and observation
    limited to one hundred trials per particle."""
    qual = PB + '.successor'
    title = 'ParticleBelief.successor'

    def args(self, I):
        m, b = world(I)
        return [belief(I), m, I.E.fresh_int('a'), I.E.fresh_int('o')]

    class Made(Contract):
        qual = PB + '.__init__'

        def apply(self, I, f, args, kw):
            a = self.bind(I, f, args, kw)
            I.E.ghost['_made'] = I.E.ghost.get('_made', ()) + (tuple(a),)

    uses = [Made()]

    def post(self, I, a, old, r):
        made = I.E.ghost.get('_made', ())
        if len(made) != 1:
            return [('one belief is made', False)]
        o, s, ns, n = made[0]
        s = I.resolve(s)
        if not isinstance(s, ObjV) or s.cls is not I.get_class(SS):
            return [('sampled by successive trials', False)]
        g = lambda x: F(I, s, x)
        return [('the belief returned', I.resolve(r).loc == I.resolve(o).loc), ('same states', eqn(ns, F(I, a[0], 'n_states'))),
                ('as many particles', eqn(n, F(I, a[0], 'n_particles'))),
                ('simulator', isinstance(g('model'), RefV) and g('model').id.eq(a[1].id)),
                ('particles of this belief', I.resolve(g('belief')) == a[0] or I.resolve(g('belief')).loc == a[0].loc),
                ('action and observation', AND(eqn(g('a'), a[2]), eqn(g('o'), a[3]))),
                ('no trial yet', eqn(g('n_sampled'), 0)),
                ('one hundred trials per particle', eqn(g('max_samples'), mul(100, F(I, a[0], 'n_particles'))))]


class Histogram(Contract):
    qual = PB + '.array'
    title = 'ParticleBelief.array'

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        self.b = belief(I)
        return [self.b]

    def call(self, I, a):
        return I.getattr(a[0], 'array')

    def pre(self, I, a):
        p = particles(I, a[0])
        ns = F(I, a[0], 'n_states')
        return [('states', ALL(p.n, lambda k: AND(le(0, p.get(k)), lt(p.get(k), ns)))), ('some', lt(0, ns))]

    def count(self, I, s, k):
        p = particles(I, self.b)
        return sum_(I, k, lambda j: ite(boolx(eqn(p.get(j), s)), 1, 0))

    def invariant(self, I, st):
        a = content(I, st.var('a'))
        return [('counts', ALL(a.shape[0], lambda s: eqn(a.get(s), self.count(I, s, st.k)))),
                ('one entry per state', eqn(a.shape[0], F(I, self.b, 'n_states'))),
                ('total', eqn(sum_(I, a.shape[0], lambda s: a.get(s)), real(st.k)))]

    def post(self, I, a, old, r):
        R = content(I, r)
        n = particles(I, a[0]).n
        return [('one entry per state', eqn(R.shape[0], F(I, a[0], 'n_states'))),
                ('relative frequency', ALL(R.shape[0], lambda s: eqn(mul(R.get(s), real(n)), real(self.count(I, s, n)))))]


CONTRACTS = [Trials(), Populate(), Init(), Sample(), Successor(), Histogram()]
LEVEL = 'proof'
NOTE = ('trials of the successor sampler, population of a belief (with repetition when the sampler gives out), drawing, '
        'histogram; for any sampler, simulator and number of particles')
TRUSTED = ['the simulator and the parent belief are arbitrary objects that log their calls (C03 covers the real simulator)']
ASSUMPTIONS = ['the number of requested particles is not negative', 'termination of the trials follows from the count']
LEMMAS = ['Sums.lean']
