"""C22  Episodes are recorded and scored faithfully; horizons count down."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *
from pyvc.builtins_ import num_op

EV = 'task_models.evaluation:'
POMCP = 'task_models.lib.pomcp:'
SUP = 'task_models.supportive:'
FINAL = z3.Function('final_state', z3.IntSort(), z3.BoolSort())
HTM = z3.Function('htm_step', z3.IntSort(), z3.IntSort())
NEXT, OBS = [z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('outcome_state', 'outcome_obs')]
REW = z3.Function('outcome_reward', z3.IntSort(), z3.RealSort())
CHOICE = z3.Function('policy_choice', z3.IntSort(), z3.IntSort())
ENTRY = TTup(TInt, TInt, TInt, TInt, TReal)


def world(I):
    """Any simulator and any policy.  The k-th transition of the simulator gives the arbitrary
    outcome (NEXT(k), OBS(k), REW(k)) and is logged with its arguments; the k-th choice of the
    policy is arbitrary, and what the policy is told is logged."""
    E = I.E

    def sample(I, m, args, kw):
        k = seq(I, F(I, m, 'log')).n
        n = content(I, F(I, m, 'observations')).n
        E.assume([0 <= OBS(intx(k)), OBS(intx(k)) < intx(n)])
        e = (args[0], args[1], NEXT(intx(k)), OBS(intx(k)), REW(intx(k)))
        I.call(I.getattr(F(I, m, 'log'), 'append'), [e], {})
        I.setattr(m, 'n_simulator_calls', add(F(I, m, 'n_simulator_calls'), 1))
        return e[2:]

    def start(I, m, args, kw):
        return F(I, m, 'start_state')

    def state(I, m, args, kw):
        return I.alloc('State', {'s': args[0]}) if False else RefV('St', args[0])

    I.refclasses['St'] = RefClass('St', {}, methods={'is_final': lambda I, o, args, kw: FINAL(intx(o.id))},
                                  attrs={'htm': lambda I, o: HTM(intx(o.id))})
    I.refclasses['Model'] = RefClass('Model', {
        'actions': TList(TStr), 'observations': TList(TStr), 'discount': TReal, 'n_simulator_calls': TInt,
        'log': TList(ENTRY), 'start_state': TInt}, methods={
            'sample_transition': sample, 'sample_start': start, '_int_to_state': state})

    def reset(I, p, args, kw):
        I.setattr(p, 'resets', add(F(I, p, 'resets'), 1))
        I.setattr(p, 'chosen', I.new_list(Seq(0, lambda k: 0)))
        I.setattr(p, 'told', I.new_list(Seq(0, lambda k: 'x')))
        return None

    def act(I, p, args, kw):
        k = content(I, F(I, p, 'chosen')).n
        A = content(I, F(I, F(I, p, 'model'), 'actions'))
        i = CHOICE(intx(k))
        E.assume([0 <= i, i < intx(A.n)])
        I.call(I.getattr(F(I, p, 'chosen'), 'append'), [i], {})
        return A.get(i)

    def step(I, p, args, kw):
        I.call(I.getattr(F(I, p, 'told'), 'append'), [args[0]], {})
        return None

    I.refclasses['Policy'] = RefClass('Policy', {'model': TRef('Model'), 'chosen': TList(TInt), 'told': TList(TStr),
                                                 'resets': TInt},
                                      methods={'reset': reset, 'get_action': act, 'step': step})
    m = RefV('Model', E.fresh_int('model'))
    p = RefV('Policy', E.fresh_int('policy'))
    E.assume(p.id != m.id)
    E.assume(F(I, p, 'model').id == m.id)
    for s, nm in ((content(I, F(I, m, 'actions')), 'ra'), (content(I, F(I, m, 'observations')), 'ro')):
        inv = z3.Function(E.fresh_name(nm), Str, z3.IntSort())
        E.assume(s.n > 0)
        E.assume(ALL(s.n, lambda i: inv(z(s.get(i))) == intx(i)))
    return m, p


class Elapsed(Contract):
    qual = 'task_models.utils.multiprocess:get_process_elapsed_time'
    title = 'get_process_elapsed_time (operating system)'
    trusted = True

    def result(self, I, a, old):
        I.refclasses['Time'] = RefClass('Time', {}, methods={
            'total_seconds': lambda I, o, args, kw: I.E.fresh(TReal, 'seconds')})
        return RefV('Time', I.E.fresh_int('time'))


class Simulate(Contract):
    qual = EV + 'simulate_one_evaluation'
    title = 'simulate_one_evaluation'
    uses = [Elapsed()]
    exhaustive = True

    def configs(self):
        return ['discounted', 'undiscounted']

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        m, p = world(I)
        self.m, self.p = m, p
        log = content(I, F(I, m, 'log'))
        I.E.assume(eqn(log.n, 0))
        h = I.E.fresh_int('max_horizon')
        self.h = h
        return [m, p, h, None, self.cfg == 'discounted']

    def gamma(self, I):
        return F(I, self.m, 'discount') if self.cfg == 'discounted' else z3.RealVal(1)

    def record(self, I, k, hs, ha, ho, hr):
        """The lists record exactly the k transitions so far."""
        m, p = self.m, self.p
        log = content(I, F(I, m, 'log'))
        chosen, told = content(I, F(I, p, 'chosen')), content(I, F(I, p, 'told'))
        O = content(I, F(I, m, 'observations'))
        A = content(I, F(I, m, 'actions'))
        return [
            ('lengths', AND(eqn(hs.n, add(k, 1)), eqn(ha.n, k), eqn(ho.n, k), eqn(hr.n, k))),
            ('one transition per record', AND(eqn(log.n, k), eqn(chosen.n, k), eqn(told.n, k))),
            ('first state', eqn(hs.get(0), F(I, m, 'start_state'))),
            ('recorded transitions', ALL(k, lambda j: AND(
                eqn(log.get(j)[0], ha.get(j)), eqn(log.get(j)[1], hs.get(j)), eqn(log.get(j)[2], hs.get(add(j, 1))),
                eqn(log.get(j)[3], ho.get(j)), eqn(log.get(j)[4], hr.get(j))))),
            ('actions of the policy', ALL(k, lambda j: AND(eqn(ha.get(j), chosen.get(j)), le(0, ha.get(j)),
                                                           lt(ha.get(j), A.n)))),
            ('policy told the observations', ALL(k, lambda j: AND(
                le(0, ho.get(j)), lt(ho.get(j), O.n), I.truth(I.eq(told.get(j), O.get(ho.get(j))))))),
            ('never continues after a final state', ALL([(1, k)], lambda j: NOT(FINAL(intx(hs.get(j)))))),
        ]

    def score(self, I, k, hr):
        g = self.gamma(I)
        return sum_(I, k, lambda j: mul(num_op(I, 'Pow', g, j), hr.get(j)))

    def invariant(self, I, st):
        hs, ha, ho, hr = [content(I, st.var(x)) for x in ('h_s', 'h_a', 'h_o', 'h_r')]
        hz = st.var('horizon')
        k = st.k
        out = self.record(I, k, hs, ha, ho, hr)
        out += [('horizon', eqn(F(I, hz, 'n'), sub(self.h, k))),
                ('horizon sees final states', eqb(F(I, hz, '_is_final'), AND(lt(0, k), FINAL(intx(hs.get(k)))))),
                ('within the maximum', OR(eqn(k, 0), le(k, self.h))),
                ('return', eqn(st.var('full_return'), self.score(I, k, hr))),
                ('calls', eqn(F(I, self.m, 'n_simulator_calls'), add(self.calls0, k)))]
        return out

    def capture(self, I, a):
        self.calls0 = F(I, self.m, 'n_simulator_calls')
        self.resets0 = F(I, self.p, 'resets')

    def writes(self, I, a):
        return [('heap', 'Model', 'log'), ('heap', 'Model', 'n_simulator_calls')] + [
            ('heap', 'Policy', x) for x in ('chosen', 'told', 'resets')]

    def post(self, I, a, old, r):
        g = lambda nm: I.getitem(r, nm)
        hs, ha, ho, hr = [content(I, g(x)) for x in ('states', 'actions', 'observations', 'rewards')]
        k = ha.n
        out = self.record(I, k, hs, ha, ho, hr)
        out += [('stops in time', AND(OR(eqn(k, 0), le(k, self.h)),
                                      OR(le(self.h, k), AND(lt(0, k), FINAL(intx(hs.get(k))))))),
                ('discounted return', eqn(g('return'), self.score(I, k, hr))),
                ('simulator calls', eqn(g('simulator-calls'), k)),
                ('policy reset once', eqn(F(I, self.p, 'resets'), add(self.resets0, 1)))]
        return out


def eqb(x, y):
    return boolx(x) == boolx(y)


# -- horizons -------------------------------------------------------------------------------
NTH = POMCP + 'NTransitionsHorizon'
FIN = EV + 'FinishedOrNTransitionsHorizon'
NHTM = SUP + 'NHTMHorizon'
HORIZONS = [NTH, FIN, NHTM]


def model(I):
    I.refclasses['St'] = RefClass('St', {}, methods={'is_final': lambda I, o, args, kw: FINAL(intx(o.id))},
                                  attrs={'htm': lambda I, o: HTM(intx(o.id))})
    I.refclasses['Model'] = RefClass('Model', {}, methods={'_int_to_state': lambda I, m, a, kw: RefV('St', a[0])})
    return RefV('Model', I.E.fresh_int('model'))


def horizon(I, cls):
    """Any horizon of the class."""
    f = {'n': I.E.fresh_int('n')}
    if cls != NTH:
        f['model'] = model(I)
    if cls == FIN:
        f['_is_final'] = I.E.fresh(TBool, 'seen_final')
    return obj(I, cls, **f)


def reached(I, h, cls):
    return OR(le(F(I, h, 'n'), 0), F(I, h, '_is_final')) if cls == FIN else le(F(I, h, 'n'), 0)


class Horizons(Contract):
    exhaustive = True
    method = None

    def configs(self):
        return HORIZONS

    @property
    def qual(self):
        return '%s.%s' % (getattr(self, 'cfg', None) or NTH, self.method)


class Init(Horizons):
    method = '__init__'
    title = 'Horizon.__init__'

    def args(self, I):
        n = I.E.fresh_int('n')
        return [obj(I, self.cfg)] + ([] if self.cfg == NTH else [model(I)]) + [n]

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, r):
        out = [('n', eqn(F(I, a[0], 'n'), a[-1]))]
        if self.cfg != NTH:
            out.append(('model', eqn(F(I, a[0], 'model').id, a[1].id)))
        if self.cfg == FIN:
            out.append(('no final state seen', NOT(F(I, a[0], '_is_final'))))
        return out


class Reached(Horizons):
    method = 'is_reached'
    title = 'Horizon.is_reached'

    def args(self, I):
        return [horizon(I, self.cfg)]

    def post(self, I, a, old, r):
        return [('reached', eqb(I.truth(r), reached(I, a[0], self.cfg)))]


class Decrement(Horizons):
    method = 'decrement'
    title = 'Horizon.decrement'

    def args(self, I):
        return [horizon(I, self.cfg)] + [I.E.fresh_int(x) for x in ('a', 's', 'new_s', 'o')]

    def capture(self, I, a):
        return F(I, a[0], 'n')

    def writes(self, I, a):
        return [(a[0], 'n')] + ([(a[0], '_is_final')] if self.cfg == FIN else [])

    def post(self, I, a, n, r):
        m = F(I, a[0], 'n')
        s, s2 = intx(a[2]), intx(a[3])
        if self.cfg == NTH:
            return [('one less', eqn(m, sub(n, 1)))]
        if self.cfg == FIN:
            return [('one less', eqn(m, sub(n, 1))), ('final', eqb(F(I, a[0], '_is_final'), FINAL(s2)))]
        return [('final state ends it', IMP(FINAL(s2), eqn(m, 0))),
                ('one less per change of step', IMP(NOT(FINAL(s2)), eqn(
                    m, ite(boolx(HTM(s) == HTM(s2)), n, sub(n, 1)))))]


class Copy(Horizons):
    method = 'copy'
    title = 'Horizon.copy'

    def args(self, I):
        return [horizon(I, self.cfg)]

    def post(self, I, a, old, r):
        h = a[0]
        if not isinstance(r, ObjV) or r.cls is not h.cls:
            return [('same class', False)]
        out = [('same class', True), ('another object', r.loc != h.loc),
               ('n', eqn(F(I, r, 'n'), F(I, h, 'n')))]
        if self.cfg != NTH:
            out.append(('model', eqn(F(I, r, 'model').id, F(I, h, 'model').id)))
        if self.cfg == FIN:
            out.append(('final', eqb(F(I, r, '_is_final'), F(I, h, '_is_final'))))
        return out


class Generator(Horizons):
    """generator(model, n)() gives a fresh horizon of n each time."""
    method = 'generator'
    title = 'Horizon.generator'

    def args(self, I):
        return [model(I), I.E.fresh_int('n')]

    def call(self, I, a):
        g = I.call(I.getattr(I.get_class(self.cfg), 'generator'), list(a), {})
        h1 = I.call(g, [], {})
        # using one of them does not affect the other
        I.call(I.getattr(h1, 'decrement'), [0, 1, 2, 3], {})
        return h1, I.call(g, [], {})

    def post(self, I, a, old, r):
        h1, h = r
        ok = isinstance(h, ObjV) and h.cls is I.get_class(self.cfg)
        return [('class', ok), ('fresh', h1.loc != h.loc), ('n', eqn(F(I, h, 'n'), a[1])),
                ('not reached before n transitions', eqb(
                    I.truth(I.call(I.getattr(h, 'is_reached'), [], {})), le(a[1], 0)))]


CONTRACTS = [Simulate(), Init(), Reached(), Decrement(), Copy(), Generator(), Elapsed()]
LEVEL = 'proof'
NOTE = ('simulate_one_evaluation against an arbitrary simulator and policy (invariant over the whole '
        'episode); the three horizon classes: counting, end condition, copy and generator')
TRUSTED = ['operating-system process times (get_process_elapsed_time)',
           'the simulator and the policy are arbitrary objects that log their calls (C15, C20 cover the real ones)']
ASSUMPTIONS = ['action and observation names are distinct (established by POMDP.__init__, C02; C16)',
               'without a logger; the logger only receives a summary string (run-time contract)']
LEMMAS = ['Sums.lean']
