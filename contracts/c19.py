"""C19  Simulations back up correctly discounted returns."""
from .tree import *
from pyvc.builtins_ import num_op
R_ = z3.RealSort()
B_ = z3.BoolSort()
TREE = MOD + '_SearchTree'
REACHED = z3.Function('horizon_reached', Z, Z, B_)
VALUE = z3.Function('node_value', Z, Z, R_)
NEXT, OBS, START = [z3.Function(x, Z, Z) for x in ('outcome_state', 'outcome_obs', 'sampled_start')]
REW = z3.Function('outcome_reward', Z, R_)
COPY = z3.Function('copied_horizon', Z, Z)
COPYN = z3.Function('copied_horizon_at', Z, Z)
RET = z3.Function('rollout_return', Z, R_)
DEPTH = z3.Function('depth_in_tree', Z, Z)
STEP = TTup(TInt, TInt, TInt, TInt)
TRANS = TTup(TInt, TInt, TInt, TInt, TReal)


class World(object):
    """A tree on any simulator, beliefs and horizons; everything they are asked is logged."""

    def __init__(self, I):
        E = I.E
        self.I = I
        log = self.log = RefV('Log', z3.IntVal(0))
        append = lambda f, x: I.call(I.getattr(F(I, log, f), 'append'), [x], {})
        self.append = append

        def sample_transition(I, m, args, kw):
            k = content(I, F(I, log, 'trans')).n
            append('trans', (args[0], args[1], NEXT(intx(k)), OBS(intx(k)), REW(intx(k))))
            return NEXT(intx(k)), OBS(intx(k)), REW(intx(k))

        def sample(I, b, args, kw):
            k = content(I, F(I, log, 'samples')).n
            append('samples', (b.id, START(intx(k))))
            return START(intx(k))

        def decrement(I, h, args, kw):
            I.call(I.getattr(F(I, h, 'steps'), 'append'), [tuple(args)], {})

        def copy(I, h, args, kw):
            c = self.horizon(I, 'copy')
            E.assume(COPY(c.id) == h.id)
            E.assume(COPYN(c.id) == intx(self.used(h)))
            return c

        def gen(I, g, args, kw):
            h = self.horizon(I, 'horizon')
            E.assume(intx(self.used(h)) == 0)
            append('horizons', h.id)
            return h
        self.n = E.fresh_int('n_actions')
        E.assume(self.n > 0)
        E.ghost['_htop'] = E.fresh_int('HTOP')
        classes(I, sample)
        for c in ('Act', 'Obs'):
            I.refclasses[c].attrs['value'] = lambda I, o: VALUE(intx(o.id), intx(content(I, F(I, log, 'updates')).n))
        I.refclasses['Log'] = RefClass('Log', {'trans': TList(TRANS), 'samples': TList(TTup(TInt, TInt)),
                                               'updates': TList(TTup(TInt, TReal)), 'horizons': TList(TInt),
                                               'rolls': TList(TTup(TInt, TInt, TReal))})
        I.refclasses['Model'] = RefClass('Model', {'discount': TReal}, methods={'sample_transition': sample_transition},
                                         attrs={'n_actions': lambda I, m: self.n})
        I.refclasses['Hor'] = RefClass('Hor', {'steps': TList(STEP)}, methods={
            'is_reached': lambda I, h, args, kw: REACHED(intx(h.id), intx(self.used(h))),
            'decrement': decrement, 'copy': copy})
        I.refclasses['Gen'] = RefClass('Gen', {}, methods={'__call__': gen})
        self.m = RefV('Model', E.fresh_int('model'))
        self.t = obj(I, TREE, model=self.m, rollout_it=E.fresh_int('rollout_it'), exploration=E.fresh(TReal, 'exploration'),
                     relative_explo=E.fresh(TBool, 'relative'), horizon_gen=RefV('Gen', E.fresh_int('gen')),
                     _node_params=I.new_cont('dict', DictC(items=[])), log=I.get_class(MOD + '_null_logger'))

    def horizon(self, I, name, new=True):
        h = RefV('Hor', I.E.fresh_int(name))
        top = I.E.ghost['_htop']
        if new:
            I.E.assume(h.id >= top)
        else:
            I.E.assume(h.id < top)
        return h

    def used(self, h):
        return content(self.I, F(self.I, h, 'steps')).n

    def steps(self, h):
        return content(self.I, F(self.I, h, 'steps'))

    def get(self, f):
        return content(self.I, F(self.I, self.log, f))

    def node(self):
        return ref(self.I, 'Obs', 'node')


def W(I):
    return I.E.ghost['_world']


def world(I):
    w = World(I)
    I.E.ghost['_world'] = w
    return w


def eqt(x, y):
    return AND(*[eqn(a, b) for a, b in zip(x, y)])


def grows(new, old):
    return [('log only grows', le(old.n, new.n)), ('log kept', ALL(old.n, lambda i: eqt(new.get(i), old.get(i))))]


def other_horizons(I, h, old):
    new = I.heap_get('Hor', 'steps')
    g = lambda f, x: f(intx(x)).lv.content
    top = I.E.ghost['_htop0']
    return [('other horizons', FA([Z], lambda x: AND(x < top, x != h.id), lambda x: eqn(g(new, x).n, g(old, x).n))),
            ('other horizons: steps', FA([Z, Z], lambda x, i: AND(x < top, x != h.id, le(0, i), lt(i, g(old, x).n)),
                                         lambda x, i: eqt(g(new, x).get(i), g(old, x).get(i))))]


class Logs(object):
    def __init__(self, I, h=None):
        w = W(I)
        I.E.ghost['_htop0'] = I.E.ghost['_htop']
        for f in ('trans', 'samples', 'updates', 'rolls'):
            setattr(self, f, w.get(f))
        self.hor = I.heap_get('Hor', 'steps')
        if h is not None:
            self.steps = w.steps(h)


class OneRollout(Contract):
    """Random actions until the horizon is reached; the discounted sum of the rewards."""
    qual = TREE + '._one_rollout_from_node'
    title = '_SearchTree._one_rollout_from_node'

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        self.w = w = world(I)
        self.s, self.h = I.E.fresh_int('state'), w.horizon(I, 'horizon', False)
        return [w.t, self.s, self.h]

    def capture(self, I, a):
        return Logs(I, a[2])

    def call(self, I, a):
        self.old = self.capture(I, a)
        return Contract.call(self, I, a)

    def writes(self, I, a):
        return [('heap', 'Log', 'trans'), ('heap', 'Hor', 'steps')]

    def modifies(self, I, a):
        w = W(I)
        I.setattr(w.log, 'trans', lst(I, I.E.fresh_name('trans'), TRANS))
        I.setattr(a[2], 'steps', lst(I, I.E.fresh_name('steps'), STEP))

    def result(self, I, a, old):
        return I.E.fresh(TReal, 'rollout_return')

    def chain(self, I, old, s, h, k):
        w = W(I)
        t, st = w.get('trans'), w.steps(h)
        m0, h0 = old.trans.n, old.steps.n
        T = lambda i: t.get(add(m0, i))
        return grows(t, old.trans) + grows(st, old.steps) + [
            ('transitions', eqn(t.n, add(m0, k))), ('horizon consumed once per transition', eqn(st.n, add(h0, k))),
            ('consumed by the transition', ALL(k, lambda i: eqt(st.get(add(h0, i)), T(i)[:4]))),
            ('first state', IMP(lt(0, k), eqn(T(0)[1], s))),
            ('next states', ALL([(1, k)], lambda i: eqn(T(i)[1], T(sub(i, 1))[2]))),
            ('actions', ALL(k, lambda i: AND(le(0, T(i)[0]), lt(T(i)[0], w.n)))),
            ('the horizon was not reached before', ALL(k, lambda i: NOT(REACHED(intx(h.id), intx(add(h0, i))))))]

    def score(self, I, old, k):
        w = W(I)
        t = w.get('trans')
        d = F(I, w.m, 'discount')
        return sum_(I, k, lambda i: mul(num_op(I, 'Pow', d, i), t.get(add(old.trans.n, i))[4]))

    def invariant(self, I, st):
        k = add(st.k, st.done)
        t = self.w.get('trans')
        d = F(I, self.w.m, 'discount')
        kk = z3.simplify(intx(k))
        cur = self.s if z3.is_int_value(kk) and kk.as_long() == 0 else ite(boolx(eqn(k, 0)), self.s, t.get(sub(t.n, 1))[2])
        return self.chain(I, self.old, self.s, self.h, k) + [
            ('current state', eqn(st.var('state'), cur)),
            ('weight', eqn(st.var('gamma'), num_op(I, 'Pow', d, k))),
            ('discounted sum', eqn(st.var('full_return'), self.score(I, self.old, k)))
        ] + other_horizons(I, self.h, self.old.hor)

    def post(self, I, a, old, r):
        w = W(I)
        k = sub(w.used(a[2]), old.steps.n)
        return self.chain(I, old, a[1], a[2], k) + [
            ('until the horizon is reached', REACHED(intx(a[2].id), intx(w.used(a[2])))),
            ('discounted sum', eqn(r, self.score(I, old, k)))] + other_horizons(I, a[2], old.hor)




class OneRollout_(OneRollout):
    """As seen by callers; the call is logged with its return (the k-th one is called RET(k))."""

    def result(self, I, a, old):
        return RET(intx(old.rolls.n))

    def setup(self, I):
        pass

    def post(self, I, a, old, r):
        w = W(I)
        w.append('rolls', (a[1], a[2].id, r))
        return OneRollout.post(self, I, a, old, r)

    def modifies(self, I, a):
        OneRollout.modifies(self, I, a)


class Update(Contract):
    """One visit with the given return (the arithmetic is C17)."""
    qual = MOD + '_SearchNode.update'
    title = '_SearchNode.update'

    def apply(self, I, f, args, kw):
        a = self.bind(I, f, args, kw)
        o = I.resolve(a[0])
        o = I.ref_of_obj(o) if isinstance(o, ObjV) else o
        W(I).append('updates', (o.id, a[1]))


class RollOut(Contract):
    """The mean of the configured number of rollouts, each from a state sampled from the node's
    belief on a copy of the horizon, recorded as one visit; nothing when the horizon is reached."""
    qual = TREE + '.rollout_from_node'
    title = '_SearchTree.rollout_from_node'
    uses = [OneRollout_(), Update()]
    budget = 200.

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        w = self.w = world(I)
        self.h, self.node = w.horizon(I, 'horizon', False), w.node()
        return [w.t, self.node, self.h]

    def pre(self, I, a):
        return [('some rollouts', lt(0, F(I, a[0], 'rollout_it')))]

    def capture(self, I, a):
        return Logs(I, a[2])

    def call(self, I, a):
        self.old = self.capture(I, a)
        return Contract.call(self, I, a)

    def writes(self, I, a):
        return [('heap', 'Log', f) for f in ('trans', 'samples', 'updates', 'rolls')] + [('heap', 'Hor', 'steps')]

    def modifies(self, I, a):
        w = W(I)
        for f, ty in (('trans', TRANS), ('samples', TTup(TInt, TInt)), ('updates', TTup(TInt, TReal)),
                      ('rolls', TTup(TInt, TInt, TReal))):
            I.setattr(w.log, f, lst(I, I.E.fresh_name(f), ty))

    def result(self, I, a, old):
        return I.E.fresh(TReal, 'rollout')

    def rollouts(self, I, old, node, h, k):
        w = W(I)
        s, t, u, rl = [w.get(x) for x in ('samples', 'trans', 'updates', 'rolls')]
        so, ro = old.samples.n, old.rolls.n
        st = w.steps(h)
        b = F(I, node, 'belief').id
        return grows(t, old.trans) + grows(s, old.samples) + grows(u, old.updates) + grows(rl, old.rolls) + [
            ('rollouts', AND(eqn(s.n, add(so, k)), eqn(rl.n, add(ro, k)))),
            ('states sampled from the belief', ALL(k, lambda i: AND(
                eqn(rl.get(add(ro, i))[2], RET(intx(add(ro, i)))), eqn(s.get(add(so, i))[0], b), eqn(rl.get(add(ro, i))[0], s.get(add(so, i))[1])))),
            ('on copies of the horizon', ALL(k, lambda i: AND(
                COPY(intx(rl.get(add(ro, i))[1])) == h.id, eqn(COPYN(intx(rl.get(add(ro, i))[1])), old.steps.n)))),
            ('the horizon is not consumed', eqn(st.n, old.steps.n)),
            ('the horizon is not consumed: steps', ALL(old.steps.n, lambda i: eqt(st.get(i), old.steps.get(i)))),
        ]

    def total(self, I, old, k):
        rl = W(I).get('rolls')
        return sum_(I, k, lambda i: RET(intx(add(old.rolls.n, i))))

    def invariant(self, I, st):
        k = st.k
        return self.rollouts(I, self.old, self.node, self.h, k) + [
            ('sum of the returns', eqn(st.var('returns'), self.total(I, self.old, k))),
            ('no update yet', eqn(W(I).get('updates').n, self.old.updates.n))]

    def post(self, I, a, old, r):
        w = W(I)
        u = w.get('updates')
        done = REACHED(intx(a[2].id), intx(old.steps.n))
        k = ite(done, 0, F(I, a[0], 'rollout_it'))
        out = self.rollouts(I, old, a[1], a[2], k)
        return out + [
            ('nothing when the horizon is reached', IMP(done, AND(eqn(r, 0), eqn(u.n, old.updates.n)))),
            ('one visit with the return', IMP(NOT(done), AND(eqn(u.n, add(old.updates.n, 1)),
                                                             eqn(u.get(old.updates.n)[0], a[1].id),
                                                             eqn(u.get(old.updates.n)[1], r)))),
            ('mean of the rollouts', IMP(NOT(done), eqn(mul(r, real(F(I, a[0], 'rollout_it'))), self.total(I, old, k))))]




class RollOut_(RollOut):
    """As seen by callers; the call is logged."""

    def setup(self, I):
        pass

    def post(self, I, a, old, r):
        o = I.resolve(a[1])
        a = [a[0], I.ref_of_obj(o) if isinstance(o, ObjV) else o, a[2]]
        I.E.ghost['_partial'] = I.E.ghost.get('_partial', ()) + (('rollout', a[1].id, None, a[2].id, r),)
        return RollOut.post(self, I, a, old, r) + other_horizons(I, a[2], old.hor)

    def capture(self, I, a):
        o = I.resolve(a[1])
        if isinstance(o, ObjV):
            I.ref_of_obj(o)
        return Logs(I, a[2])


class Best(Contract):
    """Some valid action, the node does not change (C18)."""
    qual = MOD + '_SearchObservationNode.get_best_action'
    title = '_SearchObservationNode.get_best_action'

    def apply(self, I, f, args, kw):
        a = self.bind(I, f, args, kw)
        b = I.E.fresh_int('best')
        I.E.assume(AND(le(0, b), lt(b, W(I).n)))
        I.E.ghost['_best'] = I.E.ghost.get('_best', ()) + ((a[0].id, a[1], a[2], b),)
        return b


def levels(I):
    h = Heap(I)
    top = I.E.ghost['_top'] + I.E.ghost['_new']
    n = W(I).n
    return [('depth of action nodes', FA([Z, Z], lambda o, a: AND(o < top, KIND(o) == 0, le(0, a), lt(a, n), NOT(h.act(o, a).none)),
                                         lambda o, a: DEPTH(h.act(o, a).val.id) == DEPTH(o) + 1)),
            ('depth of observation nodes', FA([Z, Z], lambda c, o: AND(c < top, KIND(c) == 1, h.has(c, o)),
                                              lambda c, o: DEPTH(h.obs(c, o).id) == DEPTH(c) + 1))]


def kept(I, old, top, n):
    new = Heap(I)
    return [
        ('action nodes kept', FA([Z, Z], lambda o, a: AND(o < top, KIND(o) == 0, le(0, a), lt(a, n), NOT(old.act(o, a).none)),
                                 lambda o, a: AND(NOT(new.act(o, a).none), new.act(o, a).val.id == old.act(o, a).val.id))),
        ('observation nodes kept', FA([Z, Z], lambda c, o: AND(c < top, KIND(c) == 1, old.has(c, o)),
                                      lambda c, o: AND(new.has(c, o), new.obs(c, o).id == old.obs(c, o).id))),
        ('beliefs kept', FA([Z], lambda o: AND(o < top, KIND(o) == 0), lambda o: new.belief(o) == old.belief(o)))]


class Simulation(Contract):
    """One simulated transition, the horizon consumed once for it, then the remainder from the node
    reached; the return is recorded in the node and in the child of the action, nowhere else
    among the node and its children."""
    qual = TREE + '._simulate_from_node'
    title = '_SearchTree._simulate_from_node'
    uses = [RollOut_(), Best(), Update()]
    exhaustive = True
    budget = 300.

    def configs(self):
        return ['best action', 'given action']

    def setup(self, I):
        I.contracts[self.qual] = self

    def args(self, I):
        w = world(I)
        a = [w.t, w.node(), I.E.fresh_int('state'), w.horizon(I, 'horizon', False)]
        return a + ([I.E.fresh_int('a')] if self.cfg == 'given action' else [None])

    def pre(self, I, a):
        w = W(I)
        top = I.E.ghost['_top'] + I.E.ghost['_new']
        return well_formed(I, w.n, top) + levels(I) + [
            ('a node of the tree', AND(a[1].id < top, KIND(a[1].id) == 0)), ('some rollouts', lt(0, F(I, a[0], 'rollout_it'))),
            ('a valid action', a[4] is None or AND(le(0, a[4]), lt(a[4], w.n)))]

    def capture(self, I, a):
        x = Logs(I, a[3])
        x.tree = Heap(I)
        x.top = I.E.ghost['_top'] + I.E.ghost['_new']
        x.value = VALUE(intx(a[1].id), intx(x.updates.n))
        x.depth = len(I.E.ghost.get('_partial', ()))
        return x

    def writes(self, I, a):
        return [('heap', 'Log', f) for f in ('trans', 'samples', 'updates', 'rolls')] + [('heap', 'Hor', 'steps')] + [
            ('heap', c, f) for c, f in TREE_FIELDS]

    def modifies(self, I, a):
        w = W(I)
        E = I.E
        for f, ty in (('trans', TRANS), ('samples', TTup(TInt, TInt)), ('updates', TTup(TInt, TReal)),
                      ('rolls', TTup(TInt, TInt, TReal))):
            I.setattr(w.log, f, lst(I, E.fresh_name(f), ty))
        I.heap_havoc('Hor', 'steps')
        for c, f in TREE_FIELDS:
            I.heap_havoc(c, f)
        top = E.fresh_int('TOP')
        E.assume(top >= E.ghost['_top'] + E.ghost['_new'])
        E.ghost['_top'], E.ghost['_new'] = top, 0

    def result(self, I, a, old):
        r = I.E.fresh(TReal, 'full_return')
        I.E.ghost['_partial'] = I.E.ghost.get('_partial', ()) + (('search', a[1].id, a[2], a[3].id, r, a[4]),)
        return r

    def post(self, I, a, old, r):
        w = W(I)
        E = I.E
        node, state, h = a[1], a[2], a[3]
        t, u, st = w.get('trans'), w.get('updates'), w.steps(h)
        m0, u0, h0 = old.trans.n, old.updates.n, old.steps.n
        out = grows(t, old.trans) + grows(u, old.updates) + grows(st, old.steps) + grows(w.get('samples'), old.samples)
        done = REACHED(intx(h.id), intx(h0))
        new = Heap(I)
        T = t.get(m0)
        act, o = T[0], T[3]
        c = new.act(node.id, act)
        ci = c.val.id
        had = AND(NOT(old.tree.act(node.id, act).none), old.tree.has(old.tree.act(node.id, act).val.id, o))
        if self.verifying(I):
            # depth of the nodes created here
            E.assume(OR(done, ci < old.top, DEPTH(ci) == DEPTH(node.id) + 1))
            E.assume(OR(done, had, new.obs(ci, o).id < old.top, DEPTH(new.obs(ci, o).id) == DEPTH(node.id) + 2))
            out += self.remainder(I, a, old, r, done, had, T)
        x = E.fresh_int
        out += [
            ('value of the node when the horizon is reached', IMP(done, AND(
                eqn(r, old.value), eqn(u.n, u0), eqn(t.n, m0), eqn(st.n, h0)))),
            ('a transition', IMP(NOT(done), AND(lt(m0, t.n), lt(h0, st.n)))),
            ('from the state', IMP(NOT(done), AND(eqn(T[1], state), le(0, act), lt(act, w.n)))),
            ('the given action', True if a[4] is None else IMP(NOT(done), eqn(act, a[4]))),
            ('horizon consumed once per transition', le(sub(st.n, h0), sub(t.n, m0))),
            ('horizon consumed by the transition', ALL([(h0, st.n)], lambda i: eqt(st.get(i), t.get(add(m0, sub(i, h0)))[:4]))),
            ('child of the action', IMP(NOT(done), NOT(c.none))),
            ('return recorded', IMP(NOT(done), AND(
                le(add(u0, 2), u.n), eqn(u.get(sub(u.n, 1))[0], node.id), eqn(u.get(sub(u.n, 1))[1], r),
                eqn(u.get(sub(u.n, 2))[0], ci), eqn(u.get(sub(u.n, 2))[1], r)))),
            ('recorded nowhere else in the node and its children', ALL(sub(sub(u.n, 2), u0), lambda i: AND(
                NOT(eqn(u.get(add(u0, i))[0], ci)),
                OR(u.get(add(u0, i))[0] >= old.top, DEPTH(intx(u.get(add(u0, i))[0])) >= DEPTH(node.id) + 2)))),
            ('belief of a new node', OR(done, had, NOT(new.has(ci, o)), new.belief(new.obs(ci, o).id) == SUCC(
                old.tree.belief(node.id), intx(act), intx(o)))),
        ]
        top = E.ghost['_top'] + E.ghost['_new']
        return out + kept(I, old.tree, old.top, w.n) + other_horizons(I, h, old.hor) + [
            ('well formed: ' + n, g) for n, g in well_formed(I, w.n, top) + levels(I)]

    def verifying(self, I):
        return not getattr(self, 'applied', False)

    def apply(self, I, f, args, kw):
        self.applied = True
        try:
            return Contract.apply(self, I, f, args, kw)
        finally:
            self.applied = False

    def remainder(self, I, a, old, r, done, had, T):
        """Reward plus discounted return of the remainder."""
        w = W(I)
        calls = I.E.ghost.get('_partial', ())[old.depth:]
        best = I.E.ghost.get('_best', ())
        new = Heap(I)
        g = F(I, w.m, 'discount')
        ci = new.act(a[1].id, T[0]).val.id
        full = lambda p: eqn(r, add(real(T[4]), mul(g, p)))
        out = []
        if best:
            b = best[0]
            out += [('the best action of the node', AND(b[0] == a[1].id, eqn(b[3], T[0]), len(best) == 1, a[4] is None)),
                    ('under the exploration of the tree', AND(eqn(b[1], F(I, a[0], 'exploration')),
                                                             boolx(b[2]) == boolx(F(I, a[0], 'relative_explo'))))]
        if not calls:
            return out + [('reward only when no belief can be sampled', OR(done, AND(NOT(had), full(0.)))),
                          ('nothing created then', OR(done, had, NOT(new.has(ci, T[3]))))]
        if len(calls) != 1:
            return [('one remainder', False)]
        c = calls[0]
        out += [('reward plus discounted remainder', AND(NOT(done), full(c[4]))),
                ('remainder from the node reached', AND(new.has(ci, T[3]), eqn(c[1], new.obs(ci, T[3]).id))),
                ('remainder on the same horizon', c[3] == a[3].id)]
        if c[0] == 'search':
            return out + [('search continues in known nodes', had), ('from the state reached', eqn(c[2], T[2])),
                          ('with its best action', c[5] is None)]
        return out + [('rollout from new nodes', NOT(had))]


TREE_FIELDS = [('Obs', 'children'), ('Act', 'children'), ('Obs', 'belief'), ('Obs', '_avg'), ('Act', '_avg'),
               ('Avg', 'n_simulations'), ('Avg', 'total_value'), ('Avg', 'alpha'), ('Obs', '_children_alpha')]


class Simulation_(Simulation):
    """As seen by callers; the call is logged."""

    def setup(self, I):
        pass

    def verifying(self, I):
        return False


class FromNode(Contract):
    """One simulation from a state sampled from the node's belief over a new horizon."""
    qual = TREE + '.simulate_from_node'
    title = '_SearchTree.simulate_from_node'
    uses = [Simulation_()]
    exhaustive = True

    def configs(self):
        return ['best action', 'given action']

    def args(self, I):
        w = world(I)
        return [w.t, w.node()] + ([I.E.fresh_int('a')] if self.cfg == 'given action' else [])

    def pre(self, I, a):
        w = W(I)
        top = I.E.ghost['_top'] + I.E.ghost['_new']
        return well_formed(I, w.n, top) + levels(I) + [
            ('a node of the tree', AND(a[1].id < top, KIND(a[1].id) == 0)), ('some rollouts', lt(0, F(I, a[0], 'rollout_it'))),
            ('a valid action', len(a) == 2 or AND(le(0, a[2]), lt(a[2], w.n)))]

    def capture(self, I, a):
        w = W(I)
        x = Logs(I)
        x.horizons = w.get('horizons')
        x.belief = F(I, a[1], 'belief').id
        return x

    def writes(self, I, a):
        return [('heap', 'Log', f) for f in ('trans', 'samples', 'updates', 'rolls', 'horizons')] + [
            ('heap', 'Hor', 'steps')] + [('heap', c, f) for c, f in TREE_FIELDS]

    def post(self, I, a, old, r):
        w = W(I)
        calls = I.E.ghost.get('_partial', ())
        if len(calls) != 1:
            return [('one simulation', False)]
        _, node, state, h, ret, act = calls[0]
        hs, s, t, u = w.get('horizons'), w.get('samples'), w.get('trans'), w.get('updates')
        done = REACHED(intx(h), z3.IntVal(0))
        return [('a new horizon', AND(eqn(hs.n, add(old.horizons.n, 1)), eqn(hs.get(old.horizons.n), h))),
                ('from the node', node == a[1].id),
                ('a state sampled from its belief', AND(lt(old.samples.n, s.n), eqn(s.get(old.samples.n)[0], old.belief),
                                                        eqn(s.get(old.samples.n)[1], state))),
                ('the given action', act is None if len(a) == 2 else (act is not None and eqn(act, a[2]))),
                ('first transition', IMP(NOT(done), AND(lt(old.trans.n, t.n), eqn(t.get(old.trans.n)[1], state)))),
                ('one return recorded in the node', IMP(NOT(done), AND(
                    eqn(u.get(sub(u.n, 1))[0], a[1].id), eqn(u.get(sub(u.n, 1))[1], ret))))]


CONTRACTS = [OneRollout(), RollOut(), Simulation(), FromNode()]
LEVEL = 'proof'
NOTE = ('rollouts, the recursive simulation (through its own contract) and simulate_from_node for any well-formed tree, '
        'simulator, beliefs and horizons; the shape of the tree (slots, links, depths) is kept by every simulation')
TRUSTED = ['simulator, beliefs and horizons are arbitrary objects that log what they are asked (C01, C03, C21, C22 cover the '
           'real ones)']
ASSUMPTIONS = ['a tree without shared nodes (belief_values=False); with shared nodes only the run-time contract applies',
               'termination follows from the horizon', 'one rollout at least per new node']
LEMMAS = ['Sums.lean']
