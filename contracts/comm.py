"""Transition, observation and cost models of task trees (turn-taking)."""
from .htm import *

MOD = 'task_models.task_to_pomdp:'
# Of a state of the model (absolute index), in the task as laid out from s_start on:
BASE = z3.Function('first_state_of_its_step', Z, Z)
FOLLOWS = z3.Function('follows_its_step', Z, Z, B_)
ASIZE = z3.Function('number_of_actions', Z, Z)
ANAME = z3.Function('name_of_action', Z, Z, Str)
DUR = z3.Function('duration_of_action', Z, Z, R_)
# Of an action of the model.
ABASE, ASTEP = z3.Function('first_action_of_its_step', Z, Z), z3.Function('first_state_of_the_step_of', Z, Z)
AFOLLOWS = z3.Function('follows_the_step_of', Z, Z, B_)
# Of a state: first action and robot duration of its step.
ACT, ROB = z3.Function('first_action_of_the_step_of', Z, Z), z3.Function('robot_duration', Z, R_)
DET, STRUCT, SUBT = z3.Bools('deterministic structured subtask_reward')
TELL, SUB = z3.Reals('t_tell subtask_reward_value')
FLAGS = ('deterministic', 'structured', 'loop', 'reward_state', 'subtask_reward')


def flag_set(I, fl):
    return I.new_cont('set', SetC(lambda x: OR(*[I.truth(I.eq(y, x)) for y in fl]), list(fl)))


def node_attrs():
    fl = lambda n, f: ContV('list', Frozen(Seq(n, f)))
    return {'actions': lambda I, o: fl(ASIZE(intx(o.id)), lambda i, v=intx(o.id): ANAME(v, intx(i))),
            'durations': lambda I, o: fl(ASIZE(intx(o.id)), lambda i, v=intx(o.id): DUR(v, intx(i)))}


def aoffsets(cs):
    off = [z3.IntVal(0)]
    for c in cs:
        off.append(off[-1] + ASIZE(c))
    return off


def step(I, flags, acts=4):
    """A translated step with its action."""
    E = I.E
    d = [E.fresh(TReal, x) for x in ('t_hum', 't_rob', 't_err')]
    p = [E.fresh(TReal, x) for x in ('no_proba', 'fail_proba')]
    t = [E.fresh(TReal, x) for x in ('t_ask', 't_tell', 'subtask_reward')]
    act = obj(I, MOD + 'CollaborativeAction', durations=tuple(d), h_proba=None, no_proba=p[0], fail_proba=p[1])
    leaf = obj(I, 'task_models.task:LeafCombination', action=act)
    for x in p:
        E.assume(AND(0 <= real(x), real(x) <= 1))
    E.assume(real(d[0]) > 0)
    return obj(I, MOD + '_LeafToPOMDP', leaf=leaf, flags=flag_set(I, flags), t_ask=t[0], t_tell=t[1],
               subtask_reward=t[2] if 'subtask_reward' in flags else None), d, p, t


def combination8(I, kind, cs):
    from pyvc import nplib
    o = combination(I, MOD, kind, cs)
    off, n = aoffsets(cs), len(cs)

    def at(k):
        if isinstance(k, int):
            return off[k]
        r = off[n - 1]
        for i in range(n - 2, -1, -1):
            r = z3.If(k == i, off[i], r)
        return r
    I.E.store[I.resolve(o).loc] = dict(I.E.store[I.resolve(o).loc], a_indices=nplib.newarr(I, NArr((n,), at, 'i')))
    return o


class Node(Contract):
    """Filling of the rows of a node, for any node; for a combination from the contract at its children."""
    fn = ''
    bound_text = Init.bound_text
    timeout_ms = 15000
    leaf_flags = [()]

    def __init__(self, kind):
        self.kind = kind
        if kind is None:
            return
        self.qual = MOD + ('_LeafToPOMDP', '_SequenceToPOMDP', '_AlternativesToPOMDP')[kind] + '.' + self.fn
        self.title = self.qual.split(':')[1]
        self.exhaustive = kind == LEAF

    def configs(self):
        return [(0, f) for f in self.leaf_flags] if self.kind == LEAF else [(n, ()) for n in (1, 2, 3)]

    def setup(self, I):
        node_class(I, methods={self.fn: Child(self)}, attrs=node_attrs())

    def this(self, I):
        E = I.E
        self.v = v = E.fresh_int('node')
        self.s, self.a0 = E.fresh_int('s_start'), E.fresh_int('a_start')
        self.na, self.ns = E.fresh_int('actions'), E.fresh_int('states')
        n, fl = self.cfg
        self.flags = fl
        if self.kind == LEAF:
            E.assume(AND(SIZE(v) == 3, ASIZE(v) == 4))
            self.cs = []
            o, self.d, self.p, self.t = step(I, fl)
            self.at_leaf(I)
            return o
        self.cs = cs = [E.fresh_int('child') for _ in range(n)]
        self.off, self.aoff = offsets(cs), aoffsets(cs)
        E.assume(AND(SIZE(v) == self.off[n], ASIZE(v) == self.aoff[n]))
        for c in cs:
            child_facts(I, c)
            E.assume(ASIZE(c) >= 1)
        return combination8(I, self.kind, cs)

    def at_leaf(self, I):
        E, s, a0 = I.E, self.s, self.a0
        fl = self.flags
        E.assume(AND(DET == ('deterministic' in fl), STRUCT == ('structured' in fl), SUBT == ('subtask_reward' in fl)))
        E.assume(AND(TELL == real(self.t[1]), SUB == real(self.t[2])))
        E.assume(FA([Z], lambda r: AND(s <= r, r < s + 3), lambda r: AND(ACT(r) == a0, ROB(r) == real(self.d[1])), lambda r: [[ACT(r)], [ROB(r)]]))
        E.assume(FA([Z], lambda a: AND(a0 <= a, a < a0 + 4), lambda a: AND(ABASE(a) == a0, ASTEP(a) == s), lambda a: [[ABASE(a)], [ASTEP(a)]]))
        I.E.assume(FA([Z], lambda r: AND(self.s <= r, r < self.s + 3), lambda r: BASE(r) == self.s, lambda r: [BASE(r)]))

    def node(self, I, a):
        o = I.resolve(a[0])
        return intx(o.id) if isinstance(o, RefV) else self.v

    def expected(self, a):
        """Which states follow: those given, or the first of the next element of a sequence."""
        if self.me is a[0] or not isinstance(a[0], RefV):
            return self.nextp
        m = self.index(a)
        if self.kind == SEQ and m + 1 < len(self.cs):
            return lambda t: ISINIT(self.cs[m + 1], t - self.s - self.off[m + 1])
        return self.nextp

    def index(self, a):
        return [i for i, c in enumerate(self.cs) if c.eq(intx(a[0].id))][0]

    def nexts(self, I, a, nx):
        if not isinstance(I.resolve(a[0]), RefV):
            return []
        return [('the next states are the first of what follows', FA([Z], lambda t: True, lambda t: member(nx, t) == self.expected(a)(t)))]

    def writes(self, I, a):
        return [a[1]]


class Moves(Node):
    """Transitions from the states of the node."""
    fn = 'update_T'
    leaf_flags = [(), ('deterministic',)]

    def args(self, I):
        E = I.E
        o = self.me = self.this(I)
        s = self.s
        x = arr(I, E.fresh_name('T'), (self.na, self.ns, self.ns))
        if self.kind == LEAF:
            c = I.read(I.resolve(x).lv)
            I.write(I.resolve(x).lv, NArr(c.shape, lambda a, r, t: z3.If(AND(s <= intx(r), intx(r) < s + 3), z3.RealVal(0), real(c.get(a, r, t))), 'r'))
        else:
            f = z3.Function(E.fresh_name('row_sum'), Z, Z, R_)
            E.ghost['mass'] = lambda a, r: f(a, r)
        nx, px, du = lst(I, E.fresh_name('s_next'), TInt), lst(I, E.fresh_name('s_next_probas'), TReal), lst(I, E.fresh_name('durations'), TReal)
        self.nextp = named_member(I, content(I, nx))
        if self.kind == LEAF:
            E.assume(FA([Z, Z], lambda r, t: AND(s <= r, r < s + 3), lambda r, t: FOLLOWS(r, t) == self.nextp(t), lambda r, t: [FOLLOWS(r, t)]))
        return [o, x, E.fresh_int('a_wait'), self.a0, s, nx, px, du]

    def pre(self, I, a):
        v, s, a0 = self.node(I, a), intx(a[4]), intx(a[3])
        sh = I.read(I.resolve(a[1]).lv).shape
        na, ns = intx(sh[0]), intx(sh[1])
        nx, px, du = content(I, a[5]), content(I, a[6]), content(I, a[7])
        T = arrays(I, a[1])
        return [('states of the model', AND(0 <= s, s + SIZE(v) <= ns)), ('actions of the model', AND(0 <= a0, a0 + ASIZE(v) <= na)),
                ('a duration of each action', eqn(du.n, na)), ('durations are not negative', ALL(du.n, lambda i: real(du.get(i)) >= 0)),
                ('nothing filled in so far', FA(A3, lambda a, r, t: AND(0 <= a, a < na, s <= r, r < s + SIZE(v), 0 <= t, t < ns),
                                               lambda a, r, t: T(a, r, t) == 0))] + \
            self.nexts(I, a, nx) + next_ok(I, ns, s, SIZE(v), nx, px)

    def capture(self, I, a):
        return arrays(I, a[1]), I.E.ghost.get('mass')

    def havoc(self, I, a):
        self.filled = havoc(I, a[1], 'T')
        old = I.E.ghost['mass']
        f = z3.Function(I.E.fresh_name('row_sum'), Z, Z, R_)
        v, s = self.node(I, a), intx(a[4])
        I.E.ghost['mass'] = lambda a, r: f(a, r)
        I.E.assume(FA([Z, Z], lambda a, r: AND(0 <= r, NOT(AND(s <= r, r < s + SIZE(v)))), lambda a, r: f(a, r) == old(a, r), lambda a, r: [f(a, r)]))

    def post(self, I, a, old, r):
        v, s = self.node(I, a), intx(a[4])
        sh = I.read(I.resolve(a[1]).lv).shape
        na, ns = intx(sh[0]), intx(sh[1])
        own = lambda r: AND(s <= r, r < s + SIZE(v))
        T0, _ = old
        T = arrays(I, a[1])
        m = mass(I, a[1])
        ix = lambda a, r, t: AND(0 <= a, a < na, 0 <= r, r < ns, 0 <= t, t < ns)
        leaf = self.kind == LEAF and isinstance(I.resolve(a[0]), ObjV)
        act = lambda a: AND(0 <= a, a < na)
        return [('other rows kept', FA(A3, lambda a, r, t: AND(ix(a, r, t), NOT(own(r))), lambda a, r, t: T(a, r, t) == T0(a, r, t))),
                ('not negative', FA(A3, lambda a, r, t: AND(ix(a, r, t), own(r)), lambda a, r, t: T(a, r, t) >= 0)),
                ('stays in the step or enters one that follows', FA(
                    A3, lambda a, r, t: AND(ix(a, r, t), own(r), T(a, r, t) != 0),
                    lambda a, r, t: OR(AND(BASE(r) <= t, t < BASE(r) + 3), FOLLOWS(r, t)))),
                ('rows sum to one', [FA([Z], act, lambda a, k=k: m(a, s + k) == 1) for k in N3(3)]
                 if leaf else FA([Z, Z], lambda a, r: AND(act(a), own(r)), lambda a, r: m(a, r) == 1))]


UNIT = ([1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1])
NONE, YES, NO, ERR = range(4)


def is_obs(O, a, t, w):
    return AND(*[O(a, t, o) == UNIT[w][o] for o in range(4)])


class Answers(Node):
    """Observations of the actions of the node."""
    fn = 'update_O'
    leaf_flags = [(), ('deterministic',), ('structured',), ('deterministic', 'structured')]

    def args(self, I):
        E = I.E
        o = self.me = self.this(I)
        s = self.s
        x = arr(I, E.fresh_name('O'), (self.na, self.ns, 4))
        nx, before, after = [lst(I, E.fresh_name(w), TInt) for w in ('s_next', 's_before', 's_after')]
        self.nextp = named_member(I, content(I, nx))
        if self.kind == LEAF:
            E.assume(FA([Z, Z], lambda a, t: AND(self.a0 <= a, a < self.a0 + 4), lambda a, t: AFOLLOWS(a, t) == self.nextp(t), lambda a, t: [AFOLLOWS(a, t)]))
        return [o, x, self.a0, s, nx, before, after]

    def pre(self, I, a):
        v, s, a0 = self.node(I, a), intx(a[3]), intx(a[2])
        sh = I.read(I.resolve(a[1]).lv).shape
        na, ns = intx(sh[0]), intx(sh[1])
        nx, after = content(I, a[4]), content(I, a[6])
        at = lambda k: intx(after.get(k))
        return [('states of the model', AND(0 <= s, s + SIZE(v) <= ns)), ('actions of the model', AND(0 <= a0, a0 + ASIZE(v) <= na)),
                ('states after it in the model', self.inside(after, ns))] + \
            self.nexts(I, a, nx) + next_ok(I, ns, s, SIZE(v), nx)

    def inside(self, s, ns):
        if 'cat' in s.meta:
            return [f for x in s.meta['cat'] for f in self.inside(x, ns)]
        return [ALL(s.n, lambda k: AND(0 <= intx(s.get(k)), intx(s.get(k)) < ns))]

    def capture(self, I, a):
        return arrays(I, a[1])

    def havoc(self, I, a):
        self.filled = havoc(I, a[1], 'O')

    def post(self, I, a, O0, r):
        v, a0 = self.node(I, a), intx(a[2])
        sh = I.read(I.resolve(a[1]).lv).shape
        na, ns = intx(sh[0]), intx(sh[1])
        own = lambda a: AND(a0 <= a, a < a0 + ASIZE(v))
        return [('other actions kept', self.kept(I, a, O0, own, na, ns))] + \
            self.told(arrays(I, a[1]), lambda a, t: AND(own(a), 0 <= t, t < ns))

    def kept(self, I, a, O0, own, na, ns):
        O = arrays(I, a[1])
        return FA(A3, lambda a, t, o: AND(0 <= a, a < na, 0 <= t, t < ns, 0 <= o, o < 4, NOT(own(a))), lambda a, t, o: O(a, t, o) == O0(a, t, o))

    def told(self, O, rng):
        A2 = [Z, Z]
        kind = lambda a: a - ABASE(a)
        b = ASTEP
        row = lambda name, cond, w: (name, FA(A2, lambda a, t: AND(rng(a, t), cond(a, t)), lambda a, t: is_obs(O, a, t, w)))
        return [row('physical action: no error entering a step that follows', lambda a, t: AND(kind(a) == 0, AFOLLOWS(a, t)), NONE),
                row('physical action: error elsewhere', lambda a, t: AND(kind(a) == 0, NOT(AFOLLOWS(a, t))), ERR),
                row('asking: the human does it', lambda a, t: AND(kind(a) == 1, t == b(a) + 1), YES),
                row('asking: the robot does it', lambda a, t: AND(kind(a) == 1, t == b(a) + 2), NO),
                row('asking: nothing elsewhere', lambda a, t: AND(kind(a) == 1, t != b(a) + 1, t != b(a) + 2, NOT(STRUCT)), NONE),
                row('asking: error elsewhere', lambda a, t: AND(kind(a) == 1, t != b(a) + 1, t != b(a) + 2, STRUCT), ERR),
                row('telling: nothing where it leads', lambda a, t: AND(kind(a) == 2, OR(NOT(STRUCT), t == b(a) + 2)), NONE),
                row('telling: error elsewhere', lambda a, t: AND(kind(a) == 2, STRUCT, t != b(a) + 2), ERR),
                ('asking whether it is finished: one answer', FA(A2, lambda a, t: AND(rng(a, t), kind(a) == 3), lambda a, t: OR(
                    is_obs(O, a, t, YES), is_obs(O, a, t, NO), AND(DET, is_obs(O, a, t, ERR)))))]


class Costs(Node):
    """Costs in the states of the node."""
    fn = 'update_R'
    leaf_flags = [(), ('structured',), ('subtask_reward',), ('structured', 'subtask_reward')]

    def args(self, I):
        E = I.E
        o = self.me = self.this(I)
        self.no = E.fresh_int('observations')
        x = arr(I, E.fresh_name('R'), (self.na, self.ns, self.ns, self.no))
        return [o, x, E.fresh_int('a_wait'), self.a0, self.s, lst(I, E.fresh_name('durations'), TReal), E.fresh(TReal, 'intr_cost')]

    def pre(self, I, a):
        v, s, a0 = self.node(I, a), intx(a[4]), intx(a[3])
        sh = I.read(I.resolve(a[1]).lv).shape
        na, ns = intx(sh[0]), intx(sh[1])
        du = content(I, a[5])
        R = arrays(I, a[1])
        return [('states of the model', AND(0 <= s, s + SIZE(v) <= ns, 1 <= intx(sh[3]))), ('actions of the model', AND(0 <= a0, a0 + ASIZE(v) <= na)),
                ('waiting is an action', AND(0 <= intx(a[2]), intx(a[2]) < na)), ('a duration of each action', eqn(du.n, na))]

    def capture(self, I, a):
        return arrays(I, a[1])

    def havoc(self, I, a):
        self.filled = havoc(I, a[1], 'R')

    @staticmethod
    def cost(dur, wait, intr):
        def f(a, r, t):
            b, k, q = BASE(r), r - BASE(r), ACT(r)
            c = z3.If(AND(a == q, k == 2), ROB(r) + intr, dur(a) + z3.If(a == wait, z3.RealVal(0), intr))
            c = z3.If(AND(STRUCT, a == q + 2), z3.If(AND(k == 0, OR(t == b + 1, t == b + 2)), TELL + intr, z3.RealVal(100)), c)
            return z3.If(AND(SUBT, OR(t < b, t >= b + 3)), c - SUB, c)
        return f

    def post(self, I, a, R0, r):
        v, s = self.node(I, a), intx(a[4])
        sh = I.read(I.resolve(a[1]).lv).shape
        na, ns, no = intx(sh[0]), intx(sh[1]), intx(sh[3])
        own = lambda r: AND(s <= r, r < s + SIZE(v))
        R, du = arrays(I, a[1]), content(I, a[5])
        A4 = [Z] * 4
        ix = lambda a, r, t, o: AND(0 <= a, a < na, 0 <= r, r < ns, 0 <= t, t < ns, 0 <= o, o < no)
        cost = self.cost(lambda x: real(du.get(x)), intx(a[2]), real(a[6]))
        return [('other states kept', FA(A4, lambda a, r, t, o: AND(ix(a, r, t, o), NOT(own(r))), lambda a, r, t, o: R(a, r, t, o) == R0(a, r, t, o))),
                ('costs of its states', FA(A4, lambda a, r, t, o: AND(ix(a, r, t, o), own(r)), lambda a, r, t, o: R(a, r, t, o) == cost(a, r, t)))]


class Layout(Init):
    """States and actions of the children one after the other; the same parameters for all of them."""
    extra = ('a_indices', 'actions')

    def attrs(self):
        return node_attrs()

    def more(self, I):
        E = I.E
        for c in self.cs:
            E.assume(ASIZE(c) >= 1)
        self.par = [E.fresh(TReal, x) for x in ('t_ask', 't_tell', 'subtask_reward')] + [flag_set(I, ['loop'])]
        return self.par

    def setup(self, I):
        Init.setup(self, I)
        self.passed = []
        c = I.contracts[self.mod + '_NodeToPOMDP.from_node']
        make = c.result

        def result(I, a, old):
            self.passed.append([x for x in a if not isinstance(I.resolve(x), RefV)])
            return make(I, a, old)
        c.result = result

    def post(self, I, a, old, r):
        off, n = aoffsets(self.cs), len(self.cs)
        ac = content(I, F(I, a[0], 'actions'))
        ai = I.read(I.resolve(F(I, a[0], 'a_indices')).lv)
        ok = len(self.passed) in (1, n) and all(len(p) == 4 and I.resolve(p[3]) is I.resolve(self.par[3]) for p in self.passed)
        return Init.post(self, I, a, old, r) + [
            ('where their actions start', AND(eqn(ai.shape[0], n), *[eqn(ai.get(i), off[i]) for i in range(n)])),
            ('as many actions', eqn(ac.n, off[n])),
            ('same parameters', AND(ok, *[real(x) == real(y) for p in self.passed for x, y in zip(p[:3], self.par)]))] + [
            ('actions of child %d' % m, ALL(ASIZE(c), lambda i, m=m, c=c: str_term(ac.get(add(off[m], i))) == ANAME(c, intx(i))))
            for m, c in enumerate(self.cs)]


class Times(Contract):
    """Durations of the actions of a combination, in the order of the actions."""
    qual = MOD + '_ParentNodeToPOMDP.durations'
    title = '_ParentNodeToPOMDP.durations'
    bound_text = Init.bound_text

    def configs(self):
        return [1, 2, 3]

    def setup(self, I):
        node_class(I, attrs=node_attrs())

    def args(self, I):
        self.cs = [I.E.fresh_int('child') for _ in range(self.cfg)]
        for c in self.cs:
            child_facts(I, c)
            I.E.assume(ASIZE(c) >= 1)
        return [combination8(I, SEQ, self.cs)]

    def call(self, I, a):
        return I.getattr(a[0], 'durations')

    def post(self, I, a, old, r):
        off = aoffsets(self.cs)
        d = I.E_list(r)
        return [('one per action', eqn(d.n, off[-1]))] + [
            ('actions of child %d' % m, ALL(ASIZE(c), lambda i, m=m, c=c: real(d.get(add(off[m], i))) == DUR(c, intx(i)))) for m, c in enumerate(self.cs)]


class MakeLeaf(Contract):
    """Three states, four actions with their durations."""
    qual = MOD + '_LeafToPOMDP.__init__'
    title = '_LeafToPOMDP.__init__ and durations'

    def setup(self, I):
        I.refclasses['Leaf'] = RefClass('Leaf', {}, attrs={'action': lambda I, o: RefV('Act', intx(o.id))})
        I.refclasses['Act'] = RefClass('Act', {'name': TStr}, attrs={'durations': lambda I, o: tuple(self.d)})

    def args(self, I):
        E = I.E
        self.d = [E.fresh(TReal, x) for x in ('t_hum', 't_rob', 't_err')]
        return [obj(I, self.qual[:-9]), RefV('Leaf', E.fresh_int('leaf')), E.fresh(TReal, 't_ask'), E.fresh(TReal, 't_tell'),
                E.fresh(TReal, 'subtask_reward'), flag_set(I, ['structured'])]

    def writes(self, I, a):
        return [(a[0], x) for x in ('leaf', 't_ask', 't_tell', 'states', 'actions', 'flags', 'subtask_reward')]

    def post(self, I, a, old, r):
        o = a[0]
        st, ac, du, ini, sta = [I.E_list(F(I, o, x)) for x in ('states', 'actions', 'durations', 'init', 'start')]
        return [('three states', eqn(st.n, 3)), ('starts in the first', AND(eqn(ini.n, 1), eqn(ini.get(0), 0), eqn(sta.n, 1), real(sta.get(0)) == 1)),
                ('four actions', AND(eqn(ac.n, 4), eqn(du.n, 4))),
                ('their durations', AND(*[real(x) == real(y) for x, y in zip([du.get(i) for i in range(4)], [self.d[2], a[2], a[3], a[2]])])),
                ('parameters kept', AND(real(F(I, o, 't_ask')) == real(a[2]), real(F(I, o, 't_tell')) == real(a[3]),
                                        real(F(I, o, 'subtask_reward')) == real(a[4]), I.resolve(F(I, o, 'flags')) is I.resolve(a[5]))),
                ('times of its action', AND(*[real(F(I, o, x)) == real(y) for x, y in zip(('t_hum', 't_rob', 't_err'), self.d)]))]


class Kinds(Dispatch):
    extra = ('t_ask', 't_tell', 'subtask_reward')


class Build(Contract):
    """The parameters of the models."""
    qual = MOD + 'HTMToPOMDP.__init__'
    title = 'HTMToPOMDP.__init__'
    exhaustive = True

    def configs(self):
        return list(range(32))

    def args(self, I):
        E = I.E
        self.fl = [bool(self.cfg >> i & 1) for i in range(5)]
        self.x = [E.fresh(TReal, x) for x in ('t_wait', 't_ask', 't_tell', 'intr_cost', 'end_reward')]
        self.sub = E.fresh(TReal, 'subtask_reward') if self.fl[4] else None
        return [obj(I, MOD + 'HTMToPOMDP')] + self.x + self.fl[:4] + [self.sub]

    def writes(self, I, a):
        return [(a[0], x) for x in ('t_wait', 't_ask', 't_tell', 'c_intr', 'end_reward', 'subtask_reward', 'flags')]

    def post(self, I, a, old, r):
        o = a[0]
        flags = content(I, F(I, o, 'flags'))
        has = lambda x: boolx(flags.mem(x)) if flags.items is None else any(y == x for y in flags.items)
        sub = I.resolve(F(I, o, 'subtask_reward'))
        return [('parameters', AND(*[real(F(I, o, f)) == real(x) for f, x in zip(('t_wait', 't_ask', 't_tell', 'c_intr', 'end_reward'), self.x)])),
                ('subtask reward', sub is None if self.sub is None else sub is not None and real(sub) == real(self.sub)),
                ('options', AND(*[boolx(has(x)) == y for x, y in zip(FLAGS, self.fl)]))]


class Model(Contract):
    """The model of a task, from the contracts at its root."""
    qual = MOD + 'HTMToPOMDP.task_to_pomdp'
    title = 'HTMToPOMDP.task_to_pomdp'
    exhaustive = True
    timeout_ms = 15000
    budget = 400

    def __init__(self, part):
        self.part = part

    def configs(self):
        return [(x, y) for x in (False, True) for y in (False, True)]

    def setup(self, I):
        me = self
        self.specs = [Moves(None), Answers(None), Costs(None)]
        at = node_attrs()
        node_class(I, methods={c.fn: Child(c) for c in self.specs}, attrs=at)
        I.refclasses['N'].fields['observations'] = TList(TStr)
        I.refclasses['Task'] = RefClass('Task', {}, attrs={'root': lambda I, o: RefV('Root', intx(o.id))})
        I.refclasses['Root'] = RefClass('Root', {})

        class From(Contract):
            qual = MOD + '_NodeToPOMDP.from_node'
            title = '_NodeToPOMDP.from_node'

            def result(self, I, a, old):
                me.asked = a
                return RefV('N', me.v)

        class Made(Contract):
            qual = 'task_models.lib.pomdp:POMDP.__init__'
            title = 'POMDP.__init__'

            def apply(self, I, f, args, kw):
                me.made = dict(zip([x.arg for x in f.node.args.args], self.bind(I, f, args, kw)))
        I.contracts[From.qual], I.contracts[Made.qual] = From(), Made()

    def args(self, I):
        E = I.E
        loop, rew = self.cfg
        self.made = None
        self.v = v = E.fresh_int('root')
        child_facts(I, v)
        E.assume(ASIZE(v) >= 1)
        f = z3.Function(E.fresh_name('row_sum'), Z, Z, R_)
        E.ghost['mass'] = lambda a, r: f(a, r)
        self.c = c = {x: E.fresh(TReal, x) for x in ('t_wait', 't_ask', 't_tell', 'c_intr', 'end_reward', 'subtask_reward')}
        E.assume(real(c['t_wait']) >= 0)
        E.assume(FA([Z], lambda i: AND(0 <= i, i < ASIZE(v)), lambda i: DUR(v, i) >= 0, lambda i: [DUR(v, i)]))
        for s in self.specs:
            s.me, s.cs, s.s = None, [], 0
            s.expected = lambda a: (lambda t: t == SIZE(v))
        fl = (['loop'] if loop else []) + (['reward_state'] if rew else [])
        self.builder = obj(I, MOD + 'HTMToPOMDP', flags=flag_set(I, fl), **c)
        I.setattr(RefV('N', v), 'observations', I.getattr(I.get_class(MOD + '_NodeToPOMDP'), 'observations'))
        return [self.builder, RefV('Task', E.fresh_int('task'))]

    def writes(self, I, a):
        return [('heap', 'N', 'observations')]

    def post(self, I, a, old, r):
        E = I.E
        loop, rew = self.cfg
        if self.made is None:
            return [('a model', False)]
        kw, v = self.made, self.v
        after = SIZE(v)
        ns = after + 1 + (1 if rew else 0)
        end, na = ns - 1, ASIZE(v) + 1
        no = 5 if loop or rew else 4
        own = lambda r: AND(0 <= r, r < after)
        act = lambda a: AND(0 <= a, a < na)
        st = lambda t: AND(0 <= t, t < ns)
        tabs = [kw[x] for x in ('T', 'O', 'R', 'start')]
        shapes = [I.read(I.resolve(x).lv).shape for x in tabs]
        T, O, R, S = [arrays(I, x) for x in tabs]
        c = {k: real(x) for k, x in self.c.items()}
        want = dict(zip('TORS', [(na, ns, ns), (na, ns, no), (na, ns, ns, no), (ns,)]))
        got = dict(zip('TORS', shapes))
        shp = lambda k: ('shape of ' + k, AND(len(got[k]) == len(want[k]), *[eqn(x, y) for x, y in zip(got[k], want[k])]))
        p = self.asked
        out = [('parameters of the steps', AND(*[real(x) == c[y] for x, y in zip(p[1:4], ('t_ask', 't_tell', 'subtask_reward'))])),
               ('discount', real(kw['discount']) == 1), ('costs, not rewards', I.truth(I.eq(kw['values'], 'cost')))]
        if self.part == 'T':
            m = E.ghost['mass']
            names, acts = [I.E_list(kw[x]) for x in ('states', 'actions')]
            return out + [
                shp('T'), shp('S'), ('names', AND(eqn(names.n, ns), eqn(acts.n, na), str_term(acts.get(0)) == str_term('wait'))),
                ('states of the task', ALL(after, lambda i: str_term(names.get(i)) == STATE(v, intx(i)))),
                ('actions of the task', ALL(ASIZE(v), lambda i: str_term(acts.get(add(1, i))) == ANAME(v, intx(i)))),
                ('start: not negative', FA([Z], st, lambda t: S(t) >= 0)),
                ('start: in the first steps', FA([Z], lambda t: AND(st(t), S(t) != 0), lambda t: ISINIT(v, t))),
                ('start: sums to one', real(sum_(I, ns, lambda t: S(t))) == 1),
                ('transitions: not negative', FA(A3, lambda a, r, t: AND(act(a), st(r), st(t)), lambda a, r, t: T(a, r, t) >= 0)),
                ('stays in the step or enters one that follows', FA(A3, lambda a, r, t: AND(act(a), own(r), st(t), T(a, r, t) != 0),
                                                                    lambda a, r, t: OR(AND(BASE(r) <= t, t < BASE(r) + 3), FOLLOWS(r, t)))),
                ('transitions: sum to one', [FA(A3, lambda a, r, t: AND(act(a), own(r), st(t)), lambda a, r, t: T(a, r, t) == self.specs[0].filled(a, r, t)),
                                             FA([Z, Z], lambda a, r: AND(act(a), own(r)), lambda a, r: m(a, r) == 1)]),
                ('at the end', [FA([Z, Z], lambda a, t: AND(act(a), st(t), T(a, end, t) != 0), lambda a, t: ISINIT(v, t) if loop else t == end),
                                FA([Z], act, lambda a: real(sum_(I, ns, lambda t: T(a, end, t))) == 1)])] + ([
                    ('after the reward', FA([Z, Z], lambda a, t: AND(act(a), st(t)), lambda a, t: T(a, after, t) == z3.If(t == end, z3.RealVal(1), z3.RealVal(0))))] if rew else [])
        done = after if rew else end if loop else None
        terminal = lambda t: OR(*([t == done] if done is not None else []) + ([t == end] if rew else []))
        rng = lambda a, t: AND(1 <= a, a < na, st(t), NOT(terminal(t)))
        is_done = lambda a, t: AND(O(a, t, 4) == 1, *[O(a, t, o) == 0 for o in range(4)])
        wait = c['c_intr']
        base = Costs.cost(lambda a: z3.If(a == 0, c['t_wait'], DUR(v, a - 1)), 0, c['c_intr'])

        def cost(a, r, t):
            if rew:
                x = z3.If(r == end, z3.If(a == 0, z3.RealVal(0), wait), z3.If(a == 0, -c['end_reward'], wait))
            else:
                x = z3.If(a == 0, -c['end_reward'], wait)
            return z3.If(own(r), base(a, r, t), x)
        out += [shp('O'), shp('R')] + self.specs[1].told(O, rng) + [
            ('waiting: nothing', FA([Z], lambda t: AND(st(t), NOT(terminal(t))), lambda t: is_obs(O, 0, t, NONE))),
            ('observations', eqn(I.E_list(kw['observations']).n, no)),
            ('costs', FA([Z] * 4, lambda a, r, t, o: AND(act(a), st(r), st(t), 0 <= o, o < no), lambda a, r, t, o: R(a, r, t, o) == cost(a, r, t)))]
        if no == 5:
            out += [('done is not observed before', FA([Z, Z], lambda a, t: AND(act(a), st(t), NOT(terminal(t))), lambda a, t: O(a, t, 4) == 0)),
                    ('done', FA([Z], act, lambda a: is_done(a, done)))]
        if rew:
            out.append(('nothing at the end', FA([Z], act, lambda a: AND(is_obs(O, a, end, NONE), O(a, end, 4) == 0))))
        return out
