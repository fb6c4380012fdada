"""Shared vocabulary of the transition models of task trees: a node has SIZE states; those that may be
entered first (INIT), those left when it is over (LASTS), and the moves between its states (NEXTS).
The spec functions of a combination are defined from those of its children."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *
from pyvc.values import _uf

Z, B_, R_ = z3.IntSort(), z3.BoolSort(), z3.RealSort()
SIZE, NINIT = z3.Function('number_of_states', Z, Z), z3.Function('number_of_first_states', Z, Z)
INIT, IPOS = z3.Function('first_state', Z, Z, Z), z3.Function('position_of_first_state', Z, Z, Z)
START = z3.Function('start_probability', Z, Z, R_)
ISINIT, LASTS = z3.Function('is_first_state', Z, Z, B_), z3.Function('can_leave_the_node', Z, Z, B_)
NEXTS = z3.Function('can_move', Z, Z, Z, B_)
STATE = z3.Function('name_of_state', Z, Z, Str)
LEAF, SEQ, ALT = range(3)
A3 = [Z, Z, Z]
N3 = lambda n: list(range(n))


def child_facts(I, v):
    """A translated node: valid first states and start probabilities (contracts of init and start)."""
    E = I.E
    rng = lambda k: AND(0 <= k, k < NINIT(v))
    E.assume(AND(SIZE(v) >= 1, NINIT(v) >= 1))
    E.assume(FA([Z], rng, lambda k: AND(0 <= INIT(v, k), INIT(v, k) < SIZE(v), ISINIT(v, INIT(v, k)), IPOS(v, INIT(v, k)) == k, START(v, k) >= 0),
                lambda k: [INIT(v, k)]))
    E.assume(FA([Z], rng, lambda k: START(v, k) >= 0, lambda k: [START(v, k)]))
    E.assume(FA([Z], lambda j: ISINIT(v, j), lambda j: AND(0 <= IPOS(v, j), IPOS(v, j) < NINIT(v), INIT(v, IPOS(v, j)) == j, 0 <= j, j < SIZE(v)),
                lambda j: [ISINIT(v, j)]))
    E.assume(real(sum_(I, NINIT(v), lambda k: START(v, k))) == 1)


def node_class(I, methods=None, attrs=None):
    fl = lambda n, f: ContV('list', Frozen(Seq(n, f)))
    at = {'states': lambda I, o: fl(SIZE(intx(o.id)), lambda i, v=intx(o.id): STATE(v, intx(i))),
          'init': lambda I, o: fl(NINIT(intx(o.id)), lambda i, v=intx(o.id): INIT(v, intx(i))),
          'start': lambda I, o: fl(NINIT(intx(o.id)), lambda i, v=intx(o.id): START(v, intx(i)))}
    at.update(attrs or {})
    I.refclasses['N'] = RefClass('N', {}, methods=methods, attrs=at)


def offsets(cs):
    off = [z3.IntVal(0)]
    for c in cs:
        off.append(off[-1] + SIZE(c))
    return off


def parent(I, v, kind, cs, pointwise=()):
    """The spec functions of a combination, from those of its children."""
    E = I.E
    off = offsets(cs)
    n = len(cs)
    for c in cs:
        child_facts(I, c)
    E.assume(SIZE(v) == off[n])
    ins = lambda j, m: AND(off[m] <= j, j < off[m + 1])
    sq = kind == SEQ
    rng = lambda j: AND(0 <= j, j < SIZE(v))
    for f in pointwise:
        for m, c in enumerate(cs):
            E.assume(FA([Z], lambda j: ins(j, m), lambda j: f(v, j) == f(c, j - off[m]), lambda j: [f(v, j)]))
    E.assume(FA([Z], lambda j: True, lambda j: ISINIT(v, j) == OR(*[
        AND(ins(j, m), ISINIT(c, j - off[m])) for m, c in enumerate(cs) if not sq or m == 0]), lambda j: [ISINIT(v, j)]))
    E.assume(FA([Z], rng, lambda j: LASTS(v, j) == OR(*[
        AND(ins(j, m), LASTS(c, j - off[m])) for m, c in enumerate(cs) if not sq or m == n - 1]), lambda j: [LASTS(v, j)]))
    alts = lambda i, j: [AND(ins(i, m), ins(j, m), NEXTS(c, i - off[m], j - off[m])) for m, c in enumerate(cs)] + [
        AND(ins(i, m), ins(j, m + 1), LASTS(cs[m], i - off[m]), ISINIT(cs[m + 1], j - off[m + 1]))
        for m in range(n - 1) if sq]
    E.assume(FA([Z, Z], lambda i, j: AND(rng(i), rng(j)), lambda i, j: NEXTS(v, i, j) == OR(*alts(i, j)),
                lambda i, j: [NEXTS(v, i, j)]))
    return off


def arrays(I, x):
    a = I.read(I.resolve(x).lv)
    return lambda *ix: real(a.get(*ix))


def havoc(I, x, name):
    """An arbitrary array of the same shape."""
    v = I.resolve(x)
    a = I.read(v.lv)
    nm, bp = I.E.fresh_name(name), I.E.bparams()
    I.write(v.lv, NArr(a.shape, lambda *ix: _uf(nm, bp + [intx(i) for i in ix], R_), 'r'))
    return arrays(I, x)


def member(s, t):
    if s.items is not None:
        return OR(*[intx(x) == t for x in s.items])
    if 'cat' in s.meta:
        return OR(*[member(x, t) for x in s.meta['cat']])
    k = z3.Const('mem_k', Z)
    return z3.Exists([k], AND(0 <= k, k < intx(s.n), intx(s.get(k)) == t))


def named_member(I, s):
    """Membership in a list, by a predicate."""
    E = I.E
    P, pos = z3.Function(E.fresh_name('is_next'), Z, B_), z3.Function(E.fresh_name('position'), Z, Z)
    E.assume(FA([Z], lambda k: AND(0 <= k, k < intx(s.n)), lambda k: P(intx(s.get(k))), lambda k: [intx(s.get(k))]))
    E.assume(FA([Z], lambda t: P(t), lambda t: AND(0 <= pos(t), pos(t) < intx(s.n), intx(s.get(pos(t))) == t), lambda t: [P(t)]))
    return P


def total(I, s):
    """Sum of a list; of a concatenation, of its parts."""
    if 'cat' in s.meta:
        return sum([total(I, x) for x in s.meta['cat']])
    return real(sum_(I, s.n, lambda k: s.get(k)))


def next_ok(I, ns, s, size, nx, px=None):
    """The states to go to: of the model, different, none of this node; with a distribution over them."""
    n = intx(nx.n)
    at = lambda k: intx(nx.get(k))
    out = [('a next state', 1 <= n),
           ('next states of the model, not of this node', ALL(nx.n, lambda k: AND(0 <= at(k), at(k) < ns, OR(at(k) < s, at(k) >= s + size)))),
           ('different next states', FA([Z, Z], lambda j, k: AND(0 <= j, j < k, k < n), lambda j, k: at(j) != at(k)))]
    if px is not None:
        out += [('a probability for each', eqn(px.n, nx.n)), ('not negative', ALL(px.n, lambda k: real(px.get(k)) >= 0)),
                ('that sum to one', real(sum_(I, px.n, lambda k: px.get(k))) == 1)]
    return out


def mass(I, x):
    """Row sums of T: spec function of a version of the array (equal rows have equal sums)."""
    m = I.E.ghost.get('mass')
    if m is not None:
        return m
    T = arrays(I, x)
    a = I.read(I.resolve(x).lv)
    return lambda a_, r: real(sum_(I, a.shape[2], lambda t: T(a_, r, t)))


class Child(object):
    """Calls of the same function at a child: its contract."""

    def __init__(self, spec):
        self.spec = spec

    def __call__(self, I, o, args, kw):
        c = self.spec
        a = [o] + list(args)
        for name, f in c.pre(I, a):
            I.E.prove('%s at a child: %s' % (c.fn, name), f)
        old = c.capture(I, a)
        c.havoc(I, a)
        for name, f in c.post(I, a, old, None):
            I.E.assume(f)


class Init(Contract):
    """States of the children one after the other."""
    bound_text = 'combinations of up to 3 children; each of them any task, through the contract itself'
    mod = None
    extra = ()

    def __init__(self, mod):
        self.mod = mod
        self.qual = mod + '_ParentNodeToPOMDP.__init__'
        self.title = '_ParentNodeToPOMDP.__init__'

    def configs(self):
        return [1, 2, 3]

    def setup(self, I):
        node_class(I, attrs=self.attrs())
        I.refclasses['Task'] = RefClass('Task', {}, attrs={
            'children': lambda I, o: I.new_cont('list', Seq.of([RefV('Task', c) for c in self.ts]))})
        me = self

        class From(Contract):
            qual = self.mod + '_NodeToPOMDP.from_node'
            title = '_NodeToPOMDP.from_node'

            def result(self, I, a, old):
                t = next((x for x in a if isinstance(I.resolve(x), RefV)), None)
                k = [i for i, x in enumerate(me.ts) if x.eq(intx(I.resolve(t).id))]
                return RefV('N', me.cs[k[0]])
        I.contracts[From.qual] = From()

    def attrs(self):
        return {}

    def args(self, I):
        E = I.E
        self.ts = [E.fresh_int('task') for _ in range(self.cfg)]
        self.cs = [E.fresh_int('child') for _ in range(self.cfg)]
        for c in self.cs:
            child_facts(I, c)
        return [obj(I, self.mod + '_SequenceToPOMDP'), RefV('Task', E.fresh_int('node'))] + list(self.more(I))

    def more(self, I):
        return []

    def writes(self, I, a):
        return [(a[0], x) for x in ('node', 'children', 's_indices', 'states') + self.extra]

    def post(self, I, a, old, r):
        off = offsets(self.cs)
        n = len(self.cs)
        ch = content(I, F(I, a[0], 'children')).items
        st = content(I, F(I, a[0], 'states'))
        si = I.read(I.resolve(F(I, a[0], 's_indices')).lv)
        return [('the children in order', ch is not None and len(ch) == n and AND(*[intx(I.resolve(x).id) == c for x, c in zip(ch, self.cs)])),
                ('where their states start', AND(eqn(si.shape[0], n), *[eqn(si.get(i), off[i]) for i in range(n)])),
                ('as many states', eqn(st.n, off[n]))] + [
            ('states of child %d' % m, ALL(SIZE(c), lambda i, m=m, c=c: str_term(st.get(add(off[m], i))) == STATE(c, intx(i))))
            for m, c in enumerate(self.cs)]


def combination(I, mod, kind, cs, **fields):
    """A translated combination, as left by its __init__."""
    from pyvc import nplib
    off = offsets(cs)
    cls = mod + ('_SequenceToPOMDP' if kind == SEQ else '_AlternativesToPOMDP')
    n = len(cs)

    def at(k):
        if isinstance(k, int):
            return off[k]
        r = off[n - 1]
        for i in range(n - 2, -1, -1):
            r = z3.If(k == i, off[i], r)
        return r
    return obj(I, cls, children=I.new_cont('list', Seq.of([RefV('N', c) for c in cs])),
               s_indices=nplib.newarr(I, NArr((n,), at, 'i')),
               states=ContV('list', Frozen(Seq(off[n], lambda i: z3.Function('some_state', Z, Str)(intx(i))))), **fields)


class Starts(Contract):
    """First states of a combination and the probabilities to start there."""
    bound_text = Init.bound_text

    def __init__(self, mod):
        self.mod = mod
        self.qual = mod + '_ParentNodeToPOMDP.start'
        self.title = 'init and start of combinations'

    def configs(self):
        return [(k, n) for k in (SEQ, ALT) for n in (1, 2, 3)]

    def setup(self, I):
        node_class(I)

    def args(self, I):
        k, n = self.cfg
        self.v = I.E.fresh_int('node')
        self.cs = [I.E.fresh_int('child') for _ in range(n)]
        parent(I, self.v, k, self.cs)
        return [combination(I, self.mod, k, self.cs)]

    def call(self, I, a):
        return (I.getattr(a[0], 'init'), I.getattr(a[0], 'start'))

    def post(self, I, a, old, r):
        init, start = [I.E_list(x) for x in r]
        v = self.v
        at = lambda k: intx(init.get(k))
        n = intx(init.n)
        return [('a probability for each first state', AND(eqn(init.n, start.n), 1 <= n)),
                ('first states of the node', ALL(init.n, lambda k: AND(0 <= at(k), at(k) < SIZE(v), ISINIT(v, at(k))))),
                ('all of them', FA([Z], lambda j: ISINIT(v, j), lambda j: member(init, j))),
                ('different ones', FA([Z, Z], lambda j, k: AND(0 <= j, j < k, k < n), lambda j, k: at(j) != at(k))),
                ('not negative', ALL(start.n, lambda k: real(start.get(k)) >= 0)),
                ('that sum to one', total(I, start) == 1)]


class Dispatch(Contract):
    """A model of each kind of node; of a parallel one, that of its alternatives."""
    exhaustive = True
    title = '_NodeToPOMDP.from_node'
    KINDS = {'LeafCombination': '_Leaf', 'SequentialCombination': '_Sequence', 'AlternativeCombination': '_Alternatives', 'ParallelCombination': '_Alternatives'}
    extra = ()

    def __init__(self, mod):
        self.mod = mod
        self.qual = mod + '_NodeToPOMDP.from_node'

    def configs(self):
        return sorted(self.KINDS)

    def setup(self, I):
        me = self
        self.built = []

        def rec(cls):
            class Made(Contract):
                qual = self.mod + cls + '.__init__'
                title = cls + '.__init__'

                def apply(self, I, f, args, kw):
                    me.built.append(self.bind(I, f, args, kw))
            return Made()

        class Alt(Contract):
            qual = 'task_models.task:ParallelCombination.to_alternative'
            title = 'ParallelCombination.to_alternative'

            def result(self, I, a, old):
                return me.alt
        for c in [rec('_LeafToPOMDP'), rec('_ParentNodeToPOMDP'), Alt()]:
            I.contracts[c.qual] = c

    def args(self, I):
        self.alt = obj(I, 'task_models.task:AlternativeCombination')
        self.node = obj(I, 'task_models.task:' + self.cfg)
        self.more = [I.E.fresh(TReal, 'extra') for _ in self.extra]
        return [self.node] + self.more

    def post(self, I, a, old, r):
        cls = I.get_class(self.mod + self.KINDS[self.cfg] + 'ToPOMDP')
        o = I.resolve(r)
        b = self.built
        want = self.alt if self.cfg == 'ParallelCombination' else self.node
        return [('its kind of model', isinstance(o, ObjV) and o.cls is cls),
                ('of that node', len(b) == 1 and I.resolve(b[0][0]).loc == o.loc and I.resolve(b[0][1]).loc == want.loc),
                ('with the same parameters', len(b) == 1 and AND(*[I.truth(I.eq(x, y)) for x, y in zip(b[0][2:], self.more)]))]
