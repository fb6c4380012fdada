"""C13  Supportive task graph encodes exactly the task's precedences."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *

SUP = 'task_models.supportive:'
TASK = 'task_models.task:'
DAG = SUP + '_HTMToDAG'
Z, B_ = z3.IntSort(), z3.BoolSort()
NODE = TRef('Node')
KIND, SIZE = [z3.Function(x, Z, Z) for x in ('kind', 'number_of_steps')]
STEP = z3.Function('step', Z, Z, Z)
FIRST, LAST = [z3.Function(x, Z, Z, B_) for x in ('can_start', 'can_end')]
NEXT = z3.Function('can_follow', Z, Z, Z, B_)
LEAF, SEQ, ALT, PAR = range(4)
KINDS = {TASK + 'LeafCombination': LEAF, TASK + 'SequentialCombination': SEQ,
         TASK + 'AlternativeCombination': ALT, TASK + 'ParallelCombination': PAR}
NAMES = ('leaf', 'sequence', 'alternative', 'parallel')


def isa(I, v, c):
    k = KINDS.get(getattr(c, 'qual', None))
    if k is None:
        raise Unsupported('kind of a node')
    return KIND(v.id) == k


def has(s):
    """Does the list hold this number."""
    if s.items is not None:
        return lambda y: OR(*[intx(x) == y for x in s.items])
    if 'app' in s.meta:
        t, v = s.meta['app']
        return lambda y: OR(has(t)(y), intx(v) == y)
    if 'cat' in s.meta:
        return lambda y: OR(*[has(x)(y) for x in s.meta['cat']])
    if 'set' in s.meta and 'seq' in s.meta['set'].meta:
        return has(s.meta['set'].meta['seq'])
    if 'blocks' in s.meta:
        b = s.meta['blocks']
        if b.items is not None:
            return lambda y: OR(*[has(Lc(x))(y) for x in b.items])

    def f(y):
        i = z3.Const('mem_i', Z)
        return z3.Exists([i], AND(0 <= i, i < intx(s.n), intx(s.get(i)) == y))
    return f


def Lc(x):
    return x.lv.content if isinstance(x, ContV) else x


class Flatten(Contract):
    """Adds the steps of a node with the order between them; returns those that start and end it."""
    qual = DAG + '.get_initial_final'
    title = '_HTMToDAG.get_initial_final'
    timeout_ms = 10000
    bound_text = 'nodes of up to 3 children; their subtrees of any shape and size, through the contract itself'

    def configs(self):
        return [(LEAF, 0)] + [(k, n) for n in (1, 2, 3) for k in (SEQ, ALT, PAR)]

    def setup(self, I):
        k, self.n = self.cfg
        self.eff = None

        def children(I, o):
            self.eff = intx(o.id) if self.eff is None else self.eff
            return I.new_cont('list', Seq.of([RefV('Node', c) for c in self.cs]))
        rc = RefClass('Node', {}, methods={
            'to_alternative': lambda I, n, a, kw: RefV('Node', self.ex)}, attrs={'children': children})
        rc.isa = isa
        I.refclasses['Node'] = rc
        self.uses = (Flatten_(),)
        I.contracts[self.qual] = self.uses[0]
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        E = I.E
        d = obj(I, DAG, nodes=lst(I, E.fresh_name('nodes'), NODE), succs=lst(I, E.fresh_name('succs'), TList(TInt)))
        v = E.fresh_int('node')
        k, n = self.cfg
        self.v, self.ex, self.cs = v, E.fresh_int('expanded'), [E.fresh_int('child') for _ in range(n)]
        kinds = [v] if k != PAR else [v, self.ex]
        E.assume(KIND(v) == k)
        E.assume(KIND(self.ex) == ALT)
        self.define(I, v, SEQ if k == SEQ else ALT)
        return [d, RefV('Node', v)]

    def define(self, I, v, k):
        """What the steps of this node are, from those of its children (an unordered node: of its expansion)."""
        E, cs = I.E, self.cs
        if self.cfg[0] == LEAF:
            E.assume(AND(SIZE(v) == 1, FIRST(v, 0), LAST(v, 0), NOT(NEXT(v, 0, 0)), STEP(v, 0) == v))
            return
        self.off = off = [z3.IntVal(0)]
        for c in cs:
            E.assume(SIZE(c) >= 1)
            off.append(off[-1] + SIZE(c))
        n = len(cs)
        E.assume(SIZE(v) == off[n])
        ins = lambda j, m: AND(off[m] <= j, j < off[m + 1])
        sq = k == SEQ
        rng = lambda j: AND(0 <= j, j < SIZE(v))
        for m, c in enumerate(cs):
            E.assume(FA([Z], lambda j: ins(j, m), lambda j: STEP(v, j) == STEP(c, j - off[m]), lambda j: [STEP(v, j)]))
        E.assume(FA([Z], rng, lambda j: FIRST(v, j) == OR(*[
            AND(ins(j, m), FIRST(c, j - off[m])) for m, c in enumerate(cs) if not sq or m == 0]), lambda j: [FIRST(v, j)]))
        E.assume(FA([Z], rng, lambda j: LAST(v, j) == OR(*[
            AND(ins(j, m), LAST(c, j - off[m])) for m, c in enumerate(cs) if not sq or m == n - 1]), lambda j: [LAST(v, j)]))
        alts = lambda i, j: [AND(ins(i, m), ins(j, m), NEXT(c, i - off[m], j - off[m])) for m, c in enumerate(cs)] + [
            AND(ins(i, m), ins(j, m + 1), LAST(cs[m], i - off[m]), FIRST(cs[m + 1], j - off[m + 1]))
            for m in range(n - 1) if sq]
        E.assume(FA([Z, Z], lambda i, j: AND(rng(i), rng(j)), lambda i, j: NEXT(v, i, j) == OR(*alts(i, j)),
                    lambda i, j: [NEXT(v, i, j)]))

    def state(self, I, d):
        return content(I, F(I, d, 'nodes')), content(I, F(I, d, 'succs'))

    def pre(self, I, a):
        nodes, succs = self.state(I, a[0])
        return [('a list of successors for each step', eqn(nodes.n, succs.n))]

    def capture(self, I, a):
        I.top, I.dag = self.state(I, a[0]), a[0]
        return I.top

    def writes(self, I, a):
        return [F(I, a[0], 'nodes'), F(I, a[0], 'succs')]

    def modifies(self, I, a):
        for x, t in (('nodes', NODE), ('succs', TList(TInt))):
            I.write(I.resolve(F(I, a[0], x)).lv, mk(TList(t), I.E.fresh_name(x), I.E.bparams()).lv.content)

    def result(self, I, a, old):
        return tuple(mk(TList(TInt), I.E.fresh_name(x), I.E.bparams()) for x in ('first', 'last'))

    def lists(self, I, s):
        return lambda i: content(I, s.get(i))

    def kept(self, I, old, new):
        (n0, s0), (n1, s1) = old, new
        if n0.items == [] and s0.items == []:
            return []
        a, b = self.lists(I, s0), self.lists(I, s1)
        N = intx(n0.n)
        return [('earlier steps kept', FA([Z], lambda i: AND(0 <= i, i < N), lambda i: intx(n1.get(i).id) == intx(n0.get(i).id))),
                ('their successors kept', FA([Z], lambda i: AND(0 <= i, i < N), lambda i: eqn(a(i).n, b(i).n))),
                ('each of them', FA([Z, Z], lambda i, j: AND(0 <= i, i < N, 0 <= j, j < intx(a(i).n)), lambda i, j: eqn(b(i).get(j), a(i).get(j))))]

    def listed(self, I, s, base, v, P, name):
        """The list holds exactly the steps for which P."""
        step = lambda j: AND(0 <= j, j < SIZE(v))
        return [(name + ' listed', FA([Z], lambda j: AND(step(j), P(v, j)), lambda j: has(s)(base + j), lambda j: [P(v, j)])),
                (name + ' only', ALL(s.n, lambda t: AND(step(intx(s.get(t)) - base), P(v, intx(s.get(t)) - base))))]

    def post(self, I, a, old, r):
        v = intx(a[1].id)
        new = self.state(I, a[0])
        N = intx(old[0].n)
        if isinstance(r, ContV):
            r = tuple(I.read(r.lv).items or ())
        if not (isinstance(r, tuple) and len(r) == 2):
            return [('first and last steps', False)]
        f, l = [I.E_list(x) for x in r]
        step = lambda j: AND(0 <= j, j < SIZE(v))
        return [('as many as the steps of the node', AND(SIZE(v) >= 1, eqn(new[0].n, N + SIZE(v)), eqn(new[1].n, N + SIZE(v)))),
                ('the steps, in depth-first order', FA([Z], step, lambda j: intx(new[0].get(N + j).id) == STEP(v, j)))] + \
            self.kept(I, old, new) + self.succ(I, N, N, new[1], v) + \
            self.listed(I, f, N, v, FIRST, 'first steps') + self.listed(I, l, N, v, LAST, 'last steps') + [
                ('last steps have no successor', FA([Z, Z], lambda i, j: AND(step(i), step(j), LAST(v, i)), lambda i, j: NOT(NEXT(v, i, j)),
                                                    lambda i, j: [NEXT(v, i, j)]))]

    def succ(self, I, N, base, succs, v):
        b = self.lists(I, succs)
        step = lambda j: AND(0 <= j, j < SIZE(v))
        return [('steps that can follow are successors', FA([Z, Z], lambda i, j: AND(step(i), step(j), NEXT(v, i, j)), lambda i, j: has(b(N + i))(base + j),
                                                            lambda i, j: [NEXT(v, i, j)])),
                ('successors are steps that can follow', FA([Z, Z], lambda p, t: AND(base <= p, p < base + SIZE(v), 0 <= t, t < intx(b(p).n)), lambda p, t: AND(
                    step(intx(b(p).get(t)) - base), NEXT(v, p - base, intx(b(p).get(t)) - base)), lambda p, t: [intx(b(p).get(t))]))]

    def invariant(self, I, st):
        """The loop over the last steps of one element: those done have the first steps of the next as successors."""
        E = I.E
        f = F(I, I.dag, 'succs')
        c0 = st.entry[0][f.lv.id]
        c1 = content(I, f)
        s0, s1 = self.lists(I, c0), self.lists(I, c1)
        ll, ff = st.seq, I.E_list(st.var('ff'))
        N, k = intx(c0.n), intx(st.k)
        row = lambda i: AND(0 <= i, i < N)
        x = z3.Const('done_t', Z)
        new = lambda i: z3.Exists([x], AND(0 <= x, x < k, intx(ll.get(x)) == i))
        at = lambda t: intx(ll.get(t))
        return [('as many lists', eqn(c1.n, c0.n)),
                ('the last steps done', FA([Z], lambda t: AND(0 <= t, t < k), lambda t: eqn(s1(at(t)).n, ff.n), lambda t: [at(t)])),
                ('their successors', FA([Z, Z], lambda t, u: AND(0 <= t, t < k, 0 <= u, u < intx(ff.n)), lambda t, u: eqn(
                    s1(at(t)).get(u), ff.get(u)), lambda t, u: [[at(t), intx(ff.get(u))], intx(s1(at(t)).get(u))])),
                ('other steps', FA([Z], lambda i: AND(row(i), NOT(new(i))), lambda i: eqn(s1(i).n, s0(i).n), lambda i: [intx(s1(i).n)])),
                ('their successors kept', FA([Z, Z], lambda i, u: AND(row(i), NOT(new(i)), 0 <= u, u < intx(s0(i).n)), lambda i, u: eqn(
                    s1(i).get(u), s0(i).get(u)), lambda i, u: [intx(s1(i).get(u)), intx(s0(i).get(u))]))]


class Flatten_(Flatten):
    def setup(self, I):
        pass

    def capture(self, I, a):
        return self.state(I, a[0])


class Init(Contract):
    """The graph of a task: its steps, their successors, those that can start it."""
    qual = DAG + '.__init__'
    title = '_HTMToDAG.__init__'
    uses = (Flatten_(),)

    def setup(self, I):
        I.refclasses['Node'] = RefClass('Node', {})

    def args(self, I):
        return [obj(I, DAG), RefV('Node', I.E.fresh_int('node'))]

    def writes(self, I, a):
        return [(a[0], x) for x in ('nodes', 'succs', 'init')]

    def post(self, I, a, old, r):
        C, v = self.uses[0], intx(a[1].id)
        nodes, succs = C.state(I, a[0])
        step = lambda j: AND(0 <= j, j < SIZE(v))
        return [('the steps and no other', AND(eqn(nodes.n, SIZE(v)), eqn(succs.n, SIZE(v)))),
                ('in depth-first order', FA([Z], step, lambda j: intx(nodes.get(j).id) == STEP(v, j)))] + \
            C.succ(I, 0, 0, succs, v) + C.listed(I, content(I, F(I, a[0], 'init')), 0, v, FIRST, 'initial steps') + [
                ('steps that can end the task have no successor', FA([Z], lambda i: AND(step(i), LAST(v, i)), lambda i: eqn(content(I, succs.get(i)).n, 0)))]


class Push(Contract):
    """A new step, without successors so far."""
    qual = DAG + '.push'
    title = '_HTMToDAG.push'

    def setup(self, I):
        I.refclasses['Node'] = RefClass('Node', {})

    def args(self, I):
        E = I.E
        return [obj(I, DAG, nodes=lst(I, E.fresh_name('nodes'), NODE), succs=lst(I, E.fresh_name('succs'), TList(TInt))),
                RefV('Node', E.fresh_int('node'))]

    pre, capture, writes = Flatten.pre, Flatten.capture, Flatten.writes
    state, kept, lists = Flatten.state, Flatten.kept, Flatten.lists

    def post(self, I, a, old, r):
        nodes, succs = self.state(I, a[0])
        N = old[0].n
        return [('the next number', eqn(r, N)), ('one more', AND(eqn(nodes.n, add(N, 1)), eqn(succs.n, add(N, 1)))),
                ('the step', eqn(intx(nodes.get(N).id), intx(a[1].id))),
                ('no successor', eqn(content(I, succs.get(N)).n, 0))] + self.kept(I, old, (nodes, succs))


ASSUMPTIONS = [
    'the steps of a node, their order and which may start or end it are spec functions of the node, fixed by those of its children '
    '(for an unordered node: of its expansion, whose contract belongs to C11); nodes are not shared between subtrees under flattening',
]
CONTRACTS = [Push(), Flatten(), Init()]
