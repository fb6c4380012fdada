"""C26  Clique search returns every maximal clique once."""
from .graph import *
from .c28 import AllTrans, All_
from pyvc.interp import IterV

C = z3.Function('any_set', Z, B_)        # an arbitrary set of nodes, the same throughout
FURTHER = z3.Function('not_adjacent', Z, Z)
ALWAYS = lambda *x: z3.BoolVal(True)


class Graph(object):
    """Neighbours in a dictionary of sets."""

    def __init__(self, I, g):
        c = content(I, g)
        self.I, self.c = I, I.dict_sym(c) if c.items is not None else c

    def node(self, u):
        return boolx(self.c.has(elem(u)))

    def __call__(self, u, v):
        return boolx(content(self.I, self.c.get(elem(u))).mem(elem(v)))


def mem_(I, s):
    c = content(I, s)
    if c.items is not None:
        return lambda x: OR(*[x == intx(i.id) for i in c.items])
    return lambda x: boolx(c.mem(elem(x)))


def maximal(I, G):
    """C is a maximal clique of the graph."""
    m = z3.Bool('C_is_a_maximal_clique')
    G0 = I.E.ghost.get('maximal')
    if G0 is not None:
        if not (isinstance(G0, Graph) and isinstance(G, Graph) and G0.c is G.c):
            I.E.prove('the same nodes', FA([Z], ALWAYS, lambda u: G.node(u) == G0.node(u)))
            I.E.prove('the same graph', FA([Z, Z], lambda u, v: AND(G0.node(u), G0.node(v)), lambda u, v: G(u, v) == G0(u, v)))
    else:
        I.E.ghost['maximal'] = G
        E = I.E
        E.assume(IMP(m, E.fa_expr(FA([Z], C, G.node))))
        E.assume(IMP(m, E.fa_expr(FA([Z, Z], lambda u, v: AND(C(u), C(v), u != v), G))))
        E.assume(IMP(m, E.fa_expr(FA([Z], lambda w: AND(G.node(w), NOT(C(w))),
                                     lambda w: AND(C(FURTHER(w)), NOT(G(w, FURTHER(w))))))))
        u, v, w, x = [z3.Const(n, Z) for n in ('mc_u', 'mc_v', 'mc_w', 'mc_x')]
        E.assume(OR(m, z3.Exists([u], AND(C(u), NOT(G.node(u)))),
                    z3.Exists([u, v], AND(C(u), C(v), u != v, NOT(G(u, v)))),
                    z3.Exists([w], AND(G.node(w), NOT(C(w)), z3.ForAll([x], IMP(C(x), G(w, x)))))))
    return m


def equal(I, Y):
    """Which of these sets are C (by definition of the name)."""
    E = I.E
    if not hasattr(I, 'counted'):
        I.counted = {}
    if id(Y) not in I.counted:
        I.counted[id(Y)] = (Y, E.fresh_name('is_C'), E.bparams())
    _, nm, bp = I.counted[id(Y)]
    f = z3.Function(nm, *([p.sort() for p in bp] + [Z, B_]))
    eq = lambda i: f(*(bp + [intx(i)]))
    D = z3.Function(nm + '@', *([p.sort() for p in bp] + [Z, Z]))
    d = lambda i: D(*(bp + [intx(i)]))
    E.assume(FA([Z, Z], lambda i, x: AND(0 <= i, i < intx(Y.n), eq(i)), lambda i, x: mem_(I, Y.get(i))(x) == C(x)))
    E.assume(FA([Z], lambda i: AND(0 <= i, i < intx(Y.n), NOT(eq(i))), lambda i: mem_(I, Y.get(i))(d(i)) != C(d(i)),
                lambda i: [eq(i)]))
    return eq


def count(I, Y, n=None):
    """How many of these sets are C."""
    if Y.items is not None:
        n = z3.RealVal(0)
        for y in Y.items:
            n = n + z3.If(is_C(I, mem_(I, y)), z3.RealVal(1), z3.RealVal(0))
        return n
    if 'app' in Y.meta and n is None:
        s, v = Y.meta['app']
        return count(I, s) + z3.If(is_C(I, mem_(I, v)), z3.RealVal(1), z3.RealVal(0))
    eq = equal(I, Y)
    return real(sum_(I, Y.n if n is None else n, lambda i: z3.If(eq(i), z3.RealVal(1), z3.RealVal(0))))


def is_C(I, m):
    E = I.E
    b = E.fresh(TBool, 'is_C')
    d = E.fresh_int('differs')
    E.assume(IMP(b, E.fa_expr(FA([Z], ALWAYS, lambda x: m(x) == C(x)))))
    E.assume(IMP(NOT(b), m(d) != C(d)))
    return b


class Search(Contract):
    """The maximal cliques that hold r and otherwise only candidates."""
    qual = TASK + '_bron_kerbosch'
    title = '_bron_kerbosch'

    def setup(self, I):
        world(I)
        self.uses = (Search_(),)
        self.uses[0].outer = self
        I.contracts[self.qual] = self.uses[0]
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        g = I.new_cont('dict', mk(TDict(ELEM, TSet(ELEM)), I.E.fresh_name('graph')).lv.content)
        a = [g] + [elems(I, x) for x in 'rpx']
        self.G = Graph(I, g)
        self.r, self.p, self.x = [mem_(I, s) for s in a[1:]]
        maximal(I, self.G)
        return a

    def pre(self, I, a):
        G = Graph(I, a[0])
        r, p, x = [mem_(I, s) for s in a[1:]]
        E = I.E
        inr = z3.Function(E.fresh_name('unless'), Z, Z)
        # a candidate is adjacent to all of r, and every other node to some element of r not
        u = z3.Const('bk_u', Z)
        return [('neighbours are nodes', FA([Z, Z], lambda u, v: AND(G.node(u), G(u, v)), lambda u, v: G.node(v))),
                ('symmetric', FA([Z, Z], lambda u, v: AND(G.node(u), G(u, v)), lambda u, v: G(v, u))),
                ('no loops', FA([Z], G.node, lambda u: NOT(G(u, u)))),
                ('a clique so far', FA([Z, Z], lambda u, v: AND(r(u), r(v), u != v), G)),
                ('of nodes', FA([Z], r, G.node)),
                ('candidates are nodes', FA([Z], lambda v: OR(p(v), x(v)), G.node)),
                ('candidates and excluded apart', FA([Z], p, lambda v: NOT(x(v)))),
                ('candidates and excluded adjacent to all', FA([Z, Z], lambda v, u: AND(OR(p(v), x(v)), r(u)), G)),
                ('nodes adjacent to all', FA([Z], lambda v: AND(G.node(v), z3.ForAll([u], IMP(r(u), G(v, u)))),
                                             lambda v: OR(p(v), x(v))))]

    def has(self, I, a):
        G = Graph(I, a[0])
        r, p = mem_(I, a[1]), mem_(I, a[2])
        b = I.E.fresh(TBool, 'has')
        E = I.E
        w = E.fresh_int('outside')
        E.assume(IMP(b, maximal(I, G)))
        E.assume(IMP(b, E.fa_expr(FA([Z], r, C))))
        E.assume(IMP(b, E.fa_expr(FA([Z], C, lambda v: OR(r(v), p(v))))))
        E.assume(OR(b, NOT(maximal(I, G)), AND(r(w), NOT(C(w))), AND(C(w), NOT(r(w)), NOT(p(w)))))
        return b

    def capture(self, I, a):
        I.old_has = self.has(I, a)
        return I.old_has

    def writes(self, I, a):
        return [a[2], a[3]]

    def invariant(self, I, st):
        acc = st.var('<yield>')
        Y = I.read(acc.lv)
        k = intx(st.k)
        if st.depth == 2:
            Y0 = st.entry[0][acc.lv.id]
            return [('length', Y.n >= 0), ('cliques found', count(I, Y) == count(I, Y0) + count(I, st.seq, st.k))]
        I.processed = st
        p, x = mem_(I, st.var('p')), mem_(I, st.var('x'))
        done = lambda v: AND(boolx(st.seq.meta['set'].mem(elem(v))), st.seq.meta['pos'](elem(v)) < k)
        first = self.first(I, st)
        return [('length', Y.n >= 0), ('candidates left', FA([Z], ALWAYS, lambda v: p(v) == AND(self.p(v), NOT(done(v))))),
                ('excluded', FA([Z], ALWAYS, lambda v: x(v) == OR(self.x(v), done(v)))),
                ('cliques found', count(I, Y) == z3.If(AND(I.old_has, first < k), z3.RealVal(1), z3.RealVal(0)))]

    def first(self, I, st):
        """The first of the expanded candidates in C, if any (definition)."""
        f, s = z3.Int('first_in_C'), st.seq
        n = intx(s.n)
        I.E.assume(AND(0 <= f, f <= n))
        I.E.assume(IMP(f < n, C(intx(s.get(f).id))))
        I.E.assume(ALL(f, lambda i: NOT(C(intx(s.get(i).id)))))
        return f

    def post(self, I, a, old, r):
        Y = I.read(r.lv) if isinstance(r, ContV) else r.seq
        return [('once if it is one, else not at all', count(I, Y) == z3.If(old, z3.RealVal(1), z3.RealVal(0)))]

    def result(self, I, a, old):
        return IterV(content(I, mk(TList(TSet(ELEM)), I.E.fresh_name('cliques'), I.E.bparams())))

    def modifies(self, I, a):
        for s in a[2:]:
            I.write(s.lv, mk(TSet(ELEM), I.E.fresh_name('left'), I.E.bparams()).lv.content)


class Search_(Search):
    def setup(self, I):
        pass

    def capture(self, I, a):
        if I.verifying == self.qual and not I.E.silent:
            p = mem_(I, a[2])
            I.E.prove('fewer candidates each time', AND(I.E.fa_expr(FA([Z], p, self.outer.p)), z3.Exists([W], AND(self.outer.p(W), NOT(p(W))))))
        return self.has(I, a)


W = z3.Const('bk_w', Z)


class Top(Contract):
    """The maximal cliques of at least two nodes."""
    qual = TASK + 'max_cliques'
    title = 'max_cliques'
    uses = (Search_(),)

    def setup(self, I):
        world(I)
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        g = I.new_cont('dict', mk(TDict(ELEM, TSet(ELEM)), I.E.fresh_name('graph')).lv.content)
        maximal(I, Graph(I, g))
        return [g]

    def pre(self, I, a):
        G = Graph(I, a[0])
        return [('neighbours are nodes', FA([Z, Z], lambda u, v: AND(G.node(u), G(u, v)), lambda u, v: G.node(v))),
                ('symmetric', FA([Z, Z], lambda u, v: AND(G.node(u), G(u, v)), lambda u, v: G(v, u))),
                ('no loops', FA([Z], G.node, lambda u: NOT(G(u, u))))]

    def invariant(self, I, st):
        Y = I.read(st.var('<yield>').lv)
        return [('length', Y.n >= 0), ('cliques so far', count(I, Y) == z3.If(two(I), count(I, st.seq, st.k), z3.RealVal(0)))]

    def post(self, I, a, old, r):
        Y = I.read(r.lv) if isinstance(r, ContV) else r.seq
        return [('once if it is a maximal clique of two nodes or more, else not at all', count(I, Y) == z3.If(
            AND(maximal(I, Graph(I, a[0])), two(I)), z3.RealVal(1), z3.RealVal(0)))]

    def result(self, I, a, old):
        return IterV(content(I, mk(TList(TSet(ELEM)), I.E.fresh_name('cliques'), I.E.bparams())))


def two(I):
    """C has two elements."""
    b, u, v = z3.Bool('two_in_C'), z3.Int('one_in_C'), z3.Int('other_in_C')
    x, y = z3.Const('t_x', Z), z3.Const('t_y', Z)
    I.E.assume(IMP(b, AND(C(u), C(v), u != v)))
    I.E.assume(OR(b, z3.ForAll([x, y], IMP(AND(C(x), C(y)), x == y))))
    return b


class Top_(Top):
    def setup(self, I):
        pass


class Spec(object):
    """Nodes of a task graph; two of them are adjacent if each can directly follow the other."""

    def __init__(self, I, g):
        self.I, self.t = I, Trans(I, g)
        E, t = I.E, self.t
        self.NODE, self.LAB = z3.Function('node', Z, B_), z3.Function('some_label', Z, Z, Z)
        self.out = [z3.Function(x, Z, Z) for x in ('out_label', 'out_to')]
        self.into = [z3.Function(x, Z, Z) for x in ('in_from', 'in_label')]
        N = self.NODE
        E.assume(FA([Z, Z, Z], ALWAYS, lambda s, l, d: IMP(t(s, l, d), AND(N(s), N(d), t(s, self.LAB(s, d), d))), t.pat))
        E.assume(FA([Z], N, lambda v: OR(t(v, *[f(v) for f in self.out]), t(*([f(v) for f in self.into] + [v])))))

    def node(self, u):
        return self.NODE(u)

    def follows(self, u, v):
        return self.t(u, self.LAB(u, v), v)

    def __call__(self, u, v):
        return AND(u != v, self.follows(u, v), self.follows(v, u))


class AllNodes(Contract):
    """Every node of a transition."""
    qual = BG + '.all_nodes'
    title = 'BaseGraph.all_nodes'
    uses = (All_(),)

    def setup(self, I):
        world(I)
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        world(I)
        self.g = graph(I, CTG)
        return [self.g]

    def invariant(self, I, st):
        N = mem_(I, st.var('nodes'))
        s = st.seq
        ids = lambda i: [intx(x.id) for x in s.get(i)]
        at = z3.Function('first_seen_at', Z, Z)
        k = intx(st.k)
        return [('those seen', ALL(st.k, lambda i: AND(N(ids(i)[0]), N(ids(i)[2])))),
                ('only those', FA([Z], N, lambda v: self.S.NODE(v)))]

    def capture(self, I, a):
        self.S = Spec(I, a[0])
        return self.S

    def result(self, I, a, old):
        return elems(I, 'nodes')

    def post(self, I, a, old, r):
        N = mem_(I, r)
        return [('the nodes', FA([Z], ALWAYS, lambda v: N(v) == old.NODE(v)))]


class AllNodes_(AllNodes):
    def setup(self, I):
        pass


class Cliques(Contract):
    """The maximal cliques of the relation 'each can directly follow the other'."""
    qual = CTG + '.get_max_cliques'
    title = 'ConjugateTaskGraph.get_max_cliques'
    uses = (All_(), AllNodes_(), Top_())

    def setup(self, I):
        world(I)
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        world(I)
        self.g = graph(I, CTG)
        return [self.g]

    def capture(self, I, a):
        self.S = Spec(I, a[0])
        maximal(I, self.S)
        return self.S

    def invariant(self, I, st):
        S = self.S
        g = st.var('symmetric')
        G = Graph(I, g)
        k = intx(st.k)
        pos = st.seq.meta['pos']
        seen = lambda u, v: AND(S.follows(u, v), pos((elem(u), elem(v))) < k)
        return [('nodes', FA([Z], ALWAYS, lambda u: G.node(u) == S.NODE(u))),
                ('neighbours so far', FA([Z, Z], lambda u, v: G.node(u), lambda u, v: G(u, v) == AND(S(u, v), OR(seen(u, v), seen(v, u)))))]

    def post(self, I, a, old, r):
        Y = I.read(r.lv) if isinstance(r, ContV) else r.seq
        return [('once if it is a maximal clique of two nodes or more, else not at all', count(I, Y) == z3.If(
            AND(maximal(I, old), two(I)), z3.RealVal(1), z3.RealVal(0)))]


CONTRACTS = [Search(), Top(), AllNodes(), Cliques()]
LEVEL = 'proof'
NOTE = ('C is an arbitrary set of nodes fixed throughout: the searches report it once if it is a maximal clique (of two nodes or '
        'more) and not at all otherwise. The recursion uses its own contract on strictly fewer candidates. Generators are '
        'taken to run to their end.')
ASSUMPTIONS = ['graphs handed to max_cliques are symmetric, without loops, and closed (get_max_cliques is proved to build such graphs)']
