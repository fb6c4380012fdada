"""C25  The conjugate graph is exactly the action-adjacency of the task graph."""
from .graph import *
from .c24 import Add, AddPath_, valid, triple, TRUE3, Path

INIT, TERM = z3.Int('initial_marker'), z3.Int('terminal_marker')
NEXT = z3.Function('some_destination', Z, Z, Z)


def choice(t):
    """NEXT(s, a): a destination of s by a, if there is one (definition)."""
    return FA([Z, Z, Z], TRUE3, lambda s, a, v: IMP(t(s, a, v), t(s, a, NEXT(s, a))), t.pat)


def det_from(t, s):
    """At most one destination for each action."""
    return FA([Z, Z, Z], TRUE3, lambda a, v, w: IMP(AND(t(s, a, v), t(s, a, w)), v == w))


def det(t):
    return FA([Z, Z, Z, Z], TRUE3, lambda s, a, v, w: IMP(AND(t(s, a, v), t(s, a, w)), v == w))


def closed(t, fin):
    """Every state that is reached is terminal or left by some transition."""
    return FA([Z, Z, Z], TRUE3, lambda s, l, d: OR(NOT(t(s, l, d)), fin(d), t.sources(d)), t.pat)


class DetFrom(Contract):
    """Refused exactly when an action leads from the state to two different ones."""
    qual = TG + '.check_only_deterministic_transitions_from_state'
    title = 'check_only_deterministic_transitions_from_state'
    w = None

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        world(I)
        return [graph(I), elem(I.E.fresh_int('state'))]

    def pre(self, I, a):
        return [('a state with transitions', Trans(I, a[0]).sources(a[1].id))]

    def spec(self, I, a):
        return I.E.fa_expr(det_from(Trans(I, a[0]), intx(a[1].id)))

    def exc(self, I, a):
        return [('ValueError', NOT(self.spec(I, a)), 'an action leads to two states')]

    def invariant(self, I, st):
        """W(a): the first place of a pair with action a (definition)."""
        s = st.seq
        self.w = self.w or I.E.fresh_name('first_place')
        W = z3.Function(self.w, Z, Z)
        act = lambda j: intx(s.get(j)[0].id)
        I.E.assume(ALL(s.n, lambda j: AND(0 <= W(act(j)), W(act(j)) <= j, act(W(act(j))) == act(j))))
        c = content(I, st.var('outgoing_actions'))
        return [('actions seen', ALL(st.k, lambda j: boolx(c.mem(elem(act(j)))))),
                ('no other', FA([Z], TRUE3, lambda x: OR(NOT(boolx(c.mem(elem(x)))), AND(0 <= W(x), W(x) < intx(st.k), act(W(x)) == x)))),
                ('all different', ALL([st.k, st.k], lambda i, j: OR(i == j, act(i) != act(j))))]


class DetFrom_(DetFrom):
    def setup(self, I):
        pass


class Det(Contract):
    """Refused exactly when some state has an action that leads to two different states."""
    qual = TG + '.check_only_deterministic_transitions'
    title = 'check_only_deterministic_transitions'
    uses = [DetFrom_()]

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        world(I)
        self.g = graph(I)
        return [self.g]

    def spec(self, I, a):
        return I.E.fa_expr(det(Trans(I, a[0])))

    def exc(self, I, a):
        return [('ValueError', NOT(self.spec(I, a)), 'an action leads to two states')]

    def invariant(self, I, st):
        t = Trans(I, self.g)
        s = st.seq
        return [('states seen are deterministic', FA([Z, Z, Z, Z], TRUE3, lambda j, a, v, w: OR(
            j < 0, j >= intx(st.k), NOT(t(intx(s.get(j).id), a, v)), NOT(t(intx(s.get(j).id), a, w)), v == w)))]

    def post(self, I, a, old, r):
        return [('deterministic', self.spec(I, a))]


class Det_(Det):
    def setup(self, I):
        pass



class Conj(Contract):
    qual = CTG + '.from_task_graph'
    title = 'ConjugateTaskGraph.from_task_graph'
    uses = [Det_(), Add()]

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        world(I)
        c = I.get_class(CTG)
        for n, v in (('initial', INIT), ('terminal', TERM)):
            I.class_attr_raw(c, n)
            I.E.store[('cv', c.qual, n)] = (elem(v),)
        self.g = graph(I)
        return [c, self.g]

    def pre(self, I, a):
        t = self.t = Trans(I, a[1])
        self.ini, self.fin = mem(I, a[1], 'initial'), mem(I, a[1], 'terminal')
        return [('some destination (definition)', choice(t)),
                ('a state that is reached is terminal or left (graphs made of paths)', closed(t, self.fin))]

    def exc(self, I, a):
        return [('ValueError', NOT(I.E.fa_expr(det(Trans(I, a[1])))), 'an action leads to two states')]

    def OUT(self, s, a):
        return self.t(s, a, NEXT(s, a))

    def out(self, u, l, v):
        """Label l of the conjugate leads to v: what follows state l."""
        fin = self.fin(l)
        return OR(AND(fin, v == TERM), AND(NOT(fin), self.OUT(l, v)))

    def pairs(self, I, s):
        """Place of (action, destination) among the transitions of state s."""
        return s.meta['pos']

    def invariant(self, I, st):
        new = Trans(I, st.var('ctg'))
        d, k = st.depth, intx(st.k)
        ini = lambda u, l, v: AND(u == INIT, self.ini(l), self.OUT(l, v))
        seqs = st.outer_seqs
        outer = [intx(x) for x in st.outer]
        first = seqs[0] if d > 1 else st.seq
        pair = lambda a, b: (elem(a), elem(b))
        if 'keys' not in first.meta:         # initial states
            pos = lambda q, x: q.meta['pos'](x)
            if d == 1:
                want = lambda u, l, v: AND(u == INIT, self.ini(l), pos(st.seq, elem(l)) < k, self.OUT(l, v))
            else:
                s0 = first.get(outer[0]).id
                want = lambda u, l, v: AND(u == INIT, OR(
                    AND(self.ini(l), pos(first, elem(l)) < outer[0], self.OUT(l, v)),
                    AND(l == s0, self.OUT(l, v), pos(st.seq, pair(v, NEXT(l, v))) < k)))
        else:
            pos = first.meta['keys'].meta['pos']
            SRC = self.src(I, first)
            before = lambda u, l, v, n: AND(self.t(SRC(u, l), u, l), pos(elem(SRC(u, l))) < n, self.out(u, l, v))
            if d == 1:
                want = lambda u, l, v: OR(ini(u, l, v), before(u, l, v, k))
            else:
                s0 = first.meta['keys'].get(outer[0]).id
                here = lambda u, l, v, q, n: AND(self.t(s0, u, l), q.meta['pos'](pair(u, l)) < n, self.out(u, l, v))
                if d == 2:
                    want = lambda u, l, v: OR(ini(u, l, v), before(u, l, v, outer[0]), here(u, l, v, st.seq, k))
                else:
                    a, n = seqs[1].get(outer[1])
                    want = lambda u, l, v: OR(ini(u, l, v), before(u, l, v, outer[0]), here(u, l, v, seqs[1], outer[1]),
                                              AND(u == a.id, l == n.id, self.OUT(l, v), st.seq.meta['pos'](pair(v, NEXT(l, v))) < k))
        return [('transitions so far', FA([Z, Z, Z], TRUE3, lambda u, l, v: new(u, l, v) == want(u, l, v), new.pat))]

    srcs = None

    def src(self, I, seq):
        """The first of the states left by (u, l), in the order of the loop (definition)."""
        self.srcs = self.srcs or I.E.fresh_name('first_source')
        S = z3.Function(self.srcs, Z, Z, Z)
        pos = lambda x: seq.meta['keys'].meta['pos'](elem(x))
        I.E.assume(FA([Z, Z, Z], TRUE3, lambda s, u, l: IMP(self.t(s, u, l), AND(
            self.t(S(u, l), u, l), pos(S(u, l)) <= pos(s))), self.t.pat))
        return S

    def post(self, I, a, old, r):
        new = Trans(I, r)
        S = z3.Function('some_source', Z, Z, Z)
        I.E.assume(FA([Z, Z, Z], TRUE3, lambda s, u, l: IMP(self.t(s, u, l), self.t(S(u, l), u, l)), self.t.pat))   # definition
        return [('a conjugate graph', I.resolve(r).cls is I.get_class(CTG)),
                ('exactly the adjacency of actions', FA([Z, Z, Z], TRUE3, lambda u, l, v: new(u, l, v) == OR(
                    AND(u == INIT, self.ini(l), self.OUT(l, v)), AND(self.t(S(u, l), u, l), self.out(u, l, v)))))]


class Conj_(Conj):
    """As seen by its caller."""

    def setup(self, I):
        pass

    def result(self, I, a, old):
        return graph(I, CTG)


class Conjugate(Conj):
    """What users call."""
    qual = TG + '.conjugate'
    title = 'TaskGraph.conjugate'
    uses = [Conj_()]

    def setup(self, I):
        pass

    def args(self, I):
        return Conj.args(self, I)[1:]

    def cls(self, I, a):
        return [I.get_class(CTG)] + a

    def pre(self, I, a):
        return Conj.pre(self, I, self.cls(I, a))

    def exc(self, I, a):
        return Conj.exc(self, I, self.cls(I, a))


class AddPathRec(AddPath_):
    def post(self, I, a, old, r):
        AddPathRec.facts = dict(AddPath_.post(self, I, a, old, r))
        return list(AddPathRec.facts.items())


class Closed(Lemma):
    """Graphs made of paths: the precondition of the conjugate is kept by add_path."""
    title = 'lemma: graphs made of paths can be conjugated'
    uses = [AddPathRec()]

    def prove(self, I):
        E = I.E
        world(I)
        g = graph(I)
        p = lst(I, 'path', ELEM)
        P = content(I, p)
        E.assume(P.n >= 0)
        for _, f in AddPath_().pre(I, [g, p]):
            E.assume(f)
        E.assume(closed(Trans(I, g), mem(I, g, 'terminal')))
        I.call(I.getattr(g, 'add_path'), [p], {})
        t, fin = Trans(I, g), mem(I, g, 'terminal')
        s, l, d = [E.fresh_int(x) for x in ('source', 'label', 'destination')]
        E.assume(t(s, l, d))
        j = Path.FIRST(s, l, d) + 1
        f = AddPathRec.facts['transitions of the path added']
        E.assume(IMP(f.rng(j), f.body(j)))      # the step of the path after that transition
        E.prove('what is reached is terminal or left', OR(fin(d), t.sources(d)))


CONTRACTS = [DetFrom(), Det(), Conj(), Conjugate(), Closed()]
LEVEL = 'proof'
NOTE = 'conjugation of any task graph made of paths, refusal exactly of non-deterministic ones, with nested loop invariants'
ASSUMPTIONS = ['states and actions are hashable values with a consistent equality (C29)',
               'the two markers are arbitrary values; that no action of the graph equals them is not needed']
