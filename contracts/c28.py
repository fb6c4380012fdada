"""C28  Compaction redirects exactly the touched transitions."""
from .graph import *
from .c24 import Add, TRUE3
from .c25 import INIT, TERM
from pyvc.interp import IterV

EMPTY = z3.Int('empty_label')


class AllTrans(Contract):
    """Every transition, once."""
    qual = BG + '.all_transitions'
    title = 'BaseGraph.all_transitions'
    where = outer = None

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        world(I)
        self.g = graph(I)
        return [self.g]

    def WHERE(self, I):
        """Place of a transition in the iteration."""
        self.where = self.where or I.E.fresh_name('place')
        return z3.Function(self.where, Z, Z, Z, Z)

    def ids(self, Y, i):
        return [z3.IntVal(0)] * 3 if Y.items == [] else [intx(x.id) for x in Y.get(i)]

    def invariant(self, I, st):
        t, W = Trans(I, self.g), self.WHERE(I)
        acc = st.var('<yield>')
        Y = I.read(acc.lv)
        k = intx(st.k)
        if st.depth == 1:
            pos = st.seq.meta['pos']
            seen = lambda s, l, d: pos(elem(s)) < k
        else:
            out, pin = st.outer_seqs[0], st.seq.meta['pos']
            ko = intx(st.outer[0])
            key, pos = intx(out.get(ko).id), out.meta['pos']
            n0 = intx(st.entry[0][acc.lv.id].n)
            # the place of the transitions of this state (definition)
            I.E.assume(FA([Z, Z], TRUE3, lambda l, d: W(key, l, d) == n0 + pin((elem(l), elem(d)))))
            seen = lambda s, l, d: OR(pos(elem(s)) < ko, AND(s == key, pin((elem(l), elem(d))) < k))
        return [('length', Y.n >= 0),
                ('transitions seen', FA([Z, Z, Z], TRUE3, lambda s, l, d: IMP(AND(t(s, l, d), seen(s, l, d)), AND(
                    0 <= W(s, l, d), W(s, l, d) < intx(Y.n),
                    *[x == y for x, y in zip(self.ids(Y, W(s, l, d)), (s, l, d))])), t.pat)),
                ('only those', ALL(Y.n, lambda i: AND(t(*self.ids(Y, i)), seen(*self.ids(Y, i)), W(*self.ids(Y, i)) == i)))] + (
            [] if st.depth == 1 else [('one more each time', intx(Y.n) == n0 + k)])

    def result(self, I, a, old):
        nm = I.E.fresh_name('transitions')
        self.where = nm + '@place'
        s = mk(TList(TTup(ELEM, ELEM, ELEM)), nm, I.E.bparams())
        return IterV(content(I, s))

    def post(self, I, a, old, r):
        t, W = Trans(I, a[0]), self.WHERE(I)
        Y = I.E_list(r)
        return [('every transition', FA([Z, Z, Z], TRUE3, lambda s, l, d: IMP(t(s, l, d), AND(
                    0 <= W(s, l, d), W(s, l, d) < intx(Y.n), *[x == y for x, y in zip(self.ids(Y, W(s, l, d)), (s, l, d))])), t.pat)),
                ('each once, no other', ALL(Y.n, lambda i: AND(t(*self.ids(Y, i)), W(*self.ids(Y, i)) == i)))]


class Remove(Contract):
    """Removes exactly this transition, which must be known."""
    qual = BG + '.remove_transition'
    title = 'BaseGraph.remove_transition'

    def args(self, I):
        world(I)
        return [graph(I)] + [elem(I.E.fresh_int(x)) for x in ('source', 'label', 'destination')]

    def capture(self, I, a):
        return Trans(I, a[0])

    def exc(self, I, a):
        return [('KeyError', NOT(Trans(I, a[0])(*[intx(x.id) for x in a[1:]])), 'not a transition')]

    def writes(self, I, a):
        return [F(I, a[0], 'transitions')]

    def modifies(self, I, a):
        I.write(I.resolve(F(I, a[0], 'transitions')).lv, I.read(transitions(I).lv))

    def post(self, I, a, old, r):
        new = Trans(I, a[0])
        x = [intx(y.id) for y in a[1:]]
        return [('removes exactly this transition', FA([Z, Z, Z], TRUE3, lambda s, l, d: new(s, l, d) == AND(
                    old(s, l, d), OR(s != x[0], l != x[1], d != x[2])), new.pat)),
                ('states known', FA([Z], TRUE3, lambda s: new.sources(s) == old.sources(s)))]


class AddLabel(Add):
    """add_transition, where a label may be a string constant."""

    def setup(self, I):
        pass

    def bind(self, I, f, args, kw):
        a = Add.bind(self, I, f, args, kw)
        return [elem(EMPTY if x == '' else z3.Int('label ' + x)) if isinstance(x, str) else x for x in a]


class All_(AllTrans):
    def setup(self, I):
        pass


class Compact(Contract):
    qual = BG + '.compact'
    title = 'BaseGraph.compact'
    uses = [All_(), Remove(), AddLabel()]
    exhaustive = True
    img = None

    def configs(self):
        return ['set', 'list']

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def nodes(self, I):
        return elems(I, 'nodes') if self.cfg == 'set' else lst(I, 'nodes', ELEM)

    def graph(self, I):
        return graph(I, BG)

    def args(self, I):
        world(I)
        self.g = self.graph(I)
        return [self.g, self.nodes(I), elem(I.E.fresh_int('new_node'))]

    OUT = [z3.Function(x, Z, Z) for x in ('label_into', 'node_into')]
    INTO = [z3.Function(x, Z, Z) for x in ('label_outof', 'node_outof')]

    def capture(self, I, a):
        self.t = t = Trans(I, a[0])
        self.new = intx(a[2].id)
        self.N = self.member(I, a[1])
        # some transition of a node into the compacted ones, or out of them (definitions)
        N, (la, xa), (lb, xb) = self.N, self.OUT, self.INTO
        I.E.assume(FA([Z, Z, Z], TRUE3, lambda s, l, d: AND(
            IMP(AND(t(s, l, d), N(d)), AND(t(s, la(s), xa(s)), N(xa(s)))),
            IMP(AND(t(s, l, d), N(s)), AND(t(xb(d), lb(d), d), N(xb(d))))), t.pat))
        return t

    def member(self, I, nodes):
        c = content(I, nodes)
        if isinstance(c, Seq):
            W = z3.Function('place_in_list', Z, Z)
            ids = lambda j: intx(c.get(j).id)
            I.E.assume(ALL(c.n, lambda j: AND(0 <= W(ids(j)), W(ids(j)) < intx(c.n), ids(W(ids(j))) == ids(j))))
            return lambda x: AND(0 <= W(x), W(x) < intx(c.n), ids(W(x)) == x)
        return lambda x: boolx(c.mem(elem(x)))

    def to(self, x):
        return z3.If(self.N(x), self.new, x)

    def writes(self, I, a):
        return [F(I, a[0], 'transitions')]

    def modifies(self, I, a):
        I.write(I.resolve(F(I, a[0], 'transitions')).lv, I.read(transitions(I).lv))

    def invariant(self, I, st):
        new, t, N, s, k = Trans(I, self.g), self.t, self.N, st.seq, intx(st.k)
        POS = All_.WHERE(self.uses[0], I)
        self.img = self.img or I.E.fresh_name('first_image')
        W = z3.Function(self.img, Z, Z, Z)
        y = lambda i: [intx(x.id) for x in s.get(i)]
        cross = lambda i: N(y(i)[0]) != N(y(i)[2])
        ends = lambda i: (self.to(y(i)[0]), self.to(y(i)[2]))
        same = lambda i, u, v: AND(ends(i)[0] == u, ends(i)[1] == v)
        # W(u, v): the first crossing transition that becomes (u, '', v) (definition)
        I.E.assume(ALL(s.n, lambda i: IMP(cross(i), AND(0 <= W(*ends(i)), W(*ends(i)) <= i, cross(W(*ends(i))),
                                                       same(W(*ends(i)), *ends(i))))))
        kept = lambda u, l, v: AND(t(u, l, v), OR(NOT(OR(N(u), N(v))), POS(u, l, v) >= k))
        added = lambda u, l, v: AND(l == EMPTY, 0 <= W(u, v), W(u, v) < k, cross(W(u, v)), same(W(u, v), u, v))
        return [('transitions so far', FA([Z, Z, Z], TRUE3, lambda u, l, v: new(u, l, v) == OR(kept(u, l, v), added(u, l, v)), new.pat))]

    def post(self, I, a, old, r):
        new, t, N = Trans(I, a[0]), old, self.N
        (la, xa), (lb, xb) = self.OUT, self.INTO
        into = lambda u: AND(t(u, la(u), xa(u)), N(xa(u)))
        outof = lambda v: AND(t(xb(v), lb(v), v), N(xb(v)))
        return [('touched transitions redirected, others kept', FA([Z, Z, Z], TRUE3, lambda u, l, v: new(u, l, v) == OR(
            AND(t(u, l, v), NOT(N(u)), NOT(N(v))),
            AND(l == EMPTY, u == self.new, NOT(N(v)), outof(v)),
            AND(l == EMPTY, v == self.new, NOT(N(u)), into(u)))))]


class Compact_(Compact):
    cfg = None

    def setup(self, I):
        pass


class ConjCompact(Compact):
    """The same on a conjugate graph, whose markers are renamed when they are compacted."""
    qual = CTG + '.compact'
    title = 'ConjugateTaskGraph.compact'
    uses = [Compact_()]
    marks = ('initial', 'terminal')

    def configs(self):
        return [(x, y) for x in ('set', 'list') for y in ('first', 'again')]

    def setup(self, I):
        pass

    def nodes(self, I):
        return elems(I, 'nodes') if self.cfg[0] == 'set' else lst(I, 'nodes', ELEM)

    def graph(self, I):
        c = I.get_class(CTG)
        for n, v in zip(self.marks, (INIT, TERM)):
            I.class_attr_raw(c, n)
            I.E.store[('cv', c.qual, n)] = (elem(v),)
        # markers of an instance that was compacted before hide those of the class
        more = dict((n, elem(I.E.fresh_int(n))) for n in self.marks) if self.cfg[1] == 'again' else {}
        return graph(I, CTG, **more)

    def capture(self, I, a):
        self.was = [intx(I.getattr(a[0], n).id) for n in self.marks]
        return Compact.capture(self, I, a)

    def writes(self, I, a):
        return Compact.writes(self, I, a) + [(a[0], n) for n in self.marks]

    def post(self, I, a, old, r):
        return Compact.post(self, I, a, old, r) + [
            ('the %s marker is renamed exactly when compacted' % n, intx(I.getattr(a[0], n).id) == self.to(was))
            for n, was in zip(self.marks, self.was)]


CONTRACTS = [AllTrans(), Remove(), Add(), Compact(), ConjCompact()]
LEVEL = 'proof'
NOTE = 'any graph, any collection of nodes (set or list), new node inside or outside of it; loop invariant over the iteration'
ASSUMPTIONS = ['nodes and labels are hashable values with a consistent equality (C29)', 'the empty label is one of the labels']
