"""C24  Task graphs accept exactly the paths built from known transitions."""
from .graph import *


class Add(Contract):
    qual = BG + '.add_transition'
    title = 'BaseGraph.add_transition'

    def args(self, I):
        world(I)
        return [graph(I)] + [elem(I.E.fresh_int(x)) for x in ('source', 'label', 'destination')]

    def capture(self, I, a):
        return Trans(I, a[0])

    def writes(self, I, a):
        return [F(I, a[0], 'transitions')]

    def modifies(self, I, a):
        I.write(I.resolve(F(I, a[0], 'transitions')).lv, I.read(transitions(I).lv))

    def post(self, I, a, old, r):
        new = Trans(I, a[0])
        return [('adds exactly this transition', same_trans(new, old, [x.id for x in a[1:]])),
                ('states known', FA([Z], lambda s: z3.BoolVal(True), lambda s: new.sources(s) == OR(old.sources(s), s == intx(a[1].id))))]




def at(p, i):
    return p.get(i).id


def place_ok(p, i):
    """A state at an even place, at an odd one an action that can explain its transition."""
    k = intx(i)
    return z3.If(k % 2 == 0, ISSTATE(at(p, i)), AND(ISACTION(at(p, i)), EXPLAINS(at(p, i), at(p, sub(i, 1)), at(p, add(i, 1)))))


def n_steps(p):
    return z3.simplify((intx(p.n) - 1) / 2)


def valid(I, p):
    n = intx(p.n)
    return OR(n == 0, AND(n % 2 == 1, I.E.fa_expr(ALL(p.n, lambda i: place_ok(p, i)))))


class Check(Contract):
    """Valid: empty, or states and actions alternate, starting and ending with a state, and every
    action can explain its transition."""
    qual = TASK + 'check_path'
    title = 'check_path'

    def setup(self, I):
        I.contracts[self.qual] = self

    def args(self, I):
        world(I)
        return [lst(I, 'path', ELEM)]

    def result(self, I, a, old):
        return I.E.fresh(TBool, 'valid')

    def post(self, I, a, old, r):
        p = content(I, a[0])
        return [('valid paths only', IMP(r, valid(I, p))), ('every valid path', IMP(valid(I, p), r))]


class Split(Contract):
    qual = TASK + 'split_path'
    title = 'split_path'

    def args(self, I):
        world(I)
        return [lst(I, 'path', ELEM)]

    def post(self, I, a, old, r):
        p, R = content(I, a[0]), content(I, r)
        return [('one triple per action', IMP(intx(p.n) % 2 == 1, eqn(R.n, n_steps(p)))), ('none without', IMP(eqn(p.n, 0), eqn(R.n, 0))),
                ('triples', ALL(R.n, lambda j: AND(*[x.id == at(p, add(mul(2, j), i)) for i, x in enumerate(R.get(j))])))]


class Has(Contract):
    qual = BG + '.has_transition'
    title = 'BaseGraph.has_transition'

    def args(self, I):
        world(I)
        return [graph(I)] + [elem(I.E.fresh_int(x)) for x in ('source', 'label', 'destination')]

    def result(self, I, a, old):
        return I.E.fresh(TBool, 'has')

    def post(self, I, a, old, r):
        return [('known transitions', boolx(I.truth(r)) == Trans(I, a[0])(*[x.id for x in a[1:]]))]




class Check_(Check):
    def setup(self, I):
        pass


class Split_(Split):
    def result(self, I, a, old):
        return I.new_list(content(I, lst(I, 'triples', TTup(ELEM, ELEM, ELEM))))


def triple(p, j):
    i = mul(2, j)
    return at(p, i), at(p, add(i, 1)), at(p, add(i, 2))


class Path(Contract):
    """Contracts about a path: FIRST(s, l, d) is the first step of the path with that transition."""
    FIRST = z3.Function('first_step', Z, Z, Z, Z)

    def path(self, I):
        p = lst(I, 'path', ELEM)
        self.p = content(I, p)
        return p

    def pre(self, I, a):
        p = content(I, a[1])
        m = sub(add(p.n, 1), 1)
        return [('first steps (definition)', FA([Z], lambda j: AND(0 <= j, 2 * j + 2 < intx(p.n)), lambda j: AND(
            0 <= self.FIRST(*triple(p, j)), self.FIRST(*triple(p, j)) <= j,
            *[x == y for x, y in zip(triple(p, self.FIRST(*triple(p, j))), triple(p, j))]), lambda j: [self.FIRST(*triple(p, j))]))]

    def in_path(self, p, k, s, l, d):
        """Among the first k steps."""
        w = self.FIRST(s, l, d)
        return AND(0 <= w, w < intx(k), *[x == y for x, y in zip(triple(p, w), (s, l, d))])


class AddPath(Path):
    """A valid path adds its first state to the initial states, its last one to the terminal ones
    and its transitions; an invalid one is refused and changes nothing."""
    qual = TG + '.add_path'
    title = 'TaskGraph.add_path'
    uses = [Check_(), Split_()]

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        world(I)
        self.g = graph(I)
        return [self.g, self.path(I)]

    def capture(self, I, a):
        self.old = (Trans(I, a[0]), mem(I, a[0], 'initial'), mem(I, a[0], 'terminal'))
        return self.old

    def writes(self, I, a):
        return [F(I, a[0], x) for x in ('transitions', 'initial', 'terminal')]

    def call(self, I, a):
        try:
            return ('ok', Contract.call(self, I, a))
        except PyExc as e:
            return ('raised', e)

    def added(self, I, p, k, old):
        new = Trans(I, self.g)
        return [('states kept', FA([Z], TRUE3, lambda s: OR(NOT(old[0].sources(s)), new.sources(s)))),
                ('transitions kept', FA([Z, Z, Z], TRUE3, lambda s, l, d: OR(NOT(old[0](s, l, d)), new(s, l, d)))),
                ('transitions of the path added', ALL(k, lambda j: new(*triple(p, j)))),
                ('no other transition', FA([Z, Z, Z], TRUE3, lambda s, l, d: OR(
                    NOT(new(s, l, d)), old[0](s, l, d), self.in_path(p, k, s, l, d))))]

    def invariant(self, I, st):
        return self.added(I, self.p, st.k, self.old)

    def ends(self, I, p, old):
        ini, fin = mem(I, self.g, 'initial'), mem(I, self.g, 'terminal')
        some = intx(p.n) > 0
        return [('first state becomes initial', FA([Z], TRUE3, lambda s: ini(s) == OR(old[1](s), AND(some, s == at(p, 0))))),
                ('last state becomes terminal', FA([Z], TRUE3, lambda s: fin(s) == OR(
                    old[2](s), AND(some, s == at(p, sub(p.n, 1))))))]

    def post(self, I, a, old, res):
        p = content(I, a[1])
        if res[0] == 'raised':
            new = Trans(I, a[0])
            ini, fin = mem(I, a[0], 'initial'), mem(I, a[0], 'terminal')
            return [('ValueError', 'ValueError' in str(res[1])), ('invalid paths only', NOT(valid(I, p))),
                    ('states unchanged', FA([Z], TRUE3, lambda s: new.sources(s) == old[0].sources(s))), ('unchanged', same_trans(new, old[0])),
                    ('unchanged ends', FA([Z], TRUE3, lambda s: AND(ini(s) == old[1](s), fin(s) == old[2](s))))]
        k = ite(boolx(eqn(p.n, 0)), 0, n_steps(p))
        return [('valid paths only', valid(I, p))] + self.ends(I, p, old) + self.added(I, p, k, old)


TRUE3 = lambda *x: z3.BoolVal(True)


class HasPath(Path):
    """Accepts exactly the empty path and the valid paths that start in an initial state, end in a
    terminal one and use only known transitions; an invalid path is refused."""
    qual = TG + '.has_path'
    title = 'TaskGraph.has_path'
    uses = [Check_(), Split_()]

    def args(self, I):
        world(I)
        return [graph(I), self.path(I)]

    def call(self, I, a):
        try:
            return ('ok', Contract.call(self, I, a))
        except PyExc as e:
            return ('raised', e)

    def accepts(self, I, g, p):
        t, ini, fin = Trans(I, g), mem(I, g, 'initial'), mem(I, g, 'terminal')
        return OR(eqn(p.n, 0), AND(ini(at(p, 0)), fin(at(p, sub(p.n, 1))), I.E.fa_expr(ALL(n_steps(p), lambda j: t(*triple(p, j))))))

    def post(self, I, a, old, res):
        p = content(I, a[1])
        if res[0] == 'raised':
            return [('ValueError', 'ValueError' in str(res[1])), ('invalid paths only', NOT(valid(I, p)))]
        return [('valid paths only', valid(I, p)), ('accepted', boolx(I.truth(res[1])) == self.accepts(I, a[0], p))]




class AddPath_(AddPath):
    """As used on a valid path."""

    def setup(self, I):
        pass

    def capture(self, I, a):
        self.g = a[0]
        return AddPath.capture(self, I, a)

    def modifies(self, I, a):
        for f, c in (('transitions', transitions(I)), ('initial', elems(I, 'initial')), ('terminal', elems(I, 'terminal'))):
            I.write(I.resolve(F(I, a[0], f)).lv, I.read(c.lv))

    def pre(self, I, a):
        return [('a valid path', valid(I, content(I, a[1])))] + [(n, I.E.fa_expr(g)) for n, g in Path.pre(self, I, a)]

    def result(self, I, a, old):
        return ('ok', None)


class Accepted(Lemma):
    """After adding a valid path it is accepted, and so is everything accepted before."""
    title = 'lemma: added paths are accepted'
    uses = [AddPath_()]

    def prove(self, I):
        E = I.E
        world(I)
        g = graph(I)
        x = HasPath()
        p, q = lst(I, 'path', ELEM), lst(I, 'other', ELEM)
        P, Q = content(I, p), content(I, q)
        E.assume(P.n >= 0)
        E.assume(Q.n >= 0)
        for _, f in AddPath().pre(I, [g, p]):
            E.assume(f)
        E.assume(valid(I, P))
        E.assume(valid(I, Q))
        E.assume(x.accepts(I, g, Q))
        I.call(I.getattr(g, 'add_path'), [p], {})
        E.prove('the path is accepted', x.accepts(I, g, P))
        E.prove('accepted before, accepted after', x.accepts(I, g, Q))


CONTRACTS = [Add(), Has(), Check(), Split(), AddPath(), HasPath(), Accepted()]
LEVEL = 'proof'
NOTE = ('validity of paths of any length (recursion through its own contract), adding and looking up transitions and '
        'paths for any graph')
ASSUMPTIONS = ['states, actions and labels are hashable values with a consistent equality, check() of an action is a '
               'function of its arguments (C29)', 'the recursion limit of Python bounds the length of a path']
