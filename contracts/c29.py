"""C29  Conditions and actions accept exactly the states they describe."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *

A_, S_, P_ = 'task_models.action:', 'task_models.state:', 'task_models.snap_circuit:'
Z = z3.IntSort()


def vec(I, name, n):
    return arr(I, I.E.fresh_name(name), [n])


def mask(I, name, n):
    """A vector of zeros and ones."""
    m = vec(I, name, n)
    c = content(I, m)
    I.E.assume(ALL(c.shape[0], lambda k: OR(eqn(c.get(k), 0), eqn(c.get(k), 1))))
    return m


def condition(I, name='', n=None):
    n = I.E.fresh_int(name + 'n') if n is None else n
    m, v = mask(I, name + 'mask', n), vec(I, name + 'value', n)
    a, b = content(I, m), content(I, v)
    I.E.assume(n >= 0)
    I.E.assume(ALL(n, lambda k: OR(eqn(a.get(k), 1), eqn(b.get(k), 0))))
    return obj(I, A_ + 'Condition', mask=m, value=v)


class Init(Contract):
    """Refused exactly when a masked feature is constrained."""
    qual = A_ + 'Condition.__init__'
    title = 'Condition.__init__'

    def args(self, I):
        n = I.E.fresh_int('n')
        I.E.assume(n >= 0)
        return [obj(I, A_ + 'Condition'), mask(I, 'mask', n), vec(I, 'value', n)]

    def exc(self, I, a):
        m, v = content(I, a[1]), content(I, a[2])
        fine = I.E.fa_expr(ALL(m.shape[0], lambda k: OR(eqn(m.get(k), 1), eqn(v.get(k), 0))))
        return [('ValueError', NOT(fine), 'a masked feature is constrained')]

    def writes(self, I, a):
        return [a[0]]

    def post(self, I, a, old, r):
        return [('mask kept', F(I, a[0], 'mask') is a[1]), ('value kept', F(I, a[0], 'value') is a[2])]


def holds(I, c, f):
    """Every feature that is not masked has the required value."""
    m, v = content(I, F(I, c, 'mask')), content(I, F(I, c, 'value'))
    return I.E.fa_expr(ALL(m.shape[0], lambda k: OR(eqn(m.get(k), 0), eqn(f.get(k), v.get(k)))))


class Check(Contract):
    qual = A_ + 'Condition.check'
    title = 'Condition.check'

    def state(self, I, n):
        return obj(I, S_ + 'NDimensionalState', features=vec(I, 'features', n))

    def args(self, I):
        n = I.E.fresh_int('n')
        return [condition(I, '', n), self.state(I, n)]

    def post(self, I, a, old, r):
        f = content(I, F(I, a[1], 'features'))
        return [('holds exactly for the states it describes', boolx(I.truth(r)) == holds(I, a[0], f))]


class Both(Contract):
    """Pre- and post-condition together."""
    qual = A_ + 'PrePostConditionAction.check'
    title = 'PrePostConditionAction.check'
    exhaustive = True

    def configs(self):
        return [(x, y) for x in ('some', 'all') for y in ('some', 'all')]

    def cond(self, I, k, n):
        return condition(I, 'pre post'.split()[k], n) if self.cfg[k] == 'some' else obj(I, A_ + 'MatchAllCondition')

    def args(self, I):
        n = I.E.fresh_int('n')
        return [obj(I, A_ + 'PrePostConditionAction', pre=self.cond(I, 0, n), post=self.cond(I, 1, n))] + [
            Check().state(I, n) for _ in range(2)]

    def post(self, I, a, old, r):
        f = [content(I, F(I, x, 'features')) for x in a[1:]]
        parts = [holds(I, F(I, a[0], x), f[k]) if self.cfg[k] == 'some' else z3.BoolVal(True) for k, x in enumerate(('pre', 'post'))]
        return [('both conditions', boolx(I.truth(r)) == AND(*parts))]



# -- equality and hash --------------------------------------------------------------------------
def part(I, name='part'):
    return obj(I, P_ + 'SnapCircuitPart', id=I.E.fresh_int(name + '_id'), label=I.E.fresh(TStr, name + '_label'))


PART = TRef('Part')
LOC = TTup(TInt, TInt, TInt)


def parts_world(I):
    """Parts inside of containers: values that are equal exactly when they have the same number and
    label (SnapCircuitPart.__eq__, under contract below)."""
    label = z3.Function('part_label', z3.IntSort(), Str)
    num = z3.Function('part_id', z3.IntSort(), z3.IntSort())
    rc = RefClass('Part', {}, attrs={'id': lambda I, v: num(intx(v.id)), 'label': lambda I, v: label(intx(v.id))})
    rc.isa = lambda I, v, c: c is I.get_class(P_ + 'SnapCircuitPart')
    I.refclasses['Part'] = rc
    x, y = z3.Ints('part_x part_y')
    I.E.assume(z3.ForAll([x, y], z3.Implies(z3.And(num(x) == num(y), label(x) == label(y)), x == y),
                         patterns=[z3.MultiPattern(num(x), num(y))]))


def board_state(I, name, board=None):
    b = board or [I.E.fresh_int(name + x) for x in ('_rows', '_cols')]
    for x in b:
        I.E.assume(x >= 0)
    return obj(I, P_ + 'SnapCircuitState', board_rows=b[0], board_cols=b[1],
               _parts=I.new_cont('set', mk(TSet(TTup(LOC, PART)), I.E.fresh_name(name + '_parts')).lv.content))


def pair(I, x, y):
    return obj(I, A_ + 'PrePostConditionAction', pre=x, post=y)


class Elem(object):
    def __init__(self, make):
        self.make = make


AA = 'task_models.task:AbstractAction'
KINDS = {
    'Condition': lambda I, n: condition(I, n),
    'MatchAllCondition': lambda I, n: obj(I, A_ + 'MatchAllCondition'),
    'action with conditions': lambda I, n: pair(I, condition(I, n + 'pre'), condition(I, n + 'post')),
    'action without precondition': lambda I, n: pair(I, obj(I, A_ + 'MatchAllCondition'), condition(I, n + 'post')),
    'NDimensionalState': lambda I, n: obj(I, S_ + 'NDimensionalState', features=vec(I, n + 'f', I.E.fresh_int(n + 'dim'))),
    'NDimensionalState of integers': lambda I, n: obj(I, S_ + 'NDimensionalState', features=arr(
        I, I.E.fresh_name(n + 'f'), [I.E.fresh_int(n + 'dim')], 'i')),
    'SnapCircuitPart': lambda I, n: part(I, n),
    'SnapCircuitState': lambda I, n: board_state(I, n),
    'AbstractAction': lambda I, n: obj(I, AA, name=I.E.fresh(TStr, n + 'name')),
    'MetaAction': lambda I, n: obj(I, 'task_models.task:MetaAction', name=I.E.fresh(TStr, n + 'name'),
                                   kind=I.E.fresh(TStr, n + 'kind'), actions=lst(I, I.E.fresh_name(n + 'actions'), TRef('Elem'))),
}


def same(I, x, y):
    """What equality means for these objects."""
    f = lambda o, n: F(I, o, n)
    if x.cls is not y.cls:
        return z3.BoolVal(False)
    c = x.cls.cname if hasattr(x.cls, 'cname') else x.cls.name
    c = c.split('.')[-1]
    eqv = lambda p, q: boolx(I.truth(I.eq(p, q)))
    if c == 'Condition':
        return AND(*[arr_eq(I, f(x, n), f(y, n)) for n in ('mask', 'value')])
    if c == 'MatchAllCondition':
        return z3.BoolVal(True)
    if c == 'PrePostConditionAction':
        return AND(*[same(I, f(x, n), f(y, n)) for n in ('pre', 'post')])
    if c == 'NDimensionalState':
        a, b = content(I, f(x, 'features')), content(I, f(y, 'features'))
        return AND(a.kind == b.kind, arr_eq(I, f(x, 'features'), f(y, 'features')))
    if c == 'SnapCircuitPart':
        return AND(*[eqv(f(x, n), f(y, n)) for n in ('id', 'label')])
    if c == 'SnapCircuitState':
        return AND(*[eqv(f(x, n), f(y, n)) for n in ('board_rows', 'board_cols', '_parts')])
    if c == 'AbstractAction':
        return eqv(f(x, 'name'), f(y, 'name'))
    if c == 'MetaAction':
        return AND(*[eqv(f(x, n), f(y, n)) for n in ('kind', 'actions')])
    raise KeyError(c)


def arr_eq(I, p, q):
    a, b = content(I, p), content(I, q)
    return AND(eqn(a.shape[0], b.shape[0]), I.E.fa_expr(ALL(a.shape[0], lambda k: eqn(a.get(k), b.get(k)))))


class Equality(Lemma):
    """For every two kinds of objects: equality says what it should, is symmetric, and equal objects
    have equal hashes; nothing is raised."""
    title = 'equality and hash'
    exhaustive = True

    def configs(self):
        k = sorted(KINDS)
        return [(x, y) for i, x in enumerate(k) for y in k[i:]]

    def prove(self, I):
        E = I.E
        parts_world(I)
        rc = RefClass('Elem', {})
        I.refclasses['Elem'] = rc
        x, y = [KINDS[k](I, n) for k, n in zip(self.cfg, ('x_', 'y_'))]
        eq = boolx(I.truth(I.eq(x, y)))
        fine = same(I, x, y)
        # bytes of floating point numbers can differ for equal numbers (0.0 and -0.0)
        E.prove('equality', IMP(eq, fine) if self.cfg[0] == self.cfg[1] == 'NDimensionalState' else eq == fine)
        E.prove('symmetric', boolx(I.truth(I.eq(y, x))) == eq)
        E.prove('equal to itself', boolx(I.truth(I.call(I.getattr(x, '__eq__'), [x], {}))))
        from pyvc.builtins_ import hash_of
        E.prove('equal hashes', IMP(eq, intx(hash_of(I, x)) == intx(hash_of(I, y))))


class Others(Lemma):
    """Comparing with any other object gives False."""
    title = 'comparison with other objects'
    exhaustive = True

    def configs(self):
        return sorted(KINDS)

    def prove(self, I):
        E = I.E
        parts_world(I)
        I.refclasses['Elem'] = RefClass('Elem', {})
        I.refclasses['Other'] = RefClass('Other', {})
        rc = I.refclasses['Other']
        rc.isa = lambda I, v, c: False
        x = KINDS[self.cfg](I, 'x_')
        others = [None, 3, 'x', (1,), I.new_list(Seq.of([1])), RefV('Other', E.fresh_int('other')),
                  obj(I, 'task_models.task:TaskGraph', transitions=None, initial=None, terminal=None)]
        for o in others:
            E.prove('different from %s' % type(o).__name__, NOT(boolx(I.truth(I.call(I.getattr(x, '__eq__'), [o], {})))))


# -- snap circuits --------------------------------------------------------------------------------
BOARD = [z3.Int('board_rows'), z3.Int('board_cols')]
NUM = z3.Function('part_id', Z, Z)
SN, CO = P_ + 'SnapCircuitState', P_ + 'PartPresenceCondition'


NP, NO = z3.Ints('n_parts n_orientations')


def sizes(I):
    """Numbers of parts and of orientations, by name."""
    parts_world(I)
    c = I.get_class(SN)
    for n, x in (('N_PARTS', NP), ('N_ORIENTATIONS', NO)):
        I.E.assume(x == intx(I.class_attr_raw(c, n)[1]))
        I.E.store[('cv', c.qual, n)] = (x,)
    for b in BOARD:
        I.E.assume(b >= 0)


class Parts(object):
    """The parts on a board."""

    def __init__(self, I, s):
        self.I, self.c = I, content(I, F(I, s, '_parts'))

    def __call__(self, x, y, o, r):
        return boolx(self.c.mem(((intx(x), intx(y), intx(o)), RefV('Part', intx(r)))))

    def there(self, tag):
        """There(p, x, y, o): some part with this number is at this location (with a choice of it)."""
        I = self.I
        t = z3.Function(tag + '@there', Z, Z, Z, Z, z3.BoolSort())
        w = z3.Function(tag + '@which', Z, Z, Z, Z, Z)
        I.E.assume(FA([Z] * 4, lambda *a: z3.BoolVal(True), lambda p, x, y, o: IMP(t(p, x, y, o), AND(
            NUM(w(p, x, y, o)) == p, self(x, y, o, w(p, x, y, o)))), lambda p, x, y, o: [t(p, x, y, o)]))
        I.E.assume(FA([Z] * 4, lambda *a: z3.BoolVal(True), lambda x, y, o, r: IMP(
            self(x, y, o, r), t(NUM(r), x, y, o)), lambda x, y, o, r: [self(x, y, o, r)]))
        return t


def on_board(I, s):
    """Every part has a number below 20 and a location on the board."""
    P = Parts(I, s)
    I.E.assume(FA([Z] * 4, lambda *a: z3.BoolVal(True), lambda x, y, o, r: IMP(P(x, y, o, r), AND(
        0 <= x, x < BOARD[0], 0 <= y, y < BOARD[1], 0 <= o, o < NO, 0 <= NUM(r), NUM(r) < NP)),
        lambda x, y, o, r: [P(x, y, o, r)]))
    return s


class Features(Contract):
    """One entry for each part number, row, column and orientation: 1 where there is such a part."""
    qual = SN + '.features'
    title = 'SnapCircuitState.features'
    seq = None

    def setup(self, I):
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        sizes(I)
        self.s = on_board(I, board_state(I, 'state', BOARD))
        return [self.s]

    def FIRST(self):
        return z3.Function('first_match', Z, Z, Z, Z, Z)

    def invariant(self, I, st):
        f, k, n = self.FIRST(), intx(st.k), intx(st.seq.n)
        loc = lambda j: [intx(t) for t in st.seq.get(j)[0]]
        num = lambda j: NUM(intx(st.seq.get(j)[1].id))
        # the first element of the iteration with this number and location (definition)
        I.E.assume(ALL(n, lambda j: f(num(j), *loc(j)) <= j))
        I.E.assume(FA([Z] * 4, lambda *a: z3.BoolVal(True), lambda p, x, y, o: AND(
            0 <= f(p, x, y, o), IMP(f(p, x, y, o) < n, AND(
                num(f(p, x, y, o)) == p, *[u == v for u, v in zip(loc(f(p, x, y, o)), (x, y, o))]))),
            lambda p, x, y, o: [f(p, x, y, o)]))
        self.seq = st.seq
        a = content(I, st.var('features'))
        return [('parts seen', ALL(list(a.shape), lambda p, x, y, o: eqn(a.get(p, x, y, o), ite(f(p, x, y, o) < k, 1, 0))))]

    def result(self, I, a, old):
        return arr(I, I.E.fresh_name('features'), [NP] + BOARD + [NO])

    def post(self, I, a, old, r):
        c = content(I, r)
        P = Parts(I, a[0])
        t = P.there(I.E.fresh_name('state'))
        if self.seq is not None:
            # the element for a part and the part for an element
            f, pos, n = self.FIRST(), self.seq.meta['pos'], intx(self.seq.n)
            t = lambda p, x, y, o: f(p, x, y, o) < n
            return [('shape', AND(*[eqn(u, v) for u, v in zip(c.shape, [NP] + BOARD + [NO])])),
                    ('ones and zeros', ALL(list(c.shape), lambda *i: OR(eqn(c.get(*i), 0), eqn(c.get(*i), 1)))),
                    ('a part for every one', ALL(list(c.shape), lambda p, x, y, o: IMP(eqn(c.get(p, x, y, o), 1), AND(
                        P(x, y, o, intx(self.seq.get(f(p, x, y, o))[1].id)), NUM(intx(self.seq.get(f(p, x, y, o))[1].id)) == p)))),
                    ('a one for every part', FA([Z] * 4, lambda *a: z3.BoolVal(True), lambda x, y, o, q: IMP(
                        P(x, y, o, q), eqn(c.get(NUM(q), x, y, o), 1)), lambda x, y, o, q: [P(x, y, o, q)]))]
        self.there = getattr(self, 'there', []) + [(a[0], t)]
        return [('one exactly where there is a part', ALL(list(c.shape), lambda *i: eqn(c.get(*i), ite(t(*i), 1, 0))))]


class Features_(Features):
    def setup(self, I):
        pass


class Presence(Contract):
    """Constrains exactly one feature: the part at this location."""
    qual = CO + '.__init__'
    title = 'PartPresenceCondition.__init__'
    exhaustive = True
    inline = [A_ + 'Condition.__init__']

    def configs(self):
        return [True, False]

    def args(self, I):
        sizes(I)
        p = RefV('Part', I.E.fresh_int('part'))
        loc = tuple(I.E.fresh_int(x) for x in ('row', 'col', 'orientation'))
        for x, n in zip(loc + (NUM(p.id),), BOARD + [NO, NP]):
            I.E.assume(AND(0 <= x, x < n))
        return [obj(I, CO), tuple(BOARD), p, loc, self.cfg]

    def writes(self, I, a):
        return [a[0]]

    def modifies(self, I, a):
        for n in ('mask', 'value'):
            u = content(I, arr(I, I.E.fresh_name(n), [NP] + BOARD + [NO]))
            from pyvc import nplib
            I.setattr(a[0], n, nplib.newarr(I, nplib.flattened(u)))

    def post(self, I, a, old, r):
        there = a[4] if len(a) > 4 else True
        m, v = [content(I, F(I, a[0], n)).meta['unflat'] for n in ('mask', 'value')]
        at = lambda p, x, y, o: AND(p == NUM(intx(a[2].id)), *[u == intx(w) for u, w in zip((x, y, o), a[3])])
        return [('shape', AND(*[eqn(u, w) for c in (m, v) for u, w in zip(c.shape, [NP] + BOARD + [NO])])),
                ('only this part at this location', ALL(list(m.shape), lambda *i: eqn(m.get(*i), ite(at(*i), 1, 0)))),
                ('there or not there', ALL(list(v.shape), lambda *i: eqn(v.get(*i), ite(AND(at(*i), there), 1, 0))))]


class Place(Lemma):
    """A placing action explains exactly the transitions in which the part was absent from its
    location and is present afterwards."""
    title = 'PlaceAction: absent before, present afterwards'

    def prove(self, I):
        E = I.E
        a = Presence()
        a.cfg = True
        _, board, p, loc, _ = a.args(I)
        before, after = [on_board(I, board_state(I, n, BOARD)) for n in ('before', 'after')]
        act = I.call(I.get_class(P_ + 'PlaceAction'), [board, p, loc], {})
        E.prove('part and place kept', AND(F(I, act, 'part') is p, eqn(I.eq(F(I, act, 'location'), loc), True)))
        r = I.call(I.getattr(act, 'check'), [before, after], {})
        t = [Parts(I, s).there(n) for s, n in ((before, 'b'), (after, 'a'))]
        at = lambda f: f(NUM(p.id), *loc)
        E.prove('absent before, present afterwards', boolx(I.truth(r)) == AND(NOT(at(t[0])), at(t[1])))
    uses = [Features_(), Presence()]


LEVEL = 'proof'
NOTE = ('Parts on a board have numbers below SnapCircuitState.N_PARTS and locations on the board; a part is identified by its '
        'number and label.')
ASSUMPTIONS = ['the bytes of two equal arrays of integers are equal, and arrays with equal bytes, shape and type are equal']
CONTRACTS = [Init(), Check(), Both(), Equality(), Others(), Features(), Presence(), Place()]
