"""C06  Solver results are parsed into the policy they describe."""
from pyvc.contract import *
from pyvc.interp import RefClass, Builtin, PyExc, PyCls
from pyvc.values import *
from pyvc import files, nplib
from .c07 import World, POMDP, GP, L_, NAME

Z = z3.IntSort()
LINE = TRef('Line')
B_ = z3.BoolSort()
nonblank = z3.Function('line_is_not_blank', Z, B_)
number = z3.Function('line_as_number', Z, Z)
entry = z3.Function('number_in_line', Z, Z, z3.RealSort())
ntok = z3.Function('words_in_line', Z, Z)
tokint = z3.Function('word_as_number', Z, Z, Z)
dash = z3.Function('word_is_dash', Z, Z, B_)
WORD = z3.Function('word', Z, Z, Z)
wl, wi = z3.Function('line_of_word', Z, Z), z3.Function('place_of_word', Z, Z)


def world(I):
    """Lines of a file.  A line is blank or not; one that is not blank can be read as a number, as
    numbers, or split at single spaces into words; white space at its end carries no meaning."""
    strip = lambda I, l, a, kw: RefV('Body', l.id)

    def chomp(I, l, a, kw):
        if not a:
            return RefV('Body', l.id)
        if a[0] == '\n':
            return RefV('Chomped', l.id)
        raise Unsupported('strip(%r)' % (a[0],))

    def split(I, l, a, kw):
        k = l.id
        I.E.assume(FA([Z], lambda i: z3.BoolVal(True), lambda i: AND(wl(WORD(k, i)) == k, wi(WORD(k, i)) == i),
                      lambda i: [WORD(k, i)]))
        if a == [' ']:
            I.E.assume(ntok(k) > 3)
            return I.new_list(Seq(ntok(k), lambda i: RefV('Word', WORD(k, intx(i)))))
        if not a:     # without the empty word between the two spaces
            return I.new_list(Seq(ntok(k) - 1, lambda i: RefV('Word', WORD(k, ite(lt(i, 2), intx(i), intx(i) + 1)))))
        raise Unsupported('split(%r)' % (a,))
    R = I.refclasses
    ms = {'isspace': lambda I, l, a, kw: NOT(nonblank(l.id)), 'rstrip': chomp, 'strip': chomp,
          '__int__': lambda I, l, a, kw: number(l.id)}
    R['Line'] = RefClass('Line', {}, methods=ms)
    R['Chomped'] = RefClass('Chomped', {}, methods={k: ms[k] for k in ('rstrip', 'strip', '__int__')})
    R['Chomped'].methods['__bool__'] = unknown
    R['Body'] = RefClass('Body', {}, methods={'split': split, 'rstrip': strip, 'strip': strip,
                                              '__int__': ms['__int__'], '__bool__': lambda I, l, a, kw: nonblank(l.id)})
    R['Word'] = RefClass('Word', {}, methods={'__int__': lambda I, w, a, kw: tokint(wl(w.id), wi(w.id)),
                                              '__eq__': isdash})
    R['Vec'] = RefClass('Vec', {})
    I.externals['numpy.fromstring'] = Builtin('fromstring', fromstring)
    I.externals['numpy.vstack'] = Builtin('vstack', vstack)


def unknown(I, l, a, kw):
    raise Unsupported('truth of a line with blanks')


def isdash(I, w, a, kw):
    if a[0] != '-':
        raise Unsupported('word compared with %r' % (a[0],))
    return dash(wl(w.id), wi(w.id))


def fromstring(I, a, kw):
    l = I.resolve(a[0])
    if not (isinstance(l, RefV) and l.cls in ('Line', 'Chomped', 'Body') and kw == {'sep': ' '}):
        raise Unsupported('numbers of %r' % (l,))
    return RefV('Vec', l.id)


def vstack(I, a, kw):
    s = I.E_list(a[0])
    I.E.must(lt(0, s.n), PyCls(ValueError), 'need at least one array')
    return nplib.newarr(I, NArr((s.n, z3.Int('width')), lambda i, j: entry(vec(s.get(i)), intx(j)), 'r'))


def vec(x):
    if not (isinstance(x, RefV) and x.cls == 'Vec'):
        raise Unsupported('rows')
    return intx(x.id)


class Lines(object):
    """cnt(k): how many of the first k lines are not blank; pos(j): the j-th line that is not."""

    def __init__(self, I, reader):
        E = I.E
        self.seq = s = content(I, reader)
        self.nb = nb = lambda k: nonblank(intx(s.get(k).id))
        cnt, pos = [z3.Function(E.fresh_name(x), Z, Z) for x in ('count', 'pos')]
        self.cnt, self.pos = cnt, pos
        E.assume(cnt(0) == 0)
        E.assume(ALL(s.n, lambda k: AND(0 <= cnt(k), cnt(k + 1) == cnt(k) + z3.If(nb(k), 1, 0))))
        E.assume(ALL(s.n, lambda k: IMP(nb(k), AND(pos(cnt(k)) == k, cnt(k) < self.total()))))
        E.assume(ALL(self.total(), lambda j: AND(0 <= pos(j), pos(j) < intx(s.n), nb(pos(j)), cnt(pos(j)) == j)))
        E.assume(0 <= self.total())

    def total(self):
        return self.cnt(intx(self.seq.n))

    def at(self, j):
        return intx(self.seq.get(self.pos(j)).id)


class Values(Contract):
    """One action and one vector for each pair of lines."""
    qual = L_ + 'parse_value_function'
    title = 'parse_value_function'

    def setup(self, I):
        world(I)
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        r = lst(I, I.E.fresh_name('lines'), LINE)
        self.L = Lines(I, r)
        return [r]

    def exc(self, I, a):
        return [(L_ + 'ValueFunctionParseError', self.L.total() % 2 == 1, 'an action without a vector'),
                ('ValueError', self.L.total() == 0, 'no vector at all')]

    def good(self, acts, vecs, c):
        L = self.L
        return [('actions', AND(2 * intx(acts.n) - c >= 0, 2 * intx(acts.n) - c <= 1)),
                ('as many vectors', AND(c - 2 * intx(vecs.n) >= 0, c - 2 * intx(vecs.n) <= 1)),
                ('an action for each pair of lines', True if acts.items == [] else ALL(
                    acts.n, lambda i: eqn(acts.get(i), number(L.at(2 * intx(i)))))),
                ('a vector for each pair of lines', True if vecs.items == [] else ALL(
                    vecs.n, lambda i: vec(vecs.get(i)) == L.at(2 * intx(i) + 1)))]

    def invariant(self, I, st):
        c = self.L.cnt(intx(st.k))
        return [('expecting a vector', boolx(I.truth(st.var('has_action'))) == (c % 2 == 1))] + self.good(
            *([I.read(st.var(x).lv) for x in ('actions', 'vectors')] + [c]))

    def post(self, I, a, old, r):
        L = self.L
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], NDV) and len(r[1].shape) == 2):
            return [('actions and vectors', False)]
        acts, v = content(I, r[0]), content(I, r[1])
        n = L.total() / 2
        return [('as many actions', eqn(acts.n, n)), ('as many vectors', eqn(v.shape[0], n)),
                ('actions', ALL(n, lambda i: eqn(acts.get(i), number(L.at(2 * intx(i)))))),
                ('vectors', ALL([n, v.shape[1]], lambda i, j: eqn(v.get(i, j), entry(L.at(2 * intx(i) + 1), intx(j)))))]


class Nodes(Contract):
    """One node for each line."""
    qual = L_ + 'parse_policy_graph'
    title = 'parse_policy_graph'

    def setup(self, I):
        world(I)
        I.invariants = [self.invariant]
        I.plain_loops = True

    def args(self, I):
        r = lst(I, I.E.fresh_name('lines'), LINE)
        self.L = Lines(I, r)
        return [r]

    def exc(self, I, a):
        L = self.L
        j = I.E.fresh_int('j')
        return [('Exception', NOT(I.E.fa_expr(ALL(L.total(), lambda j: tokint(L.at(j), 0) == j))), 'numbering')]

    def good(self, I, acts, trans, c):
        L = self.L
        E = I.E

        def target(i, z):
            t = I.resolve(trans.get(i))
            return content(I, t).get(z)

        def same(i, z):
            t, w = target(i, z), L.at(i)
            d, n = dash(w, intx(z) + 3), tokint(w, intx(z) + 3)
            if t is None:
                return d
            if isinstance(t, Opt):
                return AND(boolx(t.none) == d, IMP(NOT(d), eqn(t.val, n)))
            return AND(NOT(d), eqn(t, n))
        ln = lambda i: content(I, I.resolve(trans.get(i))).n
        return [('actions', eqn(acts.n, c)), ('rows', eqn(trans.n, c)),
                ('action of each node', True if acts.items == [] else ALL(acts.n, lambda i: eqn(acts.get(i), tokint(L.at(i), 1)))),
                ('transitions of each node', True if trans.items == [] else ALL(
                    trans.n, lambda i: eqn(ln(i), ntok(L.at(i)) - 3))),
                ('targets', True if trans.items == [] else FA(
                    [Z, Z], lambda i, z: AND(0 <= i, i < intx(trans.n), 0 <= z, z < ntok(L.at(i)) - 3), same))]

    def invariant(self, I, st):
        c = self.L.cnt(intx(st.k))
        return [('numbered so far', ALL(c, lambda j: tokint(self.L.at(j), 0) == j))] + self.good(
            I, *([I.read(st.var(x).lv) for x in ('actions', 'transitions')] + [c]))

    def post(self, I, a, old, r):
        if not (isinstance(r, tuple) and len(r) == 2):
            return [('actions and transitions', False)]
        return self.good(I, content(I, r[0]), content(I, r[1]), self.L.total())


class Parser(Contract):
    """What the parsers return, given by their contracts above."""
    def apply(self, I, f, args, kw):
        a = self.bind(I, f, args, kw)
        h = I.resolve(a[0])
        if not (isinstance(h, RefV) and h.cls == 'File'):
            raise Unsupported('parser of another source')
        path, mode = files.handle(I, h)
        I.E.prove('%s reads its own file' % self.short(), boolx(I.truth(I.eq(path, I.paths[self.kind]))))
        return I.parsed[self.kind]


class Values_(Parser):
    qual = Values.qual
    kind = 'alpha'


class Nodes_(Parser):
    qual = Nodes.qual
    kind = 'pg'


class Load(Contract):
    """The policy of the two files."""
    qual = POMDP + '.load_policy_from'
    title = 'POMDP.load_policy_from'
    uses = (Values_(), Nodes_())

    def setup(self, I):
        files.install(I)
        I.externals['os.path.join'] = Builtin('join', lambda I, a, kw: mkstr(sum([['/', x] for x in a], [])[1:]))

    def args(self, I):
        E = I.E
        w = I.world = World(I)
        n1, n2, nt = [E.fresh_int(x) for x in ('n', 'm', 'targets')]
        E.assume(AND(n1 > 0, n2 > 0, nt > 0))
        self.A1, self.A2 = [lst(I, E.fresh_name(x), TInt) for x in ('actions', 'node_actions')]
        self.V = arr(I, E.fresh_name('vectors'), (n1, w.ns))
        self.T = lst(I, E.fresh_name('targets'), TList(TOpt(TInt)))
        c1, c2, t = [content(I, x) for x in (self.A1, self.A2, self.T)]
        E.assume(AND(eqn(c1.n, n1), eqn(c2.n, n2), eqn(t.n, n2)))
        E.assume(ALL(n2, lambda i: eqn(content(I, t.get(i)).n, nt)))
        E.assume(ALL(n1, lambda i: 0 <= c1.get(i)))
        E.assume(ALL([n2, nt], lambda i, j: OR(self.to(I, i, j).none, 0 <= self.to(I, i, j).val)))
        self.n1, self.n2, self.nt = n1, n2, nt
        p, n = E.fresh(TStr, 'path'), E.fresh(TStr, 'name')
        I.paths = {k: mkstr([p, '/', n, '.' + k]) for k in ('alpha', 'pg')}
        for k in I.paths:
            files.put(I, I.paths[k], E.fresh(TStr, 'text'))
        I.parsed = {'alpha': (self.A1, self.V), 'pg': (self.A2, self.T)}
        E.assume(str_term(I.paths['alpha']) != str_term(I.paths['pg']))
        return [w.model, p, n]

    def to(self, I, i, j):
        return content(I, content(I, self.T).get(i)).get(j)

    def exc(self, I, a):
        E, w = I.E, I.world
        c1, c2 = content(I, self.A1), content(I, self.A2)
        agree = AND(self.n1 == self.n2, E.fa_expr(ALL(self.n1, lambda i: eqn(c1.get(i), c2.get(i)))))
        exist = E.fa_expr(ALL(self.n1, lambda i: lt(c1.get(i), w.na)))
        targets = E.fa_expr(ALL([self.n2, self.nt], lambda i, j: OR(self.to(I, i, j).none, self.to(I, i, j).val < self.n2)))
        return [('Exception', NOT(AND(agree, exist, targets, self.nt == w.no)), 'the files disagree or name what does not exist')]

    def post(self, I, a, old, r):
        w, E = I.world, I.E
        acts, A, c1 = content(I, F(I, r, 'actions')), content(I, w.A), content(I, self.A1)
        obs, Z_ = content(I, F(I, r, 'observations')), content(I, w.Z)
        tr, V, V0 = content(I, F(I, r, 'transitions')), content(I, F(I, r, 'values')), content(I, self.V)
        s = content(I, w.start)
        init = F(I, r, 'init')

        def cell(i, j):
            x, y = tr.get(i, j), self.to(I, i, j)
            if x is None or not isinstance(x, Opt):
                return y.none if x is None else AND(NOT(y.none), eqn(x, y.val))
            return AND(boolx(x.none) == boolx(y.none), OR(y.none, eqn(x.val, y.val)))
        val = lambda k: sum_(I, w.ns, lambda i: mul(V0.get(k, i), s.get(i)))
        return [('a node for each action', eqn(acts.n, self.n1)),
                ('names of the actions', ALL(self.n1, lambda i: intx(acts.get(i).id) == intx(A.get(c1.get(i)).id))),
                ('observations', AND(eqn(obs.n, w.no), E.fa_expr(ALL(w.no, lambda i: intx(obs.get(i).id) == intx(Z_.get(i).id))))),
                ('shape of the transitions', AND(len(tr.shape) == 2, eqn(tr.shape[0], self.n2), eqn(tr.shape[1], self.nt))),
                ('transitions', ALL([self.n2, self.nt], cell)),
                ('shape of the vectors', AND(len(V.shape) == 2, eqn(V.shape[0], self.n1), eqn(V.shape[1], w.ns))),
                ('vectors', ALL([self.n1, w.ns], lambda i, j: eqn(V.get(i, j), V0.get(i, j)))),
                ('initial node', AND(le(0, init), lt(init, self.n1))),
                ('optimal for the start', ALL(self.n1, lambda k: le(val(k), val(init))))]


LEVEL = 'proof'
NOTE = ('Lines are abstract: blank or not, and readable as a number, as numbers, or as words between single spaces. The parsers '
        'are proved for any number of lines of any of these kinds; assembling the policy uses their results through their '
        'contracts. Numbers in files are not negative, and all node lines of a file have as many transitions.')
TRUSTED = ['str.isspace, rstrip, split and int agree on what a line holds', 'numpy.fromstring reads the numbers of a line',
           'numpy.vstack puts rows of equal length below each other']
CONTRACTS = [Values(), Nodes(), Load()]
