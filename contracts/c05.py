"""C05  Solver input files describe the model faithfully."""
from pyvc.contract import *
from pyvc.values import *
from pyvc import files, interp
from pyvc.builtins_ import format_value
from pyvc.nplib import roundf
from .c07 import World, POMDP, L_

DEC = 5
FMT = 'fmt:Real:0.%df' % DEC
ROW = '_dump_1d_array'


def flat(p):
    """Pieces of a string term: texts and opaque terms."""
    if isinstance(p, StrV):
        out = []
        for q in p.pieces:
            out += flat(q)
        return out
    if is_z(p) and z3.is_app(p):
        if p.decl().name() == 'str.cat' and p.num_args() == 2:
            return flat(p.arg(0)) + flat(p.arg(1))
        if p.num_args() == 0 and p.decl().name().startswith('lit:'):
            return [p.decl().name()[4:]]
    return [p]


def number(p):
    """The number a text of five decimals shows, or None."""
    p = norm_pieces(flat(p))
    ok = len(p) == 1 and is_z(p[0]) and z3.is_app(p[0]) and p[0].decl().name() == FMT
    return p[0].arg(0) if ok else None


def substs(v, ps):
    return subst(v, ps) if ps else v


class Walk(object):
    """Reads a text piece by piece against its description and proves that every part is as described."""

    def __init__(self, I):
        self.I, self.E = I, I.E

    def reads(self, what, ps, x):
        """The pieces after the literal text x."""
        if ps and isinstance(ps[0], str):
            n = min(len(ps[0]), len(x))
            self.E.prove('%s: text %r' % (what, x[:n]), ps[0][:n] == x[:n])
            if n == len(x) and ps[0][:n] == x[:n]:
                return ([ps[0][n:]] if len(ps[0]) > n else []) + ps[1:]
        elif not ps:
            self.E.prove('%s: text %r' % (what, x), False)
        raise Unsupported('%s: text of another form' % what)

    def named(self, p, table):
        return is_z(p) and z3.is_app(p) and p.decl().name() in table

    def text(self, what, t, spec):
        """spec: literal texts, ('is', text, what), ('join', sep, n, f) and ('row', n, f)."""
        ps = norm_pieces(flat(t))
        for x in spec:
            if isinstance(x, str):
                ps = self.reads(what, ps, x)
            elif x[0] == 'is':
                for w in norm_pieces(flat(x[1])):
                    if isinstance(w, str):
                        ps = self.reads(what, ps, w)
                    elif ps and is_z(ps[0]):
                        self.E.prove('%s: %s' % (what, x[2]), ps[0] == w)
                        ps = ps[1:]
                    else:
                        raise Unsupported('%s: %s in another form' % (what, x[2]))
            elif x[0] == 'row':
                if not ps or not self.named(ps[0], self.E.rows):
                    raise Unsupported('%s: a row in another form' % what)
                self.row(what, ps[0], x[1], x[2])
                ps = ps[1:]
            else:
                if not ps or not self.named(ps[0], self.E.joins):
                    raise Unsupported('%s: entries in another form' % what)
                self.join(what, ps[0], x)
                ps = ps[1:]
        self.E.prove('%s: nothing else' % what, not ps)

    def join(self, what, t, spec):
        _, sep, n, fn = spec
        bp, s_, seq = self.E.joins[t.decl().name()]
        sub = [(b, t.arg(i)) for i, b in enumerate(bp)]
        self.E.prove('%s: separator' % what, s_ == sep)
        self.E.prove('%s: as many as there should be' % what, eqn(substs(intx(seq.n), sub), n))
        k = self.E.fresh_int('nth')
        self.E.assume(AND(0 <= k, k < intx(n)))
        fn(self, what, k, lambda k: substs(seq.get(k), sub))

    def row(self, what, t, n, f):
        bp, m, g = self.E.rows[t.decl().name()]
        sub = [(b, t.arg(i)) for i, b in enumerate(bp)]
        self.E.prove('%s: length' % what, eqn(substs(intx(m), sub), n))
        k = self.E.fresh_int('entry')
        self.E.assume(AND(0 <= k, k < intx(n)))
        self.E.prove('%s: entries' % what, eqn(substs(real(g(k)), sub), f(k)))


class Row(Contract):
    """Rounded numbers; the largest takes the difference to the rounded sum."""
    qual = L_ + ROW
    title = ROW

    def args(self, I):
        n = I.E.fresh_int('n')
        I.E.assume(n > 0)
        return [arr(I, I.E.fresh_name('row'), (n,))]

    def pre(self, I, a):
        return [('entries', AND(len(a[0].shape) == 1, a[0].shape[0] > 0))]

    def apply(self, I, f, args, kw):
        a = self.bind(I, f, args, kw)
        if not (isinstance(a[0], NDV) and len(a[0].shape) == 1):
            raise Unsupported('row of %r' % (a[0],))
        E = I.E
        if not E.silent:
            E.prove('call %s: requires an entry' % ROW, intx(a[0].shape[0]) > 0)
        c = content(I, a[0])
        nm, bp = E.uniq_name('row'), E.bparams()
        E.rows[nm] = (bp, c.shape[0], lambda k: c.get(k))
        return mk(TStr, nm, bp)

    def post(self, I, a, old, t):
        E = I.E
        c = old
        n = c.shape[0]
        R = lambda i: roundf(real(c.get(i)), DEC)
        ps = norm_pieces(flat(t))
        if len(ps) != 1 or not Walk(I).named(ps[0], E.joins):
            raise Unsupported('row in another form')
        bp, sep, s = E.joins[ps[0].decl().name()]
        val = lambda i: number(s.get(i))
        k, i, j = [E.fresh_int(x) for x in 'kij']
        shown = number(s.get(k)) is not None
        if not shown:
            raise Unsupported('numbers in another form')
        inr = lambda *x: AND(*[q for y in x for q in (0 <= y, y < intx(n))])
        return [('separator', sep == ' '), ('number of entries', eqn(s.n, n)),
                ('rounded entries, the largest aside', IMP(inr(i, j), OR(val(i) == R(i), R(j) <= R(i)))),
                ('one entry at most differs', IMP(AND(inr(i, j), i < j), OR(val(i) == R(i), val(j) == R(j)))),
                ('rounded sum', eqn(sum_(I, n, val), roundf(real(sum_(I, n, c.get)), DEC)))]

    def capture(self, I, a):
        return content(I, a[0])


class Row_(Row):
    pass


class Dump(Lemma):
    """The whole text, for any model."""
    title = 'POMDP.dump'
    exhaustive = True
    uses = (Row_(),)

    def configs(self):
        return [(x, how) for x in ('names', 'numbers') for how in ('text', 'file')]

    def setup(self, I):
        files.install(I)
        I.externals['os.path.join'] = interp.Builtin(
            'join', lambda I, a, kw: mkstr(sum([['/', x] for x in a], [])[1:]))

    def prove(self, I):
        E = I.E
        E.rows = {}
        names, how = self.cfg
        w = World(I)
        na, ns, no = w.na, w.ns, w.no
        R = arr(I, E.fresh_name('R'), (na, ns, ns, no))
        d = E.fresh(TReal, 'discount')
        S = w.names(I, 'states', ns)
        nm = dict(_a=w.A, _o=w.Z, _s=S) if names == 'names' else dict(_a=na, _o=no, _s=ns)
        m = obj(I, POMDP, T=w.T, O=w.O, R=R, start=w.start, discount=d, **nm)
        f = lambda v: format_value(I, v)
        if how == 'file':
            p, n = E.fresh(TStr, 'path'), E.fresh(TStr, 'name')
            got = I.call(I.getattr(m, 'dump_to'), [p, n], {})
            E.prove('path of the file', boolx(I.truth(I.eq(got, mkstr([p, '/', n, '.pomdp'])))))
            text = files.lookup(I, got)[1]
        else:
            text = I.call(I.getattr(m, 'dump'), [], {})
        T, O, R, s = [content(I, x) for x in (w.T, w.O, R, w.start)]

        def name(l, k):
            return f(content(I, l).get(k)) if names == 'names' else f(k)

        def listed(l, n, what):
            if names == 'numbers':
                return ('is', f(n), 'number of ' + what)
            return ('join', ' ', n, lambda w, x, k, get: w.text(what, get(k), [('is', name(l, k), 'name')]))

        def rows(what, n, m, g):
            return ('join', '\n', n, lambda w, x, k, get: w.text(what, get(k), [('row', m, lambda j: g(k, j))]))

        def block(letter, x, n):
            return ('join', '\n', na, lambda W, what, k, get: W.text(letter + ' block', get(k), [
                letter + ' : ', ('is', name(w.A, k), 'name of the action'), '\n',
                rows(letter + ' row', ns, n, lambda i, j: x.get(k, i, j))]))

        def reward(W, what, k, get):
            W.text('R block', get(k), [('join', '\n', ns, lambda W, what, i, get: W.text('R block', get(i), [
                'R : ', ('is', name(w.A, k), 'name of the action'), ' : ', ('is', name(S, i), 'name of the state'), '\n',
                rows('R row', ns, no, lambda j, o: R.get(k, i, j, o))]))])
        Walk(I).text('text', text, [
            'discount: ', ('is', f(d), 'discount'), '\nvalues: reward\nstates: ', listed(S, ns, 'states'),
            '\nactions: ', listed(w.A, na, 'actions'), '\nobservations: ', listed(w.Z, no, 'observations'),
            '\n\n\nstart: ', ('row', ns, s.get), '\n\n', block('T', T, ns), '\n\n', block('O', O, no), '\n\n',
            ('join', '\n', na, reward)])


CONTRACTS = [Row(), Dump()]
LEVEL = 'proof'
NOTE = ('The text of a symbolic model of any shape is read piece by piece against its description. A row is described by '
        'the contract of the row writer; its sums are of real numbers, so that a written number is exactly the one shown.')
TRUSTED = ['numpy.around to five decimals is a rounding to multiples of 1e-5', 'a text file holds what was last written to it',
           "format with '0.5f' shows the number"]
LEMMAS = ['Sums.lean']
