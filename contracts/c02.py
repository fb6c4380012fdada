"""C02  Only well-formed POMDP models can be constructed."""
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.values import *
from pyvc import interp

POMDP = 'task_models.lib.pomdp:POMDP'
NAMES = ('states', 'actions', 'observations')
LOOSE, TIGHT = 1e-4, 1e-9


class Init(Contract):
    qual = POMDP + '.__init__'
    title = 'POMDP.__init__'
    exhaustive = True
    dims = {'T': 3, 'O': 3, 'R': 4, 'start': 1}

    def setup(self, I):
        I.invariants = [lambda st: []]
        I.plain_loops = True
        I.externals['distutils.spawn.find_executable'] = interp.Builtin(
            'find_executable', lambda I, a, kw: I.E.fresh(TStr, 'solver'))

    def configs(self):
        return [tuple(n for k, n in enumerate(NAMES) if b >> k & 1) for b in range(8)]

    def args(self, I):
        E = I.E
        I.refclasses['Name'] = RefClass('Name', {})
        nm = []
        self.a = {}
        for n, d in self.dims.items():
            shape = [E.fresh_int('%s_dim%d' % (n, k)) for k in range(d)]
            E.assume([x >= 0 for x in shape])
            self.a[n] = arr(I, n, shape)
        self.names = {n: lst(I, n, TRef('Name')) if n in self.cfg else None for n in NAMES}
        for v in self.names.values():
            if v is not None:
                E.assume(intx(content(I, v).n) >= 0)
        self.discount, self.values = E.fresh(TReal, 'discount'), E.fresh(TStr, 'values')
        return [obj(I, POMDP)] + [self.a[n] for n in ('T', 'O', 'R', 'start')] + [self.discount] + [
            self.names[n] for n in NAMES] + [self.values]

    def formed(self, I, tol):
        """Well formed, up to the tolerance for sums."""
        T, O, R, s = [content(I, self.a[n]) for n in ('T', 'O', 'R', 'start')]
        if (len(T.shape), len(O.shape), len(R.shape), len(s.shape)) != (3, 3, 4, 1):
            return z3.BoolVal(False)
        n = [O.shape[k] if self.names[m] is None else content(I, self.names[m]).n for k, m in
             ((1, 'states'), (0, 'actions'), (2, 'observations'))]
        ns, na, no = n
        shapes = AND(*[eqn(x, y) for c, d in ((s, [ns]), (T, [na, ns, ns]), (O, [na, ns, no]), (R, [na, ns, ns, no]))
                       for x, y in zip(c.shape, d)])
        near = lambda x: AND(le(sub(x, 1), tol), le(sub(1, x), tol))
        rows = [near(sum_(I, s.shape[0], lambda k: s.get(k)))] + [
            I.E.fa_expr(ALL([c.shape[0], c.shape[1]], lambda i, j, c=c: near(sum_(I, c.shape[2], lambda k: c.get(i, j, k)))))
            for c in (T, O)]
        distinct = [I.E.fa_expr(FA([z3.IntSort()] * 2, lambda i, j, c=content(I, v): AND(0 <= i, i < j, j < intx(c.n)),
                                   lambda i, j, c=content(I, v): NOT(boolx(I.truth(I.eq(c.get(i), c.get(j)))))))
                    for v in self.names.values() if v is not None]
        return AND(shapes, *(rows + distinct + [le(0, self.discount), le(self.discount, 1), OR(*[
            boolx(I.truth(I.eq(self.values, x))) for x in ('reward', 'cost')])]))

    def call(self, I, a):
        try:
            Contract.call(self, I, a)
            return None
        except interp.PyExc as e:
            if not (e.cls is ValueError or getattr(e.cls, 'name', '') == 'ValueError'):
                raise
            return 'refused'

    def writes(self, I, a):
        return [a[0]]

    def capture(self, I, a):
        return {n: content(I, v) for n, v in self.a.items()}

    def post(self, I, a, old, r):
        if r == 'refused':
            return [('only malformed models are refused', NOT(self.formed(I, TIGHT)))]
        f = lambda n: F(I, a[0], n)
        out = [('only well-formed models are accepted', self.formed(I, LOOSE)),
               ('discount', eqn(f('discount'), self.discount))]
        if len(old['R'].shape) != 4:
            return out
        cost = boolx(I.truth(I.eq(self.values, 'cost')))
        for n in ('T', 'O', 'start', 'R'):
            c, d = content(I, f(n)), old[n]
            out.append((n + ' as given', AND(len(c.shape) == len(d.shape), *[eqn(x, y) for x, y in zip(c.shape, d.shape)])))
            out.append((n + ' holds the entries given' + (', negated for costs' if n == 'R' else ''), ALL(
                list(d.shape), lambda *i, n=n, c=c, d=d: eqn(c.get(*i), d.get(*i) if n != 'R' else ite(cost, neg(d.get(*i)), d.get(*i))))))
        for n, k in (('states', 1), ('actions', 0), ('observations', 2)):
            v = I.E_list(I.getattr(a[0], n))
            w = None if self.names[n] is None else content(I, self.names[n])
            cnt = old['O'].shape[k] if w is None else w.n
            out.append((n, AND(eqn(v.n, cnt), I.E.fa_expr(ALL(cnt, lambda i, v=v, w=w: boolx(I.truth(I.eq(
                v.get(i), i if w is None else w.get(i)))))))))
            out.append(('number of ' + n, eqn(I.getattr(a[0], 'n_' + n), cnt)))
        return out


class Dims(Init):
    """Arrays with a dimension too many or too few."""
    title = 'POMDP.__init__ with a wrong number of dimensions'
    exhaustive = False
    bound_text = 'one array with one dimension less or one more, default names'

    def configs(self):
        return [(n, d) for n in ('T', 'O', 'R', 'start') for d in (-1, 1) if (n, d) != ('start', -1)]

    def args(self, I):
        n, d = self.cfg
        self.dims = dict(Init.dims)
        self.dims[n] += d
        cfg, self.cfg = self.cfg, ()
        r = Init.args(self, I)
        self.cfg = cfg
        return r


LEVEL = 'proof'
LEMMAS = ['Sets.lean', 'Sums.lean']
NOTE = ('Sums within 1e-9 of one must be accepted and sums further than 1e-4 from one must be refused; what happens in '
        'between is the tolerance of the implementation. The solver executable is installed.')
TRUSTED = ['distutils.spawn.find_executable returns a path']
CONTRACTS = [Init(), Dims()]
