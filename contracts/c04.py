"""C04  Saving and reloading models and policies is lossless."""
from pyvc.contract import *
from pyvc.interp import RefClass, Builtin
from pyvc.values import *
from pyvc import files, nplib
from .c07 import World, POMDP, GP, NAME

VARIANTS = ('dictionary', 'string', 'file')


def path(I, name):
    return I.E.fresh(TStr, name)


def same_array(I, x, y):
    a, b = content(I, x) if isinstance(x, NDV) else x, y
    if len(a.shape) != len(b.shape):
        return z3.BoolVal(False)
    return AND(*([eqn(u, v) for u, v in zip(a.shape, b.shape)] + [I.E.fa_expr(ALL(
        list(b.shape), lambda *i: boolx(I.truth(I.eq(a.get(*i), b.get(*i))))))]))


def same_list(I, v, w):
    v, w = I.E_list(v), I.E_list(w)
    return AND(eqn(v.n, w.n), I.E.fa_expr(ALL(w.n, lambda i: boolx(I.truth(I.eq(v.get(i), w.get(i)))))))


class Trip(Lemma):
    exhaustive = True

    def setup(self, I):
        I.invariants = [lambda st: []]
        I.plain_loops = True
        files.install(I)
        I.externals['distutils.spawn.find_executable'] = Builtin(
            'find_executable', lambda I, a, kw: I.E.fresh(TStr, 'solver'))

    def reload(self, I, x, cls, how, to='as_json'):
        """Through one of the variants."""
        call = lambda o, n, *a: I.call(I.getattr(o, n), list(a), {})
        c = I.get_class(cls)
        if how == 'dictionary':
            return call(c, 'from_dict', call(x, 'to_dict'))
        if how == 'string':
            return call(c, 'from_json', call(x, to))
        p = path(I, 'path')
        call(x, 'save_as_json', p)
        return call(c, 'load_from_json', p)


class Model(Trip):
    """A model is reloaded as it was, whatever the variant."""
    title = 'models: saved and reloaded'

    def configs(self):
        return [(v, names) for v in VARIANTS for names in ('names', 'numbers')]

    def prove(self, I):
        E = I.E
        w = World(I)
        R = arr(I, E.fresh_name('R'), (w.na, w.ns, w.ns, w.no))
        d = E.fresh(TReal, 'discount')
        E.assume(AND(le(0, d), le(d, 1)))
        how, names = self.cfg
        nm = dict(_a=w.A, _o=w.Z, _s=w.names(I, 'states', w.ns)) if names == 'names' else dict(_a=w.na, _o=w.no, _s=w.ns)
        m = obj(I, POMDP, T=w.T, O=w.O, R=R, start=w.start, discount=d, **nm)
        one = lambda f, n: eqn(sum_(I, n, f), 1)
        T, O, s = [content(I, x) for x in (w.T, w.O, w.start)]
        E.assume(one(lambda k: s.get(k), w.ns))
        E.assume(ALL([w.na, w.ns], lambda i, j: one(lambda k: T.get(i, j, k), w.ns)))
        E.assume(ALL([w.na, w.ns], lambda i, j: one(lambda k: O.get(i, j, k), w.no)))
        old = {n: content(I, F(I, m, n)) for n in ('T', 'O', 'R', 'start')}
        old_names = {n: I.getattr(m, n) for n in ('states', 'actions', 'observations')}
        n = self.reload(I, m, POMDP, how)
        for k in sorted(old):
            E.prove('%s as before' % k, same_array(I, F(I, n, k), old[k]))
        for k in sorted(old_names):
            E.prove('%s as before' % k, same_list(I, I.getattr(n, k), old_names[k]))
        E.prove('discount as before', eqn(F(I, n, 'discount'), d))


class Policy(Trip):
    """A policy graph is reloaded as it was, whatever the variant."""
    title = 'policies: saved and reloaded'

    def configs(self):
        return list(VARIANTS)

    def prove(self, I):
        E = I.E
        w = World(I)
        old = {n: content(I, F(I, w.gp, n)) for n in ('transitions', 'values')}
        n = self.reload(I, w.gp, GP, self.cfg, 'to_json')
        for k in sorted(old):
            E.prove('%s as before' % k, same_array(I, F(I, n, k), old[k]))
        for k in ('actions', 'observations'):
            E.prove('%s as before' % k, same_list(I, F(I, n, k), F(I, w.gp, k)))
        E.prove('initial node as before', boolx(I.truth(I.eq(F(I, n, 'init'), w.init))))


LEVEL = 'proof'
NOTE = ('The result of reading back is compared with the model or policy, entry by entry, for any shape; models are those '
        'that can be constructed (rows sum to one, distinct names).')
TRUSTED = ['json text determines the value it was made from, with tuples as lists, and refuses arrays and ranges',
           'a text file holds what was last written to it', 'distutils.spawn.find_executable returns a path']
CONTRACTS = [Model(), Policy()]
LEMMAS = ['Sums.lean']
