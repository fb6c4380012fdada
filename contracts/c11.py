"""C11  Unordered tasks expand to all orders with faithful copies."""
from itertools import permutations
from pyvc.contract import *
from pyvc.interp import RefClass
from pyvc.builtins_ import str_format
from pyvc.values import *

TASK = 'task_models.task:'
ACT = TASK + 'AbstractAction'
LEAF, SEQ, ALT, PAR = [TASK + x + 'Combination' for x in ('Leaf', 'Sequential', 'Alternative', 'Parallel')]
Z, B_ = z3.IntSort(), z3.BoolSort()
NODE = TRef('Node')
COPY = z3.Function('is_a_copy_named_by', Z, Z, Str, B_)     # copy, original, format
ATTRS = ('durations', 'h_proba', 'no_proba', 'fail_proba', 'obj', 'conditions', 'hold', 'agent')


def named(I, fmt, name):
    return str_term(str_format(I, fmt, name))


def copied(I, c, args, kw):
    """Contract of deep_copy at any node (proved below for each kind)."""
    fmt = args[0] if args else kw.get('rename_format', '{}')
    r = I.E.fresh(NODE, 'copy')
    I.E.assume(COPY(intx(r.id), intx(c.id), str_term(fmt)))
    return r


def world(I):
    I.refclasses['Node'] = RefClass('Node', {}, methods={'deep_copy': copied})
    I.refclasses['Value'] = RefClass('Value', {})


def a_format(I):
    return I.E.fresh(TStr, 'rename_format')


def same(I, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, RefV) and isinstance(b, RefV):
        return intx(a.id) == intx(b.id)
    return eqn(a, b)


class Copy(Contract):
    """A copy of an action: every attribute but the name."""
    qual = ACT + '.copy'
    title = 'AbstractAction.copy'
    exhaustive = True

    def configs(self):
        return [(x, d) for x in range(len(ATTRS) + 1) for d in (False, True)]

    def args(self, I):
        world(I)
        E = I.E
        a = obj(I, ACT, name=E.fresh(TStr, 'name'))
        n, default = self.cfg
        for x in ATTRS[:n]:
            I.setattr(a, x, E.fresh(TRef('Value'), x))
        return [a] if default else [a, a_format(I)]

    def capture(self, I, a):
        return dict(I.E.store[I.resolve(a[0]).loc])

    def result(self, I, a, old):
        r = I.alloc(I.resolve(a[0]).cls, dict(old))
        I.setattr(r, 'name', I.E.fresh(TStr, 'name'))
        return r

    def post(self, I, a, old, r):
        fmt = a[1] if len(a) > 1 else '{}'
        if not isinstance(r, ObjV):
            return [('an action', False)]
        f, o = I.E.store[r.loc], I.resolve(a[0])
        return [('another object', r.loc != o.loc), ('of the same class', r.cls is o.cls),
                ('the same attributes', set(f) == set(old)),
                ('renamed', str_term(f['name']) == named(I, fmt, old['name']))] + [
            ('same ' + x, same(I, f[x], old[x])) for x in old if x != 'name' and x in f]


class Copy_(Copy):
    pass


class Leaf(Contract):
    """A copy of a step holds a copy of its action."""
    qual = LEAF + '.deep_copy'
    title = 'LeafCombination.deep_copy'
    exhaustive = True
    uses = (Copy_(),)

    def configs(self):
        return [False, True]

    def args(self, I):
        world(I)
        E = I.E
        act = obj(I, ACT, name=E.fresh(TStr, 'name'))
        for x in ATTRS:
            I.setattr(act, x, E.fresh(TRef('Value'), x))
        t = obj(I, LEAF, action=act, _name=E.fresh(TStr, 'other'), highlighted=E.fresh(TBool, 'highlighted'),
                idx=E.fresh_int('idx'), parent=None)
        return [t] if self.cfg else [t, a_format(I)]

    def post(self, I, a, old, r):
        fmt = a[1] if len(a) > 1 else '{}'
        if not (isinstance(r, ObjV) and r.cls.qual == LEAF):
            return [('a step', False)]
        x, y = [I.resolve(I.getattr(o, 'action')) for o in (a[0], r)]
        f, g = I.E.store[x.loc], I.E.store[y.loc]
        return [('another step', r.loc != I.resolve(a[0]).loc), ('another action', x.loc != y.loc),
                ('of the same class', x.cls is y.cls),
                ('the name of the step is that of its action', str_term(I.getattr(r, 'name')) == str_term(g['name'])),
                ('renamed', str_term(g['name']) == named(I, fmt, f['name'])),
                ('highlighted', boolx(I.getattr(r, 'highlighted')) == boolx(I.getattr(a[0], 'highlighted')))] + [
            ('same ' + k, same(I, f[k], g[k]) if k in g else False) for k in ATTRS]


class Deep(Contract):
    """A copy of a combination holds copies of its children, in their order."""
    exhaustive = True

    def __init__(self, cls):
        self.cls = cls
        self.qual = cls + '.deep_copy'
        self.title = cls.split(':')[1] + '.deep_copy'

    def configs(self):
        return [(d, p) for d in (False, True) for p in ((True,) if self.cls == ALT else (True, False))]

    def args(self, I):
        world(I)
        E = I.E
        default, given = self.cfg
        self.children = lst(I, E.fresh_name('children'), NODE)
        self.p = lst(I, E.fresh_name('probabilities'), TReal) if given else None
        fields = {'_proba' if self.cls == ALT else 'proba': self.p}
        t = obj(I, self.cls, children=self.children, _name=E.fresh(TStr, 'name'), highlighted=E.fresh(TBool, 'highlighted'),
                idx=E.fresh_int('idx'), parent=None, **fields)
        return [t] if default else [t, a_format(I)]

    def pre(self, I, a):
        if self.cls != ALT:
            return []
        p, c = content(I, self.p), content(I, self.children)
        return [('a valid alternative', AND(le(1, c.n), eqn(p.n, c.n))),
                ('probabilities', ALL(p.n, lambda i: AND(0 <= real(p.get(i)), real(p.get(i)) <= 1))),
                ('that sum to one', eqn(sum_(I, p.n, lambda i: p.get(i)), 1))]

    def capture(self, I, a):
        return content(I, self.children), content(I, self.p) if self.p is not None else None

    def post(self, I, a, old, r):
        fmt = a[1] if len(a) > 1 else '{}'
        if not (isinstance(r, ObjV) and r.cls.qual == self.cls):
            return [('the same kind', False)]
        c0, p0 = old
        c1 = content(I, F(I, r, 'children'))
        p1 = I.resolve(I.getattr(r, 'proba'))
        out = [('another node', r.loc != I.resolve(a[0]).loc),
               ('renamed', str_term(I.getattr(r, 'name')) == named(I, fmt, I.getattr(a[0], '_name'))),
               ('highlighted', boolx(I.getattr(r, 'highlighted')) == boolx(I.getattr(a[0], 'highlighted'))),
               ('as many children', eqn(c1.n, c0.n)),
               ('copies in the same order', ALL(c0.n, lambda i: COPY(intx(c1.get(i).id), intx(c0.get(i).id), str_term(fmt)))),
               ('the original keeps its children', AND(eqn(content(I, self.children).n, c0.n))),
               ('each of them', ALL(c0.n, lambda i: same(I, content(I, F(I, a[0], 'children')).get(i), c0.get(i))))]
        if p0 is None:
            return out + [('no probabilities', p1 is None)]
        p1 = content(I, p1)
        return out + [('probabilities', AND(eqn(p1.n, p0.n))), ('each of them', ALL(p0.n, lambda i: eqn(p1.get(i), p0.get(i))))]


class Given(Contract):
    """An alternative keeps the probabilities it is given, which are validated."""
    qual = ALT + '.__init__'
    title = 'AlternativeCombination.__init__ (given probabilities)'
    sizes = None

    def args(self, I):
        world(I)
        E = I.E
        self.c = lst(I, E.fresh_name('children'), NODE)
        self.p = lst(I, E.fresh_name('probabilities'), TReal)
        self.o = obj(I, ALT)
        return [self.o, self.c]

    def call(self, I, a):
        return I.call(I.getattr(self.o, '__init__'), [self.c], {
            'probabilities': self.p, 'name': I.E.fresh(TStr, 'name'), 'highlighted': I.E.fresh(TBool, 'highlighted')})

    def pre(self, I, a):
        return [('some child', le(1, content(I, self.c).n)), ('a probability for each', eqn(content(I, self.p).n, content(I, self.c).n))]

    def writes(self, I, a):
        return [(a[0], x) for x in ('children', '_name', 'highlighted', 'idx', 'parent', '_proba')]

    def exc(self, I, a):
        p = content(I, self.p)
        at = lambda i: real(p.get(i))
        i = z3.Const('some_p', Z)
        bad = z3.Exists([i], AND(0 <= i, i < intx(p.n), OR(at(i) < 0, at(i) > 1)))
        s = real(sum_(I, p.n, lambda i: p.get(i)))
        tol = z3.RealVal('1e-8') + z3.RealVal('1e-5')
        return [('ValueError', OR(bad, s - 1 > tol, 1 - s > tol), 'no probabilities')]

    def capture(self, I, a):
        return content(I, self.p)

    def post(self, I, a, old, r):
        p = content(I, I.getattr(a[0], 'proba'))
        return [('as many', eqn(p.n, old.n)), ('kept', ALL(old.n, lambda i: eqn(p.get(i), old.get(i)))),
                ('the children', I.resolve(F(I, a[0], 'children')) is I.resolve(self.c) or same_list(I, a[0], self.c))]


def same_list(I, o, c):
    x, y = content(I, F(I, o, 'children')), content(I, c)
    return AND(eqn(x.n, y.n), I.E.fa_expr(ALL(x.n, lambda i: same(I, x.get(i), y.get(i)))))


class Uniform(Given):
    """An alternative without given probabilities: uniform ones."""
    title = 'AlternativeCombination.__init__ (default)'

    def call(self, I, a):
        return I.call(I.getattr(self.o, '__init__'), [self.c], {'name': I.E.fresh(TStr, 'name')})

    def pre(self, I, a):
        return [('some child', le(1, content(I, self.c).n))]

    def exc(self, I, a):
        return []

    def post(self, I, a, old, r):
        p, c = content(I, I.getattr(a[0], 'proba')), content(I, self.c)
        return [('one for each child', eqn(p.n, c.n)), ('uniform', ALL(c.n, lambda i: real(p.get(i)) * real(c.n) == 1)),
                ('the children', same_list(I, a[0], self.c))]


class Expand(Contract):
    """An alternative with one sequence for each order of the children."""
    qual = PAR + '.to_alternative'
    title = 'ParallelCombination.to_alternative'
    bound_text = 'up to 4 children; each of them any task'

    def configs(self):
        return [1, 2, 3, 4]

    def args(self, I):
        world(I)
        E = I.E
        self.ids = [E.fresh_int('child') for _ in range(self.cfg)]
        self.name = E.fresh(TStr, 'name')
        return [obj(I, PAR, children=I.new_cont('list', Seq.of([RefV('Node', c) for c in self.ids])), proba=None, _name=self.name,
                    highlighted=E.fresh(TBool, 'highlighted'), idx=E.fresh_int('idx'), parent=None)]

    def post(self, I, a, old, r):
        if not (isinstance(r, ObjV) and r.cls.qual == ALT):
            return [('an alternative', False)]
        cs = content(I, F(I, r, 'children')).items
        orders = list(permutations(range(self.cfg)))
        p = content(I, I.getattr(r, 'proba'))
        out = [('an alternative of all orders', cs is not None and len(cs) == len(orders)),
               ('named like the node', str_term(I.getattr(r, 'name')) == str_term(self.name)),
               ('highlighted like it', boolx(I.getattr(r, 'highlighted')) == boolx(I.getattr(a[0], 'highlighted'))),
               ('uniform probabilities', AND(eqn(p.n, len(orders)), ALL_(p, len(orders))))]
        if cs is None or len(cs) != len(orders):
            return out
        found = []
        for i, s in enumerate(cs):
            s = I.resolve(s)
            o = orders[0]
            ok = isinstance(s, ObjV) and s.cls.qual == SEQ
            its = content(I, F(I, s, 'children')).items if ok else None
            ok = its is not None and len(its) == len(o)
            fmt = str_term('{} order-%d' % i)
            if ok:
                # the order of this sequence: whose copies it holds
                o = [next((j for j in o if I.E.valid(COPY(intx(x.id), self.ids[j], fmt))), 0) for x in its]
            found.append(tuple(o))
            out.append(('sequence %d' % i, AND(
                str_term(I.getattr(s, 'name')) == str_term(mkstr([self.name, ' order-%d' % i])),
                *[COPY(intx(x.id), self.ids[j], fmt) for x, j in zip(its, o)]) if ok else False))
        return out + [('each order once', sorted(found) == sorted(orders))]


def ALL_(p, n):
    return AND(*[real(p.get(i)) * n == 1 for i in range(n)])


TRUSTED = ['itertools.permutations yields every order once (library)']
ASSUMPTIONS = ['copies of trees: COPY(copy, original, format) is the relation of the contracts of deep_copy, by induction on the height',
               'probabilities are compared with the sum of one up to the tolerance of numpy.isclose']
CONTRACTS = [Copy(), Leaf(), Deep(SEQ), Deep(PAR), Deep(ALT), Given(), Uniform(), Expand()]
