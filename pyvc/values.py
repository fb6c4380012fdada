"""Symbolic values and the small type language used to create them."""
import z3

Str = z3.DeclareSort('Str')
Obj = z3.DeclareSort('Obj')


class Unsupported(Exception):
    """The code left the verified subset: the obligation is reported as failed."""


class PathEnd(Exception):
    """This path needs no further exploration (infeasible or closed)."""


class PyExc(Exception):
    """A Python exception raised by the verified code."""

    def __init__(self, cls, args=(), obj=None, why=''):
        self.cls, self.args_, self.obj, self.why = cls, args, obj, why

    def __str__(self):
        return '%s(%s)' % (self.cls if isinstance(self.cls, str) else self.cls.name, self.why)


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    pass


class Cont_(Exception):
    pass


UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()


class EmptyIndex(Unsupported):
    pass


class Seq(object):
    """Immutable list content."""
    __slots__ = ('n', '_get', 'items', 'base', 'memo', 'meta')

    def __init__(self, n, get=None, items=None, base=None, meta=None):
        self.n, self._get, self.items, self.base, self.memo = n, get, items, base, {}
        self.meta = meta or {}

    @staticmethod
    def of(items):
        items = list(items)
        return Seq(len(items), None, items)

    def get(self, k):
        if self.items is not None:
            if isinstance(k, int):
                return self.items[k]
            if not self.items:
                raise EmptyIndex('symbolic index in empty list')
            r = self.items[-1]
            for i in range(len(self.items) - 2, -1, -1):
                r = ite(k == i, self.items[i], r)
            return r
        from .engine import eng
        e = eng()
        key = k if isinstance(k, int) else k.get_id()
        hit = self.memo.get(key)
        if hit is not None:
            # a value may have been simplified under the path condition of its
            # computation: reuse it only where that path condition still holds
            pc = e.pc
            if len(hit[2]) <= len(pc) and all(a is b for a, b in zip(hit[2], pc)):
                return hit[1]
        v = self._get(k)
        self.memo[key] = (k, v, list(e.pc))
        return v


class NArr(object):
    """Immutable numpy array content.  kind: r(eal) i(nt) b(ool) o(bject)."""
    __slots__ = ('shape', 'get', 'kind', 'meta')

    def __init__(self, shape, get, kind='r', meta=None):
        self.shape, self.get, self.kind, self.meta = tuple(shape), get, kind, meta or {}


class SetC(object):
    """Immutable set content given by a membership predicate over z3 terms/values."""
    __slots__ = ('mem', 'items', 'elty', 'meta')

    def __init__(self, mem, items=None, elty=None, meta=None):
        self.mem, self.items, self.elty, self.meta = mem, items, elty, meta or {}


class DictC(object):
    __slots__ = ('has', 'get', 'items', 'kty', 'meta')

    def __init__(self, has=None, get=None, items=None, kty=None, meta=None):
        self.has, self.get, self.items, self.kty, self.meta = has, get, items, kty, meta or {}


# -- lvalues ---------------------------------------------------------------
class Loc(object):
    __slots__ = ('id',)

    def __init__(self, id): self.id = id
    def key(self): return ('loc', self.id)
    def __repr__(self): return 'Loc%d' % self.id


class FieldLV(object):
    __slots__ = ('cls', 'field', 'ref')

    def __init__(self, cls, field, ref): self.cls, self.field, self.ref = cls, field, ref
    def key(self): return ('field', self.cls, self.field)


class AttrLV(object):
    """Container stored (frozen) in a field of an allocated object."""
    __slots__ = ('loc', 'field')

    def __init__(self, loc, field): self.loc, self.field = loc, field
    def key(self): return ('loc', self.loc)


class SubLV(object):
    __slots__ = ('parent', 'idx', 'epoch')

    def __init__(self, parent, idx, epoch): self.parent, self.idx, self.epoch = parent, idx, epoch
    def key(self): return self.parent.key()


class Frozen(object):
    """A container embedded as a value (no identity)."""
    __slots__ = ('content',)

    def __init__(self, content): self.content = content
    def key(self): return None


class ContV(object):
    """A container value: kind in list, set, dict."""
    __slots__ = ('kind', 'lv')

    def __init__(self, kind, lv): self.kind, self.lv = kind, lv
    def __repr__(self): return '<%s %s>' % (self.kind, self.lv)


class NDV(object):
    """numpy array value: a view on a base.  view: list over base dims of
    ('fix', e) or ('dim', d, start); shape: list over view dims."""
    __slots__ = ('lv', 'view', 'shape')

    def __init__(self, lv, view, shape): self.lv, self.view, self.shape = lv, view, tuple(shape)
    def __repr__(self): return '<nd %s>' % (self.shape,)


class ObjV(object):
    __slots__ = ('loc', 'cls')

    def __init__(self, loc, cls): self.loc, self.cls = loc, cls
    def __repr__(self): return '<%s#%d>' % (self.cls.name, self.loc)


class RefV(object):
    """Symbolic reference; cls is a class name key of the declared field table."""
    __slots__ = ('cls', 'id')

    def __init__(self, cls, id): self.cls, self.id = cls, id
    def __repr__(self): return '<ref %s %s>' % (self.cls, self.id)


class Opt(object):
    __slots__ = ('none', 'val')

    def __init__(self, none, val): self.none, self.val = none, val
    def __repr__(self): return '<opt %s %s>' % (self.none, self.val)


class NanV(object):
    """A float which is NaN when isnan."""
    __slots__ = ('isnan', 'val')

    def __init__(self, isnan, val): self.isnan, self.val = isnan, val


class StrV(object):
    """Structured symbolic string: normalised tuple of pieces (str | z3 Str)."""
    __slots__ = ('pieces',)

    def __init__(self, pieces): self.pieces = tuple(pieces)
    def __repr__(self): return '<str %s>' % (self.pieces,)


class FuncV(object):
    def __init__(self, node, frame, module, cls=None, name=None):
        self.node, self.frame, self.module, self.cls = node, frame, module, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults = None
        self.qual = None

    def __repr__(self): return '<func %s>' % (self.qual or self.name)


class BoundV(object):
    def __init__(self, func, self_): self.func, self.self_ = func, self_
    def __repr__(self): return '<bound %s>' % self.func


class ClassV(object):
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.attrs = {}
        self.overrides = {}

    @property
    def qual(self): return self.module.name + ':' + self.name

    def mro(self):
        r = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, ClassV) else [b]):
                if c in r:
                    r.remove(c)
                r.append(c)
        return r

    def __repr__(self): return '<class %s>' % self.name


class PropV(object):
    def __init__(self, fget, fset=None): self.fget, self.fset = fget, fset


class StaticV(object):
    def __init__(self, f): self.f = f


class ClassMV(object):
    def __init__(self, f): self.f = f


class Builtin(object):
    def __init__(self, name, fn=None): self.name, self.fn = name, fn
    def __repr__(self): return '<builtin %s>' % self.name


class SuperV(object):
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_


class IterV(object):
    """A one-shot iterator over a Seq (zip, map, filter, enumerate...)."""
    def __init__(self, seq): self.seq = seq


class SliceV(object):
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step


ELLIPSIS = Builtin('Ellipsis')
NEWAXIS = Builtin('newaxis')


# -- scalar helpers ----------------------------------------------------------
def is_z(v): return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, float)) or
            (is_z(v) and (z3.is_arith(v) or z3.is_bool(v))))


def is_boolish(v): return isinstance(v, bool) or (is_z(v) and z3.is_bool(v))


def is_intish(v):
    return isinstance(v, (int, bool)) or (is_z(v) and (z3.is_bool(v) or z3.is_int(v)))


def rat(f):
    from fractions import Fraction
    if isinstance(f, bool):
        f = int(f)
    if isinstance(f, int):
        return z3.RealVal(f)
    if f != f or f in (float('inf'), float('-inf')):
        raise Unsupported('non finite float constant')
    fr = Fraction(repr(f))
    return z3.RealVal(str(fr))


def real(v):
    if isinstance(v, (bool, int, float)):
        return rat(v)
    if z3.is_bool(v):
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(v):
        return z3.ToReal(v)
    return v


def intx(v):
    """Int-sorted z3 term."""
    if isinstance(v, (bool, int)):
        return z3.IntVal(int(v))
    if is_z(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if is_z(v) and z3.is_int(v):
        return v
    raise Unsupported('int expected: %r' % (v,))


def boolx(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def z(v):
    """z3 term for a scalar."""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return rat(v)
    if is_z(v):
        return v
    if isinstance(v, (str, StrV)):
        return str_term(v)
    if isinstance(v, RefV):
        return v.id
    raise Unsupported('no z3 term for %r' % (v,))


def AND(*cs):
    out = []
    for c in cs:
        if c is True or (is_z(c) and z3.is_true(c)):
            continue
        if c is False or (is_z(c) and z3.is_false(c)):
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*cs):
    out = []
    for c in cs:
        if c is False or (is_z(c) and z3.is_false(c)):
            continue
        if c is True or (is_z(c) and z3.is_true(c)):
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(c):
    if isinstance(c, bool):
        return not c
    if z3.is_true(c):
        return False
    if z3.is_false(c):
        return True
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def IMP(a, b):
    return OR(NOT(a), b) if isinstance(a, bool) or isinstance(b, bool) else z3.Implies(a, b)


def coerce2(a, b):
    """Bring two numbers to a common z3 sort (at least one symbolic)."""
    if isinstance(a, float) or isinstance(b, float) or \
            (is_z(a) and z3.is_real(a)) or (is_z(b) and z3.is_real(b)):
        return real(a), real(b)
    return intx(a), intx(b)


def _pynum(v): return isinstance(v, (int, float)) and not isinstance(v, bool) or isinstance(v, bool)


from fractions import Fraction as _F


def _fexact(v):
    return _F(repr(v)) if isinstance(v, float) else _F(int(v))


def _unf(fr, like_float):
    if like_float:
        f = float(fr)
        if _F(repr(f)) == fr:
            return f
        return z3.RealVal(str(fr))
    return int(fr)


def _finite(v): return v == v and v not in (float('inf'), float('-inf'))


def add(a, b):
    if _pynum(a) and _pynum(b):
        if not (_finite(a) and _finite(b)):
            return a + b
        return _unf(_fexact(a) + _fexact(b), isinstance(a, float) or isinstance(b, float))
    if isinstance(a, (int, float)) and a == 0 and not (isinstance(a, float) and z3.is_int(b)):
        return b if not z3.is_bool(b) else intx(b)
    if isinstance(b, (int, float)) and b == 0 and not (isinstance(b, float) and z3.is_int(a)):
        return a if not z3.is_bool(a) else intx(a)
    x, y = coerce2(a, b)
    return x + y


def sub(a, b):
    if _pynum(a) and _pynum(b):
        if not (_finite(a) and _finite(b)):
            return a - b
        return _unf(_fexact(a) - _fexact(b), isinstance(a, float) or isinstance(b, float))
    if isinstance(b, (int, float)) and b == 0 and not (isinstance(b, float) and z3.is_int(a)):
        return a if not z3.is_bool(a) else intx(a)
    x, y = coerce2(a, b)
    if x.eq(y):
        return 0 if z3.is_int(x) else 0.0
    return x - y


def mul(a, b):
    if _pynum(a) and _pynum(b):
        if not (_finite(a) and _finite(b)):
            return a * b
        return _unf(_fexact(a) * _fexact(b), isinstance(a, float) or isinstance(b, float))
    if isinstance(a, (int, float)) and a == 1 and not (isinstance(a, float) and z3.is_int(b)):
        return b if not z3.is_bool(b) else intx(b)
    if isinstance(b, (int, float)) and b == 1 and not (isinstance(b, float) and z3.is_int(a)):
        return a if not z3.is_bool(a) else intx(a)
    x, y = coerce2(a, b)
    return x * y


def div(a, b):
    """True division (b known non zero)."""
    if _pynum(a) and _pynum(b) and b != 0:
        if not (_finite(a) and _finite(b)):
            return a / b
        return _unf(_fexact(a) / _fexact(b), True)
    return real(a) / real(b)


def neg(a):
    if _pynum(a):
        return -a
    if z3.is_bool(a):
        a = intx(a)
    return -a


def cmp(op, a, b):
    import operator
    if _pynum(a) and _pynum(b):
        return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
                '==': operator.eq, '!=': operator.ne}[op](a, b)
    if op in ('==', '!=') and is_z(a) and is_z(b) and a.sort() == b.sort():
        r = True if a.eq(b) else a == b
        return r if op == '==' else NOT(r)
    x, y = coerce2(a, b)
    if x.eq(y):
        return op in ('<=', '>=', '==')
    return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
            '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()


def lt(a, b): return cmp('<', a, b)
def le(a, b): return cmp('<=', a, b)
def eqn(a, b): return cmp('==', a, b)


# -- strings -----------------------------------------------------------------
_cat = z3.Function('str.cat', Str, Str, Str)
_lits = {}


def lit(s):
    if s not in _lits:
        _lits[s] = z3.Const('lit:' + s, Str)
    return _lits[s]


def all_lits():
    return list(_lits.values())


def norm_pieces(ps):
    out = []
    for p in ps:
        if isinstance(p, StrV):
            p = p.pieces
        else:
            p = (p,)
        for q in p:
            if isinstance(q, str):
                if q == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + q
                    continue
            out.append(q)
    return out


def mkstr(ps):
    ps = norm_pieces(ps)
    if not ps:
        return ''
    if len(ps) == 1:
        return ps[0]
    return StrV(ps)


def is_str(v):
    return isinstance(v, (str, StrV)) or (is_z(v) and v.sort() == Str)


def str_term(v):
    if isinstance(v, str):
        return lit(v)
    if isinstance(v, StrV):
        ts = [str_term(p) for p in v.pieces]
        r = ts[-1]
        for t in reversed(ts[:-1]):
            r = _cat(t, r)
        return r
    return v


# -- merging -----------------------------------------------------------------
class CannotMerge(Unsupported):
    pass


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if is_num(a) and is_num(b):
        if _pynum(a) and _pynum(b) and type(a) == type(b) and a == b:
            return a
        if is_boolish(a) and is_boolish(b):
            x, y = boolx(a), boolx(b)
        else:
            x, y = coerce2(a, b)
        return x if x.eq(y) else z3.If(c, x, y)
    if isinstance(a, NanV) or isinstance(b, NanV):
        A = a if isinstance(a, NanV) else NanV(False, a)
        B = b if isinstance(b, NanV) else NanV(False, b)
        return NanV(ite(c, A.isnan, B.isnan), ite(c, A.val, B.val))
    if a is None and b is None:
        return None
    if a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt):
        def parts(v):
            if v is None:
                return True, None
            if isinstance(v, Opt):
                return v.none, v.val
            return False, v
        an, av = parts(a)
        bn, bv = parts(b)
        if av is None:
            v = bv
        elif bv is None:
            v = av
        else:
            v = ite(c, av, bv)
        n = ite(c, an, bn)
        if n is True:
            return None
        if n is False:
            return v
        return Opt(n, v)
    if is_str(a) and is_str(b):
        x, y = str_term(a), str_term(b)
        return a if x.eq(y) else z3.If(c, x, y)
    if is_z(a) and is_z(b) and a.sort() == b.sort():
        return a if a.eq(b) else z3.If(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, RefV) and isinstance(b, RefV) and a.cls == b.cls:
        return RefV(a.cls, ite(c, a.id, b.id))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return Seq.of([ite(c, x, y) for x, y in zip(a.items, b.items)])

        def g(k):
            # outside one side's range only the other side is meaningful
            if a.items is not None and len(a.items) == 0:
                return b.get(k)
            if b.items is not None and len(b.items) == 0:
                return a.get(k)
            return ite(c, a.get(k), b.get(k))
        return Seq(ite(c, a.n, b.n), g)
    if isinstance(a, NArr) and isinstance(b, NArr) and len(a.shape) == len(b.shape):
        kind = a.kind if a.kind == b.kind else ('r' if 'r' in (a.kind, b.kind) else 'o')
        return NArr([ite(c, x, y) for x, y in zip(a.shape, b.shape)],
                    lambda *i: ite(c, a.get(*i), b.get(*i)), kind)
    if isinstance(a, SetC) and isinstance(b, SetC):
        return SetC(lambda x: OR(AND(c, a.mem(x)), AND(NOT(c), b.mem(x))), elty=a.elty or b.elty)
    if isinstance(a, DictC) and isinstance(b, DictC):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items) and \
                all(x[0] == y[0] for x, y in zip(a.items, b.items)
                    if isinstance(x[0], (str, int)) and isinstance(y[0], (str, int))):
            return DictC(items=[(x[0], ite(c, x[1], y[1])) for x, y in zip(a.items, b.items)])
        a, b = _sym_dict(a), _sym_dict(b)
        if a.has is not None and b.has is not None:
            if a.get is None or b.get is None:
                return DictC(has=lambda x: OR(AND(c, a.has(x)), AND(NOT(c), b.has(x))),
                             get=a.get or b.get, kty=a.kty or b.kty)
            return DictC(has=lambda x: OR(AND(c, a.has(x)), AND(NOT(c), b.has(x))),
                         get=lambda x: ite(c, a.get(x), b.get(x)), kty=a.kty or b.kty)
    if isinstance(a, ContV) and isinstance(b, ContV) and a.kind == b.kind:
        if isinstance(a.lv, Frozen) and isinstance(b.lv, Frozen):
            return ContV(a.kind, Frozen(ite(c, a.lv.content, b.lv.content)))
    if isinstance(a, NDV) and isinstance(b, NDV):
        if isinstance(a.lv, Frozen) and isinstance(b.lv, Frozen):
            x, y = a.lv.content, b.lv.content
            m = ite(c, x, y)
            return NDV(Frozen(m), [('dim', i, 0) for i in range(len(m.shape))], m.shape)
    if type(a) is type(b) and isinstance(a, (FuncV, ClassV, Builtin)) and a is b:
        return a
    raise CannotMerge('cannot merge %r and %r' % (a, b))


def _sym_dict(d):
    """A dictionary with listed items (keys: numbers) as membership and lookup functions."""
    if d.items is None or not all(is_num(k) for k, _ in d.items):
        return d
    its = list(d.items)

    def get(x):
        r = its[-1][1]
        for k, v in reversed(its[:-1]):
            r = ite(boolx(eqn(x, k)), v, r)
        return r
    return DictC(has=lambda x: OR(*[eqn(x, k) for k, _ in its]) if its else z3.BoolVal(False),
                 get=get if its else None, kty=d.kty)


def subst(v, pairs):
    """Substitute z3 constants by terms in a value.  pairs: [(const, term)]."""
    if is_z(v):
        return z3.substitute(v, *pairs)
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, StrV):
        return mkstr([subst(p, pairs) for p in v.pieces])
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Opt):
        return Opt(subst(v.none, pairs), subst(v.val, pairs))
    if isinstance(v, NanV):
        return NanV(subst(v.isnan, pairs), subst(v.val, pairs))
    if isinstance(v, RefV):
        return RefV(v.cls, subst(v.id, pairs))
    if isinstance(v, Seq):
        if v.items is not None:
            return Seq.of([subst(x, pairs) for x in v.items])
        # index first with fresh constant to avoid capturing substituted constants
        def g(k, v=v):
            kc = z3.FreshConst(z3.IntSort(), 'ix')
            return subst(subst(v.get(kc), pairs), [(kc, intx(k))])
        r = Seq(subst(v.n, pairs), g)

        def wrap1(f):
            def h(k):
                kc = z3.FreshConst(z3.IntSort(), 'ix')
                return subst(subst(f(kc), pairs), [(kc, intx(k))])
            return h
        if 'sel' in v.meta:
            n, test, idx = v.meta['sel']
            r.meta['sel'] = (subst(n, pairs), wrap1(test), wrap1(idx))
        if 'blocks' in v.meta:
            r.meta['blocks'] = subst(v.meta['blocks'], pairs)
        return r
    if isinstance(v, NArr):
        def g2(*ix):
            ks = [z3.FreshConst(z3.IntSort(), 'ix') for _ in ix]
            return subst(subst(v.get(*ks), pairs), [(k, intx(i)) for k, i in zip(ks, ix)])
        return NArr([subst(s, pairs) for s in v.shape], g2, v.kind)
    if isinstance(v, SetC):
        def m(x):
            if v.items is not None:
                from .engine import eng
                return OR(*[eng().eq(subst(i, pairs), x) for i in v.items])
            if not is_z(x):
                return subst(v.mem(x), pairs)
            c = z3.FreshConst(x.sort(), 'el')
            r = v.mem(c)
            return subst(subst(boolx(r), pairs), [(c, x)])
        return SetC(m, [subst(i, pairs) for i in v.items] if v.items is not None else None, v.elty)
    if isinstance(v, DictC):
        if v.items is not None:
            return DictC(items=[(subst(a, pairs), subst(b, pairs)) for a, b in v.items])

        def wrap(f):
            def h(x):
                if not is_z(x):
                    return subst(f(x), pairs)
                c = z3.FreshConst(x.sort(), 'el')
                return subst(subst(f(c), pairs), [(c, x)])
            return h
        return DictC(has=wrap(lambda x: boolx(v.has(x))), get=wrap(v.get), kty=v.kty)
    if isinstance(v, ContV):
        if isinstance(v.lv, Frozen):
            return ContV(v.kind, Frozen(subst(v.lv.content, pairs)))
        if isinstance(v.lv, FieldLV):
            return ContV(v.kind, FieldLV(v.lv.cls, v.lv.field, subst(v.lv.ref, pairs)))
        if isinstance(v.lv, SubLV):
            raise Unsupported('substitution in element reference')
        return v
    if isinstance(v, NDV):
        lv = Frozen(subst(v.lv.content, pairs)) if isinstance(v.lv, Frozen) else v.lv
        if isinstance(lv, FieldLV):
            lv = FieldLV(lv.cls, lv.field, subst(lv.ref, pairs))
        return NDV(lv, [('fix', subst(w[1], pairs)) if w[0] == 'fix' else
                        ('dim', w[1], subst(w[2], pairs)) for w in v.view],
                   [subst(s, pairs) for s in v.shape])
    if isinstance(v, (ObjV, FuncV, ClassV, Builtin, BoundV)):
        return v
    if v is UNDEF:
        return v
    raise Unsupported('substitution in %r' % (v,))


# -- type language -------------------------------------------------------------
class Ty(object):
    pass


class _Scalar(Ty):
    def __init__(self, name, sort): self.name, self.sort = name, sort
    def __repr__(self): return self.name


TInt = _Scalar('int', z3.IntSort())
TReal = _Scalar('real', z3.RealSort())
TBool = _Scalar('bool', z3.BoolSort())
TStr = _Scalar('str', Str)
TObj = _Scalar('obj', Obj)


class TRef(Ty):
    def __init__(self, cls): self.cls = cls


class TOpt(Ty):
    def __init__(self, t): self.t = t


class TTup(Ty):
    def __init__(self, *ts): self.ts = ts


class TList(Ty):
    def __init__(self, t): self.t = t


class TArr(Ty):
    def __init__(self, nd, kind='r'): self.nd, self.kind = nd, kind


class TSet(Ty):
    def __init__(self, t): self.t = t


class TDict(Ty):
    def __init__(self, k, v): self.k, self.v = k, v


class TConst(Ty):
    def __init__(self, v): self.v = v


NONNEG = {}   # length / shape symbols: always >= 0


def _uf(name, params, sort):
    if not params:
        r = z3.Const(name, sort)
        if '#' in name:
            NONNEG.setdefault(r.decl().get_id(), (r.decl(), r >= 0))
        return r
    f = z3.Function(name, *([p.sort() for p in params] + [sort]))
    if '#' in name and f.get_id() not in NONNEG:
        vs = [z3.Const('nn%d' % i, p.sort()) for i, p in enumerate(params)]
        NONNEG[f.get_id()] = (f, z3.ForAll(vs, f(*vs) >= 0, patterns=[f(*vs)]))
    return f(*params)


KSORT = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort(), 'o': Obj}


def sort_of(ty):
    if isinstance(ty, _Scalar):
        return ty.sort
    if isinstance(ty, TRef):
        return z3.IntSort()
    raise Unsupported('no sort for %r' % ty)


def _flatz(x):
    return [y for v in x for y in _flatz(v)] if isinstance(x, tuple) else [z(x)]


def mk(ty, name, params=()):
    """A symbolic value of the type: constants/functions named by `name`, applied
    to params."""
    params = [z(p) for p in params]
    if isinstance(ty, _Scalar):
        return _uf(name, params, ty.sort)
    if isinstance(ty, TConst):
        return ty.v
    if isinstance(ty, TRef):
        return RefV(ty.cls, _uf(name, params, z3.IntSort()))
    if isinstance(ty, TOpt):
        return Opt(_uf(name + '?none', params, z3.BoolSort()), mk(ty.t, name, params))
    if isinstance(ty, TTup):
        return tuple(mk(t, '%s.%d' % (name, i), params) for i, t in enumerate(ty.ts))
    if isinstance(ty, TList):
        n = _uf(name + '#n', params, z3.IntSort())
        return ContV('list', Frozen(Seq(n, lambda k: mk(ty.t, name + '[]', params + [intx(k)]))))
    if isinstance(ty, TArr):
        shape = [_uf('%s#%d' % (name, d), params, z3.IntSort()) for d in range(ty.nd)]
        arr = NArr(shape, lambda *ix: _uf(name + '[]', params + [intx(i) for i in ix], KSORT[ty.kind]),
                   ty.kind)
        return NDV(Frozen(arr), [('dim', d, 0) for d in range(ty.nd)], shape)
    if isinstance(ty, TSet):
        return ContV('set', Frozen(SetC(
            lambda x: _uf(name + '?in', params + _flatz(x), z3.BoolSort()), elty=ty.t)))
    if isinstance(ty, TDict):
        return ContV('dict', Frozen(DictC(
            has=lambda x: _uf(name + '?has', params + _flatz(x), z3.BoolSort()),
            get=lambda x: mk(ty.v, name + '{}', params + _flatz(x)), kty=ty.k)))
    raise Unsupported('type %r' % (ty,))
