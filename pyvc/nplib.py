"""numpy arrays over the reals: index functions with symbolic shapes."""
import z3
from .values import *
from . import values as V
from .engine import ALL, FA
from . import sums
from . import builtins_ as B

_IS, _RS = z3.IntSort(), z3.RealSort()
NAN = NanV(True, 0.0)


def exc(c):
    from .interp import PyCls
    return PyCls(c)


def nd(I, v):
    base = I.read(v.lv)
    view = v.view
    if len(view) == len(v.shape) and all(w[0] == 'dim' and w[1] == i and isinstance(w[2], int)
                                         and w[2] == 0 for i, w in enumerate(view)):
        if all(isinstance(a, int) and isinstance(b, int) and a == b or
               is_z(a) and is_z(b) and a.eq(b) for a, b in zip(base.shape, v.shape)):
            return base

    def get(*ix):
        return base.get(*[w[1] if w[0] == 'fix' else add(w[2], ix[w[1]]) for w in view])
    return NArr(v.shape, get, base.kind)


def mkarr(a):
    """Value of an array content (0-d arrays become scalars)."""
    if not a.shape:
        return a.get()
    return NDV(Frozen(a), [('dim', d, 0) for d in range(len(a.shape))], a.shape)


def newarr(I, a):
    """A freshly allocated (mutable) array."""
    if not a.shape:
        return a.get()
    loc = I.E.new_loc()
    I.E.store[loc] = a
    return NDV(Loc(loc), [('dim', d, 0) for d in range(len(a.shape))], a.shape)


def index_first(I, a, i):
    if len(a.shape) == 1:
        return a.get(i)
    return mkarr(NArr(a.shape[1:], lambda *ix: a.get(i, *ix), a.kind))


def kind_of(v):
    if is_boolish(v):
        return 'b'
    if is_intish(v):
        return 'i'
    if is_num(v) or isinstance(v, NanV):
        return 'r'
    return 'o'


def join_kind(*ks):
    for k in 'orib':
        if k in ks:
            return k
    return 'r'


def cast(kind, v):
    if kind == 'r' and is_num(v):
        return float(v) if isinstance(v, (bool, int)) else real(v) if is_z(v) else v
    if kind == 'i' and is_num(v):
        return int(v) if isinstance(v, (bool, int)) else intx(v)
    return v


def asnd(I, v, why='array'):
    """NArr of an array-like value."""
    E = I.E
    v = I.resolve(v)
    if isinstance(v, Opt):
        if is_num(v.val) and not I.E.valid(NOT(v.none), quick=True):
            return NArr((), lambda: v, 'o')
        v = I.force(v, why)
    if isinstance(v, NDV):
        return nd(I, v)
    if is_num(v) or isinstance(v, NanV):
        return NArr((), lambda: v, kind_of(v))
    if is_str(v) or v is None or isinstance(v, (ObjV, RefV)):
        return NArr((), lambda: v, 'o')
    if isinstance(v, ContV) and v.kind in ('set', 'dict'):
        return NArr((), lambda: v, 'o')
    s = I.E_list(v)
    if s.items is not None:
        els = [asnd(I, x) for x in s.items]
        if not els:
            return NArr((0,), lambda k: 0.0, 'r')
        nds = set(len(e.shape) for e in els)
        if len(nds) != 1:
            raise PyExc(exc(ValueError), why='inhomogeneous array')
        sh = els[0].shape
        for e in els[1:]:
            for x, y in zip(sh, e.shape):
                E.must(eqn(x, y), exc(ValueError), 'inhomogeneous array')
        kind = join_kind(*[e.kind for e in els])
        q = Seq.of(els)
        seq0 = lambda i, ix: Seq.of([cast(kind, e.get(*ix)) for e in els]).get(i)
        return NArr((len(els),) + tuple(sh), lambda i, *ix: seq0(i, ix), kind)
    if E.branch(eqn(s.n, 0)):
        return NArr((0,), lambda k: 0.0, 'r')
    k = z3.Const(E.fresh_name('k'), _IS)
    with E.bound([k], z3.And(0 <= k, k < s.n)):
        smp = asnd(I, s.get(k))
    first = asnd(I, s.get(0))
    for d in range(len(first.shape)):
        E.must(boolx(E.fa_expr(ALL(s.n, lambda k: eqn(asnd(I, s.get(k)).shape[d],
                                                      first.shape[d])))),
               exc(ValueError), 'inhomogeneous array')
    return NArr((s.n,) + tuple(first.shape), lambda i, *ix: cast(smp.kind, asnd(I, s.get(i)).get(*ix)),
                smp.kind)


def isone(I, d):
    return isinstance(d, int) and d == 1


def same_dim(I, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if is_z(a) and is_z(b) and a.eq(b):
        return True
    return I.E.valid(boolx(eqn(a, b)), quick=True)


def bdim(I, a, b):
    """Broadcast dimension of a and b."""
    if isone(I, a):
        return b
    if isone(I, b):
        return a
    if same_dim(I, a, b):
        return a if isinstance(a, int) else b if isinstance(b, int) else a
    if is_z(a) and I.E.valid(a == 1, quick=True):
        return b
    if is_z(b) and I.E.valid(b == 1, quick=True):
        return a
    I.E.must(eqn(a, b), exc(ValueError), 'broadcast')
    return a


def baccess(I, a, shape):
    """Access function of a broadcast to shape (right aligned)."""
    off = len(shape) - len(a.shape)
    flags = []
    for d, s in enumerate(a.shape):
        t = shape[off + d]
        one = (isone(I, s) and not isone(I, t)) or \
            (is_z(s) and not same_dim(I, s, t) and I.E.valid(s == 1, quick=True))
        flags.append(one or isone(I, s))
    return lambda *ix: a.get(*[0 if f else ix[off + d] for d, f in enumerate(flags)])


def elementwise(I, f, a, b, kind=None):
    x, y = asnd(I, a), asnd(I, b)
    n = max(len(x.shape), len(y.shape))
    sx = (1,) * (n - len(x.shape)) + tuple(x.shape)
    sy = (1,) * (n - len(y.shape)) + tuple(y.shape)
    shape = [bdim(I, p, q) for p, q in zip(sx, sy)]
    gx, gy = baccess(I, x, shape), baccess(I, y, shape)
    k = kind or join_kind(x.kind, y.kind)
    u, v = x.meta.get('unflat', x), y.meta.get('unflat', y)
    if (u is not x or v is not y) and (not x.shape or not y.shape or len(u.shape) == len(v.shape) > 1 and all(
            same_dim(I, p, q) for p, q in zip(u.shape, v.shape))):
        # the same positions of two arrays flattened from one shape
        ux = u.get if u.shape else lambda *ix: u.get()
        vx = v.get if v.shape else lambda *ix: v.get()
        return newarr(I, flattened(NArr(u.shape or v.shape, lambda *ix: f(ux(*ix), vx(*ix)), k)))
    return newarr(I, NArr(shape, lambda *ix: f(gx(*ix), gy(*ix)), k))


def flattened(a):
    """An array of symbolic shape as one dimension; its elements are reached by their position in a."""
    n = 1
    for s in a.shape:
        n = mul(n, s)

    def get(k):
        raise Unsupported('element of a flattened array')
    return NArr((n,), get, a.kind, {'unflat': a})


def map1(I, a, f, kind=None):
    x = asnd(I, a)
    if 'unflat' in x.meta:
        u = x.meta['unflat']
        return newarr(I, flattened(NArr(u.shape, lambda *ix: f(u.get(*ix)), kind or u.kind)))
    return newarr(I, NArr(x.shape, lambda *ix: f(x.get(*ix)), kind or x.kind))


def binop(I, op, a, b):
    E = I.E
    if op in ('Add', 'Sub', 'Mult'):
        f = {'Add': add, 'Sub': sub, 'Mult': mul}[op]

        def g(x, y):
            if isinstance(x, NanV) or isinstance(y, NanV):
                return B.binop(I, op, x, y)
            return f(x, y)
        return elementwise(I, g, a, b)
    if op == 'Div':
        y = asnd(I, b)
        if not y.shape:
            v = y.get()
            if isinstance(v, NanV):
                raise Unsupported('nan denominator')
            E.must(NOT(eqn(v, 0)), exc(FloatingPointError), 'division by zero')
        elif all(isinstance(s, int) for s in y.shape) and prod(y.shape) <= 8:
            for ix in indices(y.shape):
                E.must(NOT(eqn(y.get(*ix), 0)), exc(FloatingPointError), 'division by zero')
        else:
            E.must(boolx(E.fa_expr(ALL(list(y.shape), lambda *ix: NOT(eqn(y.get(*ix), 0))))),
                   exc(FloatingPointError), 'division by zero')
        return elementwise(I, div, a, b, 'r')
    if op in ('Pow', 'FloorDiv', 'Mod'):
        return elementwise(I, lambda x, y: B.num_op(I, op, x, y), a, b)
    if op in ('BitAnd', 'BitOr'):
        f = AND if op == 'BitAnd' else OR
        return elementwise(I, lambda x, y: f(I.truth(x), I.truth(y)), a, b, 'b')
    raise Unsupported('array operator %s' % op)


def prod(sh):
    n = 1
    for s in sh:
        n *= s
    return n


def indices(sh):
    import itertools
    return itertools.product(*[range(s) for s in sh])


def inplace(I, op, a, b):
    r = binop(I, op, a, b)
    assign_view(I, a, lambda ix: True, lambda *ix: None, None, r, full=True)
    return B.DONE


# -- indexing ------------------------------------------------------------------------
def expand(I, o, idx):
    """List of index components, one per view dimension plus newaxis entries."""
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = [I.resolve(x) for x in idx]
    idx = [I.force(x, 'index') if isinstance(x, Opt) else x for x in idx]
    nnew = sum(1 for x in idx if x is None or x is NEWAXIS)
    nell = sum(1 for x in idx if x is ELLIPSIS)
    nreal = len(idx) - nnew - nell
    nd_ = len(o.shape)
    if nreal > nd_:
        raise PyExc(exc(IndexError), why='too many indices')
    out = []
    for x in idx:
        if x is ELLIPSIS:
            out.extend([SliceV(None, None, None)] * (nd_ - nreal))
        else:
            out.append(None if x is NEWAXIS else x)
    if not nell:
        out.extend([SliceV(None, None, None)] * (nd_ - nreal))
    return out


def isfancy(x):
    return isinstance(x, (ContV, IterV)) or isinstance(x, NDV)


def getitem(I, o, idx):
    E = I.E
    if isinstance(idx, NDV) and I.read(idx.lv).kind == 'b':
        raise Unsupported('boolean mask')
    comps = expand(I, o, idx)
    if not any(isfancy(x) or x is None for x in comps):
        # a view
        sel = []
        shape = []
        d = 0
        for x in comps:
            n = o.shape[d]
            if isinstance(x, SliceV):
                lo, hi, ln = dim_slice(I, x, n)
                sel.append(('s', len(shape), lo))
                shape.append(ln)
            else:
                sel.append(('i', B.norm_index(I, x, n, 'array index')))
            d += 1
        view = []
        for w in o.view:
            if w[0] == 'fix':
                view.append(w)
            else:
                s = sel[w[1]]
                if s[0] == 'i':
                    view.append(('fix', add(w[2], s[1])))
                else:
                    view.append(('dim', s[1], add(w[2], s[2])))
        if not shape:
            base = I.read(o.lv)
            return base.get(*[w[1] for w in view])
        return NDV(o.lv, view, shape)
    a = nd(I, o)
    # copy: newaxis and at most one fancy dimension
    shape = []
    acc = []          # per source dim: function of result index -> source index
    d = 0
    nf = 0
    adv = []
    for pos, x in enumerate(comps):
        if x is None:
            shape.append(1)
            continue
        n = a.shape[d]
        if isinstance(x, SliceV):
            lo, hi, ln = dim_slice(I, x, n)
            acc.append((len(shape), lambda k, lo=lo: add(lo, k)))
            shape.append(ln)
        elif isfancy(x):
            nf += 1
            if nf > 1:
                return multi_fancy(I, a, comps)
            q = asnd(I, x)
            if len(q.shape) != 1:
                raise Unsupported('fancy index rank')
            chk_fancy(I, q, n)
            adv.append(pos)
            acc.append((len(shape), lambda k, q=q, n=n: fix_neg(I, q.get(k), n)))
            shape.append(q.shape[0])
        else:
            adv.append(pos)
            i = B.norm_index(I, x, n, 'array index')
            acc.append((None, i))
        d += 1
    if nf and adv and adv[-1] - adv[0] + 1 != len(adv):
        raise Unsupported('separated advanced indices')
    return newarr(I, NArr(shape, lambda *ix: a.get(*[i if p is None else i(ix[p]) for p, i in acc]),
                          a.kind))


def multi_fancy(I, a, comps):
    qs = [asnd(I, x) if isfancy(x) else x for x in comps]
    if all(isinstance(q, NArr) and len(q.shape) == 1 and isinstance(q.shape[0], int) for q in qs):
        n = qs[0].shape[0]
        for q, d in zip(qs, a.shape):
            chk_fancy(I, q, d)
        return newarr(I, NArr((n,), lambda k: a.get(*[fix_neg(I, q.get(k), d)
                                                      for q, d in zip(qs, a.shape)]), a.kind))
    raise Unsupported('several fancy indices')


def chk_fancy(I, q, n):
    E = I.E
    if isinstance(q.shape[0], int):
        for k in range(q.shape[0]):
            B.norm_index(I, q.get(k), n, 'fancy index')
        return
    E.must(boolx(E.fa_expr(ALL(q.shape[0], lambda k: AND(le(neg(n), q.get(k)), lt(q.get(k), n))))),
           exc(IndexError), 'fancy index')


def fix_neg(I, i, n):
    c = lt(i, 0)
    if c is True:
        return add(i, n)
    if c is False or I.E.valid(NOT(c), quick=True):
        return i
    return ite(c, add(i, n), i)


def dim_slice(I, x, n):
    if x.step not in (None, 1):
        raise Unsupported('array slice step')
    lo, hi = B.clip_bounds(I, x, n)
    if x.lo is None and x.hi is None:
        return 0, n, n
    ln = sub(hi, lo)
    c = le(lo, hi)
    if c is not True and not I.E.valid(boolx(c), quick=True):
        ln = ite(c, ln, 0)
    return lo, hi, simp(ln)


def simp(t):
    if is_z(t):
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
    return t


def setitem(I, o, idx, val):
    E = I.E
    if isinstance(idx, NDV) and I.read(idx.lv).kind == 'b':
        return set_mask(I, o, idx, val)
    comps = expand(I, o, idx)
    conds = []       # per view dim: function index -> Bool
    pos = []         # per view dim: None or (result dim, function index -> result index)
    shape = []
    adv = []
    d = 0
    for p, x in enumerate(comps):
        if x is None:
            raise Unsupported('newaxis in assignment')
        n = o.shape[d]
        if isinstance(x, SliceV):
            lo, hi, ln = dim_slice(I, x, n)
            if isinstance(lo, int) and lo == 0 and (hi is n):
                conds.append(lambda b: True)
            else:
                conds.append(lambda b, lo=lo, hi=hi: AND(le(lo, b), lt(b, hi)))
            pos.append((len(shape), lambda b, lo=lo: sub(b, lo)))
            shape.append(ln)
        elif isfancy(x):
            q = asnd(I, x)
            if len(q.shape) != 1 or q.kind not in ('i', 'r'):
                raise Unsupported('fancy index')
            chk_fancy(I, q, n)
            adv.append(p)
            mem, inv = scatter(I, q, n)
            conds.append(mem)
            pos.append((len(shape), inv))
            shape.append(q.shape[0])
        else:
            i = B.norm_index(I, x, n, 'array index')
            adv.append(p)
            conds.append(lambda b, i=i: eqn(b, i))
            pos.append(None)
        d += 1
    nf = [x for x in comps if isfancy(x)]
    if len(nf) > 1:
        raise Unsupported('several fancy indices')
    v = asnd(I, val)
    if nf and adv[-1] - adv[0] + 1 != len(adv) and len(v.shape) > 0:
        raise Unsupported('separated advanced indices')
    v = squeeze_lead(I, v, len(shape))
    for k in range(len(v.shape)):
        sdim = shape[len(shape) - len(v.shape) + k]
        if not isone(I, v.shape[k]):
            if not same_dim(I, v.shape[k], sdim) and not (
                    is_z(v.shape[k]) and E.valid(v.shape[k] == 1, quick=True)):
                E.must(eqn(v.shape[k], sdim), exc(ValueError), 'broadcast in assignment')
    g = baccess(I, v, shape)

    def newval(*ix):
        return g(*[f(ix[dd]) for dd, pf in enumerate(pos) if pf is not None for f in [pf[1]]])

    def cond(ix):
        return AND(*[c(b) for c, b in zip(conds, ix)])
    write_view(I, o, cond, newval, v.kind)


def squeeze_lead(I, v, n):
    while len(v.shape) > n:
        if not isone(I, v.shape[0]):
            raise PyExc(exc(ValueError), why='broadcast in assignment')
        v = NArr(v.shape[1:], lambda *ix, v=v: v.get(0, *ix), v.kind)
    return v


def assign_view(I, o, cond, newval, _, r, full):
    v = asnd(I, r)
    for s, t in zip(v.shape, o.shape):
        if not same_dim(I, s, t):
            I.E.must(eqn(s, t), exc(ValueError), 'in place broadcast')
    if len(v.shape) > len(o.shape):
        raise PyExc(exc(ValueError), why='in place broadcast')
    g = baccess(I, v, o.shape)
    write_view(I, o, lambda ix: True, g, v.kind)


def set_mask(I, o, idx, val):
    m = nd(I, idx)
    v = asnd(I, val)
    if v.shape:
        raise Unsupported('mask assignment of an array')
    write_view(I, o, lambda ix: I.truth(m.get(*ix)), lambda *ix: v.get(), v.kind)


def write_view(I, o, cond, newval, vkind):
    base = I.read(o.lv)
    view, shape = o.view, o.shape
    if base.kind == 'i' and vkind == 'r':
        raise Unsupported('real value stored in an integer array')
    if base.kind == 'b' and vkind != 'b':
        raise Unsupported('number stored in a boolean array')
    kind = base.kind
    nv = len(shape)

    def get(*bx):
        ix = [None] * nv
        c = True
        for w, b in zip(view, bx):
            if w[0] == 'fix':
                c = AND(c, eqn(b, w[1]))
            else:
                i = sub(b, w[2])
                ix[w[1]] = i
                if not (isinstance(w[2], int) and w[2] == 0) or not \
                        same_base_dim(base, view, shape, w):
                    c = AND(c, le(0, i), lt(i, shape[w[1]]))
        if c is False:
            return base.get(*bx)
        c = AND(c, cond(ix))
        if c is True:
            return cast(kind, newval(*ix))
        if c is False:
            return base.get(*bx)
        return ite(c, cast(kind, newval(*ix)), base.get(*bx))
    # integer arrays initialised by zeros/ones keep their kind
    I.write(o.lv, NArr(base.shape, memo(get), kind, base.meta))


def memo(get):
    """Index functions are pure: remember values per index and path condition."""
    return get


def same_base_dim(base, view, shape, w):
    b = base.shape[view.index(w)]
    s = shape[w[1]]
    return isinstance(b, int) and isinstance(s, int) and b == s or is_z(b) and is_z(s) and b.eq(s)


def scatter(I, q, n):
    """Membership and (last) position of an index in a fancy index list."""
    E = I.E
    if isinstance(q.shape[0], int):
        its = [fix_neg(I, q.get(k), n) for k in range(q.shape[0])]
        mem = lambda b: OR(*[eqn(b, i) for i in its])

        def inv(b):
            if not its:
                return 0
            r = 0
            for k, i in enumerate(its):
                if k:
                    r = ite(eqn(b, i), k, r)
            return r
        return mem, inv
    bp = E.bparams()
    nm = E.uniq_name('sc')
    mem_d = z3.Function(nm + '.mem', *([p.sort() for p in bp] + [_IS, z3.BoolSort()]))
    inv_d = z3.Function(nm + '.inv', *([p.sort() for p in bp] + [_IS, _IS]))
    mem = lambda b: mem_d(*(bp + [intx(b)]))
    inv = lambda b: inv_d(*(bp + [intx(b)]))
    L = Seq(q.shape[0], lambda k: fix_neg(I, q.get(k), n))
    m = q.shape[0]
    E.assume(FA([_IS], lambda b: True,
                lambda b: IMP(mem(b), AND(0 <= inv(b), inv(b) < m, eqn(L.get(inv(b)), b))),
                lambda b: [mem(b)]))
    E.assume(FA([_IS], lambda k: AND(le(0, k), lt(k, m)),
                lambda k: AND(mem(L.get(k)), inv(L.get(k)) >= k)))
    sc = sums.Scatter(mem_d, inv_d, L, bp)
    sums.SCATTER[mem_d.get_id()] = sc
    sums._keep.append(mem_d)
    return mem, inv


# -- reductions ------------------------------------------------------------------------
def norm_axis(ax, n):
    if not isinstance(ax, int):
        raise Unsupported('axis')
    if ax < 0:
        ax += n
    if not 0 <= ax < n:
        raise PyExc(exc(ValueError), why='axis')
    return ax


def reduce_(I, v, axis, red, kind=None, keep=False):
    """red(n, f) reduces the function f over [0, n)."""
    a = asnd(I, v)
    a = a.meta.get('unflat', a) if axis is None else a
    n = len(a.shape)
    if axis is None:
        r = lambda pre, d: a.get(*pre) if d == n else red(a.shape[d], lambda k: r(pre + [k], d + 1))
        return r([], 0)
    ax = norm_axis(axis, n)
    sh = list(a.shape[:ax]) + list(a.shape[ax + 1:])

    def get(*ix):
        return red(a.shape[ax], lambda k: a.get(*(list(ix[:ax]) + [k] + list(ix[ax:]))))
    if not sh:
        return get()
    return newarr(I, NArr(sh, get, kind or a.kind))


def np_sum(I, v, axis=None, **kw):
    if kw:
        raise Unsupported('sum options')
    a = asnd(I, v)
    k = a.kind

    def red(n, f):
        r = sums.sum_over(I.E, n, f)
        return cast(k, r) if k == 'r' else r
    return reduce_(I, v, axis, red, 'i' if k == 'b' else k)


def count_nonzero(I, v):
    """How many elements differ from zero: at least whether there is one."""
    a = asnd(I, v)
    a = a.meta.get('unflat', a)
    if all(isinstance(s, int) for s in a.shape):
        return np_sum(I, map1(I, v, lambda x: NOT(eqn(x, 0)), 'b'))
    c = I.E.fresh_int('nonzeros')
    I.E.assume(c >= 0)
    zero = I.E.fa_expr(ALL(list(a.shape), lambda *ix: eqn(a.get(*ix), 0)))
    I.E.assume((c == 0) == boolx(zero))
    return c


def np_all(I, v, axis=None):
    def red(n, f):
        if isinstance(n, int):
            return AND(*[I.truth(f(k)) for k in range(n)])
        return I.E.fa_expr(ALL(n, lambda k: I.truth(f(k))))
    return reduce_(I, v, axis, red, 'b')


def np_any(I, v, axis=None):
    def red(n, f):
        if isinstance(n, int):
            return OR(*[I.truth(f(k)) for k in range(n)])
        return NOT(I.E.fa_expr(ALL(n, lambda k: NOT(I.truth(f(k))))))
    return reduce_(I, v, axis, red, 'b')


def flat1(I, v):
    """1-d content (only 1-d arrays or concrete shapes)."""
    a = asnd(I, v)
    if len(a.shape) == 1:
        return a
    if len(a.shape) == 2 and isone(I, a.shape[1]):
        return NArr(a.shape[:1], lambda k: a.get(k, 0), a.kind)
    if len(a.shape) == 2 and isone(I, a.shape[0]):
        return NArr(a.shape[1:], lambda k: a.get(0, k), a.kind)
    if all(isinstance(s, int) for s in a.shape):
        its = [a.get(*ix) for ix in indices(a.shape)]
        return NArr((len(its),), lambda k: Seq.of(its).get(k), a.kind)
    if len(a.shape) == 2:
        c = a.shape[1]
        return NArr((mul(a.shape[0], c),), lambda k: a.get(intx(k) / intx(c), intx(k) % intx(c)), a.kind)
    return flattened(a)


def seq1(I, v):
    a = flat1(I, v)
    if isinstance(a.shape[0], int):
        return Seq.of([a.get(k) for k in range(a.shape[0])])
    return Seq(a.shape[0], lambda k: a.get(k))


def np_arg(op):
    def f(I, v, axis=None):
        if axis is not None:
            raise Unsupported('argmax axis')
        s = seq1(I, v)
        I.E.must(lt(0, s.n), exc(ValueError), 'argmax of an empty array')
        return B.extremum(I, s, lambda x, y: nanless(I, op, x, y))
    return f


def nanless(I, op, x, y):
    """numpy order for argmax/argmin: nan is extremal."""
    if isinstance(x, NanV) or isinstance(y, NanV):
        X = x if isinstance(x, NanV) else NanV(False, x)
        Y = y if isinstance(y, NanV) else NanV(False, y)
        return AND(NOT(Y.isnan), OR(X.isnan, B.compare(I, op, X.val, Y.val)))
    return B.compare(I, op, x, y)


def np_ext(op):
    def f(I, v, axis=None):
        if axis is not None:
            raise Unsupported('max axis')
        s = seq1(I, v)
        I.E.must(lt(0, s.n), exc(ValueError), 'max of an empty array')
        return s.get(B.extremum(I, s, lambda x, y: nanless(I, op, x, y)))
    return f


def np_nanext(op):
    """nanmax/nanmin: nan when every entry is nan."""
    def f(I, v):
        E = I.E
        s = seq1(I, v)
        E.must(lt(0, s.n), exc(ValueError), 'nanmax of an empty array')
        k = z3.Const(E.fresh_name('k'), _IS)
        if s.items is not None:
            its = [x if isinstance(x, NanV) else NanV(False, x) for x in s.items]
            r = its[0]
            for x in its[1:]:
                better = AND(NOT(x.isnan), OR(r.isnan, B.compare(I, op, x.val, r.val)))
                r = NanV(AND(r.isnan, x.isnan), ite(better, x.val, r.val))
            return r if r.isnan is not False else r.val
        N = lambda x: x if isinstance(x, NanV) else NanV(False, x)
        alln = E.fa_expr(ALL(s.n, lambda k: N(s.get(k)).isnan))
        if alln is not False and E.branch(boolx(alln)):
            return NAN
        j = E.fresh_int('arg')
        E.assume(z3.And(0 <= j, j < s.n))
        best = N(s.get(j))
        E.assume(NOT(best.isnan))
        E.assume(ALL(s.n, lambda k: OR(N(s.get(k)).isnan,
                                       NOT(B.compare(I, op, N(s.get(k)).val, best.val)))))
        return best.val
    return f


def np_dot(I, a, b):
    x, y = asnd(I, a), asnd(I, b)
    if not x.shape or not y.shape:
        return elementwise(I, mul, a, b)
    n = x.shape[-1]
    m = y.shape[0] if len(y.shape) == 1 else y.shape[-2]
    if not same_dim(I, n, m):
        I.E.must(eqn(n, m), exc(ValueError), 'shapes not aligned')
    if isinstance(m, int):
        n = m
    k = join_kind(x.kind, y.kind)
    if len(y.shape) == 1:
        sh = x.shape[:-1]
        get = lambda *ix: sums.sum_over(I.E, n, lambda j: mul(x.get(*(list(ix) + [j])), y.get(j)))
    elif len(y.shape) == 2:
        sh = tuple(x.shape[:-1]) + (y.shape[1],)
        get = lambda *ix: sums.sum_over(I.E, n, lambda j: mul(x.get(*(list(ix[:-1]) + [j])),
                                                              y.get(j, ix[-1])))
    else:
        raise Unsupported('dot of higher rank')
    if not sh:
        return get()
    return newarr(I, NArr(sh, get, k))


def np_outer(I, a, b):
    x, y = flat1(I, a), flat1(I, b)
    return newarr(I, NArr((x.shape[0], y.shape[0]), lambda i, j: mul(x.get(i), y.get(j)),
                          join_kind(x.kind, y.kind)))


def shape_arg(I, sh):
    if is_intish(sh):
        return (sh,)
    s = I.E_list(sh)
    if s.items is None:
        raise Unsupported('symbolic rank')
    return tuple(x if isinstance(x, int) else intx(x) for x in s.items)


def np_full(val):
    def f(I, sh, dtype=None, **kw):
        sh = shape_arg(I, sh)
        for d in sh:
            I.E.must(le(0, d), exc(ValueError), 'negative dimension')
        k, v = 'r', float(val)
        if dtype is not None:
            nm = getattr(dtype, 'name', '')
            if nm == 'int':
                k, v = 'i', int(val)
            elif nm == 'bool':
                k, v = 'b', bool(val)
        a = NArr(sh, lambda *ix: v, k)
        return newarr(I, a) if sh else v
    return f


def np_asarray(I, v, dtype=None, **kw):
    v = I.resolve(v)
    if isinstance(v, NDV) and dtype is None:
        return v
    return np_array(I, v, dtype)


def np_array(I, v, dtype=None, **kw):
    a = asnd(I, v)
    nm = getattr(dtype, 'name', None)
    if nm == 'float':
        a = NArr(a.shape, lambda *ix: cast('r', a0.get(*ix)), 'r') if False else _to(a, 'r')
    elif nm == 'int':
        if a.kind == 'r':
            raise Unsupported('cast to int')
        a = _to(a, 'i')
    elif nm == 'bool':
        a = NArr(a.shape, lambda *ix, a=a: I.truth(a.get(*ix)), 'b')
    elif dtype is not None:
        raise Unsupported('dtype')
    if not a.shape:
        v = a.get()
        loc = I.E.new_loc()
        I.E.store[loc] = a
        return NDV(Loc(loc), [], ())
    return newarr(I, a)


def _to(a, k):
    return NArr(a.shape, lambda *ix: cast(k, a.get(*ix)), k)


def np_cumsum(I, v, axis=None):
    a = flat1(I, v)

    def get(k):
        return sums.sum_over(I.E, add(k, 1), lambda j: a.get(j))
    return newarr(I, NArr(a.shape, get, a.kind))


def np_concat(I, v, axis=0):
    s = I.E_list(v)
    if s.items is None:
        f = B.flatten(I, Seq(s.n, lambda k: seq1(I, s.get(k))))
        return newarr(I, NArr((f.n,), lambda k: f.get(k), 'r'))
    arrs = [asnd(I, x) for x in s.items]
    if not arrs:
        raise PyExc(exc(ValueError), why='need at least one array')
    n = len(arrs[0].shape)
    if n == 0:
        raise PyExc(exc(ValueError), why='zero-dimensional')
    ax = norm_axis(axis, n)
    for b in arrs[1:]:
        if len(b.shape) != n:
            raise PyExc(exc(ValueError), why='dimensions')
        for d in range(n):
            if d != ax and not same_dim(I, arrs[0].shape[d], b.shape[d]):
                I.E.must(eqn(arrs[0].shape[d], b.shape[d]), exc(ValueError), 'concatenate')
    r = arrs[0]
    for b in arrs[1:]:
        r = cat2(I, r, b, ax)
    return newarr(I, NArr(r.shape, r.get, join_kind(*[x.kind for x in arrs])))


def cat2(I, a, b, ax):
    n = a.shape[ax]
    sh = list(a.shape)
    sh[ax] = add(n, b.shape[ax])

    def get(*ix):
        c = lt(ix[ax], n)
        jx = list(ix)
        jx[ax] = sub(ix[ax], n)
        if c is True:
            return a.get(*ix)
        if c is False:
            return b.get(*jx)
        return ite(c, a.get(*ix), b.get(*jx))
    return NArr(sh, get, join_kind(a.kind, b.kind))


def np_vstack(I, v):
    s = I.E_list(v)
    if s.items is None:
        # rows of equal length
        return np_array(I, ContV('list', Frozen(s)))
    rows = []
    for x in s.items:
        a = asnd(I, x)
        if len(a.shape) == 1:
            a = NArr((1,) + tuple(a.shape), lambda i, *ix, a=a: a.get(*ix), a.kind)
        rows.append(mkarr(a))
    return np_concat(I, I.new_list(Seq.of(rows)))


def np_allclose(I, a, b, rtol=1e-5, atol=1e-8):
    r = elementwise(I, lambda x, y: close(I, x, y, rtol, atol), a, b, 'b')
    return np_all(I, r) if isinstance(r, NDV) else r


def close(I, x, y, rtol=1e-5, atol=1e-8):
    d = sub(x, y)
    if isinstance(y, (int, float)):
        tol = atol + rtol * abs(y)
    else:
        tol = add(atol, mul(rtol, ite(le(0, y), y, neg(y))))
    return AND(le(d, tol), le(neg(tol), d))


def np_isclose(I, a, b, rtol=1e-5, atol=1e-8):
    return elementwise(I, lambda x, y: close(I, x, y, rtol, atol), a, b, 'b')


def np_array_equal(I, a, b):
    x, y = asnd(I, a), asnd(I, b)
    if len(x.shape) != len(y.shape):
        return False
    u, v = x.meta.get('unflat', x), y.meta.get('unflat', y)
    if (u is not x or v is not y):
        if len(u.shape) != len(v.shape) or not all(same_dim(I, p, q) for p, q in zip(u.shape, v.shape)):
            raise Unsupported('comparison of flattened arrays')
        x, y = u, v
    c = AND(*[eqn(p, q) for p, q in zip(x.shape, y.shape)])
    if c is False:
        return False
    E = I.E
    f = E.fa_expr(ALL(list(x.shape), lambda *ix: I.truth(I.eq(x.get(*ix), y.get(*ix)))))
    return AND(c, f)


roundf = z3.Function('np_around', _RS, _IS, _RS)


def np_around(I, a, decimals=0):
    def f(v):
        if isinstance(v, (int, float)):
            import numpy
            return float(numpy.around(v, decimals))
        return roundf(real(v), intx(decimals))
    return map1(I, a, f)


def uf1(name, *axs):
    from .engine import axiom_for
    f = z3.Function('np_' + name, _RS, _RS)
    x = z3.Real('x')
    for ax in axs:
        axiom_for(f, z3.ForAll([x], ax(f, x), patterns=[f(x)]))

    def g(I, a):
        import math
        a = I.resolve(a)

        def one(v):
            if isinstance(v, (int, float)):
                if name == 'log' and v == 0:
                    return float('-inf')
                try:
                    r = getattr(math, name)(v)
                except ValueError:
                    return NAN
                return r if r == int(r) else f(real(v))
            if isinstance(v, NanV):
                return NanV(v.isnan, f(real(v.val)))
            return f(real(v))
        if isinstance(a, (NDV, ContV)):
            return map1(I, a, one, 'r')
        return one(a)
    return g


# -- random --------------------------------------------------------------------------------
def r_choice(I, a, size=None, replace=True, p=None):
    """Some element of the support; the distribution itself is numpy's contract."""
    E = I.E
    a = I.resolve(a)
    if isinstance(a, Opt):
        a = I.force(a, 'choice')
    if size is not None:
        raise Unsupported('choice size')
    if is_intish(a):
        n, get = a, None
        s = None
    else:
        s = I.E_list(a)
        n = s.n
    E.must(lt(0, n), exc(ValueError), 'choice from nothing')
    r = E.fresh_int('choice')
    E.assume(AND(le(0, r), lt(r, n)))
    if p is not None:
        q = asnd(I, p)
        if len(q.shape) != 1:
            raise PyExc(exc(ValueError), why='p must be 1-d')
        E.must(eqn(q.shape[0], n), exc(ValueError), 'a and p sizes')
        E.must(boolx(E.fa_expr(ALL(n, lambda k: le(0, q.get(k))))), exc(ValueError),
               'negative probabilities')
        tot = sums.sum_over(E, n, lambda k: q.get(k))
        d = sub(tot, 1)
        E.must(AND(le(d, 1.5e-8), le(-1.5e-8, d)), exc(ValueError), 'probabilities do not sum to 1')
        pr = q.get(r)
        E.assume(lt(0, pr))
    else:
        pr = div(1, n)
    E.ghost['last_draw'] = (r, n, p)
    E.ghost['draws'] = E.ghost.get('draws', ()) + ((r, n, None if p is None else asnd(I, p)),)
    return r if s is None else I.elem_lv(a, s, r)


def r_random(I, size=None):
    E = I.E
    if size is not None:
        sh = shape_arg(I, size)
        nm = E.fresh_name('rnd')
        a = mk(TArr(len(sh)), nm, E.bparams())
        c = a.lv.content
        E.assume(ALL(list(sh), lambda *ix: AND(le(0, c.get(*ix)), lt(c.get(*ix), 1))))
        return newarr(I, NArr(sh, c.get, 'r'))
    u = E.fresh(TReal, 'rnd')
    E.assume(AND(le(0, u), lt(u, 1)))
    return u


def r_randint(I, lo, hi=None, size=None):
    E = I.E
    if size is not None:
        raise Unsupported('randint size')
    if hi is None:
        lo, hi = 0, lo
    E.must(lt(lo, hi), exc(ValueError), 'randint')
    r = E.fresh_int('ri')
    E.assume(AND(le(lo, r), lt(r, hi)))
    return r


# -- methods ---------------------------------------------------------------------------------
def method(I, o, name):
    E = I.E
    if name == 'shape':
        return tuple(o.shape)
    if name == 'ndim':
        return len(o.shape)
    if name == 'size':
        r = 1
        for s in o.shape:
            r = mul(r, s)
        return r
    if name == 'T':
        a = nd(I, o)
        return mkarr(NArr(tuple(reversed(a.shape)), lambda *ix: a.get(*reversed(ix)), a.kind))
    if name == 'dtype':
        return Builtin('dtype:' + I.read(o.lv).kind)
    f = METH.get(name)
    if f is None:
        return None
    return Builtin('ndarray.' + name, lambda I, a, kw: f(I, o, *a, **kw))


def m_tolist(I, o):
    a = nd(I, o)

    def lst(pre, d):
        if d == len(a.shape):
            return a.get(*pre)
        n = a.shape[d]
        if isinstance(n, int):
            return ContV('list', Frozen(Seq.of([lst(pre + [k], d + 1) for k in range(n)])))
        return ContV('list', Frozen(Seq(n, lambda k: lst(pre + [k], d + 1))))
    r = lst([], 0)
    if isinstance(r, ContV):
        return I.new_list(r.lv.content)
    return r


def m_reshape(I, o, *sh):
    a = nd(I, o)
    if len(sh) == 1 and not is_intish(sh[0]):
        q = I.E_list(sh[0])
        if q.items is None:
            raise Unsupported('reshape to a list of symbolic length')
        sh = tuple(x if isinstance(x, int) else simp(intx(x)) for x in q.items)
    if all(isinstance(s, int) for s in list(sh) + list(a.shape)):
        import numpy
        if -1 in sh:
            sh = numpy.zeros(a.shape).reshape(sh).shape
        if prod(sh) != prod(a.shape):
            raise PyExc(exc(ValueError), why='reshape')

        def get(*ix):
            k = ix[0] if ix else 0
            for s, i in zip(sh[1:], ix[1:]):
                k = add(mul(k, s), i)
            jx = []
            for s in reversed(a.shape):
                jx.append(k % s if isinstance(k, int) else intx(k) % s)
                k = k // s if isinstance(k, int) else intx(k) / s
            return a.get(*reversed(jx))
        return newarr(I, NArr(sh, get, a.kind))
    if len(a.shape) == 1 and not any(isinstance(x, int) and x < 0 for x in sh):
        tot = 1
        for x in sh:
            tot = mul(tot, x)
        I.E.must(AND(*[le(0, x) for x in sh] + [eqn(tot, a.shape[0])]), exc(ValueError), 'reshape')

        def get1(*ix):
            k = ix[0] if ix else 0
            for s, i in zip(sh[1:], ix[1:]):
                k = add(mul(k, s), i)
            return a.get(k)
        return newarr(I, NArr(sh, get1, a.kind))
    raise Unsupported('reshape')


def m_nonzero(I, o):
    a = nd(I, o)
    if len(a.shape) != 1:
        raise Unsupported('nonzero of rank > 1')
    s = seq1(I, o)
    if s.items is not None:
        its = [k for k, x in enumerate(s.items) if I.E.branch(NOT(eqn(x, 0)))]
        return (newarr(I, NArr((len(its),), lambda k: Seq.of(its).get(k), 'i')),)
    f = B.filter_seq(I, Seq(s.n, lambda k: k), lambda k: NOT(eqn(s.get(k), 0)))
    I.E.ghost['nonzero'] = f
    return (newarr(I, NArr((f.n,), lambda k: f.get(k), 'i')),)


def m_astype(I, o, t):
    return np_array(I, o, t)


METH = dict(sum=np_sum, dot=np_dot, all=np_all, any=np_any, argmax=np_arg('Gt'),
            argmin=np_arg('Lt'), max=np_ext('Gt'), min=np_ext('Lt'), tolist=m_tolist,
            copy=lambda I, o: newarr(I, nd(I, o)), flatten=lambda I, o: newarr(I, flat1(I, o)),
            ravel=lambda I, o: mkarr(flat1(I, o)), reshape=m_reshape, nonzero=m_nonzero,
            astype=m_astype, cumsum=np_cumsum,
            fill=lambda I, o, v: setitem(I, o, ELLIPSIS, v),
            tostring=lambda I, o: tostr(I, o), tobytes=lambda I, o: tostr(I, o),
            mean=lambda I, o: div(np_sum(I, o), seq1(I, o).n))


class BytesV(object):
    def __init__(self, a): self.a = a


def tostr(I, o):
    """Raw bytes, as a string: equal bytes and shapes mean equal content; equal content means equal
    bytes for integers (for reals it need not: 0.0 and -0.0)."""
    a = nd(I, o)
    E = I.E
    known = E.ghost.get('bytes', ())
    for b, t in known:
        if a is b:
            return t
    t = E.fresh(TStr, 'bytes')
    for b, u in known:
        if len(a.shape) == len(b.shape) and a.kind == b.kind:
            shape = AND(*[eqn(x, y) for x, y in zip(a.shape, b.shape)])
            same = AND(shape, E.fa_expr(ALL(list(a.shape), lambda *ix: eqn(a.get(*ix), b.get(*ix)))))
            E.assume(IMP(AND(shape, t == u), same))
            if a.kind == 'i':
                E.assume(IMP(same, t == u))
    E.ghost['bytes'] = known + ((a, t),)
    return t


def install(I):
    X = I.externals

    def reg(name, f):
        X[name] = Builtin(name, lambda I, a, kw, f=f: f(I, *a, **kw))
    for n, f in dict(zeros=np_full(0), ones=np_full(1), asarray=np_asarray, array=np_array,
                     sum=np_sum, dot=np_dot, outer=np_outer, all=np_all, any=np_any,
                     argmax=np_arg('Gt'), argmin=np_arg('Lt'), max=np_ext('Gt'),
                     min=np_ext('Lt'), nanmax=np_nanext('Gt'), nanmin=np_nanext('Lt'),
                     cumsum=np_cumsum, concatenate=np_concat, vstack=np_vstack,
                     allclose=np_allclose, isclose=np_isclose, array_equal=np_array_equal,
                     around=np_around, round=np_around, abs=lambda I, a: B.b_abs(I, [a], {}),
                     arange=lambda I, *a: newarr(I, (lambda s: NArr((s.n,), s.get, 'i'))(
                         I.read(B.b_range(I, list(a), {}).lv))),
                     count_nonzero=count_nonzero,
                     prod=lambda I, a: _prod(I, a),
                     mean=lambda I, a: div(np_sum(I, a), seq1(I, a).n),
                     sqrt=uf1('sqrt', lambda f, x: z3.Implies(x >= 0, z3.And(f(x) >= 0,
                                                                           f(x) * f(x) == x))),
                     log=uf1('log', lambda f, x: z3.And(z3.Implies(x >= 1, f(x) >= 0),
                                                         z3.Implies(x > 1, f(x) > 0))),
                     exp=uf1('exp', lambda f, x: z3.And(f(x) > 0, z3.Implies(x <= 0, f(x) <= 1)))).items():
        reg('numpy.' + n, f)
    reg('numpy.random.choice', r_choice)
    reg('numpy.random.random', r_random)
    reg('numpy.random.rand', r_random)
    reg('numpy.random.randint', r_randint)
    X['random.random'] = X['numpy.random.random']
    reg('random.choice', r_choice)
    X['numpy.newaxis'] = None
    X['numpy.nan'] = NAN
    X['numpy.inf'] = float('inf')
    X['numpy.pi'] = __import__('math').pi
    X['math.sqrt'] = X['numpy.sqrt']
    X['math.log'] = X['numpy.log']
    X['math.exp'] = X['numpy.exp']
    X['numpy.ndarray'] = Builtin('ndarray')
    X['isinstance:ndarray'] = lambda I, v: isinstance(v, NDV)
    X['numpy.integer'] = Builtin('np_integer')
    X['isinstance:np_integer'] = lambda I, v: False
    X['numpy.floating'] = Builtin('np_floating')
    X['isinstance:np_floating'] = lambda I, v: False


def _prod(I, a):
    s = seq1(I, a)
    if s.items is None:
        raise Unsupported('prod')
    r = 1
    for x in s.items:
        r = mul(r, x)
    return r
