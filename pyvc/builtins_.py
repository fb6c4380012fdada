"""Builtin functions, operators and container methods."""
import re
import z3
from .values import *
from . import values as V
from .engine import ALL, FA
from . import sums

DONE = object()


def exc(c):
    from .interp import PyCls
    return PyCls(c)


# -- uninterpreted helpers ------------------------------------------------------
_RS, _IS, _BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
pow2 = z3.Function('pow2', _IS, _IS)
rpow = z3.Function('rpow', _RS, _IS, _RS)
fmt_int = z3.Function('fmt_int', _IS, Str)
int_of = z3.Function('int_of_str', Str, _IS)
is_int_str = z3.Function('is_int_str', Str, _BS)
float_of = z3.Function('float_of_str', Str, _RS)
is_float_str = z3.Function('is_float_str', Str, _BS)


def _install_axioms():
    from .engine import axiom_for
    n, m = z3.Ints('n m')
    x = z3.Real('x')
    axiom_for(fmt_int, z3.ForAll([n], z3.And(int_of(fmt_int(n)) == n, is_int_str(fmt_int(n))),
                                 patterns=[fmt_int(n)]))
    # lemmas/Bits.lean, lemmas/Pow.lean
    axiom_for(pow2, pow2(0) == 1,
              z3.ForAll([n], z3.Implies(n >= 0, z3.And(pow2(n) >= 1, pow2(n + 1) == 2 * pow2(n))),
                        patterns=[pow2(n)]))
    axiom_for(rpow, z3.ForAll([x, n], z3.And(
        z3.Implies(n == 0, rpow(x, n) == 1),
        z3.Implies(n > 0, rpow(x, n) == x * rpow(x, n - 1))), patterns=[rpow(x, n)]))


_install_axioms()


# -- sequences -------------------------------------------------------------------
def seq_append(s, v):
    if s.items is not None:
        return Seq.of(s.items + [v])
    n = s.n
    return Seq(add(n, 1), lambda k: ite(eqn(k, n), v, s.get(k)), meta={'app': (s, v)})


def seq_concat(a, b):
    if a.items is not None and b.items is not None:
        return Seq.of(a.items + b.items)
    if a.items is not None and not a.items:
        return b
    if b.items is not None and not b.items:
        return a
    na = a.n

    def get(k):
        c = lt(k, na)
        if c is True:
            return a.get(k)
        if c is False:
            return b.get(sub(k, na))
        from .engine import eng
        E = eng()
        if E.valid(c, quick=True):
            return a.get(k)
        if E.valid(NOT(c), quick=True):
            return b.get(sub(k, na))
        return ite(c, a.get(k), b.get(sub(k, na)))
    return Seq(add(na, b.n), get, meta={'cat': (a, b)})


def seq_repeat(I, s, n):
    if isinstance(n, int):
        if s.items is not None:
            return Seq.of(s.items * max(n, 0))
        r = Seq.of([])
        for _ in range(n):
            r = seq_concat(r, s)
        return r
    if s.items is not None and len(s.items) == 1:
        v = I.freeze(s.items[0])
        return Seq(nonneg(I, n), lambda k: v)
    raise Unsupported('repetition of a sequence')


def nonneg(I, n):
    if isinstance(n, int):
        return max(n, 0)
    n = z3.simplify(n)
    if z3.is_int_value(n):
        return max(n.as_long(), 0)
    if I.E.valid(n >= 0, quick=True):
        return n
    return z3.If(n >= 0, n, z3.IntVal(0))


def seq_slice(I, s, sl):
    n = s.n
    if s.items is not None and all(x is None or isinstance(x, int) for x in (sl.lo, sl.hi, sl.step)):
        return Seq.of(s.items[slice(sl.lo, sl.hi, sl.step)])
    st = 1 if sl.step is None else sl.step
    if st == -1 and sl.lo is None and sl.hi is None:
        return Seq(n, lambda k: s.get(sub(sub(n, 1), k)))
    if st != 1:
        raise Unsupported('slice step')
    lo, hi = clip_bounds(I, sl, n)
    ln = sub(hi, lo)
    if not (le(lo, hi) is True or I.E.valid(boolx(le(lo, hi)), quick=True)):
        ln = ite(le(lo, hi), ln, 0)
    return Seq(ln, lambda k: s.get(add(lo, k)))


def clip(I, x, n):
    """Python slice bound normalisation."""
    E = I.E
    if x is None:
        return None
    if isinstance(x, int) and isinstance(n, int):
        return max(0, min(n, x + n if x < 0 else x))

    def val(c):
        c = boolx(c)
        if z3.is_true(z3.simplify(c)) or E.valid(c, quick=True):
            return True
        if z3.is_false(z3.simplify(c)) or E.valid(z3.Not(c), quick=True):
            return False
        return c
    c = val(lt(x, 0))
    if c is True:
        x = add(x, n)
        return ite(val(le(0, x)), x, 0)
    if c is not False:
        x = ite(c, ite(val(le(0, add(x, n))), add(x, n), 0), x)
    d = val(le(x, n))
    return ite(d, x, n)


def clip_bounds(I, sl, n):
    lo = clip(I, sl.lo, n)
    hi = clip(I, sl.hi, n)
    return (0 if lo is None else lo), (n if hi is None else hi)


def norm_index(I, i, n, why='list index'):
    """Normalised index; raises IndexError outside."""
    E = I.E
    if i is None or isinstance(i, (float, str, StrV)) or is_z(i) and not z3.is_int(i) and not z3.is_bool(i):
        raise PyExc(exc(TypeError), why='index type')
    i = i if isinstance(i, int) else intx(i)
    c = lt(i, 0)
    if E.branch(c):
        i = add(i, n)
        E.must(le(0, i), exc(IndexError), why)
    E.must(lt(i, n), exc(IndexError), why)
    return i


# -- sets and dicts ---------------------------------------------------------------
def make_set(I, s):
    if isinstance(s, ContV):
        s = I.E_list(s)
    if s.items is not None:
        its = []
        sym = False
        for x in s.items:
            x = I.resolve(x)
            rs = [I.truth(I.eq(x, y)) for y in its]
            if any(r is True for r in rs):
                continue
            if all(r is False for r in rs):
                its.append(x)
                continue
            sym = True
            break
        if not sym:
            return I.new_cont('set', SetC(lambda x: OR(*[I.truth(I.eq(y, x)) for y in its]), its,
                                          I.type_of(its[0]) if its else None))
        its = list(s.items)
        return I.new_cont('set', SetC(lambda x: OR(*[I.truth(I.eq(y, x)) for y in its]), None,
                                      I.type_of(its[0])))
    E = I.E

    def mem(x, s=s):
        if s.items is not None:
            return OR(*[I.truth(I.eq(y, x)) for y in s.items])
        if 'cat' in s.meta:
            return OR(*[mem(x, y) for y in s.meta['cat']])
        j = z3.Const(E.fresh_name('m'), _IS)
        with E.bound([j], z3.And(0 <= j, j < s.n)):
            if 'blocks' in s.meta:
                b = s.meta['blocks']
                y = b.get(j)
                y = y.lv.content if isinstance(y, ContV) else y
                c = boolx(mem(x, y))
                return z3.Exists([j], z3.And(0 <= j, j < b.n, c))
            b = boolx(I.truth(I.eq(s.get(j), x)))
        return z3.Exists([j], z3.And(0 <= j, j < s.n, b))
    ty = None
    k = z3.Const(E.fresh_name('k'), _IS)
    with E.bound([k], z3.And(0 <= k, k < s.n)):
        ty = I.type_of(s.get(k))
    return I.new_cont('set', SetC(mem, None, ty, {'seq': s}))


def is_empty(I, v):
    c = I.read(v.lv)
    if c.items is not None:
        return len(c.items) == 0
    if isinstance(c, SetC):
        ss, mv, ks = I.elem_var(c.elty)
        return NOT(z3.Exists(ks, boolx(c.mem(mv))))
    ss, mv, ks = I.elem_var(c.kty)
    return NOT(z3.Exists(ks, boolx(c.has(mv))))


def set_c(I, v):
    v = I.resolve(v)
    if isinstance(v, ContV) and v.kind == 'set':
        return I.read(v.lv)
    if isinstance(v, ContV) and v.kind == 'dict':
        c = I.read(v.lv)
        if c.items is not None:
            return I.read(make_set(I, Seq.of([k for k, _ in c.items])).lv)
        return SetC(c.has, None, c.kty)
    return I.read(make_set(I, I.E_list(v)).lv)


def set_binop(I, op, a, b):
    x, y = set_c(I, a), set_c(I, b)
    conc = x.items is not None and y.items is not None

    def comb(p, q):
        return {'|': OR(p, q), '&': AND(p, q), '-': AND(p, NOT(q)),
                '^': OR(AND(p, NOT(q)), AND(NOT(p), q))}[op]
    if op in '&-' and x.items is not None:
        keep, ok = [], True
        for i in x.items:
            t = y.mem(i)
            t = NOT(t) if op == '-' else t
            if t is True:
                keep.append(i)
            elif t is not False:
                ok = False
                break
        if ok:
            return I.new_cont('set', SetC(lambda z_: OR(*[I.truth(I.eq(k, z_)) for k in keep]), keep,
                                          x.elty))
    if conc and op == '|':
        return make_set(I, Seq.of(x.items + y.items))
    return I.new_cont('set', SetC(lambda z_: comb(x.mem(z_), y.mem(z_)), None, x.elty or y.elty))


def enum_set(I, c):
    """A finite set as a sequence in an arbitrary order without repetition."""
    E = I.E
    if c.items is not None and len(c.items) <= 1:
        return Seq.of(c.items)
    if isinstance(c, DictC):
        mem, ty = (c.has, c.kty) if c.items is None else \
            ((lambda x: I.dict_has(c, x)), I.type_of(c.items[0][0]))
    else:
        mem, ty = c.mem, c.elty or (I.type_of(c.items[0]) if c.items else None)
    bp = E.bparams()
    key = tuple(x.get_id() for x in bp)
    hit = c.meta.get('enum')
    if hit is not None and hit[0] == key:
        for f in hit[2]:
            if not any(g is f for _, g in E.pc):     # forgotten with the loop it was made in
                E.assume(f)
        return hit[1]
    if ty is None:
        raise Unsupported('iteration over a set of unknown type')
    nm = E.fresh_name('enum')
    n = mk(TInt, nm + '#n', bp)
    mark = len(E.pc)
    seqv = lambda k: mk(ty, nm + '@', bp + [intx(k)])
    ss, ev, ks = I.elem_var(ty)
    posf = z3.Function(nm + '@pos', *([p.sort() for p in bp] + ss + [_IS]))
    pos = posf(*(bp + ks))
    E.assume(FA([_IS], lambda k: AND(le(0, k), lt(k, n)),
                lambda k: AND(mem(seqv(k)), posf(*(bp + flat(seqv(k)))) == k),
                lambda k: [x for x in flat(seqv(k))][:1]))
    with E.bound(ks, True):
        b = boolx(mem(ev))
    hit = AND(0 <= pos, pos < n, I.truth(I.eq(seqv(pos), ev)))
    E.assume(z3.ForAll(ks, z3.Implies(b, boolx(hit)), patterns=[pos]))
    E.assume(z3.ForAll(ks, z3.Implies(b, boolx(hit))))
    s = Seq(n, seqv, meta={'set': c, 'pos': lambda x: posf(*(bp + flat(x)))})
    L = c.meta.get('seq') if isinstance(c, SetC) else None
    if L is not None and not bp:
        # as many elements as the list exactly when the list has no two equal elements (lemmas/Sets.lean)
        i, j = E.fresh_int('dup'), E.fresh_int('dup')
        E.assume(n <= intx(L.n))
        E.assume(IMP(n != intx(L.n), AND(0 <= i, i < j, j < intx(L.n), I.truth(I.eq(L.get(i), L.get(j))))))
        E.assume(FA([_IS, _IS], lambda u, v: AND(n == intx(L.n), 0 <= u, u < v, v < intx(L.n)),
                    lambda u, v: NOT(I.truth(I.eq(L.get(u), L.get(v))))))
    c.meta['enum'] = (key, s, [g for _, g in E.pc[mark:]], bp)
    return s


def flat(v):
    if isinstance(v, tuple):
        return [y for x in v for y in flat(x)]
    return [z(v)]


def dict_from_pairs(I, s):
    if s.items is not None:
        c = DictC(items=[])
        for p in s.items:
            k, v = I.E_list(p).items if not isinstance(p, tuple) else p
            c = I.dict_with(c, k, v)
        return I.new_cont('dict', c)
    # symbolic: the last pair with the key wins
    E = I.E
    bp = E.bparams()
    k0 = z3.Const(E.fresh_name('k'), _IS)
    with E.bound([k0], z3.And(0 <= k0, k0 < s.n)):
        kv = s.get(k0)
        if not isinstance(kv, tuple):
            kv = tuple(I.E_list(kv).items)
        kty = I.type_of(kv[0])
    ss, ev, ks = I.elem_var(kty)
    pos = z3.Function(E.fresh_name('dpos'), *([p.sort() for p in bp] + ss + [_IS]))
    key = lambda j: s.get(j)[0]

    def has(x):
        p = pos(*(bp + flat(x)))
        return AND(le(0, p), lt(p, s.n), I.truth(I.eq(key(p), x)))
    E.assume(FA([_IS], lambda k: AND(le(0, k), lt(k, s.n)),
                lambda k: AND(has(key(k)), le(k, pos(*(bp + flat(key(k))))))))
    return I.new_cont('dict', DictC(has=has, get=lambda x: s.get(pos(*(bp + flat(x))))[1], kty=kty))


# -- comprehension helpers ---------------------------------------------------------
def flatten(I, ss):
    """Concatenation of a symbolic number of sequences."""
    E = I.E
    bp = E.bparams()
    nm = E.uniq_name('fl')
    cs_d = z3.Function(nm + '.cs', *([p.sort() for p in bp] + [_IS, _IS]))
    blk_d = z3.Function(nm + '.blk', *([p.sort() for p in bp] + [_IS, _IS]))
    cs = lambda i: cs_d(*(bp + [intx(i)]))
    blk = lambda k: blk_d(*(bp + [intx(k)]))
    n = ss.n
    lens = lambda i: ss.get(i).n
    E.assume(cs(0) == 0)
    E.assume(FA([_IS], lambda i: AND(le(0, i), lt(i, n)),
                lambda i: AND(cs(i + 1) == cs(i) + lens(i), cs(i) >= 0, cs(i) <= cs(n),
                              cs(i + 1) <= cs(n)), lambda i: [cs(i)]))
    E.assume(cs(n) >= 0)
    total = cs(n)
    E.assume(FA([_IS], lambda k: AND(le(0, k), lt(k, total)),
                lambda k: AND(0 <= blk(k), blk(k) < n, cs(blk(k)) <= k, k < cs(blk(k) + 1)),
                lambda k: [blk(k)]))
    # uniqueness of the block
    E.assume(FA([_IS, _IS], lambda i, j: AND(le(0, i), lt(i, n), le(0, j), lt(j, lens(i))),
                lambda i, j: blk(cs(i) + j) == i, lambda i, j: [blk(cs(i) + j)]))
    # sequences of one common length: cs(i) = i * length (by induction on i)
    i0 = z3.Int(E.fresh_name('fl_i'))
    try:
        mark = len(E.pc)
        l0 = intx(lens(i0))
        if len(E.pc) == mark and not sums.contains(z3.simplify(l0), i0):
            l0 = z3.simplify(l0)
            E.assume(IMP(le(0, n), cs(n) == intx(n) * l0))
            E.assume(FA([_IS], lambda i: AND(le(0, i), le(i, n)), lambda i: cs(i) == i * l0,
                        lambda i: [cs(i)]))
            if E.valid(le(0, n), quick=True):
                total = z3.simplify(intx(n) * l0)
            sums.FLAT_CONST[blk_d.get_id()] = (blk_d, cs_d, l0, intx(n))
            sums._keep.append((blk_d, cs_d))
    except Unsupported:
        pass
    if not bp:
        # offsets are the sums of the lengths before (definition of concatenation)
        try:
            E.assume(FA([_IS], lambda i: AND(le(0, i), le(i, n)),
                        lambda i: cs(i) == intx(sums.sum_over(E, i, lens)), lambda i: [cs(i)]))
        except Unsupported:
            pass
        sums.FLATTEN[blk_d.get_id()] = sums.Flatten(blk, cs, lens, n, [])
        sums._keep.append(blk_d)
    return Seq(total, lambda k: ss.get(blk(k)).get(intx(k) - cs(blk(k))),
               meta={'flat': (ss, cs, blk), 'blocks': ss})


def unordered_comp(I, gens, gi, it, elt, cf):
    from .interp import UnordV
    if isinstance(it, UnordV):
        c = SetC(it.mem, None, it.ty)
    else:
        c = I.read(it.lv)
    s = enum_set(I, c)
    g = gens[gi]
    return I.comp_gen(gens, gi, ContV('list', Frozen(s)), elt, cf)


def filter_comp(I, gens, gi, s, item, elt, cf):
    E = I.E
    g = gens[gi]
    if gi != len(gens) - 1:
        # as nested: filter the iterable first
        pass

    def test(k):
        I.assign(g.target, item(k), cf)
        r = True
        for c in g.ifs:
            r = AND(r, I.cond(c, cf))
        return r
    fs = filter_seq(I, s, test)
    if fs is None:
        raise Unsupported('comprehension filter with side effects')
    idx = fs.meta['idx']

    def body(j):
        I.assign(g.target, item(idx(j)), cf)
        if gi == len(gens) - 1:
            return I.ev(elt, cf)
        it2 = I.ev(gens[gi + 1].iter, cf)
        return ContV('list', Frozen(I.comp_gen(gens, gi + 1, it2, elt, cf)))
    from .interp import IMPURE
    r = I.map_seq(fs.n, body)
    if r is IMPURE:
        raise Unsupported('filtered comprehension with side effects')
    if gi == len(gens) - 1:
        r.meta['filter'] = fs.meta
        if r.items is None:
            r.meta['sel'] = (s.n, fs.meta['test'].get, idx)
        return r
    return flatten(I, Seq(r.n, lambda k: r.get(k).lv.content))


def filter_seq(I, s, test):
    """Order preserving selection of the elements whose index passes the test."""
    E = I.E
    from .interp import IMPURE
    t = I.map_seq(s.n, lambda k: boolx(I.truth(test(k))))
    if t is IMPURE:
        return None
    bp = E.bparams()
    if not bp:
        for n0, t0, f in E.ghost.get('_filters', ()):
            # the same selection of the same indices: the same positions
            if E.valid(boolx(AND(eqn(n0, s.n), E.fa_expr(FA([_IS], lambda k: AND(le(0, k), lt(k, s.n)),
                                                            lambda k: boolx(t0.get(k)) == boolx(t.get(k))))))):
                return Seq(f.n, lambda j: s.get(f.meta['idx'](j)), meta=dict(f.meta, src=s, test=t))
    nm = E.fresh_name('flt')
    m = mk(TInt, nm + '#n', bp)
    idx_d = z3.Function(nm + '.idx', *([p.sort() for p in bp] + [_IS, _IS]))
    rk_d = z3.Function(nm + '.rank', *([p.sort() for p in bp] + [_IS, _IS]))
    idx = lambda j: idx_d(*(bp + [intx(j)]))
    rank = lambda k: rk_d(*(bp + [intx(k)]))
    E.assume(m <= s.n)
    E.assume(FA([_IS], lambda j: AND(le(0, j), lt(j, m)),
                lambda j: AND(0 <= idx(j), idx(j) < s.n, t.get(idx(j)), rank(idx(j)) == j),
                lambda j: [idx(j)]))
    E.assume(FA([_IS, _IS], lambda i, j: AND(le(0, i), lt(i, j), lt(j, m)),
                lambda i, j: idx(i) < idx(j), lambda i, j: [[idx(i), idx(j)]]))
    E.assume(FA([_IS], lambda k: AND(le(0, k), lt(k, s.n), t.get(k)),
                lambda k: AND(0 <= rank(k), rank(k) < m, idx(rank(k)) == k),
                lambda k: [rank(k)]))
    E.assume(FA([_IS], lambda k: AND(le(0, k), lt(k, s.n), t.get(k)),
                lambda k: AND(0 <= rank(k), rank(k) < m, idx(rank(k)) == k)))
    r = Seq(m, lambda j: s.get(idx(j)), meta={'idx': idx, 'rank': rank, 'src': s, 'test': t})
    if not bp:
        E.ghost['_filters'] = E.ghost.get('_filters', ()) + ((s.n, t, r),)
    return r


# -- operators --------------------------------------------------------------------------
def binop(I, op, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(a, Opt):
        a = I.force(a, 'operand')
    if isinstance(b, Opt):
        b = I.force(b, 'operand')
    if isinstance(a, IterV) or isinstance(b, IterV):
        raise PyExc(exc(TypeError), why='operand')
    if isinstance(a, NDV) or isinstance(b, NDV):
        from . import nplib
        return nplib.binop(I, op, a, b)
    if is_num(a) and is_num(b):
        return num_op(I, op, a, b)
    if isinstance(a, NanV) or isinstance(b, NanV):
        A = a if isinstance(a, NanV) else NanV(False, a)
        B = b if isinstance(b, NanV) else NanV(False, b)
        return NanV(OR(A.isnan, B.isnan), num_op(I, op, A.val, B.val))
    la, lb = isinstance(a, ContV), isinstance(b, ContV)
    if op == 'Add':
        if la and lb and a.kind == b.kind == 'list':
            return I.new_list(seq_concat(I.read(a.lv), I.read(b.lv)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if is_str(a) and is_str(b):
            return mkstr([a, b])
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ContV) and x.kind == 'list' and is_intish(y):
                return I.new_list(seq_repeat(I, I.read(x.lv), y if isinstance(y, int) else intx(y)))
            if isinstance(x, str) and isinstance(y, int):
                return x * y
            if isinstance(x, tuple) and isinstance(y, int):
                return x * y
            if isinstance(x, str) and is_intish(y):
                return z3.Function('str.rep', Str, _IS, Str)(lit(x), intx(y))
    if op == 'Mod' and isinstance(a, str):
        return percent_format(I, a, b)
    sym = {'BitOr': '|', 'BitAnd': '&', 'Sub': '-', 'BitXor': '^'}.get(op)
    if sym and la and lb and a.kind == b.kind == 'set':
        return set_binop(I, sym, a, b)
    nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(op)
    from .interp import RecV
    if nm and isinstance(a, (ObjV, RecV)):
        ok, f, k = I.class_attr_raw(a.cls, nm)
        if ok:
            return I.call(I.bind(f, a, a.cls), [b], {})
    raise PyExc(exc(TypeError), why='%s of %r and %r' % (op, a, b))


def num_op(I, op, a, b):
    E = I.E
    if op == 'Add':
        return add(a, b)
    if op == 'Sub':
        return sub(a, b)
    if op == 'Mult':
        return mul(a, b)
    if op == 'Div':
        E.must(NOT(eqn(b, 0)), exc(ZeroDivisionError), 'division by zero')
        return div(a, b)
    if op in ('FloorDiv', 'Mod'):
        E.must(NOT(eqn(b, 0)), exc(ZeroDivisionError), 'modulo by zero')
        if isinstance(a, int) and isinstance(b, int):
            return a // b if op == 'FloorDiv' else a % b
        if not (is_intish(a) and is_intish(b)):
            raise Unsupported('real floor division')
        x, y = intx(a), intx(b)
        if isinstance(b, int) and b > 0 or E.valid(y > 0, quick=True):
            return x / y if op == 'FloorDiv' else x % y
        if not E.branch(y > 0):
            x, y = -x, -y
            q = x / y
            return q if op == 'FloorDiv' else intx(a) - intx(b) * q
        return x / y if op == 'FloorDiv' else x % y
    if op == 'Pow':
        if is_z(b) and z3.is_int_value(z3.simplify(b)):
            b = z3.simplify(b).as_long()
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a ** b
        if isinstance(b, int) and 0 <= b <= 6:
            r = 1 if is_intish(a) else 1.0
            for _ in range(b):
                r = mul(r, a)
            return r
        if isinstance(a, int) and a == 2 and is_intish(b):
            if not E.branch(intx(b) >= 0):
                raise Unsupported('negative power')
            return pow2(intx(b))
        if is_intish(b) and E.valid(intx(b) >= 0, quick=True):
            return rpow(real(a), intx(b))
        raise Unsupported('power')
    if op in ('LShift', 'RShift', 'BitAnd', 'BitOr', 'BitXor'):
        if isinstance(a, int) and isinstance(b, int):
            import operator
            return {'LShift': operator.lshift, 'RShift': operator.rshift, 'BitAnd': operator.and_,
                    'BitOr': operator.or_, 'BitXor': operator.xor}[op](a, b)
        if is_boolish(a) and is_boolish(b) and op == 'BitAnd':
            return AND(a, b)
        if is_boolish(a) and is_boolish(b) and op == 'BitOr':
            return OR(a, b)
        if is_boolish(a) and is_boolish(b) and op == 'BitXor':
            return NOT(boolx(a) == boolx(b))
        from . import bits
        return bits.op(I, op, a, b)
    raise Unsupported('operator %s' % op)


def unary_neg(I, v):
    v = I.force(v, 'operand') if isinstance(v, Opt) else v
    if is_num(v):
        return neg(v)
    if isinstance(v, NDV):
        from . import nplib
        return nplib.map1(I, v, lambda x: neg(x))
    if isinstance(v, NanV):
        return NanV(v.isnan, neg(v.val))
    raise PyExc(exc(TypeError), why='negation')


def unary_invert(I, v):
    if isinstance(v, NDV):
        from . import nplib
        return nplib.map1(I, v, lambda x: NOT(I.truth(x)), 'b')
    raise Unsupported('~')


def inplace(I, op, a, b):
    a = I.resolve(a)
    if isinstance(a, ContV) and a.kind == 'list' and op == 'Add':
        I.write(a.lv, seq_concat(I.read(a.lv), I.E_list(b)), reorganise=False)
        return DONE
    if isinstance(a, ContV) and a.kind == 'set' and op in ('BitOr', 'BitAnd', 'Sub'):
        r = set_binop(I, {'BitOr': '|', 'BitAnd': '&', 'Sub': '-'}[op], a, b)
        I.write(a.lv, I.read(r.lv))
        return DONE
    if isinstance(a, NDV):
        from . import nplib
        return nplib.inplace(I, op, a, b)
    return binop(I, op, a, b)


_CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}


def compare(I, op, a, b):
    a, b = I.resolve(a), I.resolve(b)
    if op == 'Eq':
        return eq_inf(I, a, b)
    if op == 'NotEq':
        if isinstance(a, NDV) or isinstance(b, NDV):
            from . import nplib
            return nplib.elementwise(I, lambda x, y: NOT(I.truth(I.eq(x, y))), a, b, 'b')
        from .interp import RecV
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (ObjV, RecV)):
                ok, f, k = I.class_attr_raw(x.cls, '__ne__')
                if ok:
                    return I.call(I.bind(f, x, x.cls), [y], {})
        return NOT(I.truth(eq_inf(I, a, b)))
    if op in ('Is', 'IsNot'):
        r = is_(I, a, b)
        return r if op == 'Is' else NOT(r)
    if op in ('In', 'NotIn'):
        r = contains_(I, b, a)
        return r if op == 'In' else NOT(r)
    if isinstance(a, Opt):
        a = I.force(a, 'comparison')
    if isinstance(b, Opt):
        b = I.force(b, 'comparison')
    if isinstance(a, NDV) or isinstance(b, NDV):
        from . import nplib
        return nplib.elementwise(I, lambda x, y: compare(I, op, x, y), a, b, 'b')
    if is_num(a) and is_num(b):
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(y, float) and not (y == y and abs(y) != float('inf')):
                if y != y:
                    return False
                if isinstance(x, float) and not (x == x and abs(x) != float('inf')):
                    return cmp(_CMP[op], a, b)
                o = _CMP[op]
                if flip:
                    o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[o]
                return (y > 0) == (o in ('<', '<='))
        return cmp(_CMP[op], a, b)
    if isinstance(a, NanV) or isinstance(b, NanV):
        A = a if isinstance(a, NanV) else NanV(False, a)
        B = b if isinstance(b, NanV) else NanV(False, b)
        return AND(NOT(A.isnan), NOT(B.isnan), compare(I, op, A.val, B.val))
    if isinstance(a, str) and isinstance(b, str):
        import operator
        return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](a, b)
    if isinstance(a, ContV) and isinstance(b, ContV) and a.kind == b.kind == 'set':
        if op in ('GtE', 'Gt'):
            a, b, op = b, a, {'GtE': 'LtE', 'Gt': 'Lt'}[op]
        sub_ = subset(I, a, b)
        if op == 'LtE':
            return sub_
        return AND(sub_, NOT(I.truth(I.eq(a, b))))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2:
        o1 = {'Lt': 'Lt', 'LtE': 'Lt', 'Gt': 'Gt', 'GtE': 'Gt'}[op]
        return OR(I.truth(compare(I, o1, a[0], b[0])),
                  AND(I.truth(I.eq(a[0], b[0])), I.truth(compare(I, op, a[1], b[1]))))
    raise PyExc(exc(TypeError), why='%s of %r and %r' % (op, a, b))


def eq_inf(I, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(y, float) and not (y == y and abs(y) != float('inf')):
            if isinstance(x, float):
                return x == y
            if is_num(x):
                return False
    return I.eq(a, b)


def is_(I, a, b):
    if a is None or b is None:
        o = b if a is None else a
        if o is None:
            return True
        if isinstance(o, Opt):
            return o.none if o.val is not None else True
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        if is_boolish(a) and is_boolish(b):
            return I.truth(I.eq(a, b))
        return False
    if isinstance(a, Opt) or isinstance(b, Opt):
        an, av = (a.none, a.val) if isinstance(a, Opt) else (False, a)
        bn, bv = (b.none, b.val) if isinstance(b, Opt) else (False, b)
        return OR(AND(an, bn), AND(NOT(an), NOT(bn), is_(I, av, bv)))
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        return a.loc == b.loc
    if isinstance(a, RefV) and isinstance(b, RefV):
        return I.truth(eqn(a.id, b.id)) if a.cls == b.cls else False
    if isinstance(a, (ClassV, Builtin)) or isinstance(b, (ClassV, Builtin)):
        return a is b
    if isinstance(a, ContV) and isinstance(b, ContV) and isinstance(a.lv, Loc) and isinstance(b.lv, Loc):
        return a.lv.id == b.lv.id
    from .interp import PyCls
    if isinstance(a, PyCls) or isinstance(b, PyCls):
        return a is b
    if I.kindof(a) != I.kindof(b):
        return False
    raise Unsupported('identity of %r and %r' % (a, b))


def contains_(I, c, x):
    E = I.E
    c = I.resolve(c)
    if isinstance(c, Opt):
        c = I.force(c, 'membership')
    if isinstance(c, ContV) and c.kind == 'set':
        return I.read(c.lv).mem(x)
    if isinstance(c, ContV) and c.kind == 'dict':
        return I.dict_has(I.read(c.lv), x)
    if isinstance(c, ContV) and c.kind == 'range':
        s = I.read(c.lv)
        if s.meta.get('range'):
            lo, hi, st = s.meta['range']
            if st == 1 and is_intish(x):
                return AND(le(lo, x), lt(x, hi))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if is_str(c):
        raise Unsupported('substring test')
    s = I.E_list(c)
    if s.items is not None:
        return OR(*[I.truth(I.eq(y, x)) for y in s.items])
    if 'filter' in s.meta or 'idx' in s.meta:
        pass
    j = z3.Const(E.fresh_name('m'), _IS)
    with E.bound([j], z3.And(0 <= j, j < s.n)):
        b = boolx(I.truth(I.eq(s.get(j), x)))
    return z3.Exists([j], z3.And(0 <= j, j < s.n, b))


def subset(I, a, b):
    x, y = set_c(I, a), set_c(I, b)
    if x.items is not None:
        return AND(*[y.mem(i) for i in x.items])
    ss, ev, ks = I.elem_var(x.elty or y.elty)
    return z3.ForAll(ks, z3.Implies(boolx(x.mem(ev)), boolx(y.mem(ev))))


# -- subscripts ------------------------------------------------------------------------
def getitem(I, o, i):
    E = I.E
    o = I.resolve(o)
    if isinstance(o, Opt):
        o = I.force(o, 'subscript')
    if isinstance(o, NDV):
        from . import nplib
        return nplib.getitem(I, o, i)
    if isinstance(i, Opt) and not (isinstance(o, ContV) and o.kind == 'dict'):
        i = I.force(i, 'index')
    if isinstance(o, ContV) and o.kind in ('list', 'range'):
        s = I.read(o.lv)
        if isinstance(i, SliceV):
            return I.new_list(seq_slice(I, s, i))
        k = norm_index(I, i, s.n)
        return I.elem_lv(o, s, k)
    if isinstance(o, tuple):
        if isinstance(i, SliceV):
            return o[slice(i.lo, i.hi, i.step)]
        s = Seq.of(o)
        return s.get(norm_index(I, i, len(o), 'tuple index'))
    if isinstance(o, ContV) and o.kind == 'dict':
        c = I.read(o.lv)
        i = I.resolve(i)
        E.must(I.dict_has(c, i), exc(KeyError), 'missing key')
        v = I.dict_get_raw(c, i)
        if isinstance(v, (ContV, NDV)) and isinstance(v.lv, Frozen) and not isinstance(o.lv, Frozen):
            sl = SubLV(o.lv, i, E.epochs.get(I.epoch_key(o.lv), 0))
            return ContV(v.kind, sl) if isinstance(v, ContV) else NDV(sl, v.view, v.shape)
        return v
    if isinstance(o, str) and isinstance(i, (int, SliceV)):
        if isinstance(i, int):
            if not -len(o) <= i < len(o):
                raise PyExc(exc(IndexError), why='string index')
            return o[i]
        return o[slice(i.lo, i.hi, i.step)]
    if is_str(o):
        raise Unsupported('string subscript')
    from .interp import RecV
    if isinstance(o, (ObjV, RecV, RefV)):
        return I.call(I.getattr(o, '__getitem__'), [i], {})
    raise PyExc(exc(TypeError), why='%r is not subscriptable' % (o,))


def setitem(I, o, i, v):
    E = I.E
    o = I.resolve(o)
    if isinstance(o, Opt):
        o = I.force(o, 'subscript')
    if getattr(I, 'on_promote', None) is not None:
        v = I.resolve(v)
        if isinstance(v, ObjV) and any(rc.classv is v.cls for rc in I.refclasses.values()):
            v = I.ref_of_obj(v)
    if isinstance(o, NDV):
        from . import nplib
        return nplib.setitem(I, o, i, v)
    if isinstance(o, ContV) and o.kind == 'list':
        s = I.read(o.lv)
        if isinstance(i, SliceV):
            raise Unsupported('slice assignment')
        k = norm_index(I, i, s.n, 'list assignment index')
        if isinstance(v, (ContV, NDV)) and not (s.items is not None and isinstance(k, int)):
            v = I.freeze(v)
        I.write(o.lv, I.with_elem(s, k, v))
        return
    if isinstance(o, ContV) and o.kind == 'dict':
        c = I.read(o.lv)
        I.write(o.lv, I.dict_with(c, i, v))
        return
    from .interp import RecV
    if isinstance(o, (ObjV, RecV, RefV)):
        I.call(I.getattr(o, '__setitem__'), [i, v], {})
        return
    raise PyExc(exc(TypeError), why='item assignment on %r' % (o,))


def delitem(I, o, i):
    o = I.resolve(o)
    if isinstance(o, ContV) and o.kind == 'dict':
        dict_pop(I, o, i)
        return
    if isinstance(o, ContV) and o.kind == 'list':
        list_pop(I, o, i)
        return
    raise Unsupported('del item')


# -- methods ---------------------------------------------------------------------------
def method(I, o, name):
    if isinstance(o, ContV):
        t = {'list': LIST, 'set': SET, 'dict': DICT, 'range': {}}[o.kind]
        f = t.get(name)
    elif isinstance(o, tuple):
        f = TUPLE.get(name)
    elif is_str(o):
        f = STR.get(name)
    elif isinstance(o, NDV):
        from . import nplib
        return nplib.method(I, o, name)
    elif isinstance(o, IterV) and name in ('__next__', 'next'):
        f = None
    elif is_num(o) and not is_boolish(o):
        f = NUM.get(name)
    else:
        from .interp import ExcV
        if isinstance(o, ExcV) and name == 'args':
            return tuple(o.args)
        f = None
    if f is None:
        return None
    return Builtin('%s.%s' % (type(o).__name__, name),
                   lambda I, a, kw, f=f, o=o: f(I, o, *a, **kw))


def list_append(I, o, v):
    I.write(o.lv, seq_append(I.read(o.lv), v if isinstance(I.read(o.lv).items, list)
                             else I.freeze(v)))


def list_extend(I, o, v):
    I.write(o.lv, seq_concat(I.read(o.lv), I.E_list(v)))


def list_pop(I, o, i=-1):
    s = I.read(o.lv)
    E = I.E
    E.must(lt(0, s.n), exc(IndexError), 'pop from empty list')
    k = norm_index(I, i, s.n, 'pop index')
    v = I.elem_lv(o, s, k)
    if isinstance(v, (ContV, NDV)):
        v = I.freeze(v)
    if s.items is not None and isinstance(k, int):
        I.write(o.lv, Seq.of(s.items[:k] + s.items[k + 1:]), reorganise=True)
    else:
        last = eqn(k, sub(s.n, 1))
        ns = Seq(sub(s.n, 1), lambda j: s.get(j)) if last is True else \
            Seq(sub(s.n, 1), lambda j: ite(lt(j, k), s.get(j), s.get(add(j, 1))))
        I.write(o.lv, ns, reorganise=True)
    return v


def list_insert(I, o, i, v):
    s = I.read(o.lv)
    k = clip(I, i, s.n)
    if s.items is not None and isinstance(k, int):
        its = list(s.items)
        its.insert(k, v)
        I.write(o.lv, Seq.of(its), reorganise=True)
        return
    v = I.freeze(v)
    I.write(o.lv, Seq(add(s.n, 1), lambda j: ite(eqn(j, k), v, ite(
        lt(j, k), s.get(j), s.get(sub(j, 1))))), reorganise=True)


def list_index(I, o, x):
    """First index equal to x; ValueError if absent."""
    E = I.E
    s = I.E_list(o)
    if s.items is not None:
        for j, y in enumerate(s.items):
            if E.branch(I.truth(I.eq(y, x))):
                return j
        raise PyExc(exc(ValueError), why='not in list')
    E.must(contains_(I, ContV('list', Frozen(s)), x), exc(ValueError), 'not in list')
    j = E.fresh_int('idx')
    E.assume(z3.And(0 <= j, j < s.n))
    E.assume(boolx(I.truth(I.eq(s.get(j), x))))
    E.assume(ALL(j, lambda k: NOT(I.truth(I.eq(s.get(k), x)))))
    return j


def list_count(I, o, x):
    s = I.E_list(o)
    return sums.sum_over(I.E, s.n, lambda k: ite(I.truth(I.eq(s.get(k), x)), 1, 0))


def list_remove(I, o, x):
    k = list_index(I, o, x)
    list_pop(I, o, k)


def list_copy(I, o):
    return I.new_list(I.E_list(o))


def list_reverse(I, o):
    I.write(o.lv, seq_slice(I, I.read(o.lv), SliceV(None, None, -1)), reorganise=True)


def list_sort(I, o, key=None, reverse=False):
    s = sort_seq(I, I.read(o.lv), key, reverse)
    I.write(o.lv, s, reorganise=True)


def list_clear(I, o):
    I.write(o.lv, Seq.of([]), reorganise=True)


LIST = dict(append=list_append, extend=list_extend, pop=list_pop, insert=list_insert,
            index=list_index, count=list_count, remove=list_remove, copy=list_copy,
            reverse=list_reverse, sort=list_sort, clear=list_clear)
TUPLE = dict(index=list_index, count=list_count)


def set_add(I, o, x):
    c = I.read(o.lv)
    x = I.resolve(x)
    m = c.mem(x)
    if m is True:
        return
    if c.items is not None and m is False:
        its = c.items + [x]
        I.write(o.lv, SetC(lambda y: OR(*[I.truth(I.eq(i, y)) for i in its]), its,
                           c.elty or I.type_of(x)))
        return
    I.write(o.lv, SetC(lambda y: OR(c.mem(y), I.truth(I.eq(x, y))), None, c.elty or I.type_of(x)))


def set_discard(I, o, x):
    c = I.read(o.lv)
    if c.items is not None:
        ts = [I.truth(I.eq(i, x)) for i in c.items]
        if all(isinstance(t, bool) for t in ts):
            its = [i for i, t in zip(c.items, ts) if not t]
            I.write(o.lv, SetC(lambda y: OR(*[I.truth(I.eq(i, y)) for i in its]), its, c.elty))
            return
    I.write(o.lv, SetC(lambda y: AND(c.mem(y), NOT(I.truth(I.eq(x, y)))), None,
                       c.elty or I.type_of(x)))


def set_remove(I, o, x):
    I.E.must(I.read(o.lv).mem(x), exc(KeyError), 'set.remove')
    set_discard(I, o, x)


def set_pop(I, o):
    c = I.read(o.lv)
    E = I.E
    E.must(NOT(is_empty(I, o)), exc(KeyError), 'pop from empty set')
    if c.items is not None:
        # any element may come out
        i = E.choose(len(c.items)) if len(c.items) > 1 else 0
        x = c.items[i]
    else:
        x = E.fresh(c.elty, 'popped')
        E.assume(c.mem(x))
    set_discard(I, o, x)
    return x


def _setop(sym):
    def f(I, o, *others):
        r = o
        for x in others:
            r = set_binop(I, sym, r, x)
        if not others:
            r = I.new_cont('set', I.read(o.lv))
        return r
    return f


def _setupd(sym):
    def f(I, o, *others):
        r = _setop(sym)(I, o, *others)
        I.write(o.lv, I.read(r.lv))
    return f


SET = dict(add=set_add, discard=set_discard, remove=set_remove, pop=set_pop,
           union=_setop('|'), intersection=_setop('&'), difference=_setop('-'),
           symmetric_difference=_setop('^'), update=_setupd('|'),
           intersection_update=_setupd('&'), difference_update=_setupd('-'),
           copy=_setop('|'), clear=lambda I, o: I.write(o.lv, SetC(lambda x: False, [], I.read(o.lv).elty)),
           issubset=lambda I, o, x: subset(I, o, x), issuperset=lambda I, o, x: subset(I, x, o),
           isdisjoint=lambda I, o, x: is_empty(I, set_binop(I, '&', o, x)))


def dict_get(I, o, k, d=None):
    c = I.read(o.lv)
    h = I.dict_has(c, k)
    if I.E.branch(h):
        return getitem(I, o, k)
    return d


def dict_keys(I, o):
    c = I.read(o.lv)
    if c.items is not None:
        return ContV('list', Frozen(Seq.of([k for k, _ in c.items])))
    if c.meta.get('order') is not None:
        return ContV('list', Frozen(c.meta['order']))
    return ContV('set', Frozen(SetC(c.has, None, c.kty)))


def dict_values(I, o):
    c = I.read(o.lv)
    if c.items is not None:
        return ContV('list', Frozen(Seq.of([v for _, v in c.items])))
    s = enum_set(I, c)
    return ContV('list', Frozen(Seq(s.n, lambda j: c.get(s.get(j)), meta={'keys': s})))


def dict_items(I, o):
    c = I.read(o.lv)
    if c.items is not None:
        return ContV('list', Frozen(Seq.of([(k, v) for k, v in c.items])))
    s = c.meta.get('order') or enum_set(I, c)
    return ContV('list', Frozen(Seq(s.n, lambda j: (s.get(j), c.get(s.get(j))), meta={'keys': s})))


_NODEF = object()


def dict_pop(I, o, k, d=_NODEF):
    c = I.read(o.lv)
    h = I.dict_has(c, k)
    if d is _NODEF:
        I.E.must(h, exc(KeyError), 'pop')
    elif not I.E.branch(h):
        return d
    v = I.dict_get_raw(c, k)
    if c.items is not None:
        ts = [I.truth(I.eq(q, k)) for q, _ in c.items]
        if all(isinstance(t, bool) for t in ts):
            I.write(o.lv, DictC(items=[p for p, t in zip(c.items, ts) if not t]))
            return v
        c = I.dict_sym(c)
    has, get = c.has, c.get
    I.write(o.lv, DictC(has=lambda x: AND(has(x), NOT(I.truth(I.eq(x, k)))), get=get, kty=c.kty))
    return v


def dict_update(I, o, other=None, **kw):
    c = I.read(o.lv)
    if other is not None:
        oc = I.read(other.lv)
        if oc.items is None:
            raise Unsupported('dict.update with a symbolic dict')
        for k, v in oc.items:
            c = I.dict_with(c, k, v)
    for k, v in kw.items():
        c = I.dict_with(c, k, v)
    I.write(o.lv, c)


def dict_setdefault(I, o, k, d=None):
    c = I.read(o.lv)
    if not I.E.branch(I.dict_has(c, k)):
        I.write(o.lv, I.dict_with(c, k, d))
    return getitem(I, o, k)


DICT = dict(get=dict_get, keys=dict_keys, values=dict_values, items=dict_items, pop=dict_pop,
            update=dict_update, copy=lambda I, o: I.new_cont('dict', I.read(o.lv)),
            setdefault=dict_setdefault)


# -- strings ------------------------------------------------------------------------------
def format_value(I, v, spec=''):
    v = I.resolve(v)
    if isinstance(v, Opt):
        v = I.settle(v)
    if isinstance(v, (int, float, str)) or v is None:
        return format(v, spec) if v is not None else 'None'
    if is_str(v) and not spec:
        return v
    if is_z(v) and z3.is_int(v) and not spec:
        return fmt_int(v)
    if is_z(v) and z3.is_arith(v):
        f = z3.Function('fmt:%s:%s' % (v.sort().name(), spec), v.sort(), Str)
        return f(v)
    if is_z(v):
        return z3.Function('fmt:%s' % v.sort().name(), v.sort(), Str)(v)
    from .interp import RecV
    if isinstance(v, (ObjV, RecV)):
        for m in ('__str__', '__repr__'):
            ok, f, k = I.class_attr_raw(v.cls, m)
            if ok:
                return I.call(I.bind(f, v, v.cls), [], {})
        return E_str(I, 'obj')
    if isinstance(v, RefV):
        rc = I.refclasses[v.cls]
        if '__str__' in rc.methods:
            return rc.methods['__str__'](I, v, [], {})
        if rc.classv is not None:
            ok, f, k = I.class_attr_raw(rc.classv, '__str__')
            if ok:
                return I.call(I.bind(f, v, rc.classv), [], {})
        return z3.Function('fmt:' + v.cls, _IS, Str)(v.id)
    # the text of other values is not interpreted
    return E_str(I, 'repr')


def percent_format(I, s, args):
    args = I.resolve(args)
    args = list(args) if isinstance(args, tuple) else [args]
    out, i = [], 0
    for j, part in enumerate(re.split(r'(%[-#0 +]*[0-9]*(?:\.[0-9]+)?[a-zA-Z%])', s)):
        if j % 2 == 0:
            if part:
                out.append(part)
        elif part == '%%':
            out.append('%')
        else:
            if i >= len(args):
                raise PyExc(exc(TypeError), why='not enough arguments for format string')
            v = args[i]
            i += 1
            if isinstance(v, (int, float, str)) and not isinstance(v, bool):
                out.append(part % v)
            elif part in ('%s', '%d', '%i'):
                out.append(format_value(I, v))
            else:
                out.append(format_value(I, v, part[1:]))
    if i < len(args):
        raise PyExc(exc(TypeError), why='not all arguments converted')
    return mkstr(out)


def E_str(I, why):
    return I.E.fresh(TStr, 'str_' + why)


def str_format(I, s, *args, **kw):
    if not isinstance(s, str):
        if len(args) == 1 and not kw:
            return z3.Function('str.format', Str, Str, Str)(str_term(s), str_term(format_value(I, args[0])))
        raise Unsupported('format of a symbolic string')
    import string
    out, auto = [], 0
    for text, field, spec, conv in string.Formatter().parse(s):
        if text:
            out.append(text)
        if field is None:
            continue
        name, rest = field, ''
        for i, ch in enumerate(field):
            if ch in '.[':
                name, rest = field[:i], field[i:]
                break
        if name == '':
            if auto >= len(args):
                raise PyExc(exc(IndexError), why='format')
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            if name not in kw:
                raise PyExc(exc(KeyError), why='format ' + name)
            v = kw[name]
        while rest:
            if rest[0] == '.':
                j = 1
                while j < len(rest) and rest[j] not in '.[':
                    j += 1
                v = I.getattr(v, rest[1:j])
                rest = rest[j:]
            else:
                j = rest.index(']')
                ix = rest[1:j]
                v = I.getitem(v, int(ix) if ix.isdigit() else ix)
                rest = rest[j + 1:]
        if conv == 'r':
            out.append(z3.Function('repr', Str, Str)(str_term(format_value(I, v)))
                       if not isinstance(v, (str, int)) else repr(v))
        else:
            out.append(format_value(I, v, spec or ''))
    return mkstr(out)


joinf = z3.Function('str.join', Str, _IS, Str)


def str_join(I, sep, it):
    s = I.E_list(it)
    if s.items is not None:
        out = []
        for i, x in enumerate(s.items):
            x = I.resolve(x)
            if not is_str(x):
                raise PyExc(exc(TypeError), why='join')
            if i:
                out.append(sep)
            out.append(x)
        return mkstr(out)
    # a symbolic join: the structured token stream is kept as meta data
    E = I.E
    nm = E.uniq_name('join')
    bp = E.bparams()
    t = mk(TStr, nm, bp)
    E.joins[nm] = (bp, sep, s)
    return t


def _pystr(name):
    def f(I, s, *a):
        if isinstance(s, str) and all(isinstance(x, (str, int)) or x is None for x in a):
            r = getattr(s, name)(*a)
            if isinstance(r, list):
                return I.new_list(Seq.of(r))
            return r
        if name in ('strip', 'lower', 'upper') and not a:
            return z3.Function('str.' + name, Str, Str)(str_term(s))
        if name == 'replace' and len(a) == 2 and all(is_str(I.resolve(x)) for x in a):
            return z3.Function('str.replace', Str, Str, Str, Str)(str_term(s), *[str_term(I.resolve(x)) for x in a])
        raise Unsupported('str.%s of a symbolic string' % name)
    return f


STR = {n: _pystr(n) for n in ('split', 'strip', 'startswith', 'endswith', 'lower', 'upper',
                              'replace', 'rstrip', 'lstrip', 'splitlines', 'isdigit', 'title',
                              'capitalize', 'find', 'count', 'partition', 'index', 'zfill')}
STR['format'] = str_format
STR['join'] = str_join
NUM = {'is_integer': lambda I, x: I.truth(I.eq(x, z3.ToReal(z3.ToInt(real(x))))),
       'bit_length': None, 'item': lambda I, x: x, 'sum': lambda I, x: x}


# -- functions --------------------------------------------------------------------------------
def b_len(I, args, kw):
    v = I.resolve(args[0])
    if isinstance(v, Opt):
        v = I.force(v, 'len')
    if isinstance(v, ContV):
        c = I.read(v.lv)
        if v.kind in ('list', 'range'):
            return c.n
        if c.items is not None:
            return len(c.items)
        if isinstance(c, DictC) and c.meta.get('order') is not None:
            return c.meta['order'].n
        return enum_set(I, c).n
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, NDV):
        if not v.shape:
            raise PyExc(exc(TypeError), why='len of 0-d array')
        return v.shape[0]
    if is_str(v):
        f = z3.Function('str.len#', Str, _IS)
        t = f(str_term(v))
        I.E.assume(t >= 0)
        return t
    from .interp import RecV
    if isinstance(v, (ObjV, RecV, RefV)):
        return I.call(I.getattr(v, '__len__'), [], {})
    raise PyExc(exc(TypeError), why='len of %r' % (v,))


def mkrange(I, lo, hi, st=1):
    if all(isinstance(x, int) for x in (lo, hi, st)):
        s = Seq.of(list(range(lo, hi, st)))
    elif st == 1:
        n = sub(hi, lo)
        n = nonneg(I, n)
        s = Seq.of([add(lo, k) for k in range(n)]) if isinstance(n, int) else Seq(n, lambda k: add(lo, k) if not (isinstance(lo, int) and lo == 0) else k)
    elif st == -1:
        n = nonneg(I, sub(lo, hi))
        s = Seq(n, lambda k: sub(lo, k))
    elif isinstance(st, int) and st > 1:
        d = intx(nonneg(I, sub(hi, lo)))
        s = Seq((d + (st - 1)) / st, lambda k: add(lo, mul(st, k)))
    else:
        raise Unsupported('range step')
    s.meta['range'] = (lo, hi, st)
    return s


def b_range(I, args, kw):
    for a in args:
        if not is_intish(a):
            raise PyExc(exc(TypeError), why='range')
    a = [x if isinstance(x, int) else intx(x) for x in args]
    if len(a) == 1:
        s = mkrange(I, 0, a[0])
    else:
        s = mkrange(I, *a)
    return ContV('range', Frozen(s))


def ordered(I, v):
    from .interp import StarSeq
    if isinstance(v, StarSeq):
        raise Unsupported('* of a symbolic number of arguments')
    """Seq of an iterable, in any order for sets."""
    v = I.resolve(v)
    v = I.settle(v)
    from .interp import UnordV
    if isinstance(v, UnordV):
        return enum_set(I, SetC(v.mem, None, v.ty))
    if isinstance(v, ContV) and v.kind in ('set', 'dict'):
        c = I.read(v.lv)
        if v.kind == 'dict' and (c.items is not None or c.meta.get('order') is not None):
            return I.E_list(v)
        return enum_set(I, c)
    return I.E_list(v)


def b_zip(I, args, kw):
    from .interp import StarSeq
    if len(args) == 1 and isinstance(args[0], StarSeq):
        s = args[0].seq
        if not I.E.branch(lt(0, s.n)):
            return IterV(Seq.of([]))
        m = s.get(0)
        if not isinstance(m, tuple):
            raise Unsupported('zip of lists')
        return IterV(Seq.of([ContV('list', Frozen(Seq(s.n, lambda k, i=i: s.get(k)[i], meta={'tuple': True})))
                             for i in range(len(m))]))
    ss = [(I.resolve(a), ordered(I, a)) for a in args]
    if all(s.items is not None for _, s in ss):
        return IterV(Seq.of(list(zip(*[[I.elem_lv(a, s, k) for k in range(len(s.items))]
                                       for a, s in ss]))))
    n = ss[0][1].n
    for _, s in ss[1:]:
        n = ite(le(s.n, n), s.n, n) if not I.E.valid(boolx(eqn(s.n, n)), quick=True) else \
            (s.n if isinstance(s.n, int) else n)
    if isinstance(n, int):
        return IterV(Seq.of([tuple(I.elem_lv(a, s, k) for a, s in ss) for k in range(n)]))
    return IterV(Seq(n, lambda k: tuple(I.elem_lv(a, s, k) for a, s in ss)))


def b_enumerate(I, args, kw):
    st = args[1] if len(args) > 1 else kw.get('start', 0)
    a = I.resolve(args[0])
    s = ordered(I, a)
    if s.items is not None:
        return IterV(Seq.of([(add(st, i), I.elem_lv(a, s, i)) for i in range(len(s.items))]))
    return IterV(Seq(s.n, lambda k: (add(st, k), I.elem_lv(a, s, k))))


def b_map(I, args, kw):
    f = args[0]
    ss = [(I.resolve(a), ordered(I, a)) for a in args[1:]]
    if len(ss) == 1 and ss[0][1].items is None:
        from .interp import IMPURE
        a, s = ss[0]
        r = I.map_seq(s.n, lambda k: I.call(f, [I.elem_lv(a, s, k)], {}))
        if r is IMPURE:
            raise Unsupported('map with side effects')
        return IterV(r)
    return IterV(Seq.of([I.call(f, list(x), {}) for x in zip(*[s.items for _, s in ss])]))


def b_filter(I, args, kw):
    f, a = args[0], I.resolve(args[1])
    s = ordered(I, a)
    t = (lambda x: I.truth(x)) if f is None else (lambda x: I.truth(I.call(f, [x], {})))
    if s.items is not None:
        return IterV(Seq.of([x for x in s.items if I.E.branch(t(x))]))
    r = filter_seq(I, s, lambda k: t(s.get(k)))
    if r is None:
        raise Unsupported('filter with side effects')
    return IterV(r)


def b_sum(I, args, kw):
    a = I.resolve(args[0])
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    s = ordered(I, a)
    if s.items is not None:
        r = start
        for x in s.items:
            r = binop(I, 'Add', r, x)
        return r
    k = z3.Const(I.E.fresh_name('k'), _IS)
    with I.E.bound([k], z3.And(0 <= k, k < s.n)):
        v = s.get(k)
    if isinstance(v, ContV) and v.kind == 'list':
        return I.new_list(seq_concat(I.read(start.lv), flatten(I, Seq(s.n, lambda j: I.read(s.get(j).lv)))))
    if isinstance(v, NDV):
        raise Unsupported('sum of arrays')
    return add(start, sums.sum_over(I.E, s.n, lambda j: s.get(j)))


def extremum(I, s, less, key=None):
    """(index) of the first minimal element according to less."""
    E = I.E
    kf = (lambda x: x) if key is None else (lambda x: I.call(key, [x], {}))
    if s.items is not None:
        if len(s.items) == 1:
            return 0
        ks = [kf(x) for x in s.items]
        bi, bk = 0, ks[0]
        i = 0
        for j in range(1, len(ks)):
            c = I.truth(less(ks[j], bk))
            if isinstance(c, bool):
                if c:
                    bi, bk = j, ks[j]
            else:
                bi, bk = ite(c, j, bi), ite(c, ks[j], bk)
        return bi
    j = E.fresh_int('arg')
    E.assume(z3.And(0 <= j, j < s.n))
    best = kf(s.get(j))
    E.assume(ALL(s.n, lambda k: NOT(I.truth(less(kf(s.get(k)), best)))))
    E.assume(ALL(j, lambda k: I.truth(less(best, kf(s.get(k))))))
    return j


def b_minmax(op):
    def f(I, args, kw):
        key = kw.get('key')
        if len(args) > 1:
            s = Seq.of(args)
        else:
            s = ordered(I, args[0])
            if 'default' in kw and not I.E.branch(lt(0, s.n)):
                return kw['default']
            I.E.must(lt(0, s.n), exc(ValueError), 'min/max of empty sequence')
        less = (lambda x, y: compare(I, 'Lt', x, y)) if op == 'min' else \
            (lambda x, y: compare(I, 'Gt', x, y))
        if s.items is not None and key is None:
            r = s.items[0]
            for x in s.items[1:]:
                c = I.truth(less(x, r))
                r = ite(c, x, r)
            return r
        return s.get(extremum(I, s, less, key))
    return f


def sort_seq(I, s, key=None, reverse=False):
    if s.items is None:
        raise Unsupported('sorting a symbolic sequence')
    kf = (lambda x: x) if key is None else (lambda x: I.call(key, [x], {}))
    its = [(kf(x), x) for x in s.items]
    out = []
    for k, x in its:
        pos = len(out)
        while pos > 0:
            c = I.truth(compare(I, 'Gt' if reverse else 'Lt', k, out[pos - 1][0]))
            if not I.E.branch(c):
                break
            pos -= 1
        out.insert(pos, (k, x))
    return Seq.of([x for _, x in out])


def b_sorted(I, args, kw):
    v = I.resolve(args[0])
    if isinstance(v, ContV) and v.kind == 'set':
        c = I.read(v.lv)
        if c.items is not None:
            return I.new_list(sort_seq(I, Seq.of(c.items), kw.get('key'), kw.get('reverse', False)))
    return I.new_list(sort_seq(I, I.E_list(v), kw.get('key'), kw.get('reverse', False)))


def b_any(I, args, kw, isall=False):
    s = ordered(I, args[0])
    if s.items is not None:
        ts = [I.truth(x) for x in s.items]
        return AND(*ts) if isall else OR(*ts)
    return quantified(I, s, isall)


def quantified(I, s, isall):
    """All or any of the elements, one quantifier for each loop of a comprehension."""
    E = I.E
    if s.items is not None:
        ts = [I.truth(x) for x in s.items]
        return AND(*ts) if isall else OR(*ts)
    k = z3.Const(E.fresh_name('q'), _IS)
    if 'blocks' in s.meta:
        ss = s.meta['blocks']
        rng = z3.And(0 <= k, k < ss.n)
        with E.bound([k], rng):
            x = ss.get(k)
            b = boolx(quantified(I, x.lv.content if isinstance(x, ContV) else x, isall))
        return z3.ForAll([k], z3.Implies(rng, b)) if isall else z3.Exists([k], z3.And(rng, b))
    rng = z3.And(0 <= k, k < s.n)
    with E.bound([k], rng):
        b = boolx(I.truth(s.get(k)))
    if 'sel' in s.meta:
        # the elements passing the test, by their place before the selection
        n, test, idx = s.meta['sel']
        j = z3.Const(E.fresh_name('q'), _IS)
        c = z3.substitute(b, (idx(k), j))
        if not sums.contains(c, k):
            rng = z3.And(0 <= j, j < n, boolx(test(j)))
            return z3.ForAll([j], z3.Implies(rng, c)) if isall else z3.Exists([j], z3.And(rng, c))
    return z3.ForAll([k], z3.Implies(rng, b)) if isall else z3.Exists([k], z3.And(rng, b))


def b_isinstance(I, args, kw):
    return I.isinst(args[0], args[1])


def b_issubclass(I, args, kw):
    a, b = args
    bs = b if isinstance(b, tuple) else (b,)
    if isinstance(a, ClassV):
        return any(x in a.mro() for x in bs)
    from .interp import PyCls
    if isinstance(a, PyCls):
        return any(isinstance(x, PyCls) and issubclass(a.c, x.c) for x in bs)
    raise Unsupported('issubclass')


def b_getattr(I, args, kw):
    if len(args) == 3:
        return I.getattr(args[0], args[1], args[2], True)
    return I.getattr(args[0], args[1])


_MISS = object()


def b_hasattr(I, args, kw):
    return I.getattr(args[0], args[1], _MISS, True) is not _MISS


def b_abs(I, args, kw):
    x = args[0]
    if isinstance(x, (int, float)):
        return abs(x)
    if isinstance(x, NDV):
        from . import nplib
        return nplib.map1(I, x, lambda v: b_abs(I, [v], {}))
    if is_z(x) and z3.is_bool(x):
        x = intx(x)
    return z3.If(x >= 0, x, -x)


def c_int(I, args, kw):
    if not args:
        return 0
    x = I.resolve(args[0])
    if isinstance(x, Opt):
        x = I.force(x, 'int')
    if is_intish(x):
        return int(x) if isinstance(x, (bool, int)) else intx(x)
    if isinstance(x, float):
        return int(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise PyExc(exc(ValueError), why='int')
    if is_str(x):
        t = str_term(x)
        I.E.must(is_int_str(t), exc(ValueError), 'int')
        return int_of(t)
    if is_z(x) and z3.is_real(x):
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    if isinstance(x, RefV):
        m = I.refclasses[x.cls].methods.get('__int__')
        if m is not None:
            return m(I, x, [], {})
    raise PyExc(exc(TypeError), why='int of %r' % (x,))


def c_float(I, args, kw):
    x = args[0]
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            raise PyExc(exc(ValueError), why='float')
    if is_num(x):
        return real(x)
    if is_str(x):
        t = str_term(x)
        I.E.must(is_float_str(t), exc(ValueError), 'float')
        return float_of(t)
    raise PyExc(exc(TypeError), why='float')


def c_str(I, args, kw):
    return format_value(I, args[0]) if args else ''


def c_bool(I, args, kw):
    return I.truth(args[0]) if args else False


def c_list(I, args, kw):
    if not args:
        return I.new_list(Seq.of([]))
    return I.new_list(ordered(I, args[0]))


def c_tuple(I, args, kw):
    if not args:
        return ()
    s = ordered(I, args[0])
    if s.items is None:
        return ContV('list', Frozen(Seq(s.n, s.get, meta=dict(s.meta, tuple=True))))
    return tuple(s.items)


def c_set(I, args, kw):
    if not args:
        return I.new_cont('set', SetC(lambda x: False, []))
    v = I.resolve(args[0])
    if isinstance(v, ContV) and v.kind == 'set':
        return I.new_cont('set', I.read(v.lv))
    if isinstance(v, ContV) and v.kind == 'dict':
        return I.new_cont('set', set_c(I, v))
    return make_set(I, ordered(I, v))


def c_dict(I, args, kw):
    c = DictC(items=[])
    if args:
        v = I.resolve(args[0])
        if isinstance(v, ContV) and v.kind == 'dict':
            c = I.read(v.lv)
        else:
            c = I.read(dict_from_pairs(I, I.E_list(v)).lv)
    for k, v in kw.items():
        c = I.dict_with(c, k, v)
    return I.new_cont('dict', c)


def c_type(I, args, kw):
    v = I.resolve(args[0])
    from .interp import RecV, PyCls
    if isinstance(v, (ObjV, RecV)):
        return v.cls
    if isinstance(v, RefV):
        rc = I.refclasses[v.cls]
        if rc.classv is not None:
            return rc.classv
    if v is None:
        return PyCls(type(None))
    if isinstance(v, ContV):
        return PyCls({'list': list, 'set': set, 'dict': dict, 'range': range}[v.kind])
    if is_boolish(v):
        return PyCls(bool)
    if is_intish(v):
        return PyCls(int)
    if is_num(v):
        return PyCls(float)
    if is_str(v):
        return PyCls(str)
    if isinstance(v, tuple):
        return PyCls(tuple)
    raise Unsupported('type of %r' % (v,))


hashes = {}


def b_hash(I, args, kw):
    """hash: an uninterpreted function of the value, equal for equal values."""
    v = I.resolve(args[0])
    return hash_of(I, v)


def hash_of(I, v):
    E = I.E
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, Opt):
        return ite(v.none, hash_of(I, None), hash_of(I, v.val))
    if v is None:
        return z3.Int('hash:None')
    if isinstance(v, tuple):
        hs = [intx(hash_of(I, x)) for x in v]
        return z3.Function('hash_tuple%d' % len(hs), *([_IS] * (len(hs) + 1)))(*hs)
    if is_str(v):
        return z3.Function('hash_str', Str, _IS)(str_term(v))
    if is_num(v):
        return z3.Function('hash_num', _RS, _IS)(real(v))
    if is_z(v):
        return z3.Function('hash_' + v.sort().name(), v.sort(), _IS)(v)
    from .interp import RecV
    if isinstance(v, (ObjV, RecV)):
        for c in v.cls.mro():
            if not isinstance(c, ClassV):
                continue
            if '__hash__' in c.attrs:
                f = c.attrs['__hash__']
                if isinstance(f, tuple):
                    raise PyExc(exc(TypeError), why='unhashable')
                return I.call(I.bind(f, v, v.cls), [], {})
            if '__eq__' in c.attrs:
                raise PyExc(exc(TypeError), why='unhashable %s' % v.cls.name)
        return z3.Function('hash_id', _IS, _IS)(z3.IntVal(v.loc))
    if isinstance(v, RefV):
        rc = I.refclasses[v.cls]
        if '__hash__' in rc.methods:
            return rc.methods['__hash__'](I, v, [], {})
        return z3.Function('hash_ref_' + v.cls, _IS, _IS)(v.id)
    if isinstance(v, ContV) and v.kind == 'set' and isinstance(v.lv, Frozen):
        return hash_set(I, v.lv.content)
    if isinstance(v, ContV) and v.kind == 'list' and isinstance(v.lv, Frozen) and v.lv.content.meta.get('tuple'):
        return hash_seq(I, v.lv.content)
    if isinstance(v, ContV) and v.kind in ('list', 'set', 'dict') or isinstance(v, NDV):
        raise PyExc(exc(TypeError), why='unhashable')
    if isinstance(v, (ClassV, Builtin)):
        return z3.Int('hash:' + v.name)
    raise Unsupported('hash of %r' % (v,))


def hash_seq(I, c):
    """hash of a tuple of symbolic length: a fresh value, equal when the hashes of the elements are."""
    E = I.E
    h = E.fresh_int('hseq')
    for d, g in E.ghost.get('seqhash', ()):
        same = AND(eqn(c.n, d.n), E.fa_expr(ALL(c.n, lambda k: intx(hash_of(I, c.get(k))) == intx(hash_of(I, d.get(k))))))
        E.assume(IMP(same, h == g))
    E.ghost['seqhash'] = E.ghost.get('seqhash', ()) + ((c, h),)
    return h


def hash_set(I, c):
    """hash(frozenset): a fresh value, equal to that of extensionally equal sets."""
    E = I.E
    for d, h in E.ghost.get('sethash', ()):
        if c is d:
            return h
    h = E.fresh_int('hset')
    for d, g in E.ghost.get('sethash', ()):
        E.assume(IMP(boolx(I.cont_eq('set', c, d)), h == g))
    E.ghost['sethash'] = E.ghost.get('sethash', ()) + ((c, h),)
    return h


def c_frozenset(I, args, kw):
    v = c_set(I, args, kw)
    return ContV('set', Frozen(I.read(v.lv)))


def b_reversed(I, args, kw):
    return IterV(seq_slice(I, I.E_list(args[0]), SliceV(None, None, -1)))


def b_next(I, args, kw):
    raise Unsupported('next()')


def b_iter(I, args, kw):
    v = I.resolve(args[0])
    return IterV(ordered(I, v))


def b_print(I, args, kw):
    return None


def b_round(I, args, kw):
    x = args[0]
    if isinstance(x, (int, float)):
        return round(*args)
    raise Unsupported('round')


def b_super_unsupported(I, args, kw):
    raise Unsupported('super value')


def b_chain(I, args, kw):
    from .interp import StarSeq
    s = Seq.of([])
    for a in args:
        t = b_chain_from(I, [ContV('list', Frozen(a.seq))], {}).seq if isinstance(a, StarSeq) else ordered(I, a)
        s = t if s.items == [] else seq_concat(s, t)
    return IterV(s)


def b_chain_from(I, args, kw):
    s = ordered(I, args[0])
    if s.items is not None:
        return b_chain(I, s.items, kw)
    return IterV(flatten(I, Seq(s.n, lambda k: I.E_list(s.get(k)))))


def b_product(I, args, kw):
    import itertools
    rep = kw.get('repeat', 1)
    ss = [ordered(I, a) for a in args] * rep
    if all(s.items is not None for s in ss):
        return IterV(Seq.of(list(itertools.product(*[s.items for s in ss]))))
    raise Unsupported('itertools.product')


def b_permutations(I, args, kw):
    import itertools
    s = ordered(I, args[0])
    if s.items is None:
        raise Unsupported('permutations of a symbolic sequence')
    return IterV(Seq.of(list(itertools.permutations(s.items, *args[1:]))))


def b_combinations(I, args, kw):
    import itertools
    s = ordered(I, args[0])
    if s.items is None:
        raise Unsupported('combinations of a symbolic sequence')
    return IterV(Seq.of(list(itertools.combinations(s.items, *args[1:]))))


def b_reduce(I, args, kw):
    s = ordered(I, args[1])
    if s.items is None:
        raise Unsupported('reduce of a symbolic sequence')
    its = list(s.items)
    acc = args[2] if len(args) > 2 else its.pop(0)
    for x in its:
        acc = I.call(args[0], [acc, x], {})
    return acc


def c_counter(I, args, kw):
    s = ordered(I, args[0])
    if s.items is None:
        raise Unsupported('Counter')
    c = DictC(items=[])
    for x in s.items:
        h = I.dict_has(c, x)
        if h is True:
            c = I.dict_with(c, x, I.dict_get_raw(c, x) + 1)
        elif h is False:
            c = I.dict_with(c, x, 1)
        else:
            raise Unsupported('Counter')
    return I.new_cont('dict', c)


def b_copy(I, args, kw):
    """copy.copy: a shallow copy."""
    v = I.resolve(args[0])
    from .interp import RecV
    if isinstance(v, ObjV):
        return I.alloc(v.cls, I.E.store[v.loc])
    if isinstance(v, RecV):
        return v
    if isinstance(v, ContV):
        return I.new_cont(v.kind, I.read(v.lv))
    if isinstance(v, NDV):
        return I.freeze(v)
    if isinstance(v, RefV):
        raise Unsupported('copy of a reference')
    return v


def b_callable(I, args, kw):
    v = I.resolve(args[0])
    return isinstance(v, (FuncV, BoundV, ClassV, Builtin))


def install(I):
    X = I.externals
    for n, f in dict(len=b_len, range=b_range, xrange=b_range, zip=b_zip, enumerate=b_enumerate,
                     map=b_map, filter=b_filter, sum=b_sum, min=b_minmax('min'),
                     max=b_minmax('max'), sorted=b_sorted, any=b_any,
                     all=lambda I, a, kw: b_any(I, a, kw, True), isinstance=b_isinstance,
                     issubclass=b_issubclass, getattr=b_getattr, hasattr=b_hasattr, abs=b_abs,
                     hash=b_hash, reversed=b_reversed, next=b_next, iter=b_iter, print=b_print,
                     round=b_round, callable=b_callable,
                     setattr=lambda I, a, kw: I.setattr(*a),
                     id=lambda I, a, kw: z3.Int('id:%r' % (a[0],)),
                     repr=lambda I, a, kw: E_str(I, 'repr')).items():
        X[n] = Builtin(n, f)
    for n, f in dict(int=c_int, float=c_float, str=c_str, bool=c_bool, list=c_list, tuple=c_tuple,
                     set=c_set, dict=c_dict, type=c_type, frozenset=c_frozenset,
                     object=lambda I, a, kw: I.alloc(ClassV('object', _ObjMod, None, [])),
                     slice=lambda I, a, kw: SliceV(*([None, a[0], None] if len(a) == 1 else
                                                     list(a) + [None] * (3 - len(a)))),
                     range=b_range, zip=b_zip, enumerate=b_enumerate, map=b_map, filter=b_filter,
                     reversed=b_reversed).items():
        X['call:' + n] = f
    X['NotImplemented'] = Builtin('NotImplemented')
    X['Ellipsis'] = ELLIPSIS
    for n, f in {'itertools.chain': b_chain, 'itertools.product': b_product,
                 'itertools.permutations': b_permutations,
                 'itertools.combinations': b_combinations, 'functools.reduce': b_reduce,
                 'copy.copy': b_copy, 'itertools.chain.from_iterable': b_chain_from,
                 'collections.Counter': c_counter,
                 'copy.deepcopy': lambda I, a, kw: _deepcopy(I, a[0])}.items():
        X[n] = Builtin(n, f)
    X['isinstance:numbers.Integral'] = lambda I, v: is_intish(v)
    X['isinstance:Integral'] = X['isinstance:numbers.Integral']
    X['isinstance:collections.Iterable'] = lambda I, v: isinstance(v, (ContV, tuple, NDV)) or is_str(v)
    X['isinstance:collections.abc.Iterable'] = X['isinstance:collections.Iterable']


class _OM(object):
    name = 'builtins'


_ObjMod = _OM()


def _deepcopy(I, v):
    v = I.resolve(v)
    if isinstance(v, ContV):
        c = I.read(v.lv)
        if isinstance(c, Seq) and c.items is not None:
            return I.new_list(Seq.of([_deepcopy(I, x) for x in c.items]))
        if isinstance(c, DictC) and c.items is not None:
            return I.new_cont('dict', DictC(items=[(k, _deepcopy(I, x)) for k, x in c.items]))
        return I.new_cont(v.kind, I.freeze(v).lv.content)
    if isinstance(v, ObjV):
        return I.alloc(v.cls, {k: _deepcopy(I, x) for k, x in I.E.store[v.loc].items()})
    if isinstance(v, tuple):
        return tuple(_deepcopy(I, x) for x in v)
    return v
