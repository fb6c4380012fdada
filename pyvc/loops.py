"""Loops.  Concrete iterables are unrolled.  Otherwise a loop is cut: the state at
iteration k is given by derived closed forms (checked to be inductive) for what can be
summarised, by fresh symbols constrained by the inductive members of the candidate
pool (I.invariants) for the rest."""
import os
import z3
from .values import *
from . import values as V
from .engine import ALL, FA, decls_of, _DECLS
from . import sums

_IS = z3.IntSort()

DEBUG = os.environ.get('PYVC_DEBUG')


def for_loop(I, st, fr):
    from . import builtins_ as B
    from .interp import UnordV
    it = I.settle(I.resolve(I.ev(st.iter, fr)))
    if isinstance(it, UnordV) or isinstance(it, ContV) and it.kind in ('set', 'dict') and \
            I.read(it.lv).items is None or isinstance(it, ContV) and it.kind == 'set' and \
            len(I.read(it.lv).items) > 1:
        c = SetC(it.mem, None, it.ty) if isinstance(it, UnordV) else I.read(it.lv)
        if isinstance(c, (SetC, DictC)) and c.items is not None:
            return unroll_set(I, st, fr, c)
        if isinstance(c, DictC) and c.meta.get('order') is not None:
            s = c.meta['order']
        else:
            s = B.enum_set(I, c)
        it = ContV('list', Frozen(s))
    else:
        s = I.E_list(it)

    def item(k):
        if isinstance(it, ContV) and it.kind == 'list' or isinstance(it, NDV):
            return I.elem_lv(it, s, k) if isinstance(it, ContV) else s.get(k)
        return s.get(k)
    if s.items is not None:
        for k in range(len(s.items)):
            I.assign(st.target, item(k), fr)
            try:
                I.block(st.body, fr)
            except Brk:
                return
            except Cont_:
                pass
        I.block(st.orelse, fr)
        return

    def step(k):
        I.assign(st.target, item(k), fr)
        try:
            I.block(st.body, fr)
        except Cont_:
            pass
    if run_loop(I, s.n, step, fr, [st.target], 'for@%d' % st.lineno, s):
        I.block(st.orelse, fr)


def unroll_set(I, st, fr, c):
    """A small concrete set: every iteration order is explored."""
    items = list(c.items) if isinstance(c, SetC) else [k for k, _ in c.items]
    while items:
        i = I.E.choose(len(items)) if len(items) > 1 else 0
        x = items.pop(i)
        I.assign(st.target, x, fr)
        try:
            I.block(st.body, fr)
        except Brk:
            return
        except Cont_:
            pass
    I.block(st.orelse, fr)


def while_loop(I, st, fr):
    E = I.E
    n = 0
    bounded = I.bounded
    while True:
        if is_const_true(st.test) and not bounded or I.no_unroll:
            break
        c = I.cond(st.test, fr)
        if not isinstance(c, bool):
            if not bounded:
                break
            c = E.branch(c)
        if not c:
            I.block(st.orelse, fr)
            return
        n += 1
        if n > (bounded or 400):
            if bounded:
                I.bound_hit += 1
                raise PathEnd()
            break
        try:
            I.block(st.body, fr)
        except Brk:
            return
        except Cont_:
            pass

    def step(k):
        if not E.branch(I.cond(st.test, fr)):
            raise Brk_()
        try:
            I.block(st.body, fr)
        except Cont_:
            pass
    I.unrolled = n
    if run_loop(I, None, step, fr, [], 'while@%d' % st.lineno, None) == 'cond':
        I.block(st.orelse, fr)


def is_const_true(t):
    import ast
    return isinstance(t, ast.Constant) and bool(t.value)


class Brk_(Brk):
    """Exit of a while loop through its condition."""


# -- slots ------------------------------------------------------------------------------
THAWED = set()


def thaw(I, s, v):
    """A list held by one variable only (checked at the end of each iteration) as a location of its own."""
    if s[0] != 'var' or s[2] not in getattr(I, 'owned', ()):
        return v
    c = v.val if isinstance(v, Opt) else v
    if not isinstance(c, ContV) or not isinstance(c.lv, Frozen):
        return v
    n = I.new_cont(c.kind, c.lv.content)
    THAWED.add(n.lv.id)
    return Opt(v.none, n) if isinstance(v, Opt) else n


def owned_alone(I, s, v, store):
    """Nothing else refers to the list of an owned variable."""
    c = v.val if isinstance(v, Opt) else v
    if not isinstance(c, ContV) or not isinstance(c.lv, Loc):
        return
    me = c.lv.id

    def refs(x, d=0):
        if isinstance(x, Opt):
            return refs(x.val, d)
        if isinstance(x, ContV):
            return isinstance(x.lv, Loc) and x.lv.id == me
        if isinstance(x, Seq):
            ys = list(x.items or [])
            while 'app' in x.meta:
                ys.append(x.meta['app'][1])
                x = x.meta['app'][0]
            return any(refs(y, d + 1) for y in ys)
        if isinstance(x, tuple):
            return any(refs(y, d + 1) for y in x)
        return False
    for key, w in store.items():
        for nm, x in (w.items() if isinstance(w, dict) else [(None, w)]):
            if (key, nm) != (s[1], s[2]) and refs(x):
                raise Unsupported('the list %s has another name' % s[2])


def diff(E, base, after):
    """Slots of the base state changed in the after state."""
    out = set()
    st0, st1 = base[0], after[0]
    for key, v in st0.items():
        w = st1.get(key, UNDEF)
        if w is v:
            continue
        if isinstance(key, tuple) and key[0] == 'fr':
            for nm in set(v) | set(w):
                if v.get(nm, UNDEF) is not w.get(nm, UNDEF):
                    out.add(('var', key, nm))
        elif isinstance(key, tuple) and key[0] in ('exc', 'dv', 'gv'):
            continue
        elif isinstance(key, tuple) and key[0] == 'cv':
            out.add(('cv', key))
        elif isinstance(v, dict):
            for nm in set(v) | set(w):
                if v.get(nm, UNDEF) is not w.get(nm, UNDEF):
                    out.add(('obj', key, nm))
        elif key not in THAWED:
            out.add(('loc', key))
    for key, v in after[1].items():
        w = base[1].get(key)
        if w is v:
            continue
        if w is None and getattr(v, 'initial', None):
            continue
        out.add(('heap', key))
    for key, v in after[3].items():
        if base[3].get(key, UNDEF) is not v and not str(key).startswith('_') and \
                key not in ('last_draw', 'draws', 'nonzero', 'bytes', 'sethash', 'seqhash', 'joins'):
            out.add(('ghost', key))
    return out


def get_slot(E, snap, s):
    st = snap[0]
    if s[0] in ('var', 'obj'):
        return st.get(s[1], {}).get(s[2], UNDEF)
    if s[0] == 'loc':
        return st[s[1]]
    if s[0] == 'cv':
        return st[s[1]][0]
    if s[0] == 'heap':
        return snap[1].get(s[1])
    return snap[3].get(s[1], UNDEF)


def put_slot(E, s, v):
    if s[0] in ('var', 'obj'):
        d = dict(E.store[s[1]])
        if v is UNDEF and s[0] == 'obj':
            d.pop(s[2], None)
        else:
            d[s[2]] = v
        E.store[s[1]] = d
    elif s[0] == 'loc':
        E.store[s[1]] = v
    elif s[0] == 'cv':
        E.store[s[1]] = (v,)
    elif s[0] == 'heap':
        E.heap[s[1]] = v
    else:
        E.ghost[s[1]] = v


# -- types of values ----------------------------------------------------------------------
class _Same(object):
    """Value that has to stay the same object."""
    def __init__(self, v): self.v = v


class TyArrOf(Ty):
    def __init__(self, shape, kind): self.shape, self.kind = shape, kind


class TyMap(Ty):
    def __init__(self, key, ty): self.key, self.ty = key, ty


def vtype(I, v):
    E = I.E
    v = I.resolve(v) if isinstance(v, ObjV) else v
    if v is UNDEF:
        return UNDEF
    if v is None:
        return TOpt(None)
    if isinstance(v, Opt):
        return TOpt(None if v.val is None else vtype(I, v.val))
    if is_boolish(v):
        return TBool
    if is_intish(v):
        return TInt
    if is_num(v):
        return TReal
    if is_str(v):
        return TStr
    if isinstance(v, RefV):
        return TRef(v.cls)
    if isinstance(v, tuple):
        return TTup(*[vtype(I, x) for x in v])
    if is_z(v) and v.sort() == Obj:
        return TObj
    if isinstance(v, ContV):
        if isinstance(v.lv, Frozen):
            return ctype(I, v.lv.content)
        return _Same(v)
    if isinstance(v, NDV):
        if isinstance(v.lv, Frozen):
            return TyArrOf(v.shape, v.lv.content.kind)
        return _Same(v)
    if isinstance(v, (Seq, SetC, DictC, NArr)):
        return ctype(I, v)
    return _Same(v)


def ctype(I, c):
    E = I.E
    if isinstance(c, Seq):
        if c.items is not None:
            t = None
            for x in c.items:
                t = join(I, t, vtype(I, x))
            return TList(t)
        k = z3.Const(E.fresh_name('ty'), _IS)
        with E.bound([k], z3.And(0 <= k, k < c.n)):
            return TList(vtype(I, c.get(k)))
    if isinstance(c, NArr):
        return TyArrOf(c.shape, c.kind)
    if isinstance(c, SetC):
        ty = c.elty
        if c.items:
            ty = I.type_of(c.items[0])
        return TSet(ty)
    if isinstance(c, DictC):
        if c.items is not None:
            kt = vt = None
            for k, v in c.items:
                kt, vt = join(I, kt, vtype(I, k)), join(I, vt, vtype(I, v))
            return TDict(kt, vt)
        if c.get is None:
            return TDict(c.kty, None)
        ss, ev, ks = I.elem_var(c.kty)
        with E.bound(ks, True):
            return TDict(c.kty, vtype(I, c.get(ev)))
    raise Unsupported('type of content %r' % (c,))


def join(I, a, b):
    if a is None or a is UNDEF:
        return b
    if b is None or b is UNDEF:
        return a
    if isinstance(a, _Same) and isinstance(b, _Same):
        if same_value(a.v, b.v):
            return a
        raise Unsupported('a loop rebinds an object: %r / %r' % (a.v, b.v))
    if isinstance(a, TOpt) or isinstance(b, TOpt):
        x = a.t if isinstance(a, TOpt) else a
        y = b.t if isinstance(b, TOpt) else b
        return TOpt(join(I, x, y))
    if a in (TInt, TReal, TBool) and b in (TInt, TReal, TBool):
        if a is b:
            return a
        return TReal if TReal in (a, b) else TInt
    if type(a) is not type(b):
        raise Unsupported('loop variable of varying type %r %r' % (a, b))
    if isinstance(a, TTup):
        if len(a.ts) != len(b.ts):
            raise Unsupported('tuple of varying length')
        return TTup(*[join(I, x, y) for x, y in zip(a.ts, b.ts)])
    if isinstance(a, TList):
        return TList(join(I, a.t, b.t))
    if isinstance(a, TSet):
        return TSet(a.t or b.t)
    if isinstance(a, TDict):
        return TDict(a.k or b.k, join(I, a.v, b.v))
    if isinstance(a, TyArrOf):
        return TyArrOf(a.shape, 'r' if 'r' in (a.kind, b.kind) else a.kind)
    if isinstance(a, TRef) and a.cls != b.cls:
        raise Unsupported('reference of varying class')
    return a


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        return a.loc == b.loc
    if isinstance(a, ContV) and isinstance(b, ContV):
        return a.kind == b.kind and same_lv(a.lv, b.lv)
    if isinstance(a, NDV) and isinstance(b, NDV):
        return same_lv(a.lv, b.lv)
    return False


def same_lv(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Loc):
        return a.id == b.id
    if isinstance(a, AttrLV):
        return a.loc == b.loc and a.field == b.field
    if isinstance(a, FieldLV):
        return a.cls == b.cls and a.field == b.field and a.ref.eq(b.ref)
    return a is b


def hv(I, ty, name='hv%'):
    """Fresh value of a type; ContV for containers."""
    E = I.E
    if ty is UNDEF:
        return UNDEF
    if isinstance(ty, _Same):
        return ty.v
    if isinstance(ty, TOpt) and ty.t is None:
        return None
    if isinstance(ty, TyArrOf):
        nm = E.uniq_name(name)
        ps = E.bparams()
        a = NArr(ty.shape, lambda *ix: V._uf(nm + '[]', [z(p) for p in ps] + [intx(i) for i in ix],
                                             KSORT[ty.kind]), ty.kind)
        return NDV(Frozen(a), [('dim', d, 0) for d in range(len(ty.shape))], ty.shape)
    if isinstance(ty, TList) and ty.t is None:
        return ContV('list', Frozen(Seq.of([])))
    if isinstance(ty, TSet) and ty.t is None:
        return ContV('set', Frozen(SetC(lambda x: False, [])))
    if isinstance(ty, TDict) and ty.k is None:
        return ContV('dict', Frozen(DictC(items=[])))
    return mk_(I, ty, E.uniq_name(name), E.bparams())


def mk_(I, ty, name, params):
    if isinstance(ty, TList) and has_special(ty.t):
        raise Unsupported('list of objects built in a loop')
    return mk(ty, name, params)


def has_special(t):
    if isinstance(t, (_Same, TyArrOf)):
        return True
    if isinstance(t, TTup):
        return any(has_special(x) for x in t.ts)
    if isinstance(t, (TList, TOpt)):
        return t.t is not None and has_special(t.t)
    return False


def content(s, v):
    """Value form to slot form."""
    if s[0] == 'loc' and isinstance(v, (ContV, NDV)):
        return v.lv.content
    return v


def slot_type(I, s, v):
    if s[0] == 'heap':
        return TyMap(s[1], I.refclasses[s[1][0]].fields[s[1][1]])
    return vtype(I, v)


def hv_slot(I, s, ty):
    if isinstance(ty, TyMap):
        nm = I.E.uniq_name('hv%' + '.'.join(s[1]))
        ps = I.E.bparams()
        return lambda r: mk(ty.ty, nm, ps + [z(r)])
    return content(s, hv(I, ty))


def has_hv(e):
    if not is_z(e):
        return False
    for d in decls_of(e):
        if _DECLS[d].name().startswith('hv%'):
            return True
    return False


def val_has_hv(I, v):
    if v is None or isinstance(v, (bool, int, float, str)) or v is UNDEF:
        return False
    if is_z(v):
        return has_hv(v)
    if isinstance(v, tuple):
        return any(val_has_hv(I, x) for x in v)
    if isinstance(v, Opt):
        return has_hv(v.none) or val_has_hv(I, v.val)
    if isinstance(v, RefV):
        return has_hv(v.id)
    if isinstance(v, StrV):
        return any(val_has_hv(I, x) for x in v.pieces)
    if isinstance(v, ContV) and isinstance(v.lv, Frozen):
        return val_has_hv(I, v.lv.content)
    if isinstance(v, NDV) and isinstance(v.lv, Frozen):
        return val_has_hv(I, v.lv.content)
    E = I.E
    if isinstance(v, Seq):
        if val_has_hv(I, v.n):
            return True
        if v.items is not None:
            return any(val_has_hv(I, x) for x in v.items)
        k = z3.Const(E.fresh_name('tk'), _IS)
        with E.bound([k], z3.And(0 <= k, k < v.n)):
            return val_has_hv(I, v.get(k))
    if isinstance(v, NArr):
        ks = [z3.Const(E.fresh_name('tk'), _IS) for _ in v.shape]
        with E.bound(ks or [z3.Const('tk0', _IS)], True):
            return val_has_hv(I, v.get(*ks))
    if isinstance(v, NanV):
        return has_hv(v.isnan) or val_has_hv(I, v.val)
    if isinstance(v, (SetC, DictC)):
        if v.items is not None:
            return any(val_has_hv(I, x) for x in v.items)
        ty = v.elty if isinstance(v, SetC) else v.kty
        if ty is None:
            return True
        ss, ev, ks = I.elem_var(ty)
        with E.bound(ks, True):
            if isinstance(v, SetC):
                return val_has_hv(I, v.mem(ev))
            return val_has_hv(I, v.has(ev)) or (v.get is not None and val_has_hv(I, v.get(ev)))
    if isinstance(v, (ObjV, ContV, NDV, FuncV, ClassV, Builtin, BoundV)):
        return False
    return True


# -- closed forms ----------------------------------------------------------------------------
def as_app(I, b, a):
    """If content a is b with elements appended: list of appended values."""
    out = []
    while a is not b:
        if not isinstance(a, Seq):
            return None
        ap = a.meta.get('app')
        if ap is None:
            return None
        out.append(ap[1])
        a = ap[0]
    return list(reversed(out))


def derive(I, s, entry, before, outs, k):
    """Closed form: function of the iteration count giving the slot value, or None.
    outs: [(cond, value)] of the outcomes that continue."""
    E = I.E
    if not outs:
        return None
    conds_free = not any(has_hv(boolx(c)) for c, _ in outs)
    vals = [v for _, v in outs]
    if s[0] == 'heap':
        return None
    # appends
    if isinstance(before, Seq):
        apps = [as_app(I, before, v) for v in vals]
        if all(a is not None for a in apps):
            ln = set(len(a) for a in apps)
            if any(val_has_hv(I, x) for a in apps for x in a) or not (conds_free or len(outs) == 1):
                return None
            e = entry if isinstance(entry, Seq) else None
            if e is None:
                return None
            if ln == {1}:
                v = vals and apps[-1][0]
                for (c, _), a in reversed(list(zip(outs, apps))[:-1]):
                    v = ite(boolx(c), a[0], v)
                return lambda j: cat_seq(e, Seq(j, lambda i: rsub_(I, v, k, i)))
            if ln <= {0, 1} and conds_free:
                from . import builtins_ as B
                sel = OR(*[c for (c, _), a in zip(outs, apps) if a])
                got = [(c, a[0]) for (c, _), a in zip(outs, apps) if a]
                v = got[-1][1]
                for c, w in reversed(got[:-1]):
                    v = ite(boolx(c), w, v)

                def closed(j, v=v, sel=sel):
                    f = B.filter_seq(I, Seq(j, lambda i: i),
                                     lambda i: rsub_(I, boolx(sel), k, i))
                    return cat_seq(e, Seq(f.n, lambda m: rsub_(I, v, k, f.get(m))))
                return closed
        return None
    A = None
    try:
        A = vals[-1]
        for c, v in reversed(outs[:-1]):
            A = ite(boolx(c), v, A)
    except CannotMerge:
        return None
    if A is UNDEF:
        return None
    if is_num(before) and is_num(A) and not is_boolish(before):
        d = z3.simplify(z(sub(A, before)), som=False)
        if not has_hv(d):
            if not is_num(entry):
                return None
            isint = z3.is_int(d)
            return lambda j: add(entry, sums.sum_over(E, j, lambda i: z3.substitute(d, (k, intx(i)))))
        # scaling by a constant factor
        return None
    if isinstance(before, NArr) and isinstance(A, NArr) and isinstance(entry, NArr):
        ks = [z3.Const(E.fresh_name('ax'), _IS) for _ in before.shape]
        rng = [c for x, n in zip(ks, before.shape) for c in (0 <= x, x < n)]
        with E.bound(ks or [z3.Const('ax0', _IS)], z3.And(*rng) if rng else True):
            b_, a_ = before.get(*ks), A.get(*ks)
            if is_num(b_) and is_num(a_) and not is_boolish(b_):
                d = z3.simplify(z(sub(a_, b_)), som=False)
            else:
                d = None
        if d is not None and not has_hv(d):
            return lambda j: NArr(before.shape, lambda *ix: add(entry.get(*ix), sums.sum_over(
                E, j, lambda i: z3.substitute(d, *([(k, intx(i))] + [
                    (p, intx(q)) for p, q in zip(ks, ix)])))), entry.kind)
        # overwritten cells whose index determines the iteration
        r = overwrite(I, k, ks, b_, a_, entry, before)
        if r is not None:
            return r
        return None
    if not val_has_hv(I, A):
        # a value of the last iteration
        if entry is UNDEF:
            return lambda j: rsub_(I, A, k, sub(j, 1)) if E.valid(boolx(lt(0, j)), quick=True) else UNDEF

        def last(j):
            c = lt(0, j)
            if c is True or not isinstance(c, bool) and E.valid(c, quick=True):
                return rsub_(I, A, k, sub(j, 1))
            if c is False:
                return entry
            try:
                return ite(c, rsub_(I, A, k, sub(j, 1)), entry)
            except CannotMerge:
                return UNDEF
        return last
    return None


def overwrite(I, k, ks, b_, a_, entry, before):
    """a_[ks] = If(cond, val, b_) with cond implying some ks[d] == k + c."""
    E = I.E
    if not (is_z(a_) and is_z(b_)):
        return None
    # collect If(c, v, b_) layers
    layers = []
    x = a_
    while not x.eq(b_):
        if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE):
            return None
        layers.append((x.arg(0), x.arg(1)))
        x = x.arg(2)
    if any(has_hv(c) or has_hv(v) for c, v in layers):
        return None
    cond = z3.Or(*[c for c, _ in layers]) if len(layers) > 1 else layers[0][0]
    for d, kd in enumerate(ks):
        t = None
        for cj in conjuncts(layers[0][0]):
            r = sums.rel(cj, k)
            if r is not None and r[0] == '==' and not sums.contains(r[1], k):
                t = r[1]
                break
        if t is None:
            return None
        if all(E.valid(z3.Implies(c, k == t), quick=True) for c, _ in layers):
            def closed(j):
                def get(*ix):
                    w = z3.substitute(t, *[(p, intx(q)) for p, q in zip(ks, ix)])
                    sb = [(k, w)] + [(p, intx(q)) for p, q in zip(ks, ix)]
                    r = entry.get(*ix)
                    for c, v in reversed(layers):
                        cc = z3.substitute(z3.substitute(c, (k, t)), *sb)
                        vv = z3.substitute(z3.substitute(v, (k, t)), *sb)
                        r = ite(z3.And(0 <= w, w < intx(j), cc), vv, r)
                    return r
                return NArr(before.shape, get, entry.kind)
            return closed
        return None
    return None


def conjuncts(c):
    if z3.is_and(c):
        return [x for y in c.children() for x in conjuncts(y)]
    return [c]


def cat_seq(e, s):
    from . import builtins_ as B
    return B.seq_concat(e, s)


def rsub_(I, v, k, j):
    from .interp import subst_
    return subst_(v, k, j)


# -- the cut ------------------------------------------------------------------------------------
class LoopState(object):
    """What an invariant candidate may look at."""
    def __init__(self, I, k, frame, slots, entry):
        self.I, self.k, self.frame, self.slots, self.entry = I, k, frame, slots, entry
        self.depth = I.loop_depth     # 1 for an outermost loop
        self.outer = list(I.loop_ks)  # iteration numbers of the enclosing loops
        self.outer_seqs = list(I.loop_seqs)   # what they iterate over
        self.seq = None
        self.fn = I.E.callstack[-1] if I.E.callstack else None
        self.done = 0                 # iterations unrolled before the cut

    def values(self):
        """Current values of the modified slots: [(slot, value)]."""
        E = self.I.E
        snap = (E.store, E.heap, None, E.ghost)
        return [(s, get_slot(E, snap, s)) for s in self.slots]

    def var(self, name):
        return self.I.lookup(name, self.frame)

    def entry_field(self, o, name):
        """Field of an object when the loop was entered."""
        return self.entry[0][self.I.resolve(o).loc][name]


class Restart(Exception):
    def __init__(self, slots):
        self.slots = slots


def run_loop(I, n, step, frame, targets, label, seq):
    """Returns True when the loop ends normally, False on break; 'cond' when a while
    loop ends through its condition."""
    E = I.E
    base0, silent0 = E.snapshot(), E.silent
    banned = set()
    I.loop_depth += 1
    step0, nk = step, len(I.loop_ks)

    def step(k):
        del I.loop_ks[nk:], I.loop_seqs[nk:]
        I.loop_ks.append(k)
        I.loop_seqs.append(seq)
        try:
            step0(k)
        finally:
            del I.loop_ks[nk:], I.loop_seqs[nk:]
    try:
        while True:
            try:
                return run_loop1(I, n, step, frame, targets, label, seq, banned)
            except Restart as e:
                # facts found with a closed form that is not one are dropped with it
                banned |= e.slots
                E.restore(base0)
                E.silent = silent0
    finally:
        I.loop_depth -= 1


def run_loop1(I, n, step, frame, targets, label, seq, banned):
    E = I.E
    base = E.snapshot()
    types = {}
    closed = {}
    unrolled = 0 if n is not None else I.unrolled
    tnames = set()
    import ast
    for t in targets:
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                tnames.add(('var', frame.fid, x.id))

    def k_range(k, upto=False):
        if n is None:
            return k >= 0
        return z3.And(0 <= k, k <= n) if upto else z3.And(0 <= k, k < n)

    def install(k):
        """Put the state at iteration k in place."""
        for s in types:
            if s in closed:
                put_slot(E, s, closed[s](k))
            else:
                put_slot(E, s, thaw(I, s, hv_slot(I, s, types[s])))

    def invs(k, keep=None):
        st = LoopState(I, k, frame, list(types), base)
        st.done = unrolled
        st.seq = seq
        out = []
        for i, f in enumerate(I.invariants):
            try:
                r = f(I, st)
            except (Unsupported, PyExc, KeyError, AttributeError, TypeError, IndexError):
                if DEBUG:
                    import traceback
                    traceback.print_exc()
                continue
            if r is None:
                continue
            I.inv_applied.add(i)
            if not isinstance(r, list):
                r = [(0, r)]
            for key, g in r:
                if keep is None or (i, key) in keep:
                    out.append(((i, key), g))
        return out

    nf0 = E.nfresh
    E.silent += 1
    try:
        # modified slots and closed forms, to a fixed point
        k = z3.Const(E.fresh_name('it'), _IS)
        facts = []
        top = E.nfresh
        for rnd in range(14):
            E.restore(base)
            before = {}
            with E.bound([k], k_range(k)):
                # one installation shared by all paths so values can be compared
                install(k)
                # the symbols drawn by the iteration keep their names in every round
                top = max(top, E.nfresh)
                E.nfresh = nf0 + 1000
                snap0 = E.snapshot()
                for s in types:
                    before[s] = get_slot(E, snap0, s)

                def th2():
                    step(k)
                I.discover += 1
                try:
                    outs = E.sub_explore(th2)
                finally:
                    I.discover -= 1
                top = max(top, E.nfresh)
                cont = [o for o in outs if o.kind in ('ok', 'cont')]
                changed = set()
                for o in cont:
                    changed |= diff(E, snap0, o.snap)
                new = {}
                for s in changed:
                    ev = get_slot(E, base, s) if s[0] != 'heap' else None
                    if s in tnames:
                        if s not in types:
                            new[s] = UNDEF
                        continue
                    t = slot_type(I, s, ev if s[0] != 'heap' else None)
                    for o in cont:
                        t2 = slot_type(I, s, freeze_slot(I, s, get_slot(E, o.snap, s), o))
                        t = t2 if t is UNDEF else join(I, t, t2)
                    if s not in types or not same_type(types[s], t):
                        new[s] = t
                progress = False
                if new:
                    for s, t in new.items():
                        types[s] = t if s not in types else (
                            t if types[s] is UNDEF or t is UNDEF else join(I, types[s], t))
                    if closed:
                        closed.clear()
                        del facts[:]
                    progress = True
                else:
                    E.keep_facts(outs)
                    for s in types:
                        if s in closed or s in tnames or s in banned or (
                                I.plain_loops and s[0] != 'var'):
                            continue
                        entry = get_slot(E, base, s)
                        ov = [(o.cond, freeze_slot(I, s, get_slot(E, o.snap, s), o)) for o in cont]
                        try:
                            f = derive(I, s, entry, before[s], ov, k)
                        except (CannotMerge, Unsupported) as e_:
                            f = None
                        if f is not None:
                            closed[s] = f
                            progress = True
                exits = [o for o in outs if o.kind in ('brk', 'ret', 'exc')]
                exit_conds = [o.cond for o in exits]
            facts.extend(E.pc[len(base[2]):])
            if not progress:
                break
        else:
            raise Unsupported('loop summary does not converge')
        E.restore(base)
        E.nfresh = top + 1
        if closed or exit_conds:        # nothing else speaks of the symbols of the iteration
            E.pc.extend(facts)
        base = E.snapshot()
        # exits that did not happen before iteration j
        noexit = None
        ex = [boolx(c) for c in exit_conds]
        if ex and not any(has_hv(c) for c in ex):
            allx = z3.Or(*ex) if len(ex) > 1 else ex[0]
            noexit = lambda j: ALL(j, lambda i: z3.Not(z3.substitute(allx, (k, intx(i)))))
        # closed forms must be inductive (they are derived, then checked)
        bad = check_closed(I, base, types, closed, step, k_range, n, noexit)
        if bad:
            raise Restart(set(bad))
        # Houdini over the pool
        keep = None
        if I.invariants and not (I.plain_loops and I.discover):
            E.restore(base)
            keep = set()
            for key, g in invs(z3.IntVal(0)):
                if E.valid(g, timeout_ms=4000):
                    keep.add(key)
                elif DEBUG:
                    print('invariant does not hold on entry:', key, g if z3.is_expr(g) else '')
            while keep:
                E.restore(base)
                kk = z3.Const(E.fresh_name('it'), _IS)
                E.assume(k_range(kk), 'c')
                install(kk)
                for key, g in invs(kk, keep):
                    E.assume(g)
                if noexit:
                    E.assume(noexit(kk))
                outs = E.sub_explore(lambda: step(kk))
                bad = set()
                for o in outs:
                    if o.kind not in ('ok', 'cont'):
                        continue
                    E.restore(o.snap)
                    for s in types:
                        if s in closed:
                            put_slot(E, s, closed[s](kk + 1))
                    got = set()
                    for key, g in invs(kk + 1, keep - bad):
                        got.add(key)
                        if not E.valid(g, timeout_ms=4000):
                            bad.add(key)
                            if DEBUG:
                                print('invariant dropped:', key, '' if callable(g) or not z3.is_expr(g) else
                                      str(z3.simplify(g))[:1500])
                                if DEBUG == '2':
                                    print(sums.explain())
                                    print([c for t_, c in E.pc if t_ != 'f'])
                    bad |= keep - bad - got
                if not bad:
                    break
                keep -= bad
            E.restore(base)
        else:
            keep = set()
    finally:
        E.silent -= 1
    E.restore(base)
    I.loop_log.append((E.cur_fn, label, sorted(str(s) for s in types if s in closed),
                       sorted(str(s) for s in types if s not in closed), len(keep or ())))
    for s in types:
        E.writes.add(s)
    # real execution: leave normally, or run one arbitrary iteration
    if n is None:
        arm = 1
    else:
        arm = E.choose(2)
    if arm == 0:
        install(n if not isinstance(n, int) else z3.IntVal(n))
        for key, g in invs(intx(n), keep):
            E.assume(g)
        if noexit:
            E.assume(noexit(intx(n)))
        for s in tnames:
            if s in types:
                put_slot(E, s, UNDEF)
        bump_epochs(I, types)
        if not E.feasible(z3.BoolVal(True)):
            raise PathEnd()
        return True
    kk = z3.Const(E.fresh_name('it'), _IS)
    E.assume(k_range(kk), 'c')
    install(kk)
    for key, g in invs(kk, keep):
        E.assume(g)
    if noexit:
        E.assume(noexit(kk))
    bump_epochs(I, types)
    if not E.feasible(z3.BoolVal(True)):
        raise PathEnd()
    E.ghost['iteration'] = kk
    try:
        step(kk)
    except Brk_:
        return 'cond'
    except Brk:
        return False
    raise PathEnd()


def bump_epochs(I, types):
    E = I.E
    for s in types:
        if s[0] == 'loc':
            E.epochs[('loc', s[1])] = E.epochs.get(('loc', s[1]), 0)


def freeze_slot(I, s, v, o):
    """Slot value in value form, read in the state of the outcome."""
    E = I.E
    if s[0] == 'heap' or v is UNDEF:
        return v
    cur = E.snapshot()
    E.restore(o.snap)
    try:
        if s[0] == 'var' and s[2] in getattr(I, 'owned', ()):
            owned_alone(I, s, v, o.snap[0])
            return frz(I, v)
        if isinstance(v, Seq) and v.items is not None:
            return Seq.of([frz(I, x) for x in v.items])
        if isinstance(v, Seq):
            return freeze_app(I, v)
        if isinstance(v, (NArr, SetC, DictC)):
            return v
        return v if isinstance(v, (ObjV, ContV, NDV)) and not new_in(E, cur, v) else frz(I, v)
    finally:
        E.restore(cur)


def new_in(E, base, v):
    if isinstance(v, ObjV):
        return v.loc not in base[0]
    lv = v.lv
    while isinstance(lv, SubLV):
        lv = lv.parent
    if isinstance(lv, Loc):
        return lv.id not in base[0]
    return isinstance(lv, Frozen)


def frz(I, v):
    """Index-dependent value of a container/object allocated in the iteration."""
    return I.to_rec(v, -1) if not isinstance(v, ObjV) or v.loc not in () else v


def freeze_app(I, v):
    """Freeze appended values along an append chain, keeping the chain."""
    chain = []
    x = v
    while isinstance(x, Seq) and 'app' in x.meta:
        chain.append(x.meta['app'][1])
        x = x.meta['app'][0]
    if not chain:
        return v
    from . import builtins_ as B
    r = x
    for w in reversed(chain):
        r = B.seq_append(r, frz(I, w)) if r.items is None else Seq(
            len(r.items) + 1, Seq.of(r.items + [frz(I, w)]).get, meta={'app': (r, frz(I, w))})
    return r


def same_type(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, _Same):
        return same_value(a.v, b.v)
    if isinstance(a, TTup):
        return len(a.ts) == len(b.ts) and all(same_type(x, y) for x, y in zip(a.ts, b.ts))
    if isinstance(a, (TList, TOpt, TSet)):
        return (a.t is None and b.t is None) or (a.t is not None and b.t is not None and
                                                 same_type(a.t, b.t)) or b.t is None
    if isinstance(a, TDict):
        return (b.k is None or a.k is not None) and (b.v is None or a.v is not None)
    if isinstance(a, TyArrOf):
        return a.kind == b.kind or b.kind != 'r'
    if isinstance(a, TRef):
        return a.cls == b.cls
    if isinstance(a, TyMap):
        return a.key == b.key
    return a is b


def check_closed(I, base, types, closed, step, k_range, n, noexit):
    """Slots whose closed form is not inductive."""
    E = I.E
    bad = []
    if not closed:
        return bad
    E.restore(base)
    kk = z3.Const(E.fresh_name('it'), _IS)
    for s in closed:
        v0 = closed[s](z3.IntVal(0))
        e = get_slot(E, base, s)
        if not slot_eq(I, s, v0, e):
            bad.append(s)
    if bad:
        return bad
    with E.bound([kk], k_range(kk)):
        for s in types:
            put_slot(E, s, closed[s](kk) if s in closed else hv_slot(I, s, types[s]))
        if noexit:
            E.assume(noexit(kk))
        outs = E.sub_explore(lambda: step(kk))
        for o in outs:
            if o.kind not in ('ok', 'cont'):
                continue
            E.restore(o.snap)
            for s in closed:
                if s in bad:
                    continue
                v = freeze_slot(I, s, get_slot(E, o.snap, s), o)
                # the closed form speaks of the fresh symbols of its own iteration:
                # it is inductive by construction when the derivation was exact
                ok = getattr(closed[s], 'exact', True) or slot_eq(I, s, closed[s](kk + 1), v)
                if not ok:
                    bad.append(s)
    E.restore(base)
    return bad


def slot_eq(I, s, a, b):
    E = I.E
    if a is b or b is UNDEF:
        return True
    if a is UNDEF:
        return False
    try:
        if isinstance(a, NArr):
            return E.valid(ALL(list(a.shape), lambda *ix: I.truth(I.eq(a.get(*ix), b.get(*ix)))))
        if isinstance(a, Seq):
            return E.valid([boolx(eqn(a.n, b.n))] + [ALL(b.n, lambda j: I.truth(
                I.eq(a.get(j), b.get(j))))])
        return E.valid(boolx(I.truth(I.eq(a, b))))
    except (Unsupported, PyExc):
        return False
