"""Finite sums.  A sum is normalised with the rules below (each is an instance of
a lemma proved in lemmas/Sums.lean) and whatever is left becomes an application of an
uninterpreted function S_<body skeleton>(lo, hi, parameters)."""
import z3
from .values import *

_skel = {}        # skeleton ast id -> (decl, skeleton, kappa, pis)
_by_decl = {}     # decl id -> same
SCATTER = {}      # decl id of mem -> Scatter
FLATTEN = {}      # decl id of blk -> Flatten
_keep = []


def contains(e, k):
    key = (e.get_id(), k.get_id())
    r = _ccache.get(key)
    if r is None:
        stack, seen, found = [e], set(), False
        while stack and not found:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.eq(k):
                found = True
            elif z3.is_quantifier(x):
                stack.append(x.body())
            else:
                stack.extend(x.children())
        r = (found, e, k)
        _ccache[key] = r
    return r[0]


_ccache = {}


def lin(e, k):
    """e == c*k + r with integer c and k-free r, or None."""
    if e.eq(k):
        return 1, z3.IntVal(0)
    if not contains(e, k):
        return 0, e
    kd = e.decl().kind() if z3.is_app(e) else None
    if kd == z3.Z3_OP_ADD:
        c, r = 0, None
        for x in e.children():
            l = lin(x, k)
            if l is None:
                return None
            c += l[0]
            if not (z3.is_int_value(l[1]) and l[1].as_long() == 0):
                r = l[1] if r is None else r + l[1]
        return c, (z3.IntVal(0) if r is None else r)
    if kd == z3.Z3_OP_SUB:
        a, b = lin(e.arg(0), k), lin(e.arg(1), k)
        if a is None or b is None or e.num_args() != 2:
            return None
        return a[0] - b[0], sub_(a[1], b[1])
    if kd == z3.Z3_OP_UMINUS:
        a = lin(e.arg(0), k)
        return None if a is None else (-a[0], -a[1])
    if kd == z3.Z3_OP_MUL and e.num_args() == 2:
        for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            if z3.is_int_value(x):
                a = lin(y, k)
                if a is None:
                    return None
                c = x.as_long()
                return c * a[0], z3.IntVal(c) * a[1]
    return None


def sub_(a, b):
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    if a.eq(b):
        return z3.IntVal(0)
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() - b.as_long())
    return a - b


def add_(a, b):
    if z3.is_int_value(b) and b.as_long() == 0:
        return a
    if z3.is_int_value(a) and a.as_long() == 0:
        return b
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal(a.as_long() + b.as_long())
    return a + b


def rel(c, k):
    """Normalise an atom over k to (op, t): k op t, op in == < <= > >=; or None."""
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    kd = c.decl().kind()
    ops = {z3.Z3_OP_EQ: '==', z3.Z3_OP_LT: '<', z3.Z3_OP_LE: '<=', z3.Z3_OP_GT: '>',
           z3.Z3_OP_GE: '>='}
    if kd not in ops or not z3.is_int(c.arg(0)):
        return None
    a, b = lin(c.arg(0), k), lin(c.arg(1), k)
    if a is None or b is None:
        return None
    co, r = a[0] - b[0], sub_(b[1], a[1])   # co*k op r
    op = ops[kd]
    if co == 1:
        return op, r
    if co == -1:
        return {'==': '==', '<': '>', '<=': '>=', '>': '<', '>=': '<='}[op], \
            z3.simplify(-r) if z3.is_int_value(r) else -r
    return None


class Scatter(object):
    def __init__(self, mem, inv, seq, params):
        self.mem, self.inv, self.seq, self.params = mem, inv, seq, params


class Flatten(object):
    def __init__(self, blk, cs, lens, n, params):
        self.blk, self.cs, self.lens, self.n, self.params = blk, cs, lens, n, params


_level = [0]


def sum_over(E, n, f, lo=0):
    """Sum_{lo <= k < n} f(k) as a Real (or Int-valued Real) term."""
    if isinstance(n, int) and isinstance(lo, int):
        if n - lo <= 12:
            r = 0
            for i in range(lo, n):
                r = add(r, f(i))
            return r if not isinstance(r, int) or n > lo else 0
    if z3.is_true(z3.simplify(intx(n) <= intx(lo))):
        return 0
    k = z3.Const('kap%d' % _level[0], z3.IntSort())
    mark = len(E.pc)
    E.pc.append(('c', z3.And(intx(lo) <= k, k < intx(n))))
    _level[0] += 1
    E.bstack.append([k])
    try:
        body = f(k)
        isint = is_intish(body)
        body = real(body)
        r = norm(E, intx(lo), intx(n), body, k)
    finally:
        _level[0] -= 1
        E.bstack.pop()
        new = E.pc[mark + 1:]
        rng = E.pc[mark][1]
        del E.pc[mark:]
        for t, g in new:
            if t == 'f':
                if contains(g, k):
                    g = E.gen([k], [rng], g)
                E.pc.append(('f', g))
    if isint:
        r = toint(r)
    return r


def toint(r):
    """Integer version of a sum of integers."""
    if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_TO_REAL:
        return r.arg(0)
    if z3.is_rational_value(r) and r.denominator_as_long() == 1:
        return z3.IntVal(r.numerator_as_long())
    return z3.ToInt(r)


def norm(E, lo, hi, body, k, fuel=60):
    if fuel <= 0:
        return opaque(E, lo, hi, body, k)
    if z3.is_int_value(lo) and z3.is_int_value(hi):
        a, b = lo.as_long(), hi.as_long()
        if b <= a:
            return z3.RealVal(0)
        if b - a <= 12:
            r = None
            for i in range(a, b):
                t = z3.substitute(body, (k, z3.IntVal(i)))
                r = t if r is None else r + t
            return r
    if lo.eq(hi):
        return z3.RealVal(0)
    if not contains(body, k):
        if z3.is_rational_value(body) and body.numerator_as_long() == 0:
            return z3.RealVal(0)
        n = sub_(hi, lo)
        if not E.valid(hi >= lo, quick=True):
            n = z3.If(hi >= lo, n, z3.IntVal(0))
        n = z3.ToReal(n)
        if z3.is_rational_value(body) and body.as_fraction() == 1:
            return n
        return n * body
    # peel the last term
    l = lin_const(hi)
    if l is not None and l[1] > 0 and l[1] <= 3:
        t = l[0]
        if E.valid(lo <= t, quick=True):
            r = norm(E, lo, t, body, k, fuel - 1)
            for i in range(l[1]):
                at = add_(t, z3.IntVal(i))
                r = radd(r, simp_at(E, z3.substitute(body, (k, at))))
            return r
    kd = body.decl().kind() if z3.is_app(body) else None
    rec = lambda b: norm(E, lo, hi, b, k, fuel - 1)
    if kd == z3.Z3_OP_ADD:
        r = None
        for c in body.children():
            r = rec(c) if r is None else radd(r, rec(c))
        return r
    if kd == z3.Z3_OP_SUB:
        cs = body.children()
        r = rec(cs[0])
        for c in cs[1:]:
            r = rsub(r, rec(c))
        return r
    if kd == z3.Z3_OP_UMINUS:
        return -rec(body.arg(0))
    if kd == z3.Z3_OP_DIV and not contains(body.arg(1), k):
        return rec(body.arg(0)) / body.arg(1)
    if kd == z3.Z3_OP_DIV:
        # num/den with k-dependent den: expose an If in the numerator
        a = body.arg(0)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return rec(z3.If(a.arg(0), a.arg(1) / body.arg(1), a.arg(2) / body.arg(1)))
    if kd == z3.Z3_OP_TO_REAL:
        a = body.arg(0)
        ak = a.decl().kind() if z3.is_app(a) else None
        if ak == z3.Z3_OP_ITE:
            return rec(z3.If(a.arg(0), z3.ToReal(a.arg(1)), z3.ToReal(a.arg(2))))
        if ak in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
            cs = [z3.ToReal(c) for c in a.children()]
            r = cs[0]
            for c in cs[1:]:
                r = {z3.Z3_OP_ADD: lambda: r + c, z3.Z3_OP_SUB: lambda: r - c,
                     z3.Z3_OP_MUL: lambda: r * c}[ak]()
            return rec(r)
    if kd == z3.Z3_OP_MUL:
        fs = []
        for c in body.children():
            fs.extend(c.children() if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MUL else [c])
        free = [c for c in fs if not contains(c, k)]
        dep = [c for c in fs if contains(c, k)]
        if free:
            p = free[0]
            for c in free[1:]:
                p = p * c
            d = dep[0]
            for c in dep[1:]:
                d = d * c
            s = rec(d)
            if z3.is_rational_value(s) and s.numerator_as_long() == 0:
                return s
            if z3.is_rational_value(s) and s.as_fraction() == 1:
                return p
            return p * s
        for i, c in enumerate(dep):
            ck = c.decl().kind() if z3.is_app(c) else None
            others = dep[:i] + dep[i + 1:]

            def times(x):
                if z3.is_rational_value(x) and x.numerator_as_long() == 0:
                    return x
                r = x
                for o in others:
                    r = o if (z3.is_rational_value(r) and r.as_fraction() == 1) else r * o
                return r
            if ck == z3.Z3_OP_ITE:
                return rec(z3.If(c.arg(0), times(c.arg(1)), times(c.arg(2))))
            if ck in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                cs = [times(x) for x in c.children()]
                r = cs[0]
                for x in cs[1:]:
                    r = (r + x) if ck == z3.Z3_OP_ADD else (r - x)
                return rec(r)
            if ck == z3.Z3_OP_UMINUS:
                return -rec(times(c.arg(0)))
            if ck == z3.Z3_OP_TO_REAL and z3.is_app(c.arg(0)) and \
                    c.arg(0).decl().kind() == z3.Z3_OP_ITE:
                a = c.arg(0)
                return rec(z3.If(a.arg(0), times(z3.ToReal(a.arg(1))), times(z3.ToReal(a.arg(2)))))
            if ck == z3.Z3_OP_DIV and not contains(c.arg(1), k):
                return rec(times(c.arg(0))) / c.arg(1)
    if kd == z3.Z3_OP_ITE:
        r = norm_ite(E, lo, hi, body.arg(0), body.arg(1), body.arg(2), k, fuel)
        if r is not None:
            return r
    # flatten rule
    fl = find_flat(body, k, hi)
    if fl is not None and z3.is_int_value(lo) and lo.as_long() == 0:
        F, app = fl
        i = z3.Const('kap%d' % (_level[0] + 10), z3.IntSort())

        def outer(i):
            def inner(j):
                at = F.cs(i) + j
                b = z3.substitute(body, (k, at))
                b = z3.substitute(b, (z3.substitute(app, (k, at)), i))
                return simp_at(E, z3.simplify(b))
            return sum_over(E, F.lens(i), inner)
        return real(sum_over(E, F.n, outer))
    return opaque(E, lo, hi, body, k)


def find_flat(body, k, hi):
    seen = set()
    stack = [body]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            F = FLATTEN.get(x.decl().get_id())
            if F is not None and x.arg(x.num_args() - 1).eq(k):
                if intx(F.cs(F.n)).eq(hi):
                    return F, x
            stack.extend(x.children())
    return None


def radd(a, b):
    if z3.is_rational_value(a) and a.numerator_as_long() == 0:
        return b
    if z3.is_rational_value(b) and b.numerator_as_long() == 0:
        return a
    return a + b


def rsub(a, b):
    if z3.is_rational_value(b) and b.numerator_as_long() == 0:
        return a
    return a - b


def simp_at(E, t):
    return t


def lin_const(e):
    """e == t + c with c a positive numeral."""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD:
        cs = e.children()
        nums = [c.as_long() for c in cs if z3.is_int_value(c)]
        rest = [c for c in cs if not z3.is_int_value(c)]
        if nums and rest:
            t = rest[0]
            for c in rest[1:]:
                t = t + c
            return t, sum(nums)
        if not nums:
            # nested  (a + 1) + b
            for i, c in enumerate(cs):
                l = lin_const(c)
                if l is not None:
                    t = l[0]
                    for j, d in enumerate(cs):
                        if j != i:
                            t = t + d
                    return t, l[1]
    return None


def iff(c, a, b):
    if c is True or is_z(c) and z3.is_true(c):
        return a
    if c is False or is_z(c) and z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def decide(E, c):
    """c simplified with the current path condition (quick)."""
    if isinstance(c, bool):
        return c
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if E.valid(c, quick=True):
        return True
    if E.valid(z3.Not(c), quick=True):
        return False
    return c


def norm_ite(E, lo, hi, c, a, b, k, fuel):
    rec = lambda x: norm(E, lo, hi, x, k, fuel - 1)
    if a.eq(b):
        return rec(a)
    if z3.is_true(c):
        return rec(a)
    if z3.is_false(c):
        return rec(b)
    if not contains(c, k):
        d = decide_nok(E, c, k)
        if d is True:
            return rec(a)
        if d is False:
            return rec(b)
        return iff(c, rec(a), rec(b))
    if z3.is_not(c):
        return norm_ite(E, lo, hi, c.arg(0), b, a, k, fuel - 1)
    if z3.is_and(c):
        cs = c.children()
        # k-free conjuncts first, then equations, then the rest
        cs.sort(key=lambda x: 0 if not contains(x, k) else
                (1 if (rel(x, k) or ('', 0))[0] == '==' else 2))
        if len(cs) == 1:
            return norm_ite(E, lo, hi, cs[0], a, b, k, fuel - 1)
        rest = z3.And(*cs[1:]) if len(cs) > 2 else cs[1]
        return norm_ite(E, lo, hi, cs[0], z3.If(rest, a, b), b, k, fuel - 1)
    if z3.is_or(c):
        cs = c.children()
        if len(cs) == 1:
            return norm_ite(E, lo, hi, cs[0], a, b, k, fuel - 1)
        rest = z3.Or(*cs[1:]) if len(cs) > 2 else cs[1]
        return norm_ite(E, lo, hi, cs[0], a, z3.If(rest, a, b), k, fuel - 1)
    r = rel(c, k)
    if r is not None:
        op, t = r
        if op == '==':
            at = lambda x: simp_at(E, z3.substitute(x, (k, t)))
            inr = decide_nok(E, z3.And(lo <= t, t < hi), k)
            base = rec(b)
            d = rsub(at(a), at(b))
            if inr is True:
                return radd(base, d)
            if inr is False:
                return base
            return radd(base, z3.If(inr, d, z3.RealVal(0)))
        if op in ('<', '>='):
            mid = t
        else:
            mid = add_(t, z3.IntVal(1))
        if op in ('>=', '>'):
            a, b = b, a
        # k < mid ? a : b
        low = decide_nok(E, lo <= mid, k)
        if low is False:
            return rec(b)
        high = decide_nok(E, mid <= hi, k)
        if high is False:
            return rec(a)
        m = mid
        if high is not True:
            m = z3.If(mid <= hi, m, hi)
        if low is not True:
            m = z3.If(mid < lo, lo, m)
        return radd(norm(E, lo, m, a, k, fuel - 1), norm(E, m, hi, b, k, fuel - 1))
    # scatter
    if z3.is_app(c) and c.decl().get_id() in SCATTER:
        sc = SCATTER[c.decl().get_id()]
        arg = c.arg(c.num_args() - 1)
        l = lin(arg, k)
        if l is not None and l[0] == 1:
            off = l[1]
            if scatter_distinct(E, sc, c):
                L = scatter_seq(sc, c)

                def term(j):
                    at = sub_(intx(L.get(j)), off)
                    x = rsub(a, b)
                    x = z3.substitute(x, (k, at))
                    iapp = sc.inv(*([c.arg(i) for i in range(c.num_args() - 1)] +
                                    [z3.substitute(arg, (k, at))]))
                    iapp2 = sc.inv(*([c.arg(i) for i in range(c.num_args() - 1)] +
                                     [intx(L.get(j))]))
                    x = z3.substitute(x, (iapp, intx(j)), (iapp2, intx(j)))
                    inr = decide(E, z3.And(lo <= at, at < hi))
                    if inr is True:
                        return x
                    if inr is False:
                        return z3.RealVal(0)
                    return z3.If(inr, x, z3.RealVal(0))
                base = rec(b)
                s = sum_over(E, L.n, term)
                return radd(base, real(s))
    # a choice between two constants is an affine function of a count
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        one, zero = z3.RealVal(1), z3.RealVal(0)
        if not (a.eq(one) and b.eq(zero)):
            cnt = opaque(E, lo, hi, z3.If(c, one, zero), k)
            n = norm(E, lo, hi, one, k, fuel - 1)
            return radd(z3.simplify(b * n), z3.simplify((a - b) * cnt))
    # lift a nested ite out of the condition is not attempted
    return None


def scatter_seq(sc, app):
    ps = [app.arg(i) for i in range(app.num_args() - 1)]
    if not ps:
        return sc.seq
    return subst(sc.seq, list(zip(sc.params, ps)))


def scatter_distinct(E, sc, app):
    from .engine import ALL
    L = scatter_seq(sc, app)
    return E.valid(ALL([L.n, L.n], lambda i, j: IMP(lt(i, j), NOT(eqn(L.get(i), L.get(j))))),
                   quick=True)


def decide_nok(E, c, k):
    return decide(E, c)


# -- opaque sums ---------------------------------------------------------------
_canon_k = z3.Const('kappa', z3.IntSort())


def lift(body, k):
    """(skeleton, params): maximal k-free non-literal subterms become parameters."""
    params = []
    pis = []
    table = {}
    cache = {}

    def pi_for(e):
        i = e.get_id()
        if i not in table:
            p = z3.Const('pi%d:%s' % (len(params), e.sort().name()), e.sort())
            table[i] = p
            params.append(e)
            pis.append(p)
        return table[i]

    def go(e):
        i = e.get_id()
        if i in cache:
            return cache[i]
        if e.eq(k):
            r = _canon_k
        elif z3.is_quantifier(e):
            cs = consts_of(e)
            r = z3.substitute(e, *[(c, _canon_k if c.eq(k) else pi_for(c)) for c in cs])
        elif not contains(e, k):
            if z3.is_int_value(e) or z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e):
                r = e
            else:
                r = pi_for(e)
        else:
            if z3.is_int(e) and e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) and nonlinear(e):
                e = grouped(z3.simplify(e, som=True), k)
            ch = [go(c) for c in e.children()]
            r = e.decl()(*ch) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else rebuild(e, ch)
        cache[i] = r
        return r
    sk = go(body)
    return sk, params, pis


FLAT_CONST = {}


def flat_hints(goal):
    """Instances of the uniqueness of blocks for flattened sequences of one common length:
    block(i * len + j) = i."""
    if not FLAT_CONST:
        return []
    out, seen, stack = [], set(), [goal]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or not z3.is_app(x):
            continue
        stack.extend(x.children())
        h = FLAT_CONST.get(x.decl().get_id())
        if h is None:
            continue
        blk, cs, l0, n = h
        q = x.arg(x.num_args() - 1)
        rest = [x.arg(i) for i in range(x.num_args() - 1)]
        for i in quotients(q, l0):
            j = q - i * l0
            out.append(z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < l0),
                                  z3.And(blk(*(rest + [q])) == i, cs(*(rest + [i])) == i * l0)))
    return out


def quotients(q, l0):
    """Candidates i such that q = i * l0 + j with a remainder j of fewer terms."""
    p = z3.simplify(q, som=True)
    terms = p.children() if p.decl().kind() == z3.Z3_OP_ADD else [p]
    tot = None
    for t in terms:
        fs = t.children() if t.decl().kind() == z3.Z3_OP_MUL else [t]
        if z3.is_int_value(l0):
            if z3.is_int_value(fs[0]) and l0.as_long() and fs[0].as_long() % l0.as_long() == 0:
                fs = [z3.IntVal(fs[0].as_long() // l0.as_long())] + list(fs[1:])
            else:
                continue
        else:
            ix = [k for k, f in enumerate(fs) if f.eq(l0)]
            if not ix:
                continue
            fs = [f for k, f in enumerate(fs) if k != ix[0]]
        m = z3.IntVal(1)
        for f in fs:
            m = m * f
        tot = m if tot is None else tot + m
    return [z3.IntVal(0)] if tot is None else [z3.simplify(tot)]


def nonlinear(e):
    kd = e.decl().kind()
    if kd == z3.Z3_OP_MUL:
        return len([c for c in e.children() if not z3.is_int_value(c)]) > 1 or \
            any(nonlinear(c) for c in e.children() if z3.is_app(c))
    if kd == z3.Z3_OP_ADD:
        return any(nonlinear(c) for c in e.children() if z3.is_app(c))
    return False


def grouped(e, k):
    """Terms and factors without k of a sum of monomials, put together."""
    def split(cs, op):
        free = [c for c in cs if not contains(c, k)]
        dep = [c for c in cs if contains(c, k)]
        if len(free) > 1:
            f = free[0]
            for c in free[1:]:
                f = op(f, c)
            free = [z3.simplify(f, som=True)]
        return free + dep
    kd = e.decl().kind()
    if kd == z3.Z3_OP_MUL:
        cs = split(e.children(), lambda a, b: a * b)
        r = cs[0]
        for c in cs[1:]:
            r = r * c
        return r
    if kd == z3.Z3_OP_ADD:
        cs = [grouped(c, k) if contains(c, k) else c for c in
              split(e.children(), lambda a, b: a + b)]
        r = cs[0]
        for c in cs[1:]:
            r = r + c
        return r
    return e


def rebuild(e, ch):
    old = e.children()
    if all(a.eq(b) for a, b in zip(old, ch)):
        return e
    kd = e.decl().kind()
    if kd == z3.Z3_OP_ADD:
        return z3.Sum(*ch) if len(ch) > 1 else ch[0]
    if kd == z3.Z3_OP_MUL:
        return z3.Product(*ch)
    if kd == z3.Z3_OP_AND:
        return z3.And(*ch)
    if kd == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if kd == z3.Z3_OP_SUB:
        r = ch[0]
        for c in ch[1:]:
            r = r - c
        return r
    if kd == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return e.decl()(*ch)


def consts_of(e):
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    return out


def opaque(E, lo, hi, body, k):
    sk, params, pis = lift(z3.simplify(body), k)
    key = sk.get_id()
    if key not in _skel:
        d = z3.Function('S%d' % len(_skel), z3.IntSort(), z3.IntSort(),
                        *([p.sort() for p in params] + [z3.RealSort()]))
        _skel[key] = (d, sk, pis)
        _by_decl[d.get_id()] = _skel[key]
        _keep.append((d, sk, pis))
        # empty range and range normalisation are harmless general axioms
        from .engine import axiom_for
        vs = [z3.Const('a', z3.IntSort()), z3.Const('b', z3.IntSort())] + \
            [z3.Const('sp%d' % i, p.sort()) for i, p in enumerate(params)]
        axiom_for(d, z3.ForAll(vs, z3.Implies(vs[0] >= vs[1], d(*vs) == 0), patterns=[d(*vs)]))
    d = _skel[key][0]
    t = d(lo, hi, *params)
    if _level[0] > 1 or len(E.bstack) > 1:
        if E.valid(t == 1, timeout_ms=400, quick=True):
            return z3.RealVal(1)
    return t


def body_of(app, at):
    """Body of an opaque sum application at index `at`."""
    d, sk, pis = _by_decl[app.decl().get_id()]
    pairs = [(_canon_k, intx(at))] + [(p, app.arg(2 + i)) for i, p in enumerate(pis)]
    return z3.substitute(sk, *pairs)


def sum_terms(e):
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().get_id() in _by_decl:
                out.append(x)
            stack.extend(x.children())
    return out


def ext_facts(E, goal):
    """Adds provable facts about the sums of the goal: equality of two sums with
    pointwise equal bodies, and non-negativity.  Returns how many were added."""
    from .engine import ALL
    from .values import AND
    ts = sum_terms(goal)
    more = []
    for t, f in E.pc:
        if not z3.is_quantifier(f):
            more.extend(sum_terms(f))
    seen, allts = set(), []
    for x in ts + more:
        if x.get_id() not in seen:
            seen.add(x.get_id())
            allts.append(x)
    added = 0
    for x in ts[:8]:
        for y in allts[:12]:
            if x.eq(y) or (y.get_id() < x.get_id() and any(y.eq(z_) for z_ in ts)):
                continue
            if E.valid(z3.And(x.arg(0) == y.arg(0), x.arg(1) == y.arg(1)), quick=True) and \
                    E.valid(ALL([(x.arg(0), x.arg(1))],
                                lambda k: body_of(x, k) == body_of(y, k)), timeout_ms=5000):
                E.assume(x == y)
                added += 1
    for x in ts[:8]:
        if E.valid(ALL([(x.arg(0), x.arg(1))], lambda k: body_of(x, k) >= 0), quick=True):
            E.assume(x >= 0)
            added += 1
            if E.valid(ALL([(x.arg(0), x.arg(1))], lambda k: body_of(x, k) == 0), quick=True):
                E.assume(x == 0)
    return added


def explain():
    """Definitions of the sum symbols (debugging)."""
    return {v[0].name(): str(z3.simplify(v[1]))[:600] for v in _skel.values()}
