"""Shifts by symbolic amounts.  shr/shl are uninterpreted here; what is known of them are
explicit instances of the theorems of lemmas/Bits.lean (checked by Lean on every run)."""
import z3
from .values import *
from .builtins_ import pow2, exc

_IS = z3.IntSort()
shr = z3.Function('shr', _IS, _IS, _IS)      # s >> k  =  floor(s / 2^k)
shl = z3.Function('shl', _IS, _IS, _IS)      # n << k  =  n * 2^k


def op(I, op, a, b):
    E = I.E
    if not (is_intish(a) and is_intish(b)):
        raise PyExc(exc(TypeError), why='shift of a non integer')
    if op == 'LShift' or op == 'RShift':
        E.must(le(0, b), exc(ValueError), 'negative shift count')
        return (shl if op == 'LShift' else shr)(intx(a), intx(b))
    if op == 'BitAnd' and b == 1:
        return intx(a) % 2
    raise Unsupported('bit operation %s' % op)


def bit(s, i):
    return shr(intx(s), intx(i)) % 2


def hi(s, m):
    return shr(intx(s), intx(m))


# -- instances of the Lean theorems --------------------------------------------------------
def bit_set(s, i, b, j, m):
    """bit_set_same, bit_set_other (at j), bit_set_above (at m)."""
    s, i, b, j, m = [intx(x) for x in (s, i, b, j, m)]
    t = s + shl(b, i) - shl(shr(s, i) % 2, i)
    ok = z3.And(i >= 0, z3.Or(b == 0, b == 1))
    return z3.And(z3.Implies(ok, shr(t, i) % 2 == b),
                  z3.Implies(z3.And(ok, j >= 0, j != i), shr(t, j) % 2 == shr(s, j) % 2),
                  z3.Implies(z3.And(ok, i < m), shr(t, m) == shr(s, m)))


def hi_set(s, n, m, j):
    """hi_set, hi_set_bit (at j)."""
    s, n, m, j = [intx(x) for x in (s, n, m, j)]
    t = s + shl(n, m) - shl(shr(s, m), m)
    return z3.And(z3.Implies(m >= 0, shr(t, m) == n),
                  z3.Implies(z3.And(m >= 0, 0 <= j, j < m), shr(t, j) % 2 == shr(s, j) % 2))


def ext(s, t, m):
    """ext: part above m and bits below m determine the number."""
    j = z3.Int('ext_j')
    s, t, m = intx(s), intx(t), intx(m)
    return z3.Implies(z3.And(m >= 0, shr(s, m) == shr(t, m), z3.ForAll([j], z3.Implies(
        z3.And(0 <= j, j < m), shr(s, j) % 2 == shr(t, j) % 2))), s == t)


def range_iff(s, H, m):
    s, H, m = intx(s), intx(H), intx(m)
    return z3.Implies(m >= 0, z3.And(0 <= s, s < H * pow2(m)) == z3.And(0 <= shr(s, m), shr(s, m) < H))


def zero(m):
    """zero_hi, zero_bit."""
    return z3.Implies(intx(m) >= 0, shr(z3.IntVal(0), intx(m)) == 0)


def split_hi(h, r, m):
    h, r, m = intx(h), intx(r), intx(m)
    return z3.Implies(z3.And(m >= 0, 0 <= r, r < pow2(m)), shr(h * pow2(m) + r, m) == h)


def decomp(s, m):
    s, m = intx(s), intx(m)
    d = s - shr(s, m) * pow2(m)
    return z3.Implies(m >= 0, z3.And(0 <= d, d < pow2(m)))


def shift_shift(s, m, k):
    """with concrete k"""
    s, m = intx(s), intx(m)
    return z3.Implies(m >= 0, shr(s, m + k) == shr(s, m) / (2 ** k))


def pow_add(m, k):
    m = intx(m)
    return z3.Implies(m >= 0, pow2(m + k) == pow2(m) * (2 ** k))
