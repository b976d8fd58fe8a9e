"""Encoding of numbers as limb tuples of spec/Fix.tla (F=4) and spec/FixHi.tla (F=8)."""
from fractions import Fraction
from expr import SC, DEC
import math
import mpmath
B = 10000


def ints(v, F=4):
    """int scaled by 10^(4F) -> limbs"""
    r = []
    for _ in range(F + 1):
        r.append(v % B)
        v //= B
    if abs(v) > 90000:
        raise OverflowError("fixed point overflow")
    r.append(v)
    return r


def frac(x):
    if isinstance(x, mpmath.mpf):
        return mp2frac(x)
    return Fraction(x)


def mp2frac(x):
    s, m, e, _ = x._mpf_
    m = int(m)
    f = Fraction(m) * (Fraction(2) ** e)
    return -f if s else f


def enc(x, F=4):
    f = frac(x)
    k = 10 ** (4 * F)
    return ints((2 * f.numerator * k + f.denominator) // (2 * f.denominator), F)


def encj(v, F=4):
    """jet integer (scaled 10^DEC)"""
    d = 10 ** (DEC - 4 * F)
    return ints((v + d // 2) // d, F)


def dec(l, F=4):
    return float(Fraction(sum(a * B ** i for i, a in enumerate(l)), B ** F))


def expo(x):
    """decimal exponent e: 10^(e-1) <= |x| < 10^e ; 0 for 0"""
    f = abs(frac(x))
    if f == 0:
        return 0
    e = 0
    while f >= 1:
        f /= 10
        e += 1
    while f * 10 < 1:
        f *= 10
        e -= 1
    return e


def scaled(xs, F=4):
    """encode a vector with a common decimal exponent: returns (limbs list, ex) with x = limbs*10^ex"""
    e = max([expo(x) for x in xs if x != 0] or [0])
    k = Fraction(10) ** (-e)
    return [enc(frac(x) * k, F) for x in xs], e


def flo(v):
    """exact rational -> [m, e] of Flo.tla"""
    v = Fraction(v)
    if v == 0: return dict(m=enc(0, 8), e=0)
    e = math.floor((abs(v.numerator).bit_length() - v.denominator.bit_length()) * math.log10(2))
    m = v / Fraction(10) ** e
    while abs(m) >= 1: m, e = m / 10, e + 1
    while abs(m) * 10 < 1: m, e = m * 10, e - 1
    l = enc(m, 8)
    if l == enc(1, 8) or l == enc(-1, 8): l, e = enc(Fraction(1, 10) * (1 if m > 0 else -1), 8), e + 1
    return dict(m=l, e=e)
