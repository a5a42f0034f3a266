"""Certified enclosures of ln, exp and powers over rationals (integer arithmetic only)."""
from fractions import Fraction as Fr

B = 420                       # working precision in bits
ONE = 1 << B


def _ln_small(num, den):
    """ln(num/den) for 1 <= num/den <= 2: [lo, hi] at scale 2^B.   2 atanh((n-d)/(n+d))"""
    t = ((num - den) << B) // (num + den)
    t2lo, t2hi = t * t >> B, ((t + 1) * (t + 1) >> B) + 1
    lo, hi = 0, 0
    plo, phi = t, t + 1
    k = 1
    while phi > 1 or k < 3:
        lo += plo // k
        hi += phi // k + 1
        plo, phi = plo * t2lo >> B, (phi * t2hi >> B) + 1
        k += 2
        if plo == 0 and phi <= 2:
            break
    return 2 * lo, 2 * (hi + 8)


_L2 = _ln_small(2, 1)


def ln(x):
    """[lo, hi] as Fractions for a rational x >= 1"""
    x = Fr(x)
    n, d = x.numerator, x.denominator
    k = n.bit_length() - d.bit_length()
    if n < (d << k if k >= 0 else d):
        k -= 1
    k = max(k, 0)
    lo, hi = _ln_small(n, d << k)
    return Fr(lo + k * _L2[0], ONE), Fr(hi + k * _L2[1], ONE)


def exp_r(t):
    """[lo, hi] of e^t for a rational t (any sign; |t| < 10^6)"""
    t = Fr(t)
    if t < 0:
        lo, hi = exp_r(-t)
        return 1 / hi, 1 / lo
    k = 0
    while t > Fr(1, 2):
        t /= 2
        k += 1
    tlo = t.numerator * ONE // t.denominator
    thi = tlo + 1
    lo = hi = ONE
    plo, phi = ONE, ONE
    for i in range(1, 200):
        plo, phi = (plo * tlo >> B) // i, ((phi * thi >> B) + 1) // i + 1
        lo += plo
        hi += phi
        if plo == 0:
            break
    hi += 4
    for _ in range(k):
        lo, hi = lo * lo >> B, (hi * hi >> B) + 1
    return Fr(lo, ONE), Fr(hi, ONE)


CAP = 1200


def power(bn, bd, en, ed):
    """[lo, hi] of (bn/bd)^(en/ed), bn >= bd >= 1, exponent >= 0; hi is None above e^CAP"""
    a, b = ln(Fr(bn, bd))
    q = Fr(en, ed)
    if a * q > CAP:
        return exp_r(CAP)[0], None
    return exp_r(a * q)[0], exp_r(b * q)[1]
