"""Specification functions over bit-vectors (ghost functions of the contracts).

These are written from the takum definition (libtakum(7), the takum paper's
bit-string definition), not from the code:

  bit string  S D RRR C..C M..M   (S sign, D direction, R regime, C
  characteristic of r bits, M mantissa), r = D ? R : 7-R,
  c = D ? 2^r - 1 + C : -2^(r+1) + 1 + C,   l = (-1)^S (c + m).

Encoding = rounding of the infinite bit string to n bits, ties to even,
saturating to the smallest/largest non-zero non-NaR pattern of that sign.
"""
import z3
from .fp import (AND, OR, NOT, XOR, ITE, BV, T, F, FV, FB, FMT, isnum, sext, zext, trunc, round_sig, clz_norm, shl_c,
                 absI)
from . import fp


def NAR(n):
    return BV(1 << (n - 1), n)


def dr_fields(t):
    """(S, r as 16-bit BV, D, r in 0..7) of an n-bit pattern"""
    n = t.size()
    S = z3.Extract(n - 1, n - 1, t) == BV(1, 1)
    D = z3.Extract(n - 2, n - 2, t) == BV(1, 1)
    R = z3.Extract(n - 3, n - 5, t)
    r = ITE(D, R, ~R)
    return S, D, r


def cm_fixed(t):
    """c + m of a (non-zero, non-NaR) pattern as an integer scaled by 2^K.
    Returns (BV signed, K)."""
    n = t.size()
    S, D, r = dr_fields(t)
    body = z3.Extract(n - 6, 0, t)      # C bits then M bits, n-5 of them
    b = n - 5
    K = max(b, 7)                       # fraction bits
    # body as a fixed-point number with r integer bits: body * 2^(r-b)
    w = K + 12
    x = zext(body, w)
    res = None
    for rv in range(8):
        # scaled by 2^K: body * 2^(rv - b + K)
        s = rv - b + K
        v = x << BV(s, w)
        base = ITE(D, BV(((1 << rv) - 1) << K, w), BV((-(1 << (rv + 1)) + 1) << K, w))
        v = v + base
        res = v if res is None else ITE(r == BV(rv, 3), v, res)
    return res, K


def l_fixed(t):
    """logarithmic value l = (-1)^S (c+m) of a pattern, scaled by 2^K"""
    n = t.size()
    x, K = cm_fixed(t)
    S = z3.Extract(n - 1, n - 1, t) == BV(1, 1)
    return ITE(S, -x, x), K


def l_fv(t, fmt):
    """the contract value of codec_takumN_to_l: NaN for NaR, -inf for zero, l otherwise"""
    n = t.size()
    L, K = l_fixed(t)
    isn, z = t == NAR(n), t == BV(0, n)
    w = K + 10                          # |l| <= 255
    S = z3.Extract(n - 1, n - 1, t) == BV(1, 1)
    return FV(fmt, fb=FB(isn, z, OR(z, S), trunc(L, w), K))


def encode_fixed(n, s, L, K):
    """pattern of the takum nearest to (-1)^s * base^l with l = L*2^-K exactly"""
    W = L.size()
    w = max(W + 1, K + 12)
    x = sext(L, w)
    cpm = ITE(s, -x, x)
    one = 1 << K
    # clamp |c+m| <= 255 (any larger magnitude saturates anyway)
    hi, lo = BV(255 * one - 1, w), BV(-255 * one, w)
    over, under = cpm > hi, cpm < lo
    cpm = ITE(over, hi, ITE(under, lo, cpm))
    # header and characteristic
    wd = K + 13
    word = None
    y = trunc(cpm, wd) if w >= wd else sext(cpm, wd)
    for D in (0, 1):
        for r in range(8):
            bias = (1 << r) - 1 if D else -(1 << (r + 1)) + 1
            top = bias + (1 << r)       # exclusive
            DR = (D << 3) | (r if D else 7 - r)
            q = y - BV(bias * one, wd)
            v = BV(DR << (7 + K), wd) + (q << BV(7 - r, wd))
            c = AND(y >= BV(bias * one, wd), y < BV(top * one, wd))
            word = v if word is None else ITE(c, v, word)
    word = trunc(word, K + 11)          # D RRR + 7 + K bits
    drop = K + 11 - (n - 1)
    if drop <= 0:
        mag = z3.Concat(word, BV(0, -drop)) if drop < 0 else word
        mag = zext(mag, n)
    else:
        up = zext(z3.Extract(K + 10, drop, word), n)
        low = z3.Extract(drop - 1, 0, word)
        half = BV(1 << (drop - 1), drop)
        inc = OR(z3.UGT(low, half), AND(low == half, z3.Extract(0, 0, up) == BV(1, 1)))
        mag = up + ITE(inc, BV(1, n), BV(0, n))
    # mag in 0 .. 2^(n-1); patterns 0 and 2^(n-1) are not allowed for a finite non-zero value
    top = BV((1 << (n - 1)) - 1, n)
    mag = ITE(OR(under, mag == BV(0, n)), BV(1, n), ITE(OR(over, mag == BV(1 << (n - 1), n)), top, mag))
    return ITE(s, mag | BV(1 << (n - 1), n), mag)


def lin_value(t, fmt, exact_only=False):
    """value of a linear takum as an IEEE number of format fmt, correctly rounded.
    Only the sign-symmetric definition is used: value(-t) = -value(t)."""
    n = t.size()
    S = z3.Extract(n - 1, n - 1, t) == BV(1, 1)
    u = ITE(S, -t, t)
    x, K = cm_fixed(u)
    eb, sb = FMT[fmt]
    bias = (1 << (eb - 1)) - 1
    c = z3.Extract(K + 9, K, x)         # signed characteristic, 10 bits
    m = z3.Extract(K - 1, 0, x)
    isn, z = t == NAR(n), t == BV(0, n)
    return lin_ieee(S, c, m, K, fmt, isn, z)


def lin_ieee(S, c, m, K, fmt, isn, z):
    eb, sb = FMT[fmt]
    bias = (1 << (eb - 1)) - 1
    w = 18
    cw = sext(c, w)
    if K <= sb - 1:
        f = z3.Concat(m, BV(0, sb - 1 - K)) if K < sb - 1 else m
        e = cw + BV(bias, w)
        if fmt == "f32":
            return lin_f32(S, cw, f, isn, z)
    else:
        if fmt == "f32":
            return lin_f32_round(S, cw, m, K, isn, z)
        drop = K - (sb - 1)
        up = zext(z3.Extract(K - 1, drop, m), sb)
        low = z3.Extract(drop - 1, 0, m)
        half = BV(1 << (drop - 1), drop)
        inc = OR(z3.UGT(low, half), AND(low == half, z3.Extract(0, 0, up) == BV(1, 1)))
        up = up + ITE(inc, BV(1, sb), BV(0, sb))
        carry = z3.Extract(sb - 1, sb - 1, up) == BV(1, 1)
        f = z3.Extract(sb - 2, 0, up)
        e = cw + BV(bias, w) + ITE(carry, BV(1, w), BV(0, w))
    e = trunc(e, eb)
    e = ITE(isn, BV(-1, eb), ITE(z, BV(0, eb), e))
    f = ITE(isn, BV(1 << (sb - 2), sb - 1), ITE(z, BV(0, sb - 1), f))
    return FV(fmt, bits=(AND(S, NOT(isn)), e, f))


def lin_f32(S, cw, f, isn, z):
    return lin_f32_round(S, cw, f, f.size(), isn, z)


def lin_f32_round(S, cw, m, K, isn, z):
    """(1+m) 2^c to binary32 with gradual underflow and overflow to infinity"""
    w = cw.size()
    sig = z3.Concat(BV(1, 1), m)        # K+1 bits
    # work on a fixed window: drop count = K-23 for normal, more for subnormal
    W = K + 1 + 26
    x = z3.Concat(sig, BV(0, 26))       # scaled by 2^26
    sub = cw < BV(-126, w)
    extra = ITE(sub, BV(-126, w) - cw, BV(0, w))
    far = extra > BV(25, w)
    drop0 = K - 23 + 26
    sh = trunc(extra, W) if W <= w else zext(extra, W)
    # sticky right shift by extra
    y = z3.LShR(x, sh)
    lost = (y << sh) != x
    y = y | ITE(lost, BV(1, W), BV(0, W))
    up = z3.Extract(W - 1, drop0, y)    # 24 bits
    low = z3.Extract(drop0 - 1, 0, y)
    half = BV(1 << (drop0 - 1), drop0)
    up = zext(up, 26)
    inc = OR(z3.UGT(low, half), AND(low == half, z3.Extract(0, 0, up) == BV(1, 1)))
    up = up + ITE(inc, BV(1, 26), BV(0, 26))
    up = ITE(far, BV(0, 26), up)
    # biased exponent arithmetic: packing by addition handles all carries
    e0 = ITE(sub, BV(0, 26), trunc_or(cw, 26) + BV(126, 26))
    packed = (e0 << BV(23, 26))
    # value field = (e0 << 23) + up   (up contains the hidden bit for normals)
    e40 = zext(ITE(sub, BV(0, w), cw + BV(126, w)), 40)
    p = (e40 << BV(23, 40)) + zext(up, 40)
    inf = z3.UGE(p, BV(255 << 23, 40))
    p = ITE(inf, BV(255 << 23, 40), p)
    e = z3.Extract(30, 23, p)
    f = z3.Extract(22, 0, p)
    e = ITE(isn, BV(-1, 8), ITE(z, BV(0, 8), e))
    f = ITE(isn, BV(1 << 22, 23), ITE(z, BV(0, 23), f))
    return FV("f32", bits=(AND(S, NOT(isn)), e, f))


def trunc_or(t, w):
    return trunc(t, w) if t.size() >= w else sext(t, w)


def lin_l_of_float(x, kmax=None):
    """(sign, L, K): the fixed-point 'logarithmic' value of the linear takum
    number equal to the (finite, non-zero, normal-range) float x:
    |x| = (1+g) 2^h,  c + m := the bit-string value whose linear reading is x"""
    raise NotImplementedError


def same_float(a, b):
    """bitwise equal, all NaNs identified, both zeros identified unless bits say otherwise"""
    an, bn = a.isnan(), b.isnan()
    x, y = a.bits, b.bits
    eq = AND(x[0] == y[0], x[1] == y[1], x[2] == y[2])
    return OR(AND(an, bn), AND(NOT(an), NOT(bn), eq))
