"""Concrete reference semantics (rational arithmetic), used only to judge candidate counterexamples on the
compiled code.  Written from the takum definition."""
from fractions import Fraction as Q
from .contracts import GRID, EFMT, LFMT
from .fp import FMT

ONE = Q(1)


def nar(n):
    return 1 << (n - 1)


def sgn(n, t):
    return t - (1 << n) if t >> (n - 1) else t


def cm(n, t):
    """c + m of a pattern (unsigned int), not 0 or NaR"""
    D = (t >> (n - 2)) & 1
    R = (t >> (n - 5)) & 7 if n >= 5 else 0
    r = R if D else 7 - R
    body = Q(t & ((1 << (n - 5)) - 1), 1 << (n - 5)) * (1 << r)
    return body + ((1 << r) - 1 if D else -(1 << (r + 1)) + 1)


def logval(n, t):
    """logarithmic value l of a pattern"""
    x = cm(n, t)
    return -x if t >> (n - 1) else x


def rne(x):
    f = x.numerator // x.denominator
    d = x - f
    return f + (1 if d > Q(1, 2) or (d == Q(1, 2) and f & 1) else 0)


def encode(n, s, l):
    """pattern of the takum nearest to sign s, logarithmic value l (bit-string rounding, ties to even)"""
    x = -l if s else l
    if x > 255 - Q(1, 2 ** 200):
        mag = (1 << (n - 1)) - 1
    elif x < -255:
        mag = 1
    else:
        if x >= 0:
            r = (int(x // 1) + 1).bit_length() - 1
            D, b = 1, (1 << r) - 1
        else:
            y = -x
            r = 0
            while not -(1 << (r + 1)) + 1 <= x < -(1 << (r + 1)) + 1 + (1 << r):
                r += 1
            D, b = 0, -(1 << (r + 1)) + 1
        word = Q((D << 3) | (r if D else 7 - r)) + (x - b) / (1 << r)
        mag = rne(word * Q(2) ** (n - 5))
        mag = min(max(mag, 1), (1 << (n - 1)) - 1)
    return mag | (nar(n) if s else 0)


def enc_set(n, s, l):
    g = 1 << GRID[n]
    y = l * g
    f = y.numerator // y.denominator
    return {encode(n, s, Q(f, g)), encode(n, s, Q(f if y == f else f + 1, g))}


def fval(bits, fmt):
    """('nan'|'inf'|'fin', sign, Fraction magnitude)"""
    eb, sb = FMT[fmt]
    if fmt == "f80":
        s, e, m = bits >> 79, (bits >> 64) & 0x7FFF, bits & ((1 << 64) - 1)
        f = m & ((1 << 63) - 1)
    else:
        s, e, f = bits >> (eb + sb - 1), (bits >> (sb - 1)) & ((1 << eb) - 1), bits & ((1 << (sb - 1)) - 1)
    bias = (1 << (eb - 1)) - 1
    if e == (1 << eb) - 1:
        return ("nan" if f else "inf"), s, Q(0)
    if e == 0:
        return "fin", s, f * Q(2) ** (1 - bias - (sb - 1))
    return "fin", s, (f | (1 << (sb - 1))) * Q(2) ** (e - bias - (sb - 1))


def signed(bits, fmt):
    k, s, v = fval(bits, fmt)
    return k, s, (-v if s else v)


def rsig(x, p):
    """x rounded to p significant bits"""
    if x == 0:
        return x
    a = abs(x)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Q(2) ** e > a:
        e -= 1
    u = Q(2) ** (e - p + 1)
    v = rne(a / u) * u
    return -v if x < 0 else v


def lincoord(v):
    """h + g of |x| = (1+g) 2^h"""
    e = v.numerator.bit_length() - v.denominator.bit_length()
    if Q(2) ** e > v:
        e -= 1
    return e + v / Q(2) ** e - 1


def lenc_ok(n, fmt, x, t):
    k, s, v = fval(x, fmt)
    if k != "fin":
        return t == nar(n)
    if v == 0:
        return t == 0
    c = lincoord(v)
    if fmt != "f80":
        return t == encode(n, s, c)
    return t in enc_set(n, s, rsig(c, 64))


def encode_trunc(n, m, t):
    """width conversion of patterns"""
    if m >= n:
        return t << (m - n)
    if t in (0, nar(n)):
        return t >> (n - m)
    r = rne(Q(t, 1 << (n - m))) & ((1 << m) - 1)
    neg = t >> (n - 1)
    if r == 0:
        r = (1 << m) - 1 if neg else 1
    if r == nar(m):
        r = nar(m) + 1 if neg else nar(m) - 1
    return r


def logpair_ok(n, op, a, b, v):
    N = nar(n)
    if a == N or b == N or (op == "division" and b == 0):
        return v == N
    if a == 0 or b == 0:
        return v == 0
    s = (a >> (n - 1)) ^ (b >> (n - 1))
    l = logval(n, a) + (logval(n, b) if op == "multiplication" else -logval(n, b))
    if n == 64:
        l = rsig(l, 64)
    return v in enc_set(n, s, l)


def logroot_ok(n, t, k, v):
    N = nar(n)
    s = t >> (n - 1)
    if t == N or k == 0 or (s and k % 2 == 0) or (t == 0 and k < 0):
        return v == N
    if t == 0:
        return v == 0
    l = logval(n, t) / k
    out = set()
    for p in (24, 53, 64):
        if FMT[LFMT[n]][1] <= p <= FMT[EFMT[n]][1]:
            out |= enc_set(n, s, rsig(l, p))
    return v in out


def to_l_ok(n, t, r):
    k, s, v = signed(r, LFMT[n])
    if t == nar(n):
        return k == "nan"
    if t == 0:
        return k == "inf" and s == 1
    return k == "fin" and v == logval(n, t)


def from_l_ok(n, s, l, t):
    k, sg, v = signed(l, EFMT[n])
    if k == "nan" or (k == "inf" and not sg):
        return t == nar(n)
    if k == "inf":
        return t == 0
    if v == 0:
        return t == encode(n, s, v)
    return t in enc_set(n, s, v)


def ldec_ok(n, fmt, t, r):
    k, s, v = signed(r, fmt)
    if t == nar(n):
        return k == "nan"
    if t == 0:
        return k == "fin" and v == 0 and s == 0
    S = t >> (n - 1)
    u = ((1 << n) - t) if S else t
    c = cm(n, u)
    h = c.numerator // c.denominator
    val = (1 + c - h) * Q(2) ** h
    eb, sb = FMT[fmt]
    bias = (1 << (eb - 1)) - 1
    e = max(h, 1 - bias)
    u = Q(2) ** (e - sb + 1)
    w = rne(val / u) * u
    if w >= Q(2) ** (bias + 1):
        return k == "inf" and s == S
    return k == "fin" and abs(v) == w and s == S
