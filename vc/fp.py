"""Float values of the VC generator.

Two representations, both exact:

 FB  ("fixed"): a triple of flags and an integer; the value is NaN, +-inf or
     exactly I * 2**-k with I a signed bit-vector and k a Python integer.
     IEEE arithmetic on FB values uses one theorem: if the exact result of an
     operation is representable in the format, the IEEE result is the exact
     result; otherwise the exact result is rounded to p significant bits by an
     explicit round-to-nearest-even circuit (`round_sig`).
 G   ("generic"): an SMT FloatingPoint term and/or its IEEE bit fields.

Rounding mode is round-to-nearest-even throughout (assumption, see DESIGN.md).
"""
import z3
from .ir import Unsupported

FMT = {"f32": (8, 24), "f64": (11, 53), "f80": (15, 64)}
SORT = {k: z3.FPSort(*v) for k, v in FMT.items()}
RNE = z3.RNE()
T, F = z3.BoolVal(True), z3.BoolVal(False)


def AND(*a):
    out = []
    for x in a:
        if z3.is_false(x):
            return F
        if not z3.is_true(x):
            out.append(x)
    return T if not out else out[0] if len(out) == 1 else z3.And(*out)


def OR(*a):
    out = []
    for x in a:
        if z3.is_true(x):
            return T
        if not z3.is_false(x):
            out.append(x)
    return F if not out else out[0] if len(out) == 1 else z3.Or(*out)


def NOT(a):
    if z3.is_true(a):
        return F
    if z3.is_false(a):
        return T
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def XOR(a, b):
    if z3.is_false(a):
        return b
    if z3.is_false(b):
        return a
    if z3.is_true(a):
        return NOT(b)
    if z3.is_true(b):
        return NOT(a)
    return z3.Xor(a, b)


def ITE(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or a.eq(b):
        return a
    if z3.is_bool(a):
        if z3.is_true(a):
            return OR(c, b)
        if z3.is_false(a):
            return AND(NOT(c), b)
        if z3.is_true(b):
            return OR(NOT(c), a)
        if z3.is_false(b):
            return AND(c, a)
    return z3.If(c, a, b)


def BV(v, w):
    return z3.BitVecVal(v, w)


def isnum(t):
    return z3.is_bv_value(t)


def sext(t, w):
    n = w - t.size()
    if n == 0:
        return t
    if n < 0:
        return trunc(t, w)
    if isnum(t):
        return BV(t.as_signed_long(), w)
    return z3.SignExt(n, t)


def zext(t, w):
    n = w - t.size()
    if n == 0:
        return t
    if isnum(t):
        return BV(t.as_long(), w)
    return z3.ZeroExt(n, t)


def trunc(t, w):
    if t.size() == w:
        return t
    if isnum(t):
        return BV(t.as_long(), w)
    k = t.decl().kind()
    if k in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT) and t.arg(0).size() >= w:
        return trunc(t.arg(0), w)
    return z3.Extract(w - 1, 0, t)


_sb, _ub, _keep = {}, {}, []


def ubits(t):
    """upper bound on the number of bits of t read as unsigned"""
    i = t.get_id()
    if i in _ub:
        return _ub[i]
    n = t.size()
    r = n
    if isnum(t):
        r = max(t.as_long().bit_length(), 0)
    else:
        k = t.decl().kind()
        if k == z3.Z3_OP_ZERO_EXT:
            r = ubits(t.arg(0))
        elif k == z3.Z3_OP_ITE:
            r = max(ubits(t.arg(1)), ubits(t.arg(2)))
        elif k == z3.Z3_OP_BAND:
            r = min(ubits(a) for a in t.children())
        elif k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            r = max(ubits(a) for a in t.children())
        elif k == z3.Z3_OP_BLSHR and isnum(t.arg(1)):
            r = max(0, ubits(t.arg(0)) - t.arg(1).as_long())
        elif k == z3.Z3_OP_BLSHR:
            r = ubits(t.arg(0))
        elif k == z3.Z3_OP_BSHL and isnum(t.arg(1)):
            r = min(n, ubits(t.arg(0)) + t.arg(1).as_long())
        elif k == z3.Z3_OP_CONCAT:
            lo = sum(a.size() for a in t.children()[1:])
            h = ubits(t.arg(0))
            r = lo + h if h else min(lo, max(ubits(t.arg(1)) + sum(a.size() for a in t.children()[2:]), 0))
        elif k == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            r = min(n, max(0, ubits(t.arg(0)) - lo))
        elif k == z3.Z3_OP_BADD:
            m = max(ubits(a) for a in t.children()) + t.num_args() - 1
            r = min(n, m)
        elif k == z3.Z3_OP_BMUL:
            r = min(n, sum(ubits(a) for a in t.children()))
    r = min(r, n)
    _ub[i] = r
    _keep.append(t)
    return r


def sbits(t):
    """upper bound on the two's complement width that holds t"""
    i = t.get_id()
    if i in _sb:
        return _sb[i]
    n = t.size()
    r = n
    if isnum(t):
        v = t.as_signed_long()
        r = (v if v >= 0 else ~v).bit_length() + 1
    else:
        k = t.decl().kind()
        u = ubits(t)
        if u < n:
            r = u + 1
        if k == z3.Z3_OP_SIGN_EXT:
            r = min(r, sbits(t.arg(0)))
        elif k == z3.Z3_OP_ITE:
            r = min(r, max(sbits(t.arg(1)), sbits(t.arg(2))))
        elif k == z3.Z3_OP_BADD:
            r = min(r, max(sbits(a) for a in t.children()) + t.num_args() - 1)
        elif k == z3.Z3_OP_BSUB:
            r = min(r, max(sbits(a) for a in t.children()) + t.num_args() - 1)
        elif k == z3.Z3_OP_BNEG:
            r = min(r, sbits(t.arg(0)) + 1)
        elif k == z3.Z3_OP_BMUL:
            r = min(r, sum(sbits(a) for a in t.children()))
        elif k == z3.Z3_OP_BSHL and isnum(t.arg(1)):
            r = min(r, sbits(t.arg(0)) + t.arg(1).as_long())
        elif k == z3.Z3_OP_BASHR:
            s = t.arg(1).as_long() if isnum(t.arg(1)) else 0
            r = min(r, max(1, sbits(t.arg(0)) - s))
    _sb[i] = r
    _keep.append(t)
    return r


def shrink(t):
    w = max(1, sbits(t))
    return trunc(t, w) if w < t.size() else t


def shl_c(t, n, w=None):
    """t << n exactly, width grown by n"""
    if n == 0:
        return t
    if isnum(t):
        return BV(t.as_signed_long() << n, t.size() + n)
    return z3.Concat(t, BV(0, n))


# ------------------------------------------------------------------ values
class FB:
    __slots__ = ("nan", "inf", "neg", "I", "k")

    def __init__(self, nan, inf, neg, I, k):
        # neg: sign when the value is zero or infinite (ignored otherwise)
        self.nan, self.inf, self.neg = nan, inf, neg
        I = shrink(I)
        if isnum(I):
            v = I.as_signed_long()
            if v == 0:
                k = min(k, 0) if k > 0 else k
                I, k = BV(0, 1), 0
            else:
                while v % 2 == 0 and k > 0:
                    v //= 2
                    k -= 1
                I = BV(v, v.bit_length() + 1)
        self.I, self.k = I, k

    @property
    def W(self):
        return self.I.size()

    def sign(self):
        z = BV(0, self.W)
        if z3.is_false(self.inf) and isnum(self.I) and self.I.as_long() != 0:
            return z3.BoolVal(self.I.as_signed_long() < 0)
        return ITE(OR(self.inf, self.I == z), self.neg, self.I < z)

    def iszero(self):
        return AND(NOT(self.nan), NOT(self.inf), self.I == BV(0, self.W))

    def isconst(self):
        return isnum(self.I) and z3.is_false(self.nan) and z3.is_false(self.inf)


def align(a, b):
    """the two integers on a common scale and width"""
    k = max(a.k, b.k)
    x, y = shl_c(a.I, k - a.k), shl_c(b.I, k - b.k)
    w = max(x.size(), y.size())
    return sext(x, w), sext(y, w), k


class FV:
    """a float value: FB (exact fixed point) and/or IEEE fields (sign Bool, exponent BV, fraction BV)"""
    __slots__ = ("fmt", "fb", "_bits", "_ieee")

    def __init__(self, fmt, fb=None, bits=None):
        self.fmt, self.fb, self._bits, self._ieee = fmt, fb, bits, None

    @property
    def bits(self):
        if self._bits is None:
            self._bits = pack(self.fb, self.fmt)
        return self._bits

    def isconst(self):
        s, e, f = self.bits
        return (z3.is_true(s) or z3.is_false(s)) and isnum(e) and isnum(f)

    @property
    def t(self):
        """constant as an SMT float numeral"""
        s, e, f = self.bits
        return z3.simplify(z3.fpFP(BV(1 if z3.is_true(s) else 0, 1), e, f))

    def term(self):
        """SMT FloatingPoint term (used only when an IEEE operation is unfolded)"""
        s, e, f = self.bits
        return z3.fpFP(ITE(s, BV(1, 1), BV(0, 1)), e, f)

    def isnan(self):
        if self.fb is not None:
            return self.fb.nan
        s, e, f = self.bits
        return AND(e == BV(-1, e.size()), f != BV(0, f.size()))

    def isinf(self):
        if self.fb is not None:
            return AND(self.fb.inf, NOT(self.fb.nan))
        s, e, f = self.bits
        return AND(e == BV(-1, e.size()), f == BV(0, f.size()))

    def iszero(self):
        if self.fb is not None:
            return self.fb.iszero()
        s, e, f = self.bits
        return AND(e == BV(0, e.size()), f == BV(0, f.size()))

    def sign(self):
        if self.fb is not None:
            return self.fb.sign()
        return self.bits[0]

    def fin(self):
        return NOT(OR(self.isnan(), self.isinf()))

    def ieee(self):
        """storage bit pattern: 32, 64 or 80 (explicit integer bit) bits"""
        if self._ieee is None:
            s, e, f = self.bits
            sb = ITE(s, BV(1, 1), BV(0, 1))
            if self.fmt == "f80":
                ib = ITE(e == BV(0, 15), BV(0, 1), BV(1, 1))
                self._ieee = z3.simplify(z3.Concat(sb, e, ib, f))
            else:
                self._ieee = z3.simplify(z3.Concat(sb, e, f))
        return self._ieee


def fields(n, fmt):
    eb, sb = FMT[fmt]
    f = n & ((1 << (sb - 1)) - 1)
    e = (n >> (sb - 1)) & ((1 << eb) - 1)
    s = (n >> (eb + sb - 1)) & 1
    return (z3.BoolVal(bool(s)), BV(e, eb), BV(f, sb - 1))


def fpval_bits(v, fmt):
    eb, sb = FMT[fmt]
    if z3.fpIsNaN(v) is not None and z3.is_true(z3.simplify(z3.fpIsNaN(v))):
        return (((1 << eb) - 1) << (sb - 1)) | (1 << (sb - 2))
    r = z3.simplify(z3.fpToIEEEBV(v))
    return r.as_long()


CTX = None      # verification context that owns the `norm` applications


def clz_norm(m):
    """m (unsigned BV, W bits): (m << lz, lz) with lz the number of leading zeros, as the result of an
    application `norm` with the facts  m = (m << lz) >> lz,  top bit set unless m = 0 (then both are 0)"""
    W = m.size()
    m = z3.simplify(m)
    if isnum(m):
        v = m.as_long()
        lz = W - v.bit_length() if v else 0
        return BV(v << lz, W), BV(lz, 12)
    # known leading bits
    if W > 1 and z3.is_app_of(m, z3.Z3_OP_CONCAT):
        h = m.arg(0)
        if isnum(h) and h.as_long() != 0:
            lz = h.size() - h.as_long().bit_length()
            return (shl_c(z3.Extract(W - 1 - lz, 0, m), lz) if lz else m), BV(lz, 12)
        if isnum(h) and h.size() < W:
            z = h.size()
            M, lz = clz_norm(z3.Extract(W - z - 1, 0, m))
            zero = M == BV(0, M.size())
            return z3.Concat(M, BV(0, z)), ITE(zero, BV(0, 12), lz + BV(z, 12))
    if CTX is None:
        return clz_circuit(m)
    r = CTX.app("norm", [m], W + 12, "contract", NORMFACTS, NORMDEF, NORMPAIRS)
    return z3.Extract(W + 11, 12, r), z3.Extract(11, 0, r)


def NORMFACTS(a, r):
    m = a[0]
    W = m.size()
    M, lz = z3.Extract(W + 11, 12, r), z3.Extract(11, 0, r)
    z = m == BV(0, W)
    return [(z3.Extract(W - 1, W - 1, M) == BV(1, 1)) == NOT(z), z3.ULE(lz, BV(W - 1, 12)),
            z3.Implies(z, r == BV(0, W + 12))]


def NORMDEF(a, r):
    m = a[0]
    W = m.size()
    M, lz = z3.Extract(W + 11, 12, r), z3.Extract(11, 0, r)
    sh = zext(lz, W) if W >= 12 else trunc(lz, W)
    return AND(z3.LShR(M, sh) == m, m << sh == M)


def NORMPAIRS(x, y):
    a, b = x.args[0], y.args[0]
    if a.size() == b.size():
        return []
    if a.size() > b.size():
        x, y, a, b = y, x, b, a
    d = b.size() - a.size()
    W, V = a.size(), b.size()
    return [z3.Implies(AND(zext(a, V) == b, b != BV(0, V)),
                       AND(z3.Extract(V + 11, 12, y.res) == z3.Concat(z3.Extract(W + 11, 12, x.res), BV(0, d)),
                           z3.Extract(11, 0, y.res) == z3.Extract(11, 0, x.res) + BV(d, 12)))]


def clz_circuit(m):
    W = m.size()
    sh = 1
    while sh * 2 < W:
        sh *= 2
    z = m == BV(0, W)
    lz = BV(0, 12)
    while sh >= 1:
        if sh < W:
            c = z3.Extract(W - 1, W - sh, m) == BV(0, sh)
            m = ITE(c, z3.Concat(z3.Extract(W - sh - 1, 0, m), BV(0, sh)), m)
            lz = lz + ITE(c, BV(sh, 12), BV(0, 12))
        sh //= 2
    return m, ITE(z, BV(0, 12), lz)


def neg(I):
    """exact negation, one bit wider"""
    W = I.size() + 1
    if isnum(I):
        return BV(-I.as_signed_long(), W)
    x = None
    if z3.is_app_of(I, z3.Z3_OP_BNEG):
        x = I.arg(0)
    elif z3.is_app_of(I, z3.Z3_OP_BMUL) and I.num_args() == 2 and isnum(I.arg(0)) and I.arg(0).as_signed_long() == -1:
        x = I.arg(1)
    if x is not None and sbits(x) < x.size():
        return sext(x, W)
    if z3.is_app_of(I, z3.Z3_OP_SIGN_EXT):
        return sext(neg(I.arg(0)), W)
    return -sext(I, W)


def addI(p, q):
    """p + q, one bit wider; an operand that is a multiple of a power of two leaves the low bits alone"""
    w = p.size() + 1
    assert p.size() == q.size()
    if isnum(p):
        p, q = q, p
    if isnum(p):
        return BV(p.as_signed_long() + q.as_signed_long(), w)
    if isnum(q):
        v = q.as_signed_long()
        if v == 0:
            return sext(p, w)
        j = (v & -v).bit_length() - 1
        if j > 0 and j < p.size():
            hi = z3.simplify(sext(z3.Extract(p.size() - 1, j, p), w - j) + BV(v >> j, w - j))
            return z3.simplify(z3.Concat(hi, z3.Extract(j - 1, 0, p)))
    return sext(p, w) + sext(q, w)


def absI(I):
    W = I.size()
    if isnum(I):
        return BV(abs(I.as_signed_long()), W)
    if ubits(I) < W:
        return I
    x = sext(I, W + 1)
    return trunc(ITE(x < BV(0, W + 1), neg(I), x), W)  # |I| as unsigned W bits (covers -2^(W-1))


def pack(fb, fmt):
    """exact IEEE fields of an FB whose value is representable and not subnormal"""
    eb, sb = FMT[fmt]
    bias = (1 << (eb - 1)) - 1
    if fb.isconst() or (isnum(fb.I) and (z3.is_true(fb.nan) or z3.is_true(fb.inf))):
        if z3.is_true(fb.nan):
            return (F, BV(-1, eb), BV(1 << (sb - 2), sb - 1))
        if z3.is_true(fb.inf):
            return (fb.neg, BV(-1, eb), BV(0, sb - 1))
        v = fb.I.as_signed_long()
        if v == 0:
            return (fb.neg, BV(0, eb), BV(0, sb - 1))
        m = abs(v)
        e = m.bit_length() - 1
        if e >= sb:
            assert m & ((1 << (e - sb + 1)) - 1) == 0
            f = (m >> (e - sb + 1)) & ((1 << (sb - 1)) - 1)
        else:
            f = (m << (sb - 1 - e)) & ((1 << (sb - 1)) - 1)
        ee = e - fb.k + bias
        if not 0 < ee < (1 << eb) - 1:
            if ee <= 0:  # exact subnormal constant
                sh = 1 - ee
                full = (1 << (sb - 1)) | f
                assert full & ((1 << sh) - 1) == 0
                return (z3.BoolVal(v < 0), BV(0, eb), BV(full >> sh, sb - 1))
            raise Unsupported("constant out of range")
        return (z3.BoolVal(v < 0), BV(ee, eb), BV(f, sb - 1))
    m, lz = clz_norm(absI(fb.I))
    W = m.size()
    # value = m * 2^(-lz) * 2^-k, m has its top bit at W-1
    if bias + (W - 1) - fb.k >= (1 << eb) - 1 or bias - fb.k <= 0:
        raise Unsupported("FB range too large for %s" % fmt)
    e = BV(bias + W - 1 - fb.k, eb + 1) - zext(trunc(lz, eb + 1) if eb + 1 <= 12 else lz, eb + 1)
    e = trunc(e, eb)
    if W >= sb:
        f = z3.Extract(W - 2, W - sb, m)
    elif W == 1:
        f = BV(0, sb - 1)
    else:
        f = z3.Concat(z3.Extract(W - 2, 0, m), BV(0, sb - W))
    z = fb.I == BV(0, fb.W)
    e = ITE(OR(fb.nan, fb.inf), BV(-1, eb), ITE(z, BV(0, eb), e))
    f = ITE(fb.nan, BV(1 << (sb - 2), sb - 1), ITE(OR(fb.inf, z), BV(0, sb - 1), f))
    return (fb.sign(), e, f)


def const(n, fmt):
    """constant from its storage bit pattern"""
    eb, sb = FMT[fmt]
    if fmt == "f80":
        s, e, m = n >> 79, (n >> 64) & 0x7FFF, n & ((1 << 64) - 1)
        n = (s << 78) | (e << 63) | (m & ((1 << 63) - 1))
        if e != 0 and e != 0x7FFF and not m >> 63:
            raise Unsupported("unnormal constant")
    f = n & ((1 << (sb - 1)) - 1)
    e = (n >> (sb - 1)) & ((1 << eb) - 1)
    s = n >> (eb + sb - 1)
    bits = fields(n, fmt)
    bias = (1 << (eb - 1)) - 1
    sg = z3.BoolVal(bool(s))
    if e == (1 << eb) - 1:
        fb = FB(z3.BoolVal(f != 0), z3.BoolVal(f == 0), sg, BV(0, 1), 0)
    elif e == 0 and f == 0:
        fb = FB(F, F, sg, BV(0, 1), 0)
    else:
        m = f | (1 << (sb - 1)) if e else f
        x = (e or 1) - bias - (sb - 1)
        while m % 2 == 0:
            m //= 2
            x += 1
        v = -m if s else m
        if x > 400 or x < -400:
            fb = None
        elif x >= 0:
            fb = FB(F, F, sg, BV(v << x, (m << x).bit_length() + 1), 0)
        else:
            fb = FB(F, F, sg, BV(v, m.bit_length() + 1), -x)
    return FV(fmt, fb=fb, bits=bits)


def from_int(I, fmt_unused=None):
    return FB(F, F, F, I, 0)


def var(name, fmt):
    eb, sb = FMT[fmt]
    b = z3.BitVec(name, eb + sb)
    n = eb + sb
    return FV(fmt, bits=(z3.Extract(n - 1, n - 1, b) == 1, z3.Extract(n - 2, sb - 1, b),
                         z3.Extract(sb - 2, 0, b))), b


def fite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    assert a.fmt == b.fmt
    if a.fb is not None and b.fb is not None:
        x, y = a.fb, b.fb
        # a special (nan/inf) constant contributes no integer
        xs = z3.is_true(x.nan) or z3.is_true(x.inf)
        ys = z3.is_true(y.nan) or z3.is_true(y.inf)
        if xs and not ys:
            I, k = y.I, y.k
        elif ys and not xs:
            I, k = x.I, x.k
        else:
            p, q, k = align(x, y)
            I = ITE(c, p, q)
        return FV(a.fmt, fb=FB(ITE(c, x.nan, y.nan), ITE(c, x.inf, y.inf), ITE(c, x.neg, y.neg), I, k))
    p, q = a.bits, b.bits
    return FV(a.fmt, bits=tuple(ITE(c, u, v) for u, v in zip(p, q)))


def fits_expr(I, p):
    """I has at most p significant bits (as a formula)"""
    W = I.size()
    J = W - 1 - p
    if J <= 0:
        return T
    m = absI(I)
    alts = []
    for j in range(J + 1):
        hi = T if p + j >= W else z3.Extract(W - 1, p + j, m) == BV(0, W - p - j)
        lo = T if j == 0 else z3.Extract(j - 1, 0, m) == BV(0, j)
        alts.append(AND(hi, lo))
    return OR(*alts)


def round_sig(I, p):
    """round |I| to p significant bits, ties to even; returns the integer (same scale)"""
    W = I.size()
    if W - 1 <= p:
        return I
    m = zext(absI(I), W + 1)
    w = W + 1
    res = None
    J = W - p
    for j in range(J, -1, -1):
        if j == 0:
            r = m
        else:
            low = z3.Extract(j - 1, 0, m)
            up = z3.Extract(w - 1, j, m)
            half = BV(1 << (j - 1), j)
            inc = OR(z3.UGT(low, half), AND(low == half, z3.Extract(0, 0, up) == BV(1, 1)))
            r = z3.Concat(up + ITE(inc, BV(1, w - j), BV(0, w - j)), BV(0, j))
        # j applies when bitlen(m) <= p + j (and not smaller j)
        if res is None:
            res = r
        else:
            c = z3.Extract(w - 1, p + j, m) == BV(0, w - p - j)
            res = ITE(c, r, res)
    res = zext(res, w + 1)
    return ITE(I < BV(0, W), -res, res)


RW = 192


def rnd(I, p, k):
    """I * 2^-k rounded to p significant bits (ties to even) as an application `rnd`, so that equal exact
    values are known to have equal roundings without unfolding the rounding circuit"""
    I = shrink(z3.simplify(I))
    W = I.size()
    if W - 1 <= p:
        return I
    if CTX is None or isnum(I) or W + 2 > RW:
        return round_sig(I, p)
    r = CTX.app("rnd%d" % p, [I, BV(k, 16)], RW, "contract", RNDFACTS(p), RNDDEF(p), RNDPAIRS)
    return trunc(r, W + 2)


def RNDFACTS(p):
    def f(a, r):
        I = a[0]
        W = I.size()
        z = BV(0, W)
        t = trunc(r, W + 2)
        fit = []
        for j in range(W - p):
            top = z3.Extract(W - 1, p + j, I)
            fit.append(AND(OR(top == BV(0, W - p - j), top == BV(-1, W - p - j)),
                           T if j == 0 else z3.Extract(j - 1, 0, I) == BV(0, j)))
        return [z3.Implies(OR(*fit), r == sext(I, RW)), r == sext(t, RW), (I == z) == (r == BV(0, RW)), (I < z) == (r < BV(0, RW))]
    return f


def RNDDEF(p):
    return lambda a, r: r == sext(round_sig(a[0], p), RW)


def RNDPAIRS(x, y):
    kx, ky = x.args[1].as_long(), y.args[1].as_long()
    if kx > ky:
        x, y, kx, ky = y, x, ky, kx
    d = ky - kx
    a, b = shl_c(x.args[0], d), y.args[0]
    w = max(a.size(), b.size()) + 1
    a, b = sext(a, w), sext(b, w)
    xr, yr = shl_c(x.res, d), sext(y.res, RW + d)
    out = [z3.Implies(a == -b, xr == -yr)]
    if d:
        out.append(z3.Implies(a == b, xr == yr))
    return out


# ------------------------------------------------- format conversion circuits
def round_pack(sg, e, sig, fmt, nan, inf, zero):
    """(-1)^sg * (sig / 2^(W-1)) * 2^e rounded to fmt (RNE, gradual underflow,
    overflow to infinity); sig has its top bit set, e is a signed BV"""
    eb, sb = FMT[fmt]
    bias = (1 << (eb - 1)) - 1
    W = sig.size()
    if W < sb + 2:
        sig = z3.Concat(sig, BV(0, sb + 2 - W))
        W = sb + 2
    w = max(e.size(), eb + 4)
    e = sext(e, w)
    sub = e < BV(1 - bias, w)
    extra = ITE(sub, BV(1 - bias, w) - e, BV(0, w))
    far = extra > BV(sb + 1, w)
    # room for the subnormal shift, sticky at the bottom
    X = sb + 2
    x = z3.Concat(sig, BV(0, X))
    n = W + X
    sh = trunc(extra, n) if n <= w else zext(extra, n)
    y = z3.LShR(x, sh)
    # extra <= X keeps every bit
    drop = n - sb
    up = z3.Extract(n - 1, drop, y)
    low = z3.Extract(drop - 1, 0, y)
    half = BV(1 << (drop - 1), drop)
    inc = OR(z3.UGT(low, half), AND(low == half, z3.Extract(0, 0, up) == BV(1, 1)))
    up = zext(up, sb + 1) + ITE(inc, BV(1, sb + 1), BV(0, sb + 1))
    up = ITE(far, BV(0, sb + 1), up)
    P = eb + sb + 2
    over = e > BV(bias, w)
    e0 = ITE(sub, BV(0, w), e + BV(bias - 1, w))
    p = (zext(trunc(e0, eb), P) << BV(sb - 1, P)) + zext(up, P)
    infv = BV(((1 << eb) - 1) << (sb - 1), P)
    p = ITE(OR(over, z3.UGE(p, infv)), infv, p)
    E = z3.Extract(eb + sb - 2, sb - 1, p)
    Fr = z3.Extract(sb - 2, 0, p)
    E = ITE(OR(nan, inf), BV(-1, eb), ITE(zero, BV(0, eb), E))
    Fr = ITE(nan, BV(1 << (sb - 2), sb - 1), ITE(OR(inf, zero), BV(0, sb - 1), Fr))
    return FV(fmt, bits=(sg, E, Fr))


def convert(v, fmt):
    """exact / correctly rounded conversion between formats"""
    if v.fmt == fmt:
        return v
    eb0, sb0 = FMT[v.fmt]
    eb, sb = FMT[fmt]
    bias0, bias = (1 << (eb0 - 1)) - 1, (1 << (eb - 1)) - 1
    s, e, f = v.bits
    w = max(eb0, eb) + 5
    special = e == BV(-1, eb0)
    nan, inf = AND(special, f != BV(0, sb0 - 1)), AND(special, f == BV(0, sb0 - 1))
    e0 = e == BV(0, eb0)
    zero = AND(e0, f == BV(0, sb0 - 1))
    m, lz = clz_norm(f)
    ue = ITE(e0, BV(-bias0, w) - sext(lz, w) if lz.size() <= w else BV(-bias0, w) - trunc(lz, w),
             zext(e, w) - BV(bias0, w))
    sig = ITE(e0, z3.Concat(m, BV(0, 1)), z3.Concat(BV(1, 1), f))
    return round_pack(s, ue, sig, fmt, nan, inf, zero)


def cst(v, fmt):
    """format constant nearest to the rational v"""
    from fractions import Fraction
    v = Fraction(v)
    eb, sb = FMT[fmt]
    bias = (1 << (eb - 1)) - 1
    sg, a = v < 0, abs(v)
    if a == 0:
        return FV(fmt, fb=FB(F, F, F, BV(0, 1), 0))
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    e = max(e, 1 - bias)
    q = a / Fraction(2) ** (e - (sb - 1))
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    if n >> sb:
        n >>= 1
        e += 1
    if n >> (sb - 1):
        ee, f = e + bias, n & ((1 << (sb - 1)) - 1)
    else:
        ee, f = 0, n
    assert ee < (1 << eb) - 1
    if fmt == "f80":
        return const((int(sg) << 79) | (ee << 64) | ((1 << 63) if ee else 0) | f, fmt)
    return const((int(sg) << (eb + sb - 1)) | (ee << (sb - 1)) | f, fmt)


def key(v):
    """integer key that orders the non-NaN values of a format (both zeros equal)"""
    s, e, f = v.bits
    m = z3.Concat(BV(0, 1), e, f)
    return ITE(s, -m, m)


def lt(a, b):
    return AND(NOT(a.isnan()), NOT(b.isnan()), key(a) < key(b))


def le(a, b):
    return AND(NOT(a.isnan()), NOT(b.isnan()), key(a) <= key(b))


def eq(a, b):
    return AND(NOT(a.isnan()), NOT(b.isnan()), key(a) == key(b))


def same(a, b):
    """same datum (all NaNs identified, zeros told apart)"""
    if a.fb is not None and b.fb is not None:
        x, y = a.fb, b.fb
        p, q, k = align(x, y)
        z = p == BV(0, p.size())
        return OR(AND(x.nan, y.nan),
                  AND(NOT(x.nan), NOT(y.nan),
                      OR(AND(x.inf, y.inf, x.neg == y.neg),
                         AND(NOT(x.inf), NOT(y.inf), p == q, OR(NOT(z), x.neg == y.neg)))))
    an, bn = a.isnan(), b.isnan()
    x, y = a.bits, b.bits
    return OR(AND(an, bn), AND(NOT(an), NOT(bn), x[0] == y[0], x[1] == y[1], x[2] == y[2]))
