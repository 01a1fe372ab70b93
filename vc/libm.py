"""Models of the external functions the library calls.

Exact semantics (by definition in C99/IEEE 754): floor, fabs, frexp, ldexp,
fmod, sqrt, copysign.  Everything else is an uninterpreted function of its
arguments constrained by the trusted facts in FACTS.
"""
import z3
from .ir import Unsupported
from . import fp
from .fp import (AND, OR, NOT, XOR, ITE, BV, T, F, FV, FB, FMT, SORT, RNE, isnum, sext, zext, trunc, fite, align,
                 shrink, clz_norm, absI)
from .sym import LIBM, Exec, pow2, Ptr, fpdef, RMS, fminmax
from .ir import Ty

SUFF = {"f": "f32", "": "f64", "l": "f80"}


def model(base):
    def deco(f):
        for s, fmt in SUFF.items():
            LIBM[base + s] = lambda ex, args, tys, st, where, f=f, fmt=fmt, n=base + s: f(ex, args, st, where, fmt)
        return f
    return deco


@model("fabs")
def _(ex, a, st, where, fmt):
    return ex.fabs(a[0])


@model("floor")
def _(ex, a, st, where, fmt):
    return ex.floor(a[0], st)


def _rti(nm, rm):
    @model(nm)
    def _(ex, a, st, where, fmt):
        return ex.rti(a[0], rm, st)


for _n, _r in (("trunc", "RTZ"), ("ceil", "RTP"), ("rint", "RNE"), ("nearbyint", "RNE"), ("round", "RNA"),
               ("roundeven", "RNE")):
    _rti(_n, _r)


@model("copysign")
def _(ex, a, st, where, fmt):
    x = ex.fabs(a[0])
    return fite(a[1].sign(), ex.fneg(x), x)


@model("sqrt")
def _(ex, a, st, where, fmt):
    if a[0].isconst():
        return ex.fvt(z3.fpSqrt(RNE, a[0].t), fmt)
    return ex.c.app("sqrt_" + fmt, [a[0]], fmt, "ieee", SQRTFACTS,
                    lambda x, r: fpdef(z3.fpSqrt(RNE, x[0].term()), r))


@model("frexp")
def _(ex, a, st, where, fmt):
    x, p = a
    eb, sb = FMT[fmt]
    bias = (1 << (eb - 1)) - 1
    anyexp = ex.c.fresh("frexp_any", z3.BitVecSort(32))
    if x.fb is not None:
        b = x.fb
        m, lz = clz_norm(absI(b.I))
        W = m.size()
        e = BV(W - b.k, 32) - zext(lz, 32)
        zero = b.I == BV(0, b.W)
        sig = zext(m, W + 1)
        I = ITE(x.sign(), -sig, sig)
        special = OR(b.nan, b.inf)
        I = ITE(zero, BV(0, W + 1), I)
        q = ITE(special, anyexp, ITE(zero, BV(0, 32), e))
        r = FV(fmt, fb=FB(b.nan, b.inf, x.sign(), I, W))
    else:
        s, e, f = x.bits
        sub = e == BV(0, eb)
        fm, lz = clz_norm(f)
        fz = f == BV(0, sb - 1)
        # normal: sig = 1.f, value = sig * 2^-(sb) * 2^(e-bias+1)
        signorm = z3.Concat(BV(1, 1), f)
        sigsub = z3.Concat(fm, BV(0, 1))
        sig = ITE(sub, sigsub, signorm)
        qn = zext(e, 32) - BV(bias - 1, 32)
        qs = BV(1 - bias + 1 - 1, 32) - zext(lz, 32)
        # subnormal: value = f * 2^(1-bias-(sb-1)); f = fm >> lz, fm has its top bit at sb-2
        #   = (fm<<1) * 2^-sb * 2^(q), q = 1-bias-(sb-1)-lz+sb-1 = 1-bias-lz
        special = e == BV(-1, eb)
        zero = AND(sub, fz)
        I = zext(sig, sb + 1)
        I = ITE(s, -I, I)
        nan = AND(special, NOT(fz))
        inf = AND(special, fz)
        I = ITE(OR(zero, special), BV(0, sb + 1), I)
        q = ITE(special, anyexp, ITE(zero, BV(0, 32), ITE(sub, qs, qn)))
        r = FV(fmt, fb=FB(nan, inf, s, I, sb))
    ex.store(st, p, Ty("i", 32), z3.simplify(q), where)
    return r


def ldexp(ex, a, st, where, fmt):
    x, n = a
    n = z3.simplify(n)
    eb, sb = FMT[fmt]
    bias = (1 << (eb - 1)) - 1
    if isnum(n):
        k = n.as_signed_long()
        if x.fb is not None and x.fb.W - (x.fb.k - k) < bias and -bias < x.fb.k - k < bias - 1:
            return ex.ldexp_fb(x, k, st)
        if 1 - bias <= k <= bias:
            return ex.scale(x, k, st)
    # general: add to the exponent field when operand and result are normal
    s, e, f = x.bits
    w = 34
    ne = zext(e, w) + sext(n, w)
    ok = AND(e != BV(0, eb), e != BV(-1, eb), ne > BV(0, w), ne < BV((1 << eb) - 1, w))
    keep = OR(x.isnan(), x.isinf(), x.iszero())
    if ex.c.valid(st.pc, OR(ok, keep)):
        other = None
        r = (s, ITE(keep, e, trunc(ne, eb)), f)
        return FV(fmt, bits=r)
    other = ex.freshval(Ty(fmt))
    ex.c.approx.append("ldexp outside the normal range at %s" % where)
    o = other.bits
    return FV(fmt, bits=(ITE(OR(ok, keep), s, o[0]), ITE(keep, e, ITE(ok, trunc(ne, eb), o[1])),
                         ITE(OR(ok, keep), f, o[2])))


for _s, _f in SUFF.items():
    for _b, _big in (("fmin", False), ("fmax", True)):
        LIBM[_b + _s] = lambda ex, a, tys, st, where, big=_big: fminmax(a[0], a[1], big)
    for _b, _rm in (("lrint", "RNE"), ("llrint", "RNE"), ("lround", "RNA"), ("llround", "RNA")):
        LIBM[_b + _s] = lambda ex, a, tys, st, where, rm=_rm, fmt=_f: ex.cast(
            "fptosi", ex.rti(a[0], rm, st), Ty(fmt), Ty("i", 64), st, where, set())


@model("modf")
def _(ex, a, st, where, fmt):
    x, p = a
    q = ex.rti(x, "RTZ", st)
    q = fite(x.sign(), FV(fmt, bits=(T,) + tuple(q.bits[1:])), q)
    ex.store(st, p, Ty(fmt), q, where)
    r = ex.fsub(x, q, st) if hasattr(ex, "fsub") else ex.fadd(x, ex.fneg(q), st)
    r = FV(fmt, bits=(x.sign(),) + tuple(r.bits[1:]))
    return fite(x.isinf(), FV(fmt, bits=(x.sign(), BV(0, r.bits[1].size()), BV(0, r.bits[2].size()))), r)


def _plain(nm):
    """functions of their arguments about which nothing else is assumed"""
    @model(nm)
    def _(ex, a, st, where, fmt):
        return ex.c.app(nm + {"f32": "f", "f64": "", "f80": "l"}[fmt], list(a), fmt, "libm", None)


for _n in ("cbrt", "fma", "remainder", "fdim", "nextafter", "logb", "erf", "erfc", "tgamma", "lgamma", "exp10"):
    _plain(_n)


for _s, _f in SUFF.items():
    for _b in ("ldexp", "scalbn"):
        LIBM[_b + _s] = lambda ex, args, tys, st, where, fmt=_f: ldexp(ex, args, st, where, fmt)


@model("fmod")
def _(ex, a, st, where, fmt):
    x, y = a
    j = pow2(y)
    if j is None:
        return uf(ex, "fmod" + {v: k for k, v in SUFF.items()}[fmt], a, fmt)
    eb, sb = FMT[fmt]
    bias = (1 << (eb - 1)) - 1
    # x mod 2^j: keep the significand bits of weight below 2^j
    s, e, f = x.bits
    special = e == BV(-1, eb)
    w = 34
    ee = zext(e, w)
    sig = z3.Concat(BV(1, 1), f)  # weight of bit i: 2^(e-bias-(sb-1)+i)
    # number of low bits with weight < 2^j: nb = j - (e-bias-(sb-1))
    nb = BV(j + bias + sb - 1, w) - ee
    small = nb >= BV(sb, w)      # |x| < 2^j (covers zero and subnormal)
    none = nb <= BV(0, w)
    sh = BV(sb, w) - nb          # bits to drop at the top
    shv = trunc(sh, sb) if sb <= w else zext(sh, sb)
    rem = z3.LShR(sig << shv, shv)
    m, lz = clz_norm(rem)
    ne = trunc(ee - zext(lz, w), eb)
    rz = OR(none, rem == BV(0, sb))
    nan = special
    E = ITE(nan, BV(-1, eb), ITE(small, e, ITE(rz, BV(0, eb), ne)))
    Fr = ITE(nan, BV(1 << (sb - 2), sb - 1), ITE(small, f, ITE(rz, BV(0, sb - 1), z3.Extract(sb - 2, 0, m))))
    return FV(fmt, bits=(s, E, Fr))



# --------------------------------------------------- functions known by facts
def uf(ex, name, args, ret):
    base = name[:-1] if name.endswith(("f", "l")) and name[:-1] in FACTS else name
    return ex.c.app(name, args, ret, "libm", FACTS[base], None, PAIRS.get(base))


Imp = z3.Implies
FACTS, PAIRS = {}, {}


def facts(*names):
    def deco(f):
        for n in names:
            g = FACTS.get(n)
            FACTS[n] = (lambda a, r, f=f, g=g: g(a, r) + f(a, r)) if g else f
        return f
    return deco


def C(v, like):
    return fp.cst(v, like.fmt)


def SQRTFACTS(a, r):
    x = a[0]
    return [r.isnan() == OR(x.isnan(), AND(x.sign(), NOT(x.iszero()))),
            Imp(NOT(r.isnan()), r.sign() == x.sign()), r.iszero() == x.iszero(),
            r.isinf() == AND(x.isinf(), NOT(x.sign())), Imp(fp.eq(x, C(1, x)), fp.eq(r, C(1, x))),
            Imp(fp.lt(C(1, x), x), AND(fp.le(C(1, x), r), fp.le(r, x))),
            Imp(AND(NOT(x.sign()), fp.lt(x, C(1, x))), AND(fp.le(r, C(1, x)), fp.le(x, r)))]


def absle(r, v):
    """|r| <= v for a number r"""
    return Imp(NOT(r.isnan()), AND(fp.le(r, C(v, r)), fp.le(C(-v, r), r)))


def absge(r, v):
    return OR(r.isnan(), fp.le(C(v, r), r), fp.le(r, C(-v, r)))


def notiny(x, r, k=2):
    """an argument of magnitude at least 2^-260 (or 2^-100 in binary32) gives at least 2^-300 (2^-120)"""
    a, b = (100, 120) if x.fmt == "f32" else (260, 300)
    return Imp(AND(NOT(x.isnan()), absge(x, 2.0 ** -a)), absge(r, 2.0 ** -b))


def sgnsame(x, r):
    """non-zero operands: the result has the operand's sign"""
    return Imp(NOT(OR(x.isnan(), x.iszero())), r.sign() == x.sign())


def zsame(x, r):
    return Imp(x.iszero(), fp.same(r, x))


@facts("sin", "tan")
def _(a, r):
    x = a[0]
    return [notiny(x, r), (absle(r, 2.0 ** 100 if x.fmt == "f32" else 2.0 ** 300)), r.isnan() == NOT(x.fin()), NOT(r.isinf()), zsame(x, r), Imp(NOT(OR(x.iszero(), r.isnan())), NOT(r.iszero()))]


@facts("cos")
def _(a, r):
    x = a[0]
    return [absle(r, 1), absge(r, 2.0 ** -120), r.isnan() == NOT(x.fin()), NOT(r.isinf()), NOT(r.iszero()), Imp(x.iszero(), fp.same(r, C(1, x)))]


@facts("asin")
def _(a, r):
    x = a[0]
    one = AND(fp.le(x, C(1, x)), fp.le(C(-1, x), x))
    return [absle(r, 1.625), r.isnan() == NOT(one), NOT(r.isinf()), zsame(x, r), Imp(NOT(r.isnan()), r.iszero() == x.iszero()),
            Imp(NOT(r.isnan()), sgnsame(x, r))]


@facts("acos")
def _(a, r):
    x = a[0]
    one = AND(fp.le(x, C(1, x)), fp.le(C(-1, x), x))
    return [absle(r, 3.25), r.isnan() == NOT(one), NOT(r.isinf()), Imp(NOT(r.isnan()), r.iszero() == fp.eq(x, C(1, x))),
            Imp(NOT(r.isnan()), NOT(r.sign()))]


@facts("atan")
def _(a, r):
    x = a[0]
    return [r.isnan() == x.isnan(), NOT(r.isinf()), zsame(x, r), r.iszero() == x.iszero(), sgnsame(x, r),
            Imp(NOT(r.isnan()), AND(fp.lt(r, C(1.625, x)), fp.lt(C(-1.625, x), r)))]


@facts("atan2")
def _(a, r):
    y, x = a
    ok = NOT(OR(y.isnan(), x.isnan()))
    k = 60 if y.fmt == "f32" else 260
    far = AND(absge(y, 2.0 ** -k), fp.le(x, C(2.0 ** k, x)))        # the quotient does not underflow
    return [absle(r, 3.25), r.isnan() == NOT(ok), NOT(r.isinf()), Imp(AND(ok, NOT(y.iszero()), x.fin(), far), NOT(r.iszero())),
            Imp(AND(ok, y.iszero(), NOT(x.sign())), r.iszero()), Imp(AND(ok, y.iszero(), x.sign()), NOT(r.iszero())),
            Imp(AND(ok, NOT(y.iszero())), r.sign() == y.sign())]


@facts("sinh")
def _(a, r):
    x = a[0]
    return [notiny(x, r), r.isnan() == x.isnan(), r.iszero() == x.iszero(), zsame(x, r), sgnsame(x, r), Imp(x.isinf(), r.isinf())]


@facts("cosh")
def _(a, r):
    x = a[0]
    return [r.isnan() == x.isnan(), Imp(NOT(x.isnan()), fp.le(C(1, x), r)), Imp(x.isinf(), r.isinf()),
            Imp(x.iszero(), fp.same(r, C(1, x)))]


@facts("tanh")
def _(a, r):
    x = a[0]
    return [notiny(x, r), r.isnan() == x.isnan(), r.iszero() == x.iszero(), NOT(r.isinf()), zsame(x, r), sgnsame(x, r),
            Imp(NOT(x.isnan()), AND(fp.le(r, C(1, x)), fp.le(C(-1, x), r)))]


@facts("asinh")
def _(a, r):
    x = a[0]
    return [Imp(r.fin(), absle(r, 17000)), r.isnan() == x.isnan(), r.iszero() == x.iszero(), r.isinf() == x.isinf(), zsame(x, r), sgnsame(x, r)]


@facts("acosh")
def _(a, r):
    x = a[0]
    return [Imp(r.fin(), absle(r, 17000)), r.isnan() == NOT(fp.le(C(1, x), x)), r.isinf() == AND(x.isinf(), NOT(x.sign())),
            Imp(NOT(r.isnan()), AND(NOT(r.sign()), r.iszero() == fp.eq(x, C(1, x))))]


@facts("atanh")
def _(a, r):
    x = a[0]
    one = AND(fp.le(x, C(1, x)), fp.le(C(-1, x), x))
    return [r.isnan() == NOT(one), r.isinf() == OR(fp.eq(x, C(1, x)), fp.eq(x, C(-1, x))), zsame(x, r),
            Imp(NOT(r.isnan()), AND(r.iszero() == x.iszero(), sgnsame(x, r)))]


@facts("exp", "exp2")
def _(a, r):
    x = a[0]
    return [r.isnan() == x.isnan(), Imp(NOT(x.isnan()), NOT(r.sign())), Imp(x.iszero(), fp.same(r, C(1, x))),
            Imp(AND(x.isinf(), NOT(x.sign())), r.isinf()), Imp(AND(x.isinf(), x.sign()), r.iszero()),
            Imp(fp.le(C(0, x), x), fp.le(C(1, x), r)), Imp(fp.le(x, C(0, x)), fp.le(r, C(1, x)))]


@facts("exp2")
def _(a, r):
    return above_one(C(2, a[0]), a[0], r)


@facts("expm1")
def _(a, r):
    x = a[0]
    return [r.isnan() == x.isnan(), Imp(NOT(x.isnan()), fp.le(C(-1, x), r)), r.iszero() == x.iszero(), zsame(x, r),
            sgnsame(x, r), Imp(AND(x.isinf(), NOT(x.sign())), r.isinf())]


@facts("log", "log2", "log10")
def _(a, r):
    x = a[0]
    return [r.isnan() == NOT(fp.le(C(0, x), x)), r.isinf() == OR(x.iszero(), AND(x.isinf(), NOT(x.sign()))),
            Imp(x.iszero(), r.sign()), Imp(AND(x.isinf(), NOT(x.sign())), NOT(r.sign())),
            Imp(r.fin(), AND(fp.le(r, C(17000, x)), fp.le(C(-17000, x), r))),
            Imp(NOT(r.isnan()), r.iszero() == fp.eq(x, C(1, x))),
            Imp(fp.eq(x, C(1, x)), NOT(r.sign())),
            Imp(fp.lt(C(1, x), x), NOT(r.sign())), Imp(AND(NOT(x.sign()), fp.lt(x, C(1, x))), r.sign())]


@facts("log")
def _(a, r):
    x = a[0]
    if x.fmt == "f32":
        return []
    return [Imp(fp.le(C(2 ** 256, x), x), fp.le(C(170, x), r)),
            Imp(AND(fp.lt(C(0, x), x), fp.lt(x, C(2.0 ** -256, x))), fp.le(r, C(-170, x)))]


@facts("log1p")
def _(a, r):
    x = a[0]
    return [Imp(r.fin(), absle(r, 17000)), r.isnan() == NOT(fp.le(C(-1, x), x)), r.isinf() == OR(fp.eq(x, C(-1, x)), AND(x.isinf(), NOT(x.sign()))),
            Imp(fp.eq(x, C(-1, x)), r.sign()), Imp(AND(x.isinf(), NOT(x.sign())), NOT(r.sign())),
            Imp(NOT(r.isnan()), r.iszero() == x.iszero()), zsame(x, r), Imp(NOT(r.isnan()), sgnsame(x, r))]


@facts("hypot")
def _(a, r):
    x, y = a
    return [r.isnan() == AND(NOT(x.isinf()), NOT(y.isinf()), OR(x.isnan(), y.isnan())),
            Imp(NOT(r.isnan()), NOT(r.sign())), Imp(NOT(r.isnan()), r.iszero() == AND(x.iszero(), y.iszero())),
            Imp(OR(x.isinf(), y.isinf()), r.isinf())]


POWLIM = {"f32": 126, "f64": 1022, "f80": 16000}


@facts("pow")
def _(a, r):
    x, y = a
    one = C(1, x)
    x1 = fp.eq(x, one)
    out = [Imp(y.iszero(), fp.same(r, one)), Imp(x1, fp.same(r, one)),
           Imp(AND(x.isnan(), NOT(y.iszero())), r.isnan()), Imp(AND(y.isnan(), NOT(x1)), r.isnan()),
           Imp(AND(NOT(x.isnan()), NOT(y.isnan()), NOT(x.sign())), AND(NOT(r.isnan()), NOT(r.sign()))),
           Imp(AND(x.iszero(), fp.lt(C(0, y), y)), r.iszero()),
           Imp(AND(x.iszero(), fp.lt(y, C(0, y))), r.isinf())]
    odd = is_odd_int(y)
    isint = is_int(y)
    neg = AND(x.fin(), x.sign(), NOT(x.iszero()), y.fin())
    out += [Imp(AND(neg, NOT(isint)), r.isnan()), Imp(AND(neg, isint), NOT(r.isnan())),
            Imp(AND(neg, isint), r.sign() == odd)]
    # between 1 and x or 1/x
    lim = 100 if x.fmt == "f32" else 300
    out += [Imp(AND(fp.le(C(2.0 ** -lim, x), x), fp.le(x, C(2.0 ** lim, x)), fp.le(y, one), fp.le(ex_neg(one), y)),
                AND(r.fin(), NOT(r.iszero())))]
    if x.isconst() and z3.is_true(z3.simplify(AND(fp.lt(one, x), x.fin()))):
        out += above_one(x, y, r)
    if x.isconst() and z3.is_true(z3.simplify(AND(fp.lt(one, x), fp.lt(x, C(2, x))))):
        lim = POWLIM[x.fmt]
        inr = AND(fp.le(y, C(lim, y)), fp.le(C(-lim, y), y))
        out += [Imp(inr, AND(r.fin(), NOT(r.iszero()), NOT(r.sign()))),
                Imp(AND(y.isinf(), y.sign()), AND(r.iszero(), NOT(r.sign()))),
                Imp(AND(y.isinf(), NOT(y.sign())), r.isinf()),
                Imp(fp.lt(C(0, y), y), fp.le(one, r)), Imp(fp.lt(y, C(0, y)), fp.le(r, one))]
        if x.fmt != "f32":
            out += [Imp(AND(fp.le(y, C(256, y)), fp.le(C(-256, y), y)),
                        AND(fp.le(C(2.0 ** -257, y), r), fp.le(r, C(2.0 ** 257, y))))]
    return out


def above_one(x, y, r):
    """x^y for a constant base x > 1"""
    one = C(1, y)
    out = []
    if z3.is_true(z3.simplify(fp.le(C(1.5, x), x))):
        # exponents that move the result by two units in the last place or more
        tiny = C(2.0 ** -{"f32": 20, "f64": 49, "f80": 60}[x.fmt], y)
        out += [Imp(fp.le(tiny, y), fp.lt(one, r)), Imp(fp.le(y, ex_neg(tiny)), fp.lt(r, one))]
        if x.fmt != "f32":
            t = C(2.0 ** -27, y)
            out += [Imp(fp.le(t, y), fp.le(C(1 + 2.0 ** -29, y), r)),
                    Imp(fp.le(y, ex_neg(t)), fp.le(r, C(1 - 2.0 ** -29, y)))]
    return out


def ex_neg(a):
    s, e, f = a.bits
    return FV(a.fmt, bits=(NOT(s), e, f))


def is_int(y):
    """y is a finite integer"""
    return parity(y)[0]


def is_odd_int(y):
    return parity(y)[1]


def parity(y):
    s, e, f = y.bits
    eb, sb = FMT[y.fmt]
    bias = (1 << (eb - 1)) - 1
    sig = z3.Concat(BV(1, 1), f)
    w = eb + 2
    nb = BV(bias + sb - 1, w) - zext(e, w)     # number of fraction bits
    big = nb < BV(0, w)
    allint = nb <= BV(0, w)
    small = nb >= BV(sb, w)                     # |y| < 1
    sh = zext(trunc(nb, sb.bit_length()), sb) if sb > sb.bit_length() else nb
    q = z3.LShR(sig, sh)
    whole = (q << sh) == sig
    odd = z3.Extract(0, 0, q) == BV(1, 1)
    fin = y.fin()
    return (AND(fin, OR(y.iszero(), allint, AND(NOT(small), whole))),
            AND(fin, NOT(small), NOT(big), whole, odd))


@facts("fmod")
def _(a, r):
    x, y = a
    return [r.isnan() == OR(x.isnan(), y.isnan(), x.isinf(), y.iszero()), NOT(r.isinf())]


@facts("asin", "atan", "log1p", "expm1")
def _(a, r):
    return [notiny(a[0], r)]


def _reg(n):
    for s, fmt in SUFF.items():
        LIBM.setdefault(n + s, lambda ex, args, tys, st, where, nm=n + s, fm=fmt: uf(ex, nm, args, fm))


for _n in list(FACTS):
    _reg(_n)

TRUSTED_LIBM = sorted(FACTS)
