"""The properties, as goals over the functions of /repo.

A goal says, for one library function (and one case of a stated case split):
  args(ctx, ex)          symbolic arguments covering the case
  pre(ctx, ex, a)        assumptions (list)
  post(ctx, ex, a, v)    [(clause, condition on the arguments and the result)]
pre and post also accept constant arguments: with ctx.impl set (the compiled
library) they evaluate to true/false, which is how candidate counterexamples are
judged against the real code.
"""
import z3
from . import fp, tspec, contracts as C
from .contracts import NS, LFMT, EFMT, FN, ONE, L, ENC, spec_call, tsplit, tcase, tsplit_fine
from .fp import AND, OR, NOT, XOR, ITE, BV, T, F, FV, FB, FMT, sext, zext, trunc, shrink
from .ir import Ty
from .libm import is_int
from .sym import LIBM, State

Imp = z3.Implies
NAR = tspec.NAR
FAMS = ("", "_linear")
SUF = {"f32": "f", "f64": "", "f80": "l"}
FNAME = {v: k for k, v in FN.items()}


def ty(fam, n):
    return "takum%s%d" % (fam, n)


class Goal:
    def __init__(self, fn, label, args, pre, post, known=None, search=None, tmo=None):
        self.fn, self.label, self.args, self.pre, self.post = fn, label, args, pre, post
        self.known = known or []        # [(finding id, alternative post)]
        self.tmo = tmo

    def build(self, post=None):
        def b(ctx, ex):
            a = self.args(ctx, ex)
            return a, self.pre(ctx, ex, a), lambda aa, v, c, e: (post or self.post)(c, e, aa, v)
        return b


class Lemma:
    """a statement over the specification functions alone"""
    fn = None
    known = []

    def __init__(self, label, formula, tmo=None):
        self.label, self.formula, self.tmo = label, formula, tmo


class Frame:
    """the frame contract of one function"""
    known = []
    tmo = None

    def __init__(self, modname, fn):
        self.modname, self.fn, self.label = modname, fn, "assigns nothing (%s)" % modname


def nopre(ctx, ex, a):
    return []


def one(cl, f):
    """post with a single clause"""
    return lambda ctx, ex, a, v: [(cl, f(ctx, ex, a, v))]


def same(v, w):
    if isinstance(v, FV):
        return fp.same(v, w)
    return v == w


def bvar(nm, n):
    return z3.BitVec(nm, n)


# ------------------------------------------------------- float evaluation terms
class EV:
    """float expressions of one working format, built with the verifier's own operations"""

    def __init__(self, ctx, ex, fmt):
        self.c, self.ex, self.fmt = ctx, ex, fmt
        self.st = State(T, {}, {})

    def k(self, v):
        return fp.cst(v, self.fmt)

    def cv(self, x, fmt=None):
        fmt = fmt or self.fmt
        return conv(self.ex, x, fmt)

    def lib(self, base, *a):
        if base == "fabs":
            return self.ex.fabs(a[0])
        f = LIBM[base + SUF[self.fmt]]
        return f(self.ex, list(a), [Ty(self.fmt)] * len(a), self.st, "spec")

    def add(self, a, b):
        return self.ex.fadd(a, b, self.st)

    def sub(self, a, b):
        return self.ex.fsub(a, b, self.st)

    def mul(self, a, b):
        return self.ex.fmul(a, b, self.st)

    def div(self, a, b):
        return self.ex.fdiv(a, b, self.st)

    def neg(self, a):
        return self.ex.fneg(a)




def ORD(f):
    return ("f32", "f64", "f80").index(f)


def conv(ex, x, fmt):
    if x.fmt == fmt:
        return x
    st = State(T, {}, {})
    op = "fpext" if ORD(fmt) > ORD(x.fmt) else "fptrunc"
    return ex.cast(op, x, Ty(x.fmt), Ty(fmt), st, "spec", [])


def work(fam, n):
    """format in which the elementary functions of a type are evaluated"""
    return "f64" if fam and n < 64 else "f80"


def dec(ctx, ex, fam, n, t, fmt=None):
    return spec_call(ctx, ex, "%s_to_%s" % (ty(fam, n), FNAME[fmt or work(fam, n)]), t)


def enc(ctx, ex, fam, n, x):
    return spec_call(ctx, ex, "%s_from_%s" % (ty(fam, n), FNAME[x.fmt]), x)


# =============================================================== P01 width conversions
def width_value(t, m):
    """the m-bit pattern nearest to the n-bit one (bit-string rounding, ties to even, no over-/underflow)"""
    n = t.size()
    if m >= n:
        return z3.Concat(t, BV(0, m - n)) if m > n else t
    d = n - m
    up = z3.Extract(n - 1, d, t)
    low = z3.Extract(d - 1, 0, t)
    half = BV(1 << (d - 1), d)
    inc = OR(z3.UGT(low, half), AND(low == half, z3.Extract(0, 0, up) == BV(1, 1)))
    r = up + ITE(inc, BV(1, m), BV(0, m))
    neg = t < BV(0, n)
    r = ITE(AND(r == BV(0, m), t != BV(0, n)), ITE(neg, BV(-1, m), BV(1, m)), r)
    return ITE(AND(r == NAR(m), t != NAR(n)), ITE(neg, NAR(m) + BV(1, m), BV((1 << (m - 1)) - 1, m)), r)


def P01(prog):
    for fam in FAMS:
        for n in NS:
            for m in NS:
                if n != m:
                    yield Goal("%s_from_%s" % (ty(fam, m), ty(fam, n)), "", lambda c, e, n=n: [bvar("t", n)], nopre,
                               one("result is the nearest %d-bit pattern" % m,
                                   lambda c, e, a, v, m=m: v == width_value(a[0], m)))


# =============================================================== P02 linear decode
def P02(prog):
    for n in NS:
        for f, fmt in FN.items():
            for case in tsplit(n):
                yield Goal("takum_linear%d_to_%s" % (n, f), "header %s" % (case,),
                           lambda c, e, n=n, case=case: [tcase(n, case)], nopre,
                           one("result is (-1)^S (1+m) 2^c correctly rounded",
                               lambda c, e, a, v, fmt=fmt: fp.same(v, tspec.lin_value(a[0], fmt))))


# =============================================================== P03 linear encode
def lenc_post(n, fmt):
    def post(c, e, a, v):
        x = a[0]
        if c.impl is not None:
            from . import pyref
            return [("result is the nearest takum",
                     z3.BoolVal(pyref.lenc_ok(n, fmt, z3.simplify(x.ieee()).as_long(), z3.simplify(v).as_long())))]
        live = AND(x.fin(), NOT(x.iszero()))
        out = [("NaN and infinities give NaR, zeros give 0",
                AND(Imp(NOT(x.fin()), v == NAR(n)), Imp(x.iszero(), v == BV(0, n))))]
        w = ENC(c, n, x.sign(), FV(EFMT[n], fb=C.lenc_coord(n, x).fb))
        out.append(("result is the nearest takum", Imp(live, v == w)))
        return out
    return post


def P03(prog):
    for n in NS:
        for f, fmt in FN.items():
            yield Goal("takum_linear%d_from_%s" % (n, f), "", lambda c, e, fmt=fmt: [fp.var("x", fmt)[0]], nopre,
                       lenc_post(n, fmt))


# =============================================================== P06 sign, absolute
def P06(prog):
    for fam in FAMS:
        for n in NS:
            o = BV(ONE(n), n)
            z = BV(0, n)
            A = lambda c, e, n=n: [bvar("t", n)]
            yield Goal(ty(fam, n) + "_sign", "", A, nopre,
                       one("sign is -1, 0, 1 or NaR",
                           lambda c, e, a, v, n=n, o=o, z=z: v == ITE(a[0] == NAR(n), NAR(n), ITE(
                               a[0] == z, z, ITE(a[0] < z, -o, o)))))
            yield Goal(ty(fam, n) + "_absolute", "", A, nopre,
                       one("absolute value", lambda c, e, a, v, z=z: v == ITE(a[0] < z, -a[0], a[0])))


# =============================================================== P07 exact inversion of logarithmic takums
def P07(prog):
    for n in NS:
        o = BV(ONE(n), n)
        z = BV(0, n)

        def post(c, e, a, v, n=n, z=z):
            t = a[0]
            out = [("1/0 and 1/NaR are NaR", Imp(OR(t == z, t == NAR(n)), v == NAR(n)))]
            live = NOT(OR(t == z, t == NAR(n)))
            out.append(("sign is kept", Imp(live, AND(v != z, v != NAR(n), (v < z) == (t < z)))))
            lv, lt = tspec.l_fixed(v)[0], tspec.l_fixed(t)[0]
            out.append(("the logarithmic value is negated exactly", Imp(live, lv == -lt)))
            return out
        for case in tsplit_fine(n):
            yield Goal("takum%d_inversion" % n, "header %s" % (case,), lambda c, e, n=n, case=case: [tcase(n, case)],
                       nopre, post)


# =============================================================== P08 precision
def P08(prog):
    for fam in FAMS:
        for n in NS:
            def post(c, e, a, v, n=n):
                t = a[0]
                w = v.size()
                S, D, r = tspec.dr_fields(t)
                p = BV(n - 5, w) - zext(r, w)
                p = ITE(p < BV(0, w), BV(0, w), p)
                # 0 and NaR have the header of the longest regime, i.e. the least precision of the type
                return [("number of mantissa bits", v == p)]
            yield Goal(ty(fam, n) + "_precision", "", lambda c, e, n=n: [bvar("t", n)], nopre, post)


# =============================================================== P09 product and quotient of logarithmic takums
def logpair(op):
    def post(n, a, b, c, v):
        z = BV(0, n)
        nar = OR(a == NAR(n), b == NAR(n))
        out = []
        if op == "division":
            nar = OR(nar, b == z)
            zero = AND(NOT(nar), a == z)
        else:
            zero = AND(NOT(nar), OR(a == z, b == z))
        out.append(("NaR operands (and division by 0) give NaR", Imp(nar, v == NAR(n))))
        out.append(("a zero operand gives zero", Imp(zero, v == z)))
        x, k = tspec.l_fixed(a)
        y, _ = tspec.l_fixed(b)
        w = x.size() + 1
        s = sext(x, w) + sext(y, w) if op != "division" else sext(x, w) - sext(y, w)
        s = shrink(s)
        sg = XOR(a < z, b < z)
        if n == 64:
            s = fp.rnd(s, 64, k)
        live = NOT(OR(nar, zero))
        r = ENC(c, n, sg, FV(EFMT[n], fb=FB(NOT(live), F, F, s, k)))
        out.append(("result is the nearest takum of the sum/difference of logarithms", Imp(live, v == r)))
        return out
    return post


def P09(prog):
    for n in NS:
        for op in ("multiplication", "division"):
            def post(c, e, a, v, n=n, op=op):
                if c.impl is not None:
                    from . import pyref
                    return [("result is the nearest takum of the sum/difference of logarithms", z3.BoolVal(
                        pyref.logpair_ok(n, op, *[z3.simplify(x).as_long() for x in a + [v]])))]
                return logpair(op)(n, a[0], a[1], c, v)
            yield Goal("takum%d_%s" % (n, op), "", lambda c, e, n=n: [bvar("a", n), bvar("b", n)], nopre, post)


# =============================================================== P10 roots of logarithmic takums
def P10(prog):
    for n in NS:
        def post(c, e, a, v, n=n):
            t = a[0]
            z = BV(0, n)
            if c.impl is not None:
                from . import pyref
                return [("result is the takum nearest to the root", z3.BoolVal(
                    pyref.logroot_ok(n, z3.simplify(t).as_long(), 2, z3.simplify(v).as_long())))]
            out = [("roots of negative numbers and NaR are NaR, the root of 0 is 0",
                    AND(Imp(t < z, v == NAR(n)), Imp(t == z, v == z)))]
            x, k = tspec.l_fixed(t)
            r = ENC(c, n, F, FV(EFMT[n], fb=FB(t <= z, F, F, shrink(x), k + 1)))
            out.append(("result is the takum nearest to the root", Imp(t > z, v == r)))
            return out
        yield Goal("takum%d_square_root" % n, "", lambda c, e, n=n: [bvar("t", n)], nopre, post)

        def post2(c, e, a, v, n=n):
            t, k = a
            z = BV(0, n)
            zk = BV(0, 64)
            even = z3.Extract(0, 0, k) == BV(0, 1)
            bad = OR(t == NAR(n), k == zk, AND(t < z, even), AND(t == z, k < zk))
            if c.impl is not None:
                from . import pyref
                return [("result is the takum of the root", z3.BoolVal(
                    pyref.logroot_ok(n, z3.simplify(t).as_long(), z3.simplify(k).as_signed_long(),
                                     z3.simplify(v).as_long())))]
            out = [("undefined roots are NaR", Imp(bad, v == NAR(n))),
                   ("the root of 0 is 0", Imp(AND(NOT(bad), t == z), v == z))]
            live = NOT(OR(bad, t == z))
            out.append(("the root has the sign of its radicand", Imp(live, AND(v != z, v != NAR(n), (v < z) == (t < z)))))
            # l / k, correctly rounded to the working format or a wider one
            alts = []
            for f in ("f32", "f64", "f80"):
                if not ORD(LFMT[n]) <= ORD(f) <= ORD(EFMT[n]):
                    continue
                E = EV(c, e, f)
                l = L(n, t)
                q = E.div(FV(f, fb=l.fb), e.cast("sitofp", k, Ty("i", 64), Ty(f), E.st, "spec", []))
                alts.append(v == spec_call(c, e, "codec_takum%d_from_s_and_l" % n, t < z, conv(e, q, EFMT[n])))
            out.append(("result is the takum of the logarithm divided by the index", Imp(live, OR(*alts))))
            return out
        yield Goal("takum%d_root" % n, "", lambda c, e, n=n: [bvar("t", n), bvar("k", 64)], nopre, post2)


# =============================================================== P12 arithmetic through floats
ARITH = {"addition": "add", "subtraction": "sub", "multiplication": "mul", "division": "div"}


def arith_alts(c, e, fam, n, op, a):
    """admissible results: the operation in the type's working precision (or a wider one), rounded once more
    only by the encoder"""
    fmts = ["f80"] if work(fam, n) == "f80" else ["f64", "f80"]
    out = []
    for f in fmts:
        E = EV(c, e, f)
        xs = [conv(e, dec(c, e, fam, n, t), f) for t in a]
        r = getattr(E, op)(*xs)
        out.append(enc(c, e, fam, n, r))
        if f == "f80" and work(fam, n) == "f64":
            out.append(enc(c, e, fam, n, conv(e, r, "f64")))
    return out


def P12(prog):
    for fam in FAMS:
        for n in NS:
            for op, o in ARITH.items():
                if not fam and op in ("multiplication", "division"):
                    continue
                yield Goal("%s_%s" % (ty(fam, n), op), "", lambda c, e, n=n: [bvar("a", n), bvar("b", n)], nopre,
                           one("result is the encoding of the IEEE %s of the decoded operands" % op,
                               lambda c, e, a, v, fam=fam, n=n, o=o: OR(
                                   *[v == w for w in arith_alts(c, e, fam, n, o, a)])))
            if fam:
                yield Goal("%s_inversion" % ty(fam, n), "", lambda c, e, n=n: [bvar("a", n)], nopre,
                           one("result is the encoding of 1/x",
                               lambda c, e, a, v, fam=fam, n=n: OR(
                                   *[v == w for w in unary_alts(c, e, fam, n, lambda E, x: E.div(E.k(1), x), a[0])])))
                yield Goal("%s_square_root" % ty(fam, n), "", lambda c, e, n=n: [bvar("a", n)], nopre,
                           one("result is the encoding of sqrt(x)",
                               lambda c, e, a, v, fam=fam, n=n: OR(
                                   *[v == w for w in unary_alts(c, e, fam, n, lambda E, x: E.lib("sqrt", x), a[0])])))


def unary_alts(c, e, fam, n, f, t, fix=None):
    fmts = ["f80"] if work(fam, n) == "f80" else ["f64", "f80"]
    out = []
    x = dec(c, e, fam, n, t)
    for fm in fmts:
        E = EV(c, e, fm)
        r = f(E, conv(e, x, fm))
        rs = [r]
        if fm == "f80" and work(fam, n) == "f64":
            rs.append(conv(e, r, "f64"))
        for r in rs:
            out.append(enc(c, e, fam, n, fix(c, e, [x], r) if fix else r))
    return out


# =============================================================== P13 NaR propagation
def P13(prog):
    import itertools
    from .cimpl import tyname
    for fam in FAMS:
        for n in NS:
            pref = ty(fam, n) + "_"
            for name, f in sorted(prog.ext.items()):
                if not name.startswith(pref) or "_from_float" in name or "_from_extended" in name or \
                        name.endswith("_precision"):
                    continue
                ps = [tyname(t) for t, _ in f.params]
                src = name[len(pref):]
                idx = range(len(ps))
                if src.endswith(("integer_power", "root")) and len(ps) == 2:
                    idx = [0]
                for i in idx:
                    def args(c, e, ps=ps, i=i):
                        out = []
                        for j, p in enumerate(ps):
                            w = int(p[1:])
                            out.append(BV(1 << (w - 1), w) if j == i else bvar("x%d" % j, w))
                        return out

                    def pre(c, e, a, i=i):
                        return [a[i] == NAR(a[i].size())]

                    def post(c, e, a, v):
                        if isinstance(v, FV):
                            return [("NaR gives NaN", v.isnan())]
                        return [("NaR gives NaR", v == NAR(v.size()))]
                    known = []
                    if src == "power":
                        def alt(c, e, a, v, i=i, n=n):
                            k = AND(a[0] == NAR(n), a[1] == BV(0, n)) if i == 0 else \
                                AND(a[0] == BV(ONE(n), n), a[1] == NAR(n))
                            return [("NaR gives NaR", OR(v == NAR(n), AND(k, v == BV(ONE(n), n))))]
                        known = [("F2", alt)]
                    yield Goal(name, "operand %d is NaR" % i if len(ps) > 1 else "", args, pre, post, known)


# =============================================================== P15 domain errors
def absle1(x):
    return AND(fp.le(x, fp.cst(1, x.fmt)), fp.le(fp.cst(-1, x.fmt), x))


def absge1(x):
    return OR(fp.le(fp.cst(1, x.fmt), x), fp.le(x, fp.cst(-1, x.fmt)))


def pos(x):
    return fp.lt(fp.cst(0, x.fmt), x)


def num(x):
    return NOT(x.isnan())


def nonzero(x):
    return AND(num(x), NOT(x.iszero()))


def gtm1(x):
    return fp.lt(fp.cst(-1, x.fmt), x)


# function -> condition on the decoded argument(s) under which the result is a real number
DOMAIN1 = {
    "arccos": absle1, "arccos_over_pi": absle1, "arcsin": absle1, "arcsin_over_pi": absle1,
    "arccsc": absge1, "arccsc_over_pi": absge1, "arcsec": absge1, "arcsec_over_pi": absge1,
    "arcosh": lambda x: fp.le(fp.cst(1, x.fmt), x),
    "arsech": lambda x: AND(pos(x), fp.le(x, fp.cst(1, x.fmt))),
    "artanh": lambda x: AND(fp.lt(x, fp.cst(1, x.fmt)), fp.lt(fp.cst(-1, x.fmt), x)),
    "arcoth": lambda x: OR(fp.lt(fp.cst(1, x.fmt), x), fp.lt(x, fp.cst(-1, x.fmt))),
    "arcsch": nonzero, "coth": nonzero, "csch": nonzero, "cot": nonzero, "csc": nonzero,
    "ln": pos, "lb": pos, "lg": pos, "ln_1_plus": gtm1, "lb_1_plus": gtm1, "lg_1_plus": gtm1,
    "square_root": lambda x: AND(num(x), OR(NOT(x.sign()), x.iszero())), "inversion": nonzero,
}
TOTAL1 = ["exp", "exp_minus_1", "2_raised", "2_raised_minus_1", "10_raised", "10_raised_minus_1", "sin", "cos", "tan",
          "sec", "arctan", "arctan_over_pi", "arccot", "arccot_over_pi", "sinh", "cosh", "tanh", "sech", "arsinh",
          "absolute", "sign", "sin_pi_times", "cos_pi_times"]
for _f in TOTAL1:
    DOMAIN1[_f] = num
DOMAIN2 = {
    "addition": lambda x, y: AND(num(x), num(y)), "subtraction": lambda x, y: AND(num(x), num(y)),
    "multiplication": lambda x, y: AND(num(x), num(y)), "division": lambda x, y: AND(num(x), nonzero(y)),
    "hypotenuse": lambda x, y: AND(num(x), num(y)), "arctan2": lambda x, y: AND(num(x), num(y)),
    "arctan2_over_pi": lambda x, y: AND(num(x), num(y)),
}


def P15(prog):
    for fam in FAMS:
        for n in NS:
            for f, dom in DOMAIN1.items():
                def post(c, e, a, v, fam=fam, n=n, dom=dom):
                    x = dec(c, e, fam, n, a[0])
                    return [("NaR exactly outside the domain", (v == NAR(n)) == NOT(dom(x)))]
                known = []
                if f == "arcoth" and n == 64:
                    def alt(c, e, a, v, fam=fam, n=n, dom=dom):
                        x = dec(c, e, fam, n, a[0])
                        g = 1 + 2.0 ** -50
                        near = AND(fp.lt(x, fp.cst(g, x.fmt)), fp.lt(fp.cst(-g, x.fmt), x))
                        return [("NaR outside the domain or within 2^-50 of its ends",
                                 AND(Imp(NOT(dom(x)), v == NAR(n)), Imp(v == NAR(n), OR(NOT(dom(x)), near))))]
                    known = [("F1", alt)]
                yield Goal("%s_%s" % (ty(fam, n), f), "", lambda c, e, n=n: [bvar("t", n)], nopre, post, known)
            for f, dom in DOMAIN2.items():
                def post2(c, e, a, v, fam=fam, n=n, dom=dom):
                    x, y = dec(c, e, fam, n, a[0]), dec(c, e, fam, n, a[1])
                    return [("NaR exactly outside the domain", (v == NAR(n)) == NOT(dom(x, y)))]
                yield Goal("%s_%s" % (ty(fam, n), f), "", lambda c, e, n=n: [bvar("a", n), bvar("b", n)], nopre, post2)
            def post5(c, e, a, v, fam=fam, n=n):
                x, y = dec(c, e, fam, n, a[0]), dec(c, e, fam, n, a[1])
                return [("NaR exactly for negative powers of zero and fractional powers of negative numbers",
                         (v == NAR(n)) == OR(AND(x.iszero(), fp.lt(y, fp.cst(0, y.fmt))),
                                             AND(fp.lt(x, fp.cst(0, x.fmt)), NOT(is_int(y)))))]
            yield Goal(ty(fam, n) + "_power", "", lambda c, e, n=n: [bvar("a", n), bvar("b", n)],
                       lambda c, e, a, n=n: [a[0] != NAR(n), a[1] != NAR(n)], post5)

            def post3(c, e, a, v, n=n):
                return [("NaR exactly for NaR and for zero to a power of zero or less",
                         (v == NAR(n)) == OR(a[0] == NAR(n), AND(a[0] == BV(0, n), a[1] <= BV(0, 64))))]
            yield Goal(ty(fam, n) + "_integer_power", "", lambda c, e, n=n: [bvar("t", n), bvar("k", 64)], nopre, post3)

            def post4(c, e, a, v, n=n):
                return [("NaR exactly for NaR, degree zero, even roots of negatives and negative roots of zero",
                         (v == NAR(n)) == OR(a[0] == NAR(n), a[1] == BV(0, 64),
                                             AND(a[0] < BV(0, n), z3.Extract(0, 0, a[1]) == BV(0, 1)),
                                             AND(a[0] == BV(0, n), a[1] < BV(0, 64))))]
            yield Goal(ty(fam, n) + "_root", "", lambda c, e, n=n: [bvar("t", n), bvar("k", 64)], nopre, post4)


# =============================================================== P25 frame
def P25(prog):
    for m in prog.mods:
        for f in m.funcs.values():
            yield Frame(m.name, f.name)


# =============================================================== registry
LV_EXACT = {"to_l": "exact", "from_l": "exact", "ldec": "exact"}
LV_OPAQUE = {"to_l": "exact", "from_l": "opaque", "ldec": "opaque", "dec": "opaque", "lenc": "opaque",
             "encf": "opaque"}
LV_SPECIAL = {"to_l": "exact", "from_l": "special", "ldec": "special", "dec": "special", "lenc": "special",
              "encf": "special"}
LV_FACTS = {"to_l": "exact", "from_l": "facts", "ldec": "facts", "dec": "facts", "lenc": "facts", "encf": "facts"}

PROPS = {
    "P01": (P01, {}),
    "P02": (P02, {"to_l": "exact"}),
    "P03": (P03, {"to_l": "exact", "from_l": "exact"}),
    "P06": (P06, {}),
    "P07": (P07, {}),
    "P08": (P08, {}),
    "P09": (P09, {"to_l": "exact", "from_l": "exact"}),
    "P10": (P10, {"to_l": "exact", "from_l": "exact"}),
    "P12": (P12, LV_OPAQUE),
    "P13": (P13, LV_FACTS),
    "P15": (P15, LV_FACTS),
    "P25": (P25, {}),
}

from . import specs2 as S2      # noqa: E402  (needs the definitions above)
PROPS.update({
    "P11": (S2.P11, LV_SPECIAL),
    "P16": (S2.P16, {"to_l": "exact", "from_l": "opaque"}),
    "P17": (S2.P17, LV_OPAQUE),
    "P18": (S2.P18, LV_SPECIAL),
    "P19": (S2.P19, LV_OPAQUE),
    "P20": (S2.P20, LV_SPECIAL),
    "P04": (S2.P04, {"to_l": "exact", "from_l": "exact", "ldec": "exact", "encneg": S2.NEGK}),
    "P05": (S2.P05, {"to_l": "exact", "from_l": "exact", "ldec": "exact", "encneg": S2.NEGK}),
    "P14": (S2.P14, LV_FACTS),
    "P21": (S2.P21, LV_SPECIAL),
    "P23": (S2.P23, {"to_l": "exact", "from_l": "exact", "ldec": "opaque", "dec": "opaque", "lenc": "opaque",
                     "encf": "opaque"}),
    "P24": (S2.P24, LV_FACTS, "only"),
})

ASSUME_BASE = [
    "clang's IR for the C text (front end and mem2reg only) means what gcc's object code for it means",
    "long double is the x87 80-bit format with correctly rounded operations; no -ffast-math",
    "round-to-nearest mode; floating-point environment not changed by the caller",
]
ASSUME = {}
