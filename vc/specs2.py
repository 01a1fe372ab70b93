"""Properties over the elementary functions, conversions between families, order, laws, safety.

Same conventions as specs.py."""
import z3
from fractions import Fraction
from . import fp, tspec, contracts as C
from .contracts import NS, LFMT, EFMT, FN, ONE, L, ENC, spec_call, tsplit, tcase, tsplit_fine, extreme
from .fp import AND, OR, NOT, XOR, ITE, BV, T, F, FV, FB, FMT, sext, zext, trunc, shrink
from .ir import Ty
from .specs import (Goal, EV, conv, work, dec, enc, ty, nopre, one, bvar, Imp, NAR, FAMS, FNAME, num, nonzero,
                    ORD)

PI = Fraction("3.1415926535897932384626433832795028841972")
LB_E = Fraction("1.4426950408889634073599246810018921374266")
LG_E = Fraction("0.4342944819032518276511289189166050822944")
SQRTE = Fraction("1.6487212707001281468486507878141635716538")


# ------------------------------------------------- results of float evaluations
def sat_zero_pos(n, x, r):
    """a result that underflows to 0 is the smallest positive takum"""
    return [(r.iszero(), extreme(n, F, False))]


def sat_inf_pos(n, x, r):
    return [(r.isinf(), extreme(n, F, True))]


def sat_inf_signed(n, x, r):
    return [(r.isinf(), extreme(n, r.sign(), True))]


def sat_pinf(n, x, r):
    return [(AND(r.isinf(), NOT(r.sign())), extreme(n, F, True))]


def sat_zero_argsign(n, x, r):
    return [(r.iszero(), extreme(n, x[0].sign(), False))]


def sat_exp(n, x, r):
    return sat_zero_pos(n, x, r) + sat_inf_pos(n, x, r)


def sat_pow(n, x, r):
    z = x[0].iszero()
    return [(AND(r.iszero(), z), BV(0, n)), (r.iszero(), extreme(n, r.sign(), False)),
            (AND(r.isinf(), z), NAR(n)), (r.isinf(), extreme(n, r.sign(), True))]


def result(c, e, fam, n, x, r, sat):
    """the takum a float result r stands for: encoded, with saturation instead of over-/underflow"""
    v = enc(c, e, fam, n, r)
    for cond, pat in reversed(sat(n, x, r) if sat else []):
        v = ITE(cond, pat, v)
    return v


def evals(c, e, fam, n, f, ts):
    """(working arguments, result) for every admissible evaluation: the type's working precision, extended
    precision, or extended precision rounded back to the working precision"""
    w = work(fam, n)
    xs = [dec(c, e, fam, n, t) for t in ts]
    out = []
    for fm in (("f80",) if w == "f80" else ("f64", "f80")):
        E = EV(c, e, fm)
        r = f(E, *[conv(e, x, fm) for x in xs])
        out.append((xs, r))
        if fm == "f80" and w == "f64":
            out.append((xs, conv(e, r, "f64")))
    return out


def elem(fn, fam, n, f, arity, sat=None, label="", known=None, what=None):
    def post(c, e, a, v):
        return [(what or "result is the encoding of the function's value at the decoded operand",
                 OR(*[v == result(c, e, fam, n, xs, r, sat) for xs, r in evals(c, e, fam, n, f, a)]))]
    names = "ab" if arity == 2 else "t"
    return Goal(ty(fam, n) + "_" + fn, label, lambda c, e: [bvar(x, n) for x in names], nopre, post, known)


def rec(g):
    """1/g(x)"""
    return lambda E, x: E.div(E.k(1), E.lib(g, x))


def atrec(g):
    """g(1/x)"""
    return lambda E, x: E.lib(g, E.div(E.k(1), x))


def lib(g):
    return lambda E, *x: E.lib(g, *x)


def pow10(E, x):
    return E.lib("pow", E.k(10), x)


EXPLOG = {
    "exp": (lib("exp"), sat_exp), "2_raised": (lib("exp2"), sat_exp), "10_raised": (pow10, sat_exp),
    "exp_minus_1": (lib("expm1"), sat_inf_pos),
    "2_raised_minus_1": (lambda E, x: E.sub(E.lib("exp2", x), E.k(1)), sat_inf_pos),
    "10_raised_minus_1": (lambda E, x: E.sub(pow10(E, x), E.k(1)), sat_inf_pos),
    "ln": (lib("log"), sat_pinf), "lb": (lib("log2"), sat_pinf), "lg": (lib("log10"), sat_pinf),
    "ln_1_plus": (lib("log1p"), sat_pinf),
    "lb_1_plus": (lambda E, x: E.mul(E.k(LB_E), E.lib("log1p", x)), sat_pinf),
    "lg_1_plus": (lambda E, x: E.mul(E.k(LG_E), E.lib("log1p", x)), sat_pinf),
}


def over_pi(f):
    return lambda E, *x: E.div(f(E, *x), E.k(PI))


def acot(E, x):
    a = E.lib("atan", E.div(E.k(1), x))
    return ite_fv(E, fp.lt(x, E.k(0)), E.add(a, E.k(PI)), a)


def acot_over_pi(E, x):
    a = E.div(E.lib("atan", E.div(E.k(1), x)), E.k(PI))
    return ite_fv(E, fp.lt(x, E.k(0)), E.add(a, E.k(1)), a)


def ite_fv(E, c, a, b):
    return fp.fite(c, a, b)


TRIG = {
    "sin": (lib("sin"), None), "cos": (lib("cos"), None), "tan": (lib("tan"), None),
    "csc": (rec("sin"), None), "sec": (rec("cos"), None), "cot": (rec("tan"), None),
    "arcsin": (lib("asin"), None), "arccos": (lib("acos"), None), "arctan": (lib("atan"), None),
    "arccsc": (atrec("asin"), None), "arcsec": (atrec("acos"), None), "arccot": (acot, None),
    "arcsin_over_pi": (over_pi(lib("asin")), None), "arccos_over_pi": (over_pi(lib("acos")), None),
    "arctan_over_pi": (over_pi(lib("atan")), None), "arccsc_over_pi": (over_pi(atrec("asin")), None),
    "arcsec_over_pi": (over_pi(atrec("acos")), None), "arccot_over_pi": (acot_over_pi, None),
}
TRIG2 = {"arctan2": lib("atan2"), "arctan2_over_pi": over_pi(lib("atan2"))}


def dbl(g):
    """g evaluated in double precision on 1/x"""
    def f(E, x):
        y = conv(E.ex, E.div(E.k(1), x), "f64")
        r = EV(E.c, E.ex, "f64").lib(g, y)
        return conv(E.ex, r, E.fmt)
    return f


HYP = {
    "sinh": (lib("sinh"), sat_inf_signed), "cosh": (lib("cosh"), sat_inf_pos), "tanh": (lib("tanh"), None),
    "csch": (rec("sinh"), sat_zero_argsign), "sech": (rec("cosh"), sat_zero_pos), "coth": (rec("tanh"), None),
    "arsinh": (lib("asinh"), sat_inf_signed), "arcosh": (lib("acosh"), sat_inf_pos), "artanh": (lib("atanh"), None),
    "arcsch": (atrec("asinh"), None), "arsech": (atrec("acosh"), None), "arcoth": (atrec("atanh"), None),
}


def table(tab):
    def gen(prog):
        for fam in FAMS:
            for n in NS:
                for fn, (f, sat) in tab.items():
                    yield elem(fn, fam, n, f, 1, sat)
    return gen


def P18(prog):
    yield from table(EXPLOG)(prog)


def P19(prog):
    yield from table(TRIG)(prog)
    for fam in FAMS:
        for n in NS:
            for fn, f in TRIG2.items():
                yield elem(fn, fam, n, f, 2)


def P20(prog):
    for fam in FAMS:
        for n in NS:
            for fn, (f, sat) in HYP.items():
                if fn not in ("arcoth", "arcsch"):
                    yield elem(fn, fam, n, f, 1, sat)
                    continue
                d = dbl({"arcoth": "atanh", "arcsch": "asinh"}[fn])
                if n < 64:
                    # double precision carries more digits than the type: admissible
                    def post(c, e, a, v, fam=fam, n=n, f=f, d=d):
                        ev = evals(c, e, fam, n, f, a) + evals(c, e, fam, n, d, a)
                        return [("result is the encoding of the function's value at the decoded operand",
                                 OR(*[v == result(c, e, fam, n, xs, r, None) for xs, r in ev]))]
                    yield Goal(ty(fam, n) + "_" + fn, "", lambda c, e, n=n: [bvar("t", n)], nopre, post)
                else:
                    def alt(c, e, a, v, fam=fam, n=n, d=d):
                        return [("result is the encoding of the function's value in double precision",
                                 OR(*[v == result(c, e, fam, n, xs, r, None)
                                      for xs, r in evals(c, e, fam, n, d, a)]))]
                    yield elem(fn, fam, n, f, 1, None, known=[("F1", alt)])


# =============================================================== P11 powers
def P11(prog):
    for fam in FAMS:
        for n in NS:
            yield elem("power", fam, n, lib("pow"), 2, sat_pow, "power")
            yield elem("hypotenuse", fam, n, lib("hypot"), 2, sat_inf_pos, "hypotenuse")

            def post(c, e, a, v, fam=fam, n=n):
                t, k = a
                z, zk = BV(0, n), BV(0, 64)
                bad = OR(t == NAR(n), AND(t == z, k <= zk))
                odd = z3.Extract(0, 0, k) == BV(1, 1)
                out = [("NaR, and 0 to a non-positive power, give NaR", Imp(bad, v == NAR(n))),
                       ("0 to a positive power is 0", Imp(AND(t == z, k > zk), v == z))]
                live = NOT(OR(bad, t == z))
                alts = []
                if not fam:
                    for f in ("f32", "f64", "f80"):
                        if not ORD(LFMT[n]) <= ORD(f) <= ORD(EFMT[n]):
                            continue
                        E = EV(c, e, f)
                        l = L(n, t)
                        q = E.mul(FV(f, fb=l.fb), e.cast("sitofp", k, Ty("i", 64), Ty(f), E.st, "spec", []))
                        alts.append(v == spec_call(c, e, "codec_takum%d_from_s_and_l" % n, AND(t < z, odd),
                                                   conv(e, q, EFMT[n])))
                if fam or n == 64:
                    fms = ("f80",)
                    for f in fms:
                        E = EV(c, e, f)
                        x = dec(c, e, fam, n, t, "f80")
                        r = E.lib("pow", x, e.cast("sitofp", k, Ty("i", 64), Ty(f), E.st, "spec", []))
                        alts.append(v == result(c, e, fam, n, [x], r, lambda n, x, r: [
                            (r.isinf(), extreme(n, r.sign(), True)),
                            (r.iszero(), extreme(n, AND(t < z, odd), False))]))
                out.append(("result is the takum of the power", Imp(live, OR(*alts))))
                return out
            yield Goal(ty(fam, n) + "_integer_power", "", lambda c, e, n=n: [bvar("t", n), bvar("k", 64)], nopre, post)
            if not fam:
                continue

            def post2(c, e, a, v, n=n):
                t, k = a
                z, zk = BV(0, n), BV(0, 64)
                even = z3.Extract(0, 0, k) == BV(0, 1)
                bad = OR(t == NAR(n), k == zk, AND(t < z, even), AND(t == z, k < zk))
                out = [("undefined roots are NaR", Imp(bad, v == NAR(n))),
                       ("the root of 0 is 0", Imp(AND(NOT(bad), t == z), v == z))]
                live = NOT(OR(bad, t == z))
                E = EV(c, e, "f80")
                x = dec(c, e, "_linear", n, t, "f80")
                m = E.lib("pow", E.lib("fabs", x),
                          E.div(E.k(1), e.cast("sitofp", k, Ty("i", 64), Ty("f80"), E.st, "spec", [])))
                r = fp.fite(t < z, E.neg(m), m)
                out.append(("result is the encoding of the root", Imp(live, v == result(
                    c, e, "_linear", n, [x], r, lambda n, x, r: [(r.iszero(), extreme(n, t < z, False))]))))
                return out
            yield Goal(ty(fam, n) + "_root", "", lambda c, e, n=n: [bvar("t", n), bvar("k", 64)], nopre, post2)




# =============================================================== P16 logarithmic takum <-> float
def P16(prog):
    for n in NS:
        for f, fmt in FN.items():
            def post(c, e, a, v, n=n, fmt=fmt):
                t = a[0]
                z = BV(0, n)
                out = [("NaR gives NaN, 0 gives 0", AND(Imp(t == NAR(n), v.isnan()), Imp(t == z, v.iszero())))]
                alts = []
                for p in ("f32", "f64", "f80"):
                    if ORD(p) < ORD(fmt):
                        continue
                    E = EV(c, e, p)
                    r = E.lib("pow", E.k(SQRTE), conv(e, L(n, t), p))
                    r = fp.fite(t < z, E.neg(r), r)
                    alts.append(fp.same(v, conv(e, r, fmt)))
                out.append(("value is (-1)^S sqrt(e)^l in at least the target's precision",
                            Imp(NOT(OR(t == z, t == NAR(n))), OR(*alts))))
                return out
            yield Goal("takum%d_to_%s" % (n, f), "", lambda c, e, n=n: [bvar("t", n)], nopre, post)

            def post2(c, e, a, v, n=n, fmt=fmt):
                x = a[0]
                out = [("NaN and infinities give NaR, zeros give 0",
                        AND(Imp(NOT(x.fin()), v == NAR(n)), Imp(x.iszero(), v == BV(0, n))))]
                live = AND(x.fin(), NOT(x.iszero()))
                alts = []
                for p in ("f32", "f64", "f80"):
                    if ORD(p) < max(ORD(fmt), ORD("f80" if n == 64 else "f64")):
                        continue
                    E = EV(c, e, p)
                    l = E.mul(E.k(2), E.lib("log", E.lib("fabs", conv(e, x, p))))
                    if ORD(EFMT[n]) < ORD(p):
                        continue
                    alts.append(v == spec_call(c, e, "codec_takum%d_from_s_and_l" % n, x.sign(), conv(e, l, EFMT[n])))
                out.append(("result is the takum nearest to l = 2 log|x|", Imp(live, OR(*alts))))
                return out
            yield Goal("takum%d_from_%s" % (n, f), "", lambda c, e, fmt=fmt: [fp.var("x", fmt)[0]], nopre, post2)


# =============================================================== P17 conversions between the families
def P17(prog):
    for fa, fb in (("", "_linear"), ("_linear", "")):
        for n in NS:
            for m in NS:
                def post(c, e, a, v, fa=fa, fb=fb, n=n, m=m):
                    alts = []
                    for f in (("f80",) if 64 in (n, m) else ("f64", "f80")):
                        alts.append(v == enc(c, e, fb, m, dec(c, e, fa, n, a[0], f)))
                    return [("result is the encoding of the decoded value", OR(*alts))]
                yield Goal("%s_from_%s" % (ty(fb, m), ty(fa, n)), "", lambda c, e, n=n: [bvar("t", n)], nopre, post)


# =============================================================== P24 defined behaviour
def P24(prog):
    from .cimpl import tyname
    for name, f in sorted(prog.ext.items()):
        if not name.startswith("takum"):
            continue
        ps = [tyname(t) for t, _ in f.params]

        def args(c, e, ps=ps):
            out = []
            for j, p in enumerate(ps):
                out.append(fp.var("x%d" % j, p)[0] if p[0] == "f" else bvar("x%d" % j, int(p[1:])))
            return out
        yield Goal(name, "defined behaviour", args, nopre, lambda c, e, a, v: [])


# =============================================================== P21 multiples of pi
def quarter(E, x):
    """(integer, odd integer, sin(pi x) = 1, sin(pi x) = -1) decided exactly on a float"""
    r = E.lib("fmod", x, E.k(2))

    def is_(*vs):
        return OR(*[fp.eq(r, E.k(Fraction(v))) for v in vs])
    return is_(0, 1, -1), is_(1, -1), is_(Fraction(1, 2), Fraction(-3, 2)), is_(Fraction(-1, 2), Fraction(3, 2))


def pi_exact(g, n, q):
    i, o, up, dn = q
    one_, mone, z, nar = BV(ONE(n), n), BV(-ONE(n), n), BV(0, n), NAR(n)
    return {"sin": [(i, z), (up, one_), (dn, mone)],
            "cos": [(o, mone), (i, one_), (OR(up, dn), z)],
            "tan": [(i, z), (OR(up, dn), nar)],
            "cot": [(i, nar), (OR(up, dn), z)],
            "sec": [(o, mone), (i, one_), (OR(up, dn), nar)],
            "csc": [(i, nar), (up, one_), (dn, mone)]}[g]


def P21(prog):
    fs = {"sin": lib("sin"), "cos": lib("cos"), "tan": lib("tan"), "cot": rec("tan"), "sec": rec("cos"),
          "csc": rec("sin")}
    for fam in FAMS:
        for n in NS:
            for g, f in fs.items():
                def mk(known, fam=fam, n=n, g=g, f=f):
                    def post(c, e, a, v):
                        x = dec(c, e, fam, n, a[0])
                        E = EV(c, e, "f80")
                        y = conv(e, x, "f80")
                        r = f(E, E.mul(E.k(PI), y))
                        gen = [v == enc(c, e, fam, n, r)]
                        if work(fam, n) == "f64":
                            gen.append(v == enc(c, e, fam, n, conv(e, r, "f64")))
                        gen = OR(*gen)
                        cases = pi_exact(g, n, quarter(E, y))
                        spec = AND(*[Imp(AND(cd, *[NOT(d) for d, _ in cases[:j]]),
                                         OR(v == p, AND(y.sign(), gen)) if known else v == p)
                                     for j, (cd, p) in enumerate(cases)])
                        other = NOT(OR(y.isnan(), *[cd for cd, _ in cases]))
                        return [("exact values and poles at multiples of a half", Imp(NOT(y.isnan()), spec)),
                                ("elsewhere the encoding of the function at pi x", Imp(other, gen)),
                                ("NaR gives NaR", Imp(y.isnan(), v == NAR(n)))]
                    return post
                yield Goal("%s_%s_pi_times" % (ty(fam, n), g), "", lambda c, e, n=n: [bvar("t", n)], nopre, mk(False),
                           [("F3", mk(True))])


# =============================================================== P14 results are zero only where the value is
NEVER = ["exp", "2_raised", "10_raised", "sech", "csch", "cosh", "coth", "inversion", "sec", "csc", "cot", "arccot",
         "arccsc", "arcoth", "arcsch"]
ATZERO = ["square_root", "absolute", "sign", "sinh", "arsinh", "tanh", "arctan", "exp_minus_1", "ln_1_plus",
          "lb_1_plus", "lg_1_plus", "arcsin", "artanh", "sin", "tan", "arctan_over_pi", "arcsin_over_pi"]
ATONE = ["ln", "lb", "lg", "arcosh"]


def P14(prog):
    for fam in FAMS:
        for n in NS:
            z, o = BV(0, n), BV(ONE(n), n)
            A = lambda c, e, n=n: [bvar("t", n)]
            for fs, cond, txt in ((NEVER, lambda c, e, a: F, "the result is never zero"),
                                  (ATZERO, lambda c, e, a, z=z: a[0] == z, "the result is zero only for zero"),
                                  (ATONE, lambda c, e, a, o=o: a[0] == o, "the result is zero only for one")):
                for fn in fs:
                    yield Goal(ty(fam, n) + "_" + fn, "", A, nopre,
                               one(txt, lambda c, e, a, v, z=z, cond=cond: Imp(v == z, cond(c, e, a))))
            for fn in ("2_raised_minus_1", "10_raised_minus_1"):
                def alt(c, e, a, v, fam=fam, n=n, z=z):
                    x = conv(e, dec(c, e, fam, n, a[0]), "f80")
                    s = Fraction(1, 2 ** 58)
                    small = AND(fp.le(x, fp.cst(s, "f80")), fp.le(fp.cst(-s, "f80"), x))
                    return [("the result is zero only for zero", Imp(v == z, small))]
                yield Goal(ty(fam, n) + "_" + fn, "", A, nopre,
                           one("the result is zero only for zero",
                               lambda c, e, a, v, z=z: Imp(v == z, a[0] == z)), [("F4", alt)])
            B = lambda c, e, n=n: [bvar("a", n), bvar("b", n)]
            for fn, cond in (("multiplication", lambda a, b, z=z: OR(a == z, b == z)),
                             ("division", lambda a, b, z=z: a == z), ("hypotenuse", lambda a, b, z=z: AND(a == z, b == z)),
                             ("power", lambda a, b, z=z: a == z)):
                yield Goal(ty(fam, n) + "_" + fn, "", B, nopre,
                           one("the result is zero only for zero operands",
                               lambda c, e, a, v, z=z, cond=cond: Imp(v == z, cond(a[0], a[1]))))
            for fn in ("integer_power", "root"):
                yield Goal(ty(fam, n) + "_" + fn, "", lambda c, e, n=n: [bvar("t", n), bvar("k", 64)], nopre,
                           one("the result is zero only for zero",
                               lambda c, e, a, v, z=z: Imp(v == z, a[0] == z)))


# =============================================================== P04 round trips
def P04(prog):
    for fam in FAMS:
        for n in NS:
            for m in NS:
                if m > n:
                    yield Goal("%s_from_%s" % (ty(fam, m), ty(fam, n)), "narrowed again",
                               lambda c, e, n=n: [bvar("t", n)], nopre,
                               one("widening and narrowing gives the takum back",
                                   lambda c, e, a, v, fam=fam, n=n, m=m: spec_call(
                                       c, e, "%s_from_%s" % (ty(fam, n), ty(fam, m)), v) == a[0]))
    for n in NS:
        for f, fmt in FN.items():
            if fmt == "f80" or (fmt == "f64" and n <= 32):
                # 64 bits: the negative half follows from the two negation laws below
                for case in (tsplit(n) if n < 64 else list(range(16)) + [(16 << 59, 64)]):
                    yield Goal("takum_linear%d_to_%s" % (n, f), "header %s" % (case,),
                               lambda c, e, n=n, case=case: [tcase(n, case)], nopre,
                               one("converting to the float type and back gives the takum back",
                                   lambda c, e, a, v, n=n, f=f: spec_call(
                                       c, e, "takum_linear%d_from_%s" % (n, f), v) == a[0]))
    yield from decode_negation("takum_linear64_to_extended_float", 64)
    yield from negated_floats((64,), ("extended_float",))


def decode_negation(nm, n, fine=False):
    def post(c, e, a, v):
        w = spec_call(c, e, nm, -a[0])
        live = NOT(OR(a[0] == NAR(n), a[0] == BV(0, n)))
        return [("the negated takum has the negated value", Imp(live, fp.same(w, e.fneg(v))))]
    for case in (tsplit_fine(n) if fine else tsplit(n)):
        yield Goal(nm, "negation, header %s" % (case,), lambda c, e, case=case: [tcase(n, case)], nopre, post)


# =============================================================== P05 order and negation
def P05(prog):
    for fam in FAMS:
        for n in NS:
            for f, fmt in FN.items():
                nm = "%s_to_%s" % (ty(fam, n), f)

                yield from decode_negation(nm, n, n == 64 and not fam)
                if not fam:
                    continue
                exact = fmt == "f80" or (fmt == "f64" and n <= 32)

                def post2(c, e, a, v, nm=nm, n=n, exact=exact):
                    t = a[0]
                    w = spec_call(c, e, nm, t + BV(1, n))
                    live = NOT(OR(t == NAR(n), t == NAR(n) - BV(1, n)))
                    return [("the next takum has the next larger value",
                             Imp(live, fp.lt(v, w) if exact else fp.le(v, w)))]
                for case in tsplit(n):
                    yield Goal(nm, "order, header %s" % (case,), lambda c, e, n=n, case=case: [tcase(n, case)], nopre,
                               post2)
    yield from negated_floats()


NEGK = {(n, k) for n in NS for k in (23, 24, 52, 53, 63, 64)}


def lemma_neg():
    """negated coordinate: encode(1, l) = -encode(0, l) for l on the grid"""
    from .specs import Lemma
    for n, K in sorted(NEGK):
        for D in (0, 1):
            for r in range(8):
                def formula(c, e, n=n, K=K, D=D, r=r):
                    b = BV((1 << r) - 1 if D else -(1 << (r + 1)) + 1, 10)
                    if r:
                        b = b + zext(z3.BitVec("C", r), 10)
                    I = z3.Concat(z3.simplify(b), z3.BitVec("M", K))
                    return tspec.encode_fixed(n, T, I, K) == -tspec.encode_fixed(n, F, I, K)
                yield Lemma("negated coordinate, %d bits, scale %d, header %d/%d" % (n, K, D, r), formula)

        def rest(c, e, n=n, K=K):
            I = z3.BitVec("I", K + 20)
            far = OR(I >= BV(255 << K, K + 20), I < BV(-255 << K, K + 20))
            return Imp(far, tspec.encode_fixed(n, T, I, K) == -tspec.encode_fixed(n, F, I, K))
        yield Lemma("negated coordinate, %d bits, scale %d, beyond the range" % (n, K), rest)


def negated_floats(ns=NS, fs=tuple(FN)):
    yield from lemma_neg()
    for n in ns:
        for f in fs:
            fmt = FN[f]
            nm = "takum_linear%d_from_%s" % (n, f)
            yield Goal(nm, "negation", lambda c, e, fmt=fmt: [fp.var("x", fmt)[0]], nopre,
                       one("the negated float gives the negated takum",
                           lambda c, e, a, v, nm=nm: spec_call(c, e, nm, e.fneg(a[0])) == -v))


# =============================================================== P23 algebraic laws
def P23(prog):
    for fam in FAMS:
        for n in NS:
            T_ = ty(fam, n)
            o, z = BV(ONE(n), n), BV(0, n)
            A1 = lambda c, e, n=n: [bvar("a", n)]
            A2 = lambda c, e, n=n: [bvar("a", n), bvar("b", n)]
            for op in ("addition", "multiplication"):
                yield Goal("%s_%s" % (T_, op), "commutes", A2, nopre,
                           one("operands can be exchanged", lambda c, e, a, v, nm="%s_%s" % (T_, op):
                               v == spec_call(c, e, nm, a[1], a[0])))
            if fam:
                continue
            for case in tsplit(n):
                for op in ("multiplication", "division"):
                    yield Goal("%s_%s" % (T_, op), "by one, header %s" % (case,),
                               lambda c, e, n=n, case=case, o=o: [tcase(n, case), o],
                               lambda c, e, a, o=o: [a[1] == o],
                               one("one is neutral", lambda c, e, a, v: v == a[0]))
                yield Goal("%s_division" % T_, "by itself, header %s" % (case,),
                           lambda c, e, n=n, case=case: (lambda t: [t, t])(tcase(n, case)),
                           lambda c, e, a, n=n: [a[0] == a[1], a[0] != BV(0, n), a[0] != NAR(n)],
                           one("x / x is one", lambda c, e, a, v, o=o: v == o))
