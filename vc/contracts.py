"""Contracts of the codec and conversion layer.

Each contract has
  apply(ex, args, st, where)   what a caller learns (an application with facts
                               and, where the contract is exact, a definition)
  cases(n) / build             the obligations that establish it for the real
                               function body
"""
import z3
from . import fp, tspec
from .fp import AND, OR, NOT, XOR, ITE, BV, T, F, FV, FB, FMT, sext, zext, trunc, shrink, isnum
from .sym import LIBM, State
from . import libm as _libm
from .ir import Ty

NS = (8, 16, 32, 64)
# float formats of the codec's logarithm, as the code under verification declares them (see adapt())
LFMT = {8: "f32", 16: "f32", 32: "f64", 64: "f80"}      # result of codec_takumN_to_l
EFMT = {8: "f80", 16: "f80", 32: "f80", 64: "f80"}      # parameter of codec_takumN_from_s_and_l
FN = {"float32": "f32", "float64": "f64", "extended_float": "f80"}
GRID = {8: 64, 16: 64, 32: 64, 64: 64}  # fraction bits within which the encoder's c + m is exact
Imp = z3.Implies


def ONE(n):
    return 1 << (n - 2)


def b1(s):
    return ITE(s, BV(1, 1), BV(0, 1)) if z3.is_bool(s) else s


# ------------------------------------------------------------ codec_takumN_to_l
def L(n, t, fmt=None):
    return tspec.l_fv(t, fmt or LFMT[n])


# ------------------------------------------------------ codec_takumN_from_s_and_l
LEVELS = {"opaque": -1, "special": 0, "facts": 1, "exact": 2}


def pick(fs, level):
    return [f for l, f in fs if LEVELS[l] <= LEVELS[level]]


def ENC_FACTS(n):
    def facts(a, r):
        s, l = a
        sb = s == BV(1, 1)
        nar, z = r == tspec.NAR(n), r == BV(0, n)
        ni = OR(l.isnan(), AND(l.isinf(), NOT(l.sign())))
        zi = AND(l.isinf(), l.sign(), NOT(l.isnan()))
        return [("special", Imp(ni, nar)), ("special", Imp(zi, z)),
                ("special", Imp(l.iszero(), r == ITE(sb, BV(-ONE(n), n), BV(ONE(n), n)))),
                ("special", Imp(huge(l), r == ITE(l.sign(), extreme(n, sb, False), extreme(n, sb, True)))),
                ("facts", nar == ni), ("facts", z == zi),
                ("facts", Imp(l.fin(), (r < BV(0, n)) == sb))]
    return facts


def huge(l, e=8):
    """finite and at least 2^e in magnitude"""
    eb, sb = FMT[l.fmt]
    return AND(l.fin(), z3.UGE(l.bits[1], BV((1 << (eb - 1)) - 1 + e, eb)))


def extreme(n, neg, big):
    """the pattern of largest (smallest non-zero) magnitude of a sign"""
    m = (1 << (n - 1)) - 1 if big else 1
    return ITE(neg, BV(-m, n), BV(m, n))


def minute(x):
    """non-zero and at most 2^-256 in magnitude"""
    eb, sb = FMT[x.fmt]
    bias = (1 << (eb - 1)) - 1
    if bias < 256:
        return F
    return AND(NOT(x.iszero()), z3.ULT(x.bits[1], BV(bias - 256, eb)))


def floorshift(I, k, g):
    """floor(I * 2^(g-k)) as an integer with g fraction bits, and an inexact flag"""
    if k <= g:
        return fp.shl_c(I, g - k), F
    d = k - g
    if isnum(I):
        v = I.as_signed_long()
        q = v >> d
        return BV(q, abs(q).bit_length() + 1), z3.BoolVal(v != q << d)
    if d >= I.size():
        return ITE(I < BV(0, I.size()), BV(-1, 2), BV(0, 2)), I != BV(0, I.size())
    return z3.Extract(I.size() - 1, d, I), z3.Extract(d - 1, 0, I) != BV(0, d)


def enc_rel(n, s, l, r):
    """r is an admissible encoding of the finite fixed-point l (FB): the exact one when l lies on the
    2^-GRID grid, otherwise that of one of the two neighbouring grid points"""
    g = GRID[n]
    b = l.fb
    if b.k <= g:
        return r == tspec.encode_fixed(n, s, b.I, b.k)
    q, inex = floorshift(b.I, b.k, g)
    lo = tspec.encode_fixed(n, s, q, g)
    q1 = sext(q, q.size() + 1) + BV(1, q.size() + 1)
    hi = tspec.encode_fixed(n, s, q1, g)
    return OR(r == lo, AND(inex, r == hi))


def extremes(l, n):
    """[(condition, fixed-point value with the same encoding)] for a generic l"""
    eb, sb = FMT[l.fmt]
    bias = (1 << (eb - 1)) - 1
    e = l.bits[1]
    g = l.sign()
    top7 = z3.Extract(sb - 2, sb - 8, l.bits[2]) == BV(127, 7)
    return [(AND(l.fin(), OR(z3.UGE(e, BV(bias + 8, eb)), AND(e == BV(bias + 7, eb), top7))),       # abs(l) >= 255
             FB(F, F, F, ITE(g, BV(-255 << 64, 76), BV(255 << 64, 76)), 64)),
            (z3.ULT(e, BV(bias - 66, eb)),
             FB(F, F, F, ITE(l.iszero(), BV(0, 2), ITE(g, BV(-1, 2), BV(1, 2))), GRID[n] + 1))]


def ENC_DEF(n):
    def define(a, r):
        s, l = a
        if l.fb is None:
            out = []
            for c, b in extremes(l, n):
                out.append(Imp(c, enc_rel(n, s == BV(1, 1), FV(l.fmt, fb=b), r)))
            return AND(*out)
        return Imp(AND(NOT(l.fb.nan), NOT(l.fb.inf)), enc_rel(n, s == BV(1, 1), l, r))
    return define


def lv(facts, level):
    return lambda a, r: pick(facts(a, r), level)


# set by checks that also discharge the lemma `negated coordinate` (specs2.lemma_neg)
ENCNEG = set()


def ENCPAIRS(n):
    """the two signs of a coordinate that lies on the working grid have opposite patterns (lemma `negated
    coordinate`: it follows from the exact contract)"""
    def f(x, y):
        (s, l), (s2, l2) = x.args, y.args
        if l.fb is None or l2.fb is None or l.fb.k != l2.fb.k or (n, l.fb.k) not in ENCNEG or l.fb.k > GRID[n]:
            return []
        a, b = l.fb, l2.fb
        w = max(a.I.size(), b.I.size())
        return [Imp(AND(s != s2, l.fin(), l2.fin(), sext(a.I, w) == sext(b.I, w)), x.res == -y.res)]
    return f


def ENC(ctx, n, s, l, level="exact"):
    return ctx.app("ENC%d" % n, [z3.simplify(b1(s)), l], n, "contract", lv(ENC_FACTS(n), level),
                   ENC_DEF(n) if level == "exact" else None,
                   ENCPAIRS(n) if level == "exact" and ENCNEG else None)


# ------------------------------------------------------ linear decode / encode
def DEC_COMMON(n, fmt):
    def facts(a, r):
        t = a[0]
        nar, z = t == tspec.NAR(n), t == BV(0, n)
        out = [("special", Imp(nar, r.isnan())), ("special", Imp(z, AND(r.iszero(), NOT(r.sign())))),
               ("facts", r.isnan() == nar), ("facts", Imp(NOT(nar), r.sign() == (t < BV(0, n))))]
        if fmt != "f32":
            out += [("facts", r.iszero() == z), ("facts", NOT(r.isinf())),
                    ("facts", Imp(NOT(nar), ordone(n, t, r, fmt)))]
            if n <= 32:
                g, o = 2.0 ** -29, BV(ONE(n), n)
                up, dn = fp.cst(1 + g, fmt), fp.cst(1 - g, fmt)
                mup, mdn = fp.cst(-1 - g, fmt), fp.cst(-1 + g, fmt)
                out += [("facts", AND(Imp(t > o, fp.le(up, r)), Imp(AND(t < o, NOT(nar)), fp.le(r, dn)),
                                      Imp(AND(t < -o, NOT(nar)), fp.le(r, mup)), Imp(t > -o, fp.le(mdn, r))))]
            eb, sb = FMT[fmt]
            bias = (1 << (eb - 1)) - 1
            e = r.bits[1]
            out += [("facts", Imp(NOT(OR(nar, z)), AND(z3.UGE(e, BV(bias - 258, eb)), z3.ULE(e, BV(bias + 258, eb)))))]
        return out
    return facts


def LDEC_FACTS(n, fmt):
    return DEC_COMMON(n, fmt)


def LDEC_DEF(n, fmt):
    return lambda a, r: fp.same(r, tspec.lin_value(a[0], fmt))


def LDEC(ctx, n, fmt, t, level="exact"):
    if ctx.impl is not None:
        r = tspec.lin_value(t, fmt)
        return fp.const(z3.simplify(r.ieee()).as_long(), fmt)
    return ctx.app("LDEC%d_%s" % (n, fmt), [z3.simplify(t)], fmt, "contract", lv(LDEC_FACTS(n, fmt), level),
                   LDEC_DEF(n, fmt) if level == "exact" else None)


def lin_l(x):
    """the linear-takum coordinate of a float x = (-1)^s (1+g) 2^h: (-1)^s * (c+m) with
    c + m = (-1)^s (h + g), i.e. l = h + g; as (FB integer part, k)"""
    s, e, f = x.bits
    eb, sb = FMT[x.fmt]
    bias = (1 << (eb - 1)) - 1
    w = eb + 7
    sub = e == BV(0, eb)
    m, lz = fp.clz_norm(f)
    h = ITE(sub, BV(-bias, w) - (sext(lz, w) if lz.size() <= w else trunc(lz, w)), zext(e, w) - BV(bias, w))
    g = ITE(sub, z3.Concat(z3.Extract(sb - 3, 0, m), BV(0, 1)), f)
    return z3.Concat(h, BV(0, sb - 1)) + zext(g, w + sb - 1), sb - 1


def one_of(x):
    return fp.eq(x, fp.cst(1, x.fmt)), fp.eq(x, fp.cst(-1, x.fmt))


def LENC_FACTS(n):
    def facts(a, r):
        x = a[0]
        p1, m1 = one_of(x)
        live = AND(x.fin(), NOT(x.iszero()))
        nar, z = r == tspec.NAR(n), r == BV(0, n)
        return [("special", Imp(NOT(x.fin()), nar)), ("special", Imp(x.iszero(), z)),
                ("special", Imp(p1, r == BV(ONE(n), n))), ("special", Imp(m1, r == BV(-ONE(n), n))),
                ("special", Imp(huge(x, 256), r == extreme(n, x.sign(), True))) if x.fmt != "f32" else ("special", T),
                ("special", Imp(minute(x), r == extreme(n, x.sign(), False))),
                ("facts", nar == NOT(x.fin())), ("facts", z == x.iszero()),
                ("facts", Imp(live, (r < BV(0, n)) == x.sign()))]
    return facts


def lenc_coord(n, x):
    """(coordinate FV in the format the nearest-takum rounding starts from)"""
    I, k = lin_l(x)
    I = shrink(I)
    if x.fmt == "f80":
        I = fp.rnd(I, 64, k)
    return FV("f80", fb=FB(NOT(x.fin()), x.iszero(), T, I, k))


def LENC(ctx, n, x, level="facts"):
    return ctx.app("LENC%d_%s" % (n, x.fmt), [x], n, "contract", lv(LENC_FACTS(n), level), None)


# -------------------------------------------------- logarithmic decode / encode
def DEC(ctx, n, fmt, t, level="facts"):
    return ctx.app("DEC%d_%s" % (n, fmt), [z3.simplify(t)], fmt, "contract", lv(DEC_COMMON(n, fmt), level), None)


def strict(n, fmt):
    """the format separates the type's neighbours of one from one"""
    return fmt == "f80" or (fmt == "f64" and n <= 32) or n <= 16


def ordone(n, t, r, fmt):
    """the decoded value is on the same side of +-1 as the pattern (weakly where the format is too short)"""
    one, mone = fp.cst(1, fmt), fp.cst(-1, fmt)
    o = BV(ONE(n), n)
    if strict(n, fmt):
        return AND((t > o) == fp.lt(one, r), (t == o) == fp.eq(r, one), (t < -o) == fp.lt(r, mone),
                   (t == -o) == fp.eq(r, mone))
    return AND(Imp(t >= o, fp.le(one, r)), Imp(t <= o, fp.le(r, one)),
               Imp(t >= -o, fp.le(mone, r)), Imp(t <= -o, fp.le(r, mone)))


def ENCF(ctx, n, x, level="facts"):
    return ctx.app("ENCF%d_%s" % (n, x.fmt), [x], n, "contract", lv(LENC_FACTS(n), level), None)


# ------------------------------------------------------------- contract classes
def spec_call(ctx, ex, name, *args):
    """value of a library function inside a specification"""
    st = State(T, {}, {})
    if ctx.impl is not None:
        r = ctx.impl.call(name, [z3.simplify(a.ieee() if isinstance(a, FV) else b1(a)).as_long() for a in args])
        rt = ctx.impl.sig[name][1]
        return fp.const(r, rt) if rt[0] == "f" else BV(r, int(rt[1:]))
    con = ctx.contracts.get(name)
    if con is not None:
        ctx.called[name] = ctx.called.get(name, 0) + 1
        return con(ex, list(args), st, "spec")
    f = ctx.prog.get(name)
    v, _, _ = ex.run(f, list(args), T, {})
    return v


def tsplit(n):
    return list(range(32)) if n > 8 else [None]


def tcase(n, c, nm="t"):
    if c is None:
        return z3.BitVec(nm, n)
    if isinstance(c, tuple):        # (leading bits, how many), or a single pattern
        v, w = c
        return BV(v, n) if w == n else z3.Concat(BV(v, w), z3.BitVec(nm, n - w))
    return z3.Concat(BV(c, 5), z3.BitVec(nm, n - 5))


def tsplit_fine(n):
    """headers, with the ones containing 0 and NaR split by their first set bit"""
    if n == 8:
        return tsplit(n)
    out = [h for h in range(32) if h not in (0, 16)]
    for h in (0, 16):
        for w in range(6, n + 1):
            out.append((h << (w - 5) | 1, w))
        out.append((h << (n - 5), n))
    return out


class Contract:
    """kind: to_l, from_l, ldec, lenc, dec, encf"""

    def __init__(self, name, kind, n, fmt, rank):
        self.name, self.kind, self.n, self.fmt, self.rank = name, kind, n, fmt, rank
        ti = "i%d" % n
        self.sig = {"to_l": ([ti], fmt), "from_l": (["i1", fmt], ti), "ldec": ([ti], fmt), "dec": ([ti], fmt),
                    "lenc": ([fmt], ti), "encf": ([fmt], ti)}[kind]

    def matches(self, fn):
        from .cimpl import tyname
        return fn is not None and [tyname(t) for t, _ in fn.params] == self.sig[0] and tyname(fn.ret) == self.sig[1]

    def apply(self, ex, a, level):
        c, n = ex.c, self.n
        if self.kind == "to_l":
            return L(n, a[0])
        if self.kind == "from_l":
            return ENC(c, n, a[0], a[1], level)
        if self.kind == "ldec":
            return LDEC(c, n, self.fmt, a[0], level)
        if self.kind == "dec":
            return DEC(c, n, self.fmt, a[0], level)
        if self.kind == "lenc":
            return LENC(c, n, a[0], level)
        return ENCF(c, n, a[0], level)

    def facts(self, a, r):
        n = self.n
        f = {"from_l": lambda: ENC_FACTS(n), "ldec": lambda: LDEC_FACTS(n, self.fmt),
             "dec": lambda: DEC_COMMON(n, self.fmt), "lenc": lambda: LENC_FACTS(n),
             "encf": lambda: LENC_FACTS(n)}.get(self.kind)
        if self.kind == "from_l":
            a = (b1(a[0]), a[1])
        return f()(a, r) if f else []

    def cases(self, level):
        n = self.n
        if level == "special" and self.kind in ("ldec", "dec"):
            return ["nar", "zero"]
        if self.kind == "to_l":
            return tsplit(n)
        if self.kind == "from_l":
            return [("special",), ("zero",), ("big",)] if level == "special" else enc_cases(n)
        if self.kind in ("ldec", "dec"):
            return tsplit(n)
        return [None]

    def build(self, case, level):
        n = self.n

        def build(ctx, ex):
            ass, exact = [], None
            if self.kind == "from_l":
                s, l, ass, b = enc_arg(n, case)
                args = [s, l]
                if b is not None and level == "exact":
                    exact = lambda v: enc_rel(n, s, FV(l.fmt, fb=b), v)
            elif self.kind in ("to_l", "ldec", "dec"):
                args = [BV({"nar": 1 << (n - 1), "zero": 0}[case], n) if isinstance(case, str) else tcase(n, case)]
                if self.kind == "to_l":
                    exact = lambda v: fp.same(v, L(n, args[0]))
                if self.kind == "ldec" and level == "exact":
                    exact = lambda v: LDEC_DEF(n, self.fmt)(args, v)
            else:
                args = [fp.var("x", self.fmt)[0]]

            def post(a, v, ctx, ex):
                fs = pick(self.facts(a, v), level)
                out = [("facts", AND(*fs))] if fs else []
                if exact is not None:
                    out.append(("exact", exact(v)))
                return out
            return args, ass, post
        return build


def all_contracts():
    out = {}

    def add(*a):
        c = Contract(*a)
        out[c.name] = c
    for n in NS:
        add("codec_takum%d_to_l" % n, "to_l", n, LFMT[n], 0)
        add("codec_takum%d_from_s_and_l" % n, "from_l", n, EFMT[n], 2 if n == 8 else 1)
        for nm, fm in FN.items():
            add("takum_linear%d_to_%s" % (n, nm), "ldec", n, fm, 3)
            add("takum_linear%d_from_%s" % (n, nm), "lenc", n, fm, 3)
            add("takum%d_to_%s" % (n, nm), "dec", n, fm, 3)
            add("takum%d_from_%s" % (n, nm), "encf", n, fm, 3)
    return out


CONTRACTS = all_contracts()


def adapt(prog):
    """the contracts are stated for whatever float format the codec's own interface uses"""
    from .cimpl import tyname
    for n in NS:
        f, g = prog.get("codec_takum%d_to_l" % n), prog.get("codec_takum%d_from_s_and_l" % n)
        if f is not None and tyname(f.ret) in FMT:
            LFMT[n] = tyname(f.ret)
        if g is not None and len(g.params) == 2 and tyname(g.params[1][0]) in FMT:
            EFMT[n] = tyname(g.params[1][0])
            GRID[n] = 64 if n == 8 else max(53, FMT[EFMT[n]][1])
    CONTRACTS.clear()
    CONTRACTS.update(all_contracts())


def table(levels, prog=None, rank=9, exclude=()):
    """caller's view: function name -> apply(ex, args, st, where).  levels: kind -> level"""
    t = {}
    for c in CONTRACTS.values():
        lvl = levels.get(c.kind)
        if lvl is None or c.rank >= rank or c.name in exclude:
            continue
        if prog is not None and not c.matches(prog.get(c.name)):
            continue
        t[c.name] = lambda ex, a, st, w, c=c, lvl=lvl: c.apply(ex, a, lvl)
    return t


# ------------------------------------------------ obligations of the encoder
def enc_cases(n):
    out = [("reg", D, r, s) for D in (0, 1) for r in range(8) for s in (0, 1)]
    out += [("fine", D, s) for D in (0, 1) for s in (0, 1)]
    out += [("special",), ("big",), ("tiny",), ("cover",)]
    return out


def cover_lemma(n):
    """the cases of enc_cases cover every (s, l) of the encoder's format, and the representatives that stand for
    very large and very small l have the same admissible encodings as what they stand for"""
    def formula(ctx, ex):
        fmt = EFMT[n]
        eb, sb = FMT[fmt]
        bias = (1 << (eb - 1)) - 1
        l = fp.var("l", fmt)[0]
        g, e, f = l.bits
        big, tiny = [c for c, _ in extremes(l, n)]
        K = sb + 66
        sh = e - BV(bias - 67, eb)
        w = K + 11
        X = zext(z3.Concat(BV(1, 1), f), w)
        X = X << (trunc(sh, w) if eb >= w else zext(sh, w))
        alts = []
        for case in enc_cases(n):
            if case[0] not in ("reg", "fine"):
                continue
            D, s = case[1], case[-1]
            v = ITE(g == z3.BoolVal(bool(s)), X, -X)
            c, m = z3.Extract(v.size() - 1, K, v), z3.Extract(K - 1, 0, v)
            if case[0] == "fine":
                alts.append((s, c == BV(0 if D else -1, c.size())))
                continue
            r = case[2]
            k = GRID[n] if r == 0 else sb - r
            b0 = (1 << r) - 1 if D else -(1 << (r + 1)) + 1
            cond = AND(c >= BV(b0, c.size()), c < BV(b0 + (1 << r), c.size()))
            if k < K:
                cond = AND(cond, z3.Extract(K - k - 1, 0, m) == BV(0, K - k))
            alts.append((s, cond))
        mid = AND(l.fin(), NOT(big), NOT(tiny))
        out = [Imp(mid, AND(z3.UGE(e, BV(bias - 67, eb)), z3.ULE(e, BV(bias + 8, eb)))),
               Imp(mid, OR(*[c for s, c in alts if s == 0])), Imp(mid, OR(*[c for s, c in alts if s == 1]))]
        # the representatives
        s, r, G = z3.Bool("s"), z3.BitVec("r", n), GRID[n]
        Y = z3.BitVec("Y", G + 14)

        def rel(I, k):
            return enc_rel(n, s, FV(fmt, fb=FB(F, F, F, I, k)), r)
        for neg in (0, 1):
            far = Y <= BV(-255 << G, G + 14) if neg else Y >= BV(255 << G, G + 14)
            out.append(Imp(far, rel(Y, G) == rel(BV((-255 if neg else 255) << 64, 76), 64)))
            Z = z3.BitVec("Z", 66)
            small = AND(Z < BV(0, 66), Z > BV(-1 << 64, 66)) if neg else AND(Z > BV(0, 66), Z < BV(1 << 64, 66))
            out.append(Imp(small, rel(Z, G + 66) == rel(BV(-1 if neg else 1, 2), G + 1)))
        return AND(*out)
    return formula


def enc_arg(n, case):
    """(s, l, assumptions, spec value FB or None) for one case of the encoder's domain"""
    fmt = EFMT[n]
    eb, sb = FMT[fmt]
    bias = (1 << (eb - 1)) - 1
    kind = case[0]
    if kind in ("reg", "fine"):
        D, s = case[1], case[-1]
        if kind == "reg":
            r = case[2]
            # |l| < 2^r + ...: the working format has sb - r fraction bits here (r = 0: the grid)
            K = GRID[n] if r == 0 else sb - r
            b0 = (1 << r) - 1 if D else -(1 << (r + 1)) + 1
            c = BV(b0, 10)
            if r:
                c = c + zext(z3.BitVec("C", r), 10)
        else:
            K = sb + 66
            c = BV(0 if D else -1, 10)
        I = z3.Concat(z3.simplify(c), z3.BitVec("M", K))
        fb = FB(F, F, F, fp.neg(I) if s else I, K)
        # the coordinate is a float of the working format: at most sb significant bits (the wider codecs
        # are proved without this restriction)
        ass = [fp.fits_expr(fb.I, sb)] if n == 8 else []
        return z3.BoolVal(bool(s)), FV(fmt, fb=fb), ass, fb
    if kind == "zero":
        z = z3.Bool("z")
        return z3.Bool("s"), FV(fmt, bits=(z, BV(0, eb), BV(0, sb - 1))), [], None
    l = fp.var("l", fmt)[0]
    s = z3.Bool("s")
    e = l.bits[1]
    if kind == "special":
        return s, l, [NOT(l.fin())], None
    c, b = extremes(l, n)[0 if kind == "big" else 1]
    return s, l, [c], b



