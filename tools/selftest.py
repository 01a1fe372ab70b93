"""Checks of the trusted parts of the verifier (not part of any property's check).

python3-vt tools/selftest.py diff [SEED [N [FILTER]]]   the VC generator, run on constants, against the compiled library
python3-vt tools/selftest.py libm [SEED [N]]            the trusted facts about libm, sampled on this machine's libm
python3-vt tools/selftest.py spec [SEED [N]]            the specification's encoder against rational arithmetic
python3-vt tools/selftest.py search PROP [SECONDS [FILTER]]  the directed search on the unchanged tree: it must find nothing
python3-vt tools/selftest.py ieee                       the facts about IEEE +, *, /, sqrt: proved from the FP theory
"""
import os
import random
import sys
import time

import z3
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import contracts as C, fp, libm, pyref, search, sym, tspec
from vc.cimpl import CImpl
from vc.extract import extract
from vc.fp import FMT, T, BV
from vc.sym import Ctx, Exec


def setup(seed):
    p = extract()
    C.adapt(p)
    return p, CImpl(p), random.Random(seed)


def diff(seed=1, n=3, flt=""):
    p, impl, R = setup(int(seed))
    tot = bad = und = err = 0
    for fn in sorted(x for x in impl.sig if x in p.ext and x.startswith(("takum", "codec"))):
        if flt not in fn:
            continue
        ps, rt = impl.sig[fn]
        t0 = time.time()
        for _ in range(int(n)):
            if time.time() - t0 > 20:
                break
            a = [R.choice(search.corners(t)) if R.random() < .4 else search.rnd(R, t) for t in ps]
            if fn.startswith("codec_s_and_linear") or "_from_s_and_l" in fn:
                # inputs outside the functions' domain are undefined behaviour
                while ps[1][0] == "f" and not ok_l(a[1], ps[1]):
                    a[1] = search.rnd(R, ps[1])
            tot += 1
            try:
                ctx = Ctx(p, {})
                ctx.impl = impl
                ex = Exec(ctx)
                v, mem, rpc = ex.run(p.ext[fn], [search.mkconst(x, t) for x, t in zip(a, ps)], T)
                got = impl.call(fn, a)
                g = search.mkconst(got, rt)
                e = z3.simplify(fp.same(v, g) if rt[0] == "f" else v == g)
                if z3.is_false(e):
                    bad += 1
                    print("DIFF", fn, [hex(x) for x in a], hex(got))
                elif not z3.is_true(e):
                    und += 1
                    print("UNDECIDED", fn, [hex(x) for x in a])
            except Exception as e:
                err += 1
                print("ERROR", fn, [hex(x) for x in a], type(e).__name__, str(e)[:100])
    print("diff: %d runs, %d differ, %d undecided, %d errors" % (tot, bad, und, err))
    return bad or und or err


def ok_l(x, ty):
    eb, sb = FMT[ty]
    e = (x >> (sb - 1 if ty != "f80" else 64)) & ((1 << eb) - 1)
    return e < (1 << (eb - 1)) + 7 or e == (1 << eb) - 1


def libm_facts(seed=1, n=300):
    p, impl, R = setup(int(seed))
    bad = tot = 0
    for base in libm.TRUSTED_LIBM:
        for s, fmt in (("f", "f32"), ("", "f64"), ("l", "f80")):
            nm = base + s
            if not impl.has(nm):
                continue
            k = len(impl.sig[nm][0])
            prev = []
            for i in range(int(n)):
                a = [R.choice(search.corners(fmt)) if R.random() < .5 else search.rnd(R, fmt) for _ in range(k)]
                ctx = Ctx(p, {})
                fa = [fp.const(x, fmt) for x in a]
                g = impl.call(nm, a)
                r = fp.const(g, fmt)
                tot += 1
                for j, f in enumerate(libm.FACTS[base](fa, r)):
                    if not z3.is_true(z3.simplify(f)):
                        bad += 1
                        if bad < 40:
                            print("FACT", nm, j, [hex(x) for x in a], hex(g))
                pf = libm.PAIRS.get(base)
                app = sym.App(nm, fa, r, None, "libm", None, pf)
                if pf is not None:
                    for q in prev[-6:]:
                        for j, f in enumerate(pf(q, app)):
                            if not z3.is_true(z3.simplify(f)):
                                bad += 1
                                if bad < 40:
                                    print("PAIR", nm, j, [hex(x) for x in a], hex(g))
                prev.append(app)
    print("libm: %d calls, %d facts violated" % (tot, bad))
    return bad


def spec(seed=1, n=4000):
    R = random.Random(int(seed))
    bad = 0
    from fractions import Fraction as Q
    for _ in range(int(n)):
        nb = R.choice((8, 16, 32, 64))
        K = R.choice((0, 3, 11, 24, 53, 63, 64))
        m = R.choice((4, 20, 80))
        I = R.randrange(-(300 << K), 300 << K) if R.random() < .5 else R.randrange(-(1 << m), 1 << m)
        if R.random() < .4:
            j = R.randrange(K + 1)
            I = (I >> j << j) + R.choice((-1, 0, 1))
        s = R.getrandbits(1)
        w = max(I.bit_length() + 2, K + 4)
        v = z3.simplify(tspec.encode_fixed(nb, z3.BoolVal(bool(s)), BV(I, w), K)).as_long()
        if v != pyref.encode(nb, s, Q(I, 1 << K)):
            bad += 1
            print("SPEC", nb, s, I, K, hex(v), hex(pyref.encode(nb, s, Q(I, 1 << K))))
    print("spec: %s encodings, %d differ" % (n, bad))
    return bad


def ieee(small="yes"):
    """every fact in every format; multiplication and division in the library's formats are beyond the solver for some
    facts, those are proved for all formats of 3..5 exponent bits and 3..6 significand bits"""
    bad = 0
    fs = [("f32", 60), ("f64", 60), ("f80", 60)]
    for eb in (3, 4, 5):
        for sb in (3, 4, 5, 6):
            FMT["e%ds%d" % (eb, sb)] = (eb, sb)
            fs.insert(0, ("e%ds%d" % (eb, sb), 60))
    for op, F in (("add", sym.ADDFACTS), ("mul", sym.MULFACTS), ("div", sym.DIVFACTS), ("sqrt", libm.SQRTFACTS)):
        for fmt, tmo in fs:
            a, b, r = [fp.var(x, fmt)[0] for x in "abr"]
            pre = [z3.Not(a.sign()), z3.Not(b.sign())] if op in ("mul", "div") else []
            und = []
            d = sym.fpdef(z3.fpSqrt(sym.RNE, a.term()), r) if op == "sqrt" else sym.ieee_def(op, (a, b), r)
            for i, f in enumerate(F((a, b) if op != "sqrt" else (a,), r)):
                s = z3.Solver()
                s.set("timeout", (tmo if fmt[0] == "e" or op == "add" else 15) * 1000)
                s.add(d, z3.Not(f), *pre)
                c = s.check()
                if c == z3.sat:
                    bad += 1
                    print("FALSE", op, fmt, i)
                elif c != z3.unsat:
                    und.append(i)
            print("ieee: %s %s: facts proved, except undecided %s" % (op, fmt, und), flush=True)
    return bad


def search_all(prop, budget=5, flt=""):
    """a hit on the unchanged tree is a mistake of the judge (or of the library)"""
    from multiprocessing import Pool
    from vc import check
    global R, FNS, BUDGET
    R, FNS, BUDGET = check.Run(prop, False), {}, float(budget)
    R.impl()
    for g in R.goals:
        if g.fn and not isinstance(g, check.specs.Frame) and flt in g.fn and g.fn in R.impl().sig:
            FNS.setdefault(g.fn, []).append(g)
    bad = 0
    with Pool(8) as pool:
        for fn, h in pool.imap_unordered(hunt1, list(FNS)):
            if h:
                bad += 1
                print(prop, fn, FNS[fn][h[0]].label, [hex(x) for x in h[1]], h[2], flush=True)
    print(prop, len(FNS), "functions searched,", bad, "hits")
    return bad != 0


def hunt1(fn):
    return fn, search.hunt(R.prog, R.impl(), FNS[fn], R.known_ids, 1, BUDGET, [])


if __name__ == "__main__":
    sys.exit(1 if {"diff": diff, "libm": libm_facts, "spec": spec, "search": search_all, "ieee": ieee}[sys.argv[1]](*sys.argv[2:]) else 0)
