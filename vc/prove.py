"""Discharging obligations.

A task = one function (possibly restricted to one case of a case split that is
itself checked to be exhaustive), executed symbolically, with a list of
postconditions.  Every obligation is sent to a solver ladder:

  0  term simplification (z3)
  1  QF_BV (z3) with applications opaque, their facts, and congruence of
     applications with equal arguments
  2  the same plus the defining equations of contract applications
  3  the same plus the IEEE definition of opaque float operations (z3 FP)

`proved` needs unsat at some level.  `sat` at the last usable level gives a
candidate input (to be replayed by the caller), never a verdict by itself.
"""
import time
import z3
from . import fp
from .fp import AND, OR, NOT, ITE, BV, T, F, FV
from .sym import Ctx, Exec, State


def app_closure(ctx, terms):
    """applications whose result variable occurs in terms (transitively)"""
    byvar = {a.var.decl().name(): a for a in ctx.apps.values()}
    seen, out, stack = set(), [], list(terms)
    done = set()
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in done:
            continue
        done.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            a = byvar.get(t.decl().name())
            if a is not None and a.var.decl().name() not in seen:
                seen.add(a.var.decl().name())
                out.append(a)
                stack.extend(a.facts)
                for x in a.args:
                    stack.append(x.ieee() if isinstance(x, FV) else x)
                    if isinstance(x, FV) and x.fb is not None:
                        stack += [x.fb.I, x.fb.nan, x.fb.inf, x.fb.neg]
        else:
            stack.extend(t.children())
    return out


def argeq(x, y):
    if isinstance(x, FV):
        return fp.same(x, y) if x.fmt == y.fmt else F
    if z3.is_bool(x):
        return x == y
    w = max(x.size(), y.size())
    return fp.sext(x, w) == fp.sext(y, w)


def reseq(a, b):
    return fp.same(a.res, b.res) if isinstance(a.res, FV) else a.res == b.res


def congruence(apps):
    out = []
    groups = {}
    for a in apps:
        groups.setdefault((a.name, a.var.sort().sexpr()), []).append(a)
    for name, g in groups.items():
        for i in range(len(g)):
            for j in range(i):
                a, b = g[i], g[j]
                if len(a.args) != len(b.args):
                    continue
                eq = AND(*[argeq(x, y) for x, y in zip(a.args, b.args)])
                if not z3.is_false(eq):
                    out.append(z3.Implies(eq, reseq(a, b)))
                if a.pairs:
                    out += a.pairs(a, b)
    return out


class Result:
    __slots__ = ("status", "level", "time", "model")

    def __init__(self, status, level, t, model=None):
        self.status, self.level, self.time, self.model = status, level, t, model


def solve(fs, tmo, kind="QF_BV"):
    s = z3.SolverFor(kind) if kind else z3.Solver()
    s.set("timeout", int(tmo * 1000))
    for f in fs:
        s.add(f)
    r = s.check()
    return r, (s.model() if r == z3.sat else None)


def discharge(ctx, pc, cond, tmo=20, maxlevel=3, extra=()):
    t0 = time.time()
    if z3.is_true(cond):
        return Result("proved", 0, 0.0)
    g = z3.simplify(z3.Implies(pc, cond))
    if z3.is_true(g):
        return Result("proved", 0, time.time() - t0)
    neg = [z3.simplify(x) for x in ctx.assume] + [z3.simplify(pc), z3.simplify(z3.Not(cond))] + list(extra)
    apps = app_closure(ctx, neg)
    base = neg + [z3.simplify(f) for a in apps for f in a.facts] + [z3.simplify(x) for x in congruence(apps)]
    r, m = solve(base, tmo)
    if r == z3.unsat:
        return Result("proved", 1, time.time() - t0)
    last, fin = (1, r, m), r
    defs = [a for a in apps if a.define is not None]
    if maxlevel >= 2 and any(a.kind == "contract" for a in defs):
        more = [z3.simplify(a.define(a.args, a.res)) for a in defs if a.kind == "contract"]
        apps2 = app_closure(ctx, base + more)
        extra_f = [z3.simplify(f) for a in apps2 if a not in apps for f in a.facts]
        base = base + more + extra_f
        r, m = solve(base, tmo)
        if r == z3.unsat:
            return Result("proved", 2, time.time() - t0)
        last, fin = ((2, r, m) if r == z3.sat or last[1] != z3.sat else last), r
    if maxlevel >= 3 and any(a.kind == "ieee" for a in defs):
        more = [a.define(a.args, a.res) for a in defs if a.kind == "ieee"]
        r, m = solve(base + more, tmo, None)
        if r == z3.unsat:
            return Result("proved", 3, time.time() - t0)
        last, fin = ((3, r, m) if r == z3.sat or last[1] != z3.sat else last), r
    # a level that ran out of time leaves the question open, whatever the weaker ones said
    return Result("cex" if fin == z3.sat else "unknown", last[0], time.time() - t0, last[2])


def argval(m, a):
    """concrete value of a symbolic argument under model m: Python int (bit pattern, unsigned)"""
    t = a.ieee() if isinstance(a, FV) else a
    if z3.is_bool(t):
        return int(z3.is_true(m.eval(t, model_completion=True)))
    v = m.eval(t, model_completion=True)
    return v.as_long()


def mkarg(ty, nm):
    if ty.isfp:
        return fp.var(nm, ty.k)[0]
    return z3.BitVec(nm, ty.n) if ty.n > 1 else z3.Bool(nm)


def run_task(prog, fn, contracts, build, tmo=20, qtimeout=1500, safe="skip", deadline=None):
    """build(ctx, ex) -> (args, assume list, post); post(args, result, ctx, ex) -> [(clause, cond)].
    safe: "skip" leaves out the undefined-behaviour obligations, "only" keeps only them, "all" both."""
    t0 = time.time()
    ctx = Ctx(prog, contracts, qtimeout=qtimeout)
    ex = Exec(ctx)
    args, assume, post = build(ctx, ex)
    ctx.assume = list(assume)
    out = {"fn": fn.name, "obls": 0, "proved": 0, "levels": [0, 0, 0, 0], "fail": [], "solver": 0.0, "called": {},
           "inlined": {}, "libm": {}, "global_stores": [], "mutable_loads": [], "approx": [], "symex": 0.0, "nq": 0,
           "trivial": 0}
    # vacuity: the assumptions are satisfiable
    if assume:
        r, _ = solve([z3.simplify(x) for x in assume], tmo)
        if r == z3.unsat:
            out["fail"].append(("vacuity", "error", 0, []))
            return out
    v, mem, rpc = ex.run(fn, args, T)
    called, inlined, libm = dict(ctx.called), dict(ctx.inlined), dict(ctx.libm_used)
    # some input returns: nothing has been cut away
    goals = [("returns", T, rpc)] if not z3.is_true(rpc) else []
    if safe != "skip":
        for o in ctx.obls:
            goals.append(("safe:" + o.kind + " @ " + o.where, o.pc, o.cond))
    gs, ml = list(ctx.stores_global), list(ctx.loads_mutable)
    if safe != "only":
        for cl, cond in post(args, v, ctx, ex):
            goals.append((cl, rpc, cond))
    out["symex"] = time.time() - t0
    for cl, pc, cond in goals:
        if deadline is not None and time.time() > deadline:
            out["fail"].append((cl, "deadline", 0, []))
            out["obls"] += 1
            continue
        out["obls"] += 1
        r = discharge(ctx, pc, cond, tmo)
        out["solver"] += r.time
        if r.status == "proved":
            out["proved"] += 1
            out["levels"][r.level] += 1
        else:
            models = []
            if r.model is not None:
                models.append([argval(r.model, a) for a in args])
            out["fail"].append((cl, r.status, r.level, models))
    out["called"], out["inlined"], out["libm"] = called, inlined, libm
    out["spec_called"] = {k: v for k, v in ctx.called.items() if v != called.get(k)}
    out["global_stores"], out["mutable_loads"], out["approx"] = gs, ml, ctx.approx
    out["nq"] = ctx.nq
    out["wall"] = time.time() - t0
    return out


def run_lemma(prog, contracts, lemma, tmo=20):
    t0 = time.time()
    ctx = Ctx(prog, contracts)
    r = discharge(ctx, T, lemma.formula(ctx, Exec(ctx)), tmo)
    ok = r.status == "proved"
    lv = [0, 0, 0, 0]
    if ok:
        lv[r.level] = 1
    return {"fn": "lemma", "obls": 1, "proved": int(ok), "levels": lv, "called": {}, "inlined": {}, "libm": {},
            "fail": [] if ok else [("lemma", r.status, r.level, [])], "solver": r.time, "symex": 0.0, "nq": 0,
            "wall": time.time() - t0}


def run_frame(prog, goal):
    from . import frame
    from .sym import LIBM
    t0 = time.time()
    f = prog.find_static(goal.modname, goal.fn)
    obs = frame.obligations(prog, f, LIBM) or [("no memory access, no call in %s" % f.name, True)]
    bad = [(w, "refuted", 0, []) for w, ok in obs if not ok]
    n = len(obs)
    return {"fn": goal.fn, "obls": n, "proved": n - len(bad), "levels": [n - len(bad), 0, 0, 0], "called": {},
            "inlined": {}, "libm": {}, "fail": bad, "solver": 0.0, "symex": 0.0, "nq": 0, "wall": time.time() - t0}
