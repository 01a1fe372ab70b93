"""python3-vt -m vc.check Pxx [--thorough]

Decides one property on /repo's current tree: extracts the functions from the
sources, generates the property's obligations, discharges them together with the
obligations of every contract used, and writes evidence/Pxx.json.

exit 0  every obligation discharged (or failing only as a listed known finding)
exit 1  VIOLATION line(s)
exit 2  the machinery itself could not run
"""
import json
import os
import random
import sys
import time
import traceback
from multiprocessing import Pipe, connection

import z3

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import contracts as C
from . import fp, prove, specs, search
from .cimpl import CImpl, tyname
from .extract import extract
from .fp import T, AND
from .sym import Ctx, Exec

NPROC = int(os.environ.get("VC_PROCS", "8"))


class Run:
    def __init__(self, prop, thorough):
        self.prop, self.thorough = prop, thorough
        self.t0 = time.time()
        self.deadline = self.t0 + (3000 if thorough else 560)
        self.task_tmo = 900 if thorough else 200
        self.qtmo = 120 if thorough else 40
        self.prog = extract()
        C.adapt(self.prog)
        self.gen, self.levels = specs.PROPS[prop][:2]
        self.safe = specs.PROPS[prop][2] if len(specs.PROPS[prop]) > 2 else "skip"
        self.goals = list(self.gen(self.prog))
        C.ENCNEG.clear()
        C.ENCNEG.update(self.levels.get("encneg", ()))
        self.known_ids = load_known(prop)
        self.excl = set()
        self.mismatch = [c.name for c in C.CONTRACTS.values() if not c.matches(self.prog.get(c.name))]
        self.impure = [n for n in C.CONTRACTS if self.prog.get(n) is not None and not pure(self.prog, n)]
        self.excl |= set(self.impure)
        self.results, self.cons = {}, {}
        self._impl = None
        self.tables = {}

    def impl(self):
        if self._impl is None:
            self._impl = CImpl(self.prog)
        return self._impl

    def table(self, rank=9, excl=()):
        k = (rank, tuple(sorted(excl)))
        if k not in self.tables:
            self.tables[k] = C.table(self.levels, self.prog, rank, self.excl | set(excl))
        return self.tables[k]

    # ---------------------------------------------------------------- one task
    def work(self, task):
        t0 = time.time()
        tmo = self.qtmo
        if task[0] == "goal":
            _, i, excl = task
            g = self.goals[i]
            if isinstance(g, specs.Lemma):
                return prove.run_lemma(self.prog, self.table(9, excl), g, tmo)
            if isinstance(g, specs.Frame):
                return prove.run_frame(self.prog, g)
            fn = self.prog.get(g.fn)
            if fn is None:
                return {"error": "function %s is missing" % g.fn, "fail": [("exists", "error", 0, [])], "obls": 1,
                        "proved": 0}
            r = prove.run_task(self.prog, fn, self.table(9, excl), g.build(), tmo=g.tmo or tmo, safe=self.safe,
                               deadline=t0 + self.task_tmo)
            if r["fail"]:
                for fid, alt in g.known:
                    if fid not in self.known_ids:
                        continue
                    r2 = prove.run_task(self.prog, fn, self.table(9, excl), g.build(alt), tmo=g.tmo or tmo,
                                        safe=self.safe, deadline=t0 + self.task_tmo)
                    if not r2["fail"]:
                        r2["known"] = (fid, [f[0] for f in r["fail"]])
                        return r2
            return r
        _, name, case, level = task
        c = C.CONTRACTS[name]
        if case == ("cover",):
            return prove.run_lemma(self.prog, {}, specs.Lemma("cover", C.cover_lemma(c.n)), tmo)
        return prove.run_task(self.prog, self.prog.get(name), self.table(c.rank), c.build(case, level), tmo=tmo,
                              safe=self.safe if self.prop == "P24" else "skip", deadline=t0 + self.task_tmo)

    def child(self, task, conn):
        t0 = time.time()
        try:
            r = self.work(task)
        except BaseException as e:
            r = {"error": "%s: %s" % (type(e).__name__, str(e)[:300]), "trace": traceback.format_exc()[-1500:],
                 "fail": [("execution", "error", 0, [])], "obls": 1, "proved": 0}
        r["wall"] = time.time() - t0
        try:
            conn.send(r)
        except Exception as e:
            conn.send({"error": "result: %s" % e, "fail": [("execution", "error", 0, [])], "obls": 1, "proved": 0})
        conn.close()

    # --------------------------------------------------------------- scheduler
    def run_tasks(self, tasks, on_result, nproc=None):
        nproc = nproc or NPROC
        todo = sorted(tasks, key=weight)
        running = {}
        while todo or running:
            while todo and len(running) < nproc:
                t = todo.pop()
                if time.time() > self.deadline:
                    for x in on_result(t, {"error": "time limit of the check", "fail": [("deadline", "unknown", 0, [])],
                                           "obls": 1, "proved": 0}):
                        pass
                    continue
                a, b = Pipe(False)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    a.close()
                    try:
                        self.child(t, b)
                    finally:
                        os._exit(0)
                b.close()
                running[a] = (t, pid, time.time())
            if not running:
                break
            ready = connection.wait(list(running), timeout=1.0)
            for conn in ready:
                t, pid, _ = running.pop(conn)
                try:
                    r = conn.recv()
                except EOFError:
                    r = {"error": "worker died", "fail": [("execution", "unknown", 0, [])], "obls": 1, "proved": 0}
                conn.close()
                os.waitpid(pid, 0)
                new = on_result(t, r)
                if new:
                    todo = sorted(todo + new, key=weight)
            now = time.time()
            for conn in list(running):
                t, pid, st = running[conn]
                if now - st > self.task_tmo + 30 or now > self.deadline + 20:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    running.pop(conn)
                    conn.close()
                    new = on_result(t, {"error": "killed after %d s" % (now - st), "obls": 1, "proved": 0,
                                        "fail": [("timeout", "unknown", 0, [])]})
                    if new:
                        todo = sorted(todo + new, key=weight)

    def used_contracts(self, r):
        """tasks establishing the contracts a result relied on"""
        new = []
        for nm in list(r.get("called", {})) + list(r.get("spec_called", {})):
            c = C.CONTRACTS.get(nm)
            if c is None or nm in self.cons:
                continue
            lvl = self.levels[c.kind]
            if lvl == "opaque":
                self.cons[nm] = {"level": "opaque", "cases": 0}
                continue
            cs = c.cases(lvl)
            self.cons[nm] = {"level": lvl, "cases": len(cs)}
            new += [("con", nm, x, lvl) for x in cs]
        return new

    def main_pass(self, tasks):
        def done(t, r):
            self.results[t] = r
            return self.used_contracts(r)
        self.run_tasks(tasks, done)

    # ---------------------------------------------------------------- judging
    def judge(self, g, args):
        """None: holds (or precondition false / undecided); else (clause, got) violated on the real code"""
        return search.judge(self.prog, self.impl(), g, args, self.known_ids)


def weight(t):
    if t[0] == "con":
        c = C.CONTRACTS[t[1]]
        k = str(t[2])
        return (2 if "fine" in k else 1, c.n, c.kind == "from_l")
    return (0, 0, False)


def pure(prog, name, _seen=None):
    """no writable global is read or written and nothing but the modelled math functions is called"""
    return not impurities(prog, name)


def impurities(prog, name):
    from .sym import LIBM
    seen, stack, bad = set(), [prog.get(name)], []
    while stack:
        f = stack.pop()
        if f is None or (f.mod.name, f.name) in seen:
            continue
        seen.add((f.mod.name, f.name))
        for callee in f.callees():
            if callee.startswith("llvm."):
                continue
            t = prog.lookup(f.mod, callee)
            if t is not None:
                stack.append(t)
            elif callee not in LIBM:
                bad.append("%s calls %s" % (f.name, callee))
        for gname in f.globals_used():
            g = f.mod.globals.get(gname)
            if g is not None and not g[1]:
                bad.append("%s uses the writable object %s" % (f.name, gname))
        if f.has_volatile():
            bad.append("%s has volatile or atomic accesses" % f.name)
    return bad


def known_path():
    return os.path.join(HERE, "known-findings.json")


def load_known(prop):
    try:
        d = json.load(open(known_path()))
    except OSError:
        return {}
    return {k["id"]: k for k in d["findings"] if prop in k["properties"]}


def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    evfile = os.path.join(evdir, prop + ".json")
    R = Run(prop, thorough)
    tasks = [("goal", i, ()) for i in range(len(R.goals))]
    R.main_pass(tasks)
    violations, known, notes = [], {}, []
    bad_goals = [t for t in R.results if t[0] == "goal" and R.results[t]["fail"]]
    bad_cons = [t for t in R.results if t[0] == "con" and R.results[t]["fail"]]
    for t, r in R.results.items():
        if r.get("known"):
            known.setdefault(r["known"][0], []).append(R.goals[t[1]])
    if verbose:
        for t in bad_goals + bad_cons:
            print("FAILED", describe(R, t), R.results[t]["fail"], R.results[t].get("error", ""),
                  R.results[t].get("trace", ""))
        agg = {}
        for t, r in R.results.items():
            a = agg.setdefault("goals" if t[0] == "goal" else t[1], [0, 0])
            a[0] += r.get("wall", 0)
            a[1] += 1
        print("  ".join("%s %.1f s/%d" % (k, *v) for k, v in sorted(agg.items(), key=lambda x: -x[1][0])[:14]))
        for t, r in sorted(R.results.items(), key=lambda x: -x[1].get("wall", 0))[:12]:
            print("%6.1f s %s %s %s" % (r.get("wall", 0), describe(R, t), r.get("levels"), r.get("nq")))
    if bad_goals or bad_cons or not R.goals:
        violations = analyse(R, bad_goals, bad_cons, seed, evdir, notes)
    write_evidence(R, evfile, thorough, seed, violations, known, notes)
    for fid, gs in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s: %s (%s)" % (prop, fid, R.known_ids[fid]["what"],
                                                         ", ".join(sorted({g.fn for g in gs}))[:400]))
    for v in violations:
        print("VIOLATION property=%s replay=%s%s" % (prop, v["replay"],
                                                     "" if v.get("input") else " no-failing-input-found"))
    n = sum(r.get("obls", 0) for r in R.results.values())
    d = sum(r.get("proved", 0) for r in R.results.values())
    print("%s: %d goals, %d contracts, %d obligations, %d discharged, %.1f s" %
          (prop, len(R.goals), len(R.cons), n, d, time.time() - R.t0))
    sys.exit(1 if violations else 0)


def describe(R, t):
    if t[0] == "goal":
        g = R.goals[t[1]]
        return "%s %s" % (g.fn or "lemma", g.label)
    return "contract of %s, case %s, level %s" % t[1:4]


def analyse(R, bad_goals, bad_cons, seed, evdir, notes):
    """turn undischarged obligations into violations: a failing input on the real code where one is found"""
    out = []
    found = {}
    # 1. the solver's own candidates, on the compiled code
    R.impl()
    all_bad, bad_goals = bad_goals, [t for t in bad_goals if R.goals[t[1]].fn and
                                     not isinstance(R.goals[t[1]], specs.Frame)]
    frames = [R.goals[t[1]] for t in all_bad if isinstance(R.goals[t[1]], specs.Frame)]
    if frames:
        hit = impure_run(R, frames, seed)
        if hit:
            how, fn, a, want, got = hit
            p = os.path.join(evdir, "replay", "%s_%s.json" % (R.prop, fn))
            sig = R.impl().sig[fn]
            json.dump({"property": R.prop, "function": fn, "arguments": [hex(x) for x in a], "argument_types": sig[0],
                       "result": hex(got), "result_in_a_fresh_process": hex(want), "result_type": sig[1],
                       "violated": "the result depends on " + {"history": "earlier calls",
                                                               "threads": "calls in other threads"}[how],
                       "found_by": "random " + how, "obligations": [f[0] for t in all_bad for f in R.results[t]["fail"]]
                       [:50], "replay": "python3-vt -m vc.replay " + p}, open(p, "w"), indent=1)
            return [{"replay": p, "input": True, "fn": fn, "what": "result depends on " + how}]
    if R.prop == "P24":
        out = ub_run(R, bad_goals, bad_cons, seed, evdir)
        if out:
            return out
    for t in bad_goals:
        g = R.goals[t[1]]
        for cl, st, lvl, models in R.results[t]["fail"]:
            for m in models:
                v = R.judge(g, m)
                if v and g.fn not in found:
                    found[g.fn] = (g, m, v, "the solver's counterexample")
    # 2. directed search on the affected functions
    conf = {t[1] for t in bad_cons}
    fns = {}
    for t in bad_goals:
        g = R.goals[t[1]]
        fns.setdefault(g.fn, []).append(g)
    hints = [(t[1], m) for t in bad_cons for f in R.results[t]["fail"] for m in f[3]]
    if conf:
        dep = dependents(R, conf)
        for t, r in R.results.items():
            if t[0] == "goal":
                g = R.goals[t[1]]
                if (set(r.get("called", {})) | set(r.get("spec_called", {}))) & dep or g.fn in conf:
                    fns.setdefault(g.fn, []).append(g)
    if not found and fns and R.prop != "P24":
        budget = 200 if R.thorough else min(60, max(15, 600 - (time.time() - R.t0)))
        jobs = [("search", fn) for fn in fns]
        per = max(4.0, budget * NPROC / len(jobs))
        per = min(per, budget)
        res = {}

        def work(task):
            return {"hit": search.hunt(R.prog, R.impl(), fns[task[1]], R.known_ids, seed, per, hints), "fail": []}
        R.work = work
        R.task_tmo = budget + 30
        R.deadline = max(R.deadline, time.time() + budget + 60)

        def done(t, r):
            if r.get("hit") and t[1] not in found:
                gi, m, v = r["hit"]
                found[t[1]] = (fns[t[1]][gi], m, v, "directed search")
            return []
        R.run_tasks(jobs, done)
        del R.work
    for fn, (g, m, v, how) in sorted(found.items()):
        p = os.path.join(evdir, "replay", "%s_%s.json" % (R.prop, fn))
        sig = R.impl().sig[fn]
        json.dump({"property": R.prop, "function": fn, "arguments": [hex(x) for x in m], "argument_types": sig[0],
                   "result": hex(v[1]), "result_type": sig[1], "violated": v[0], "found_by": how, "case": g.label,
                   "obligations": [describe(R, t) for t in bad_goals + bad_cons][:50],
                   "replay": "python3-vt -m vc.replay " + p}, open(p, "w"), indent=1)
        out.append({"replay": p, "input": True, "fn": fn, "what": v[0]})
    if out:
        return out[:5]
    bad_goals = all_bad
    # 3. nothing found: once more, with more time, for what only ran out of time
    late = [t for t in bad_goals + bad_cons
            if all(f[1] in ("unknown", "deadline") for f in R.results[t]["fail"])]
    if late and len(late) <= 40:
        R.qtmo, R.task_tmo, R.deadline = (600, 1500, time.time() + 3000) if R.thorough else \
            (160, 240, max(time.time() + 30, min(time.time() + 260, R.t0 + 690)))
        again = {}

        def redone(t, r):
            again[t] = r
            return R.used_contracts(r)
        R.run_tasks(late, redone, 6)
        for t, r in again.items():
            R.results[t] = r
        notes.append("%d obligations' tasks ran out of time at first and were tried again" % len(late))
        bad_goals = [t for t in R.results if t[0] == "goal" and R.results[t]["fail"]]
        bad_cons = [t for t in R.results if t[0] == "con" and R.results[t]["fail"]]
        conf = {t[1] for t in bad_cons}
        if not bad_goals and not bad_cons:
            return []
    # 4. if only internal contracts failed, try to do without them
    if bad_cons and not bad_goals:
        excl = tuple(sorted(dependents(R, conf)))
        R.cons = {k: v for k, v in R.cons.items() if k not in excl}
        redo = [("goal", t[1], excl) for t, r in R.results.items()
                if t[0] == "goal" and (set(r.get("called", {})) | set(r.get("spec_called", {}))) & set(excl)]
        R.deadline = time.time() + 3000 if R.thorough else max(time.time() + 60, R.t0 + 760)
        n0 = len(R.results)
        R.main_pass(redo)
        still = [t for t in redo if R.results[t]["fail"]] + \
                [t for t in list(R.results)[n0:] if t[0] == "con" and R.results[t]["fail"]]
        if not still:
            notes.append("contracts of %s not used: they do not describe the current code; their callers were "
                         "verified with the bodies inlined" % ", ".join(sorted(conf)))
            for t in bad_cons:
                R.results.pop(t)
            return []
        bad_goals = still
    p = os.path.join(evdir, "replay", "%s_obligations.json" % R.prop)
    json.dump({"property": R.prop, "no_failing_input_found": True,
               "failed_obligations": [{"where": describe(R, t), "clauses": [[f[0], f[1], f[3]] for f in
                                                                            R.results[t]["fail"]],
                                       "verifier": R.results[t].get("error", "") + R.results[t].get("trace", "")}
                                      for t in (bad_goals + bad_cons)[:60]]}, open(p, "w"), indent=1)
    return [{"replay": p, "input": False}]


def ub_run(R, bad_goals, bad_cons, seed, evdir):
    """P24: run the affected exported functions natively under sanitizers"""
    from . import ubhunt
    conf = dependents(R, {t[1] for t in bad_cons})
    direct = {R.goals[t[1]].fn for t in bad_goals} | conf
    fns, models = set(), []
    for t, r in R.results.items():
        if t[0] == "goal":
            fn = R.goals[t[1]].fn
            if fn in direct or (set(r.get("called", {})) | set(r.get("spec_called", {})) |
                                set(r.get("inlined", {}))) & direct:
                fns.add(fn)
            if t in bad_goals:
                models += [(fn, m) for f in r["fail"] for m in f[3]]
    H = ubhunt.Hunter(R.prog)
    try:
        fns = sorted(f for f in fns if f and f in H.sig and f.startswith("takum"))
        hits = {}
        for fn, m in models:
            if fn in fns and fn not in hits and len(m) == len(H.sig[fn][0]):
                v = H.one(fn, m)
                if v:
                    hits[fn] = (v[0], m, "the solver's counterexample")
        if not hits and fns:
            hits = {k: v + ("corner cases and random arguments",) for k, v in
                    H.hunt(fns, seed, 200 if R.thorough else 60).items()}
        out = []
        for fn, (w, m, how) in sorted(hits.items())[:5]:
            p = os.path.join(evdir, "replay", "%s_%s.json" % (R.prop, fn))
            json.dump({"property": R.prop, "function": fn, "arguments": [hex(x) for x in m],
                       "argument_types": H.sig[fn][0], "result_type": H.sig[fn][1], "violated": ubhunt.WHAT[w],
                       "found_by": how, "sanitized": True,
                       "obligations": [describe(R, t) for t in bad_goals + bad_cons][:50],
                       "replay": "python3-vt -m vc.replay " + p}, open(p, "w"), indent=1)
            out.append({"replay": p, "input": True, "fn": fn, "what": ubhunt.WHAT[w]})
        return out
    finally:
        H.close()


def impure_run(R, frames, seed):
    from . import frame, history
    bad = {(g.modname, g.fn) for g in frames}
    fns = [f for f in R.prog.ext.values() if any((h.mod.name, h.name) in bad for h in frame.closure(R.prog, f))]
    fns.sort(key=lambda f: (not f.name.startswith("takum"), (f.mod.name, f.name) not in bad, f.name))
    rnd = random.Random(seed)
    head = [f for f in fns if (f.mod.name, f.name) in bad][:8]
    rest = [f for f in fns if f not in head]
    rnd.shuffle(rest)
    return history.hunt(R.prog, (head + rest)[:24], seed, 120 if R.thorough else 60, 24)


def dependents(R, names):
    """contracts whose own proof relied on the given ones (transitively), and those themselves"""
    dep = set(names)
    while True:
        n = len(dep)
        for t, r in R.results.items():
            if t[0] == "con" and set(r.get("called", {})) & dep:
                dep.add(t[1])
        if len(dep) == n:
            return dep


def write_evidence(R, path, thorough, seed, violations, known, notes):
    from .libm import TRUSTED_LIBM
    res = [r for r in R.results.values()]
    libm, inl, per = {}, {}, {}
    for t, r in R.results.items():
        for k, v in r.get("libm", {}).items():
            libm[k] = libm.get(k, 0) + v
        for k, v in r.get("inlined", {}).items():
            inl[k] = inl.get(k, 0) + v
        nm = (R.goals[t[1]].fn or "(lemmas)") if t[0] == "goal" else t[1]
        d = per.setdefault(nm, [0, 0])
        d[0] += r.get("obls", 0)
        d[1] += r.get("proved", 0)
    lv = [sum(r.get("levels", [0] * 4)[i] for r in res) for i in range(4)]
    assumptions = list(specs.ASSUME_BASE) + specs.ASSUME.get(R.prop, [])
    tl = sorted(k for k in libm if (k[:-1] in TRUSTED_LIBM or k in TRUSTED_LIBM))
    if tl:
        assumptions.append("the C math library's %s: a function of its argument with the listed basic facts "
                           "(vc/libm.py FACTS)" % ", ".join(tl))
    opq = sorted(k for k, v in R.cons.items() if v["level"] == "opaque")
    if opq:
        assumptions.append("used as uninterpreted pure functions (purity checked, value decided by other "
                           "properties): %d conversion functions" % len(opq))
    approx = sorted({a for r in res for a in r.get("approx", [])})
    ev = {
        "property": R.prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof",
        "coverage": {
            "obligations": sum(r.get("obls", 0) for r in res), "discharged": sum(r.get("proved", 0) for r in res),
            "checker_cmd": "python3-vt -m vc.check %s%s" % (R.prop, " --thorough" if thorough else ""),
            "trusted_base": ["clang 18 front end (-O0, then sroa)", "vc/ VC generator and float encodings",
                             "Z3 %s" % z3.get_version_string()],
            "functions_under_contract": sorted(per), "obligations_per_function": per,
            "contracts_used": {k: v for k, v in sorted(R.cons.items())},
            "inlined_functions": sorted(inl), "libm_functions": sorted(libm),
            "goals": len(R.goals), "tasks": len(R.results),
            "discharged_by": {"simplification": lv[0], "QF_BV": lv[1], "QF_BV + contract definitions": lv[2],
                              "IEEE definitions (FP theory)": lv[3]},
            "solver_s": round(sum(r.get("solver", 0) for r in res), 1),
            "symbolic_execution_s": round(sum(r.get("symex", 0) for r in res), 1),
            "pruning_queries": sum(r.get("nq", 0) for r in res),
            "havocked": approx, "contracts_not_matching_signature": R.mismatch, "impure_contracts": R.impure,
            "known_findings": {k: sorted({g.fn for g in v}) for k, v in known.items()}, "notes": notes,
            "violations_found": [{"replay": v["replay"], "input_found": bool(v.get("input")),
                                  "what": v.get("what", "")} for v in violations],
        },
        "wall_s": round(time.time() - R.t0, 1), "assumptions": assumptions,
        "violations": len(violations),
    }
    json.dump(ev, open(path, "w"), indent=1)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
