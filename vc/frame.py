"""Frame contracts: every function of the library assigns nothing but its own locals.

One obligation per memory access, call and operand, discharged function by
function: a store (load) must go to a local object, to an object the caller
passed by pointer (checked at the caller: it may only pass its own locals, its
own pointer parameters, or constant tables for reading), or - loads only - to
a constant table; a call must go to a function with the same contract or to
one of the C library's mathematical functions; nothing is volatile, atomic,
assembler, or undefined.  With these obligations discharged a result is a
function of the arguments alone, on every call history and schedule.
"""
import re
from .ir import Func

PTRARG_LIBM = {"frexp", "frexpf", "frexpl", "modf", "modff", "modfl"}
OTHER_PURE = {"abs", "labs", "llabs", "ilogb", "ilogbf", "ilogbl", "strlen", "memcmp", "memcpy", "memmove", "memset",
              "__isinf", "__isinff", "__isinfl", "__isnan", "__isnanf", "__isnanl", "__signbit", "__signbitf",
              "__signbitl", "__fpclassify", "__fpclassifyf", "__fpclassifyl", "__finite", "__finitef", "__finitel"}


def roots(f, v, env, seen=None):
    """origins of a pointer operand: local, param, ('const', g), ('global', g), unknown"""
    seen = set() if seen is None else seen
    if v[0] == "glob":
        g = f.mod.globals.get(v[1])
        return {("const" if g is not None and g[1] else "global", v[1])}
    if v[0] == "cgep":
        return roots(f, v[2], env, seen)
    if v[0] != "loc":
        return {("unknown", str(v[0]))}
    if v[1] in seen:
        return set()
    seen.add(v[1])
    if v[1] in env["params"]:
        return {("param", v[1])}
    i = env["defs"].get(v[1])
    if i is None:
        return {("unknown", v[1])}
    if i.op == "alloca":
        return {("local", v[1])}
    if i.op == "getelementptr":
        return roots(f, i.args[0], env, seen)
    if i.op == "phi":
        out = set()
        for x, _ in i.args:
            out |= roots(f, x, env, seen)
        return out
    if i.op == "select":
        return roots(f, i.args[1], env, seen) | roots(f, i.args[2], env, seen)
    return {("unknown", i.op)}


def obligations(prog, f, libm):
    """[(description, holds)]"""
    if getattr(f, "bad", None):
        return [("%s: %s" % (f.name, f.bad), False)]
    env = {"params": {nm for _, nm in f.params}, "defs": {i.res: i for i in f.insts() if i.res}}
    out = []

    def ob(what, i, ok):
        out.append(("%s in %s: %s" % (what, f.name, i.text.strip()[:160]), ok))
    for i in f.insts():
        if re.search(r"\b(volatile|atomic|cmpxchg|atomicrmw|fence|asm)\b", i.text):
            ob("no volatile, atomic or assembler access", i, False)
            continue
        if i.op == "unsupported":
            ob("understood instruction", i, False)
            continue
        if i.op != "phi" and re.search(r"\b(undef|poison)\b", i.text):
            ob("defined operands", i, False)
        if i.op == "store":
            r = roots(f, i.args[1], env)
            ob("assigns only locals and objects passed by the caller", i, all(k in ("local", "param") for k, _ in r))
            ob("no pointer escapes", i, not (i.ty is not None and i.ty.k == "ptr") or
               all(k == "local" for k, _ in r))
        elif i.op == "load":
            r = roots(f, i.args[0], env)
            ob("reads only locals, objects passed by the caller and constants", i,
               all(k in ("local", "param", "const") for k, _ in r))
        elif i.op in ("ptrtoint", "inttoptr"):
            ob("no pointer arithmetic on integers", i, False)
        elif i.op == "ret" and i.ty is not None and i.ty.k == "ptr":
            ob("no pointer returned", i, False)
        elif i.op == "call":
            t = prog.lookup(f.mod, i.x)
            known = t is not None or i.x in libm or i.x in OTHER_PURE or i.x.startswith("llvm.")
            ob("calls only functions with a frame contract", i, known)
            for k, (ty, v) in enumerate(i.args):
                if ty.k == "ptr":
                    ok = ("local", "param")
                    if t is not None and not writes_param(prog, t, k):
                        ok = ("local", "param", "const")
                    ob("passes only pointers to its own objects", i, all(x in ok for x, _ in roots(f, v, env)) or
                       (t is None and i.x.startswith("llvm.mem") and k == 1 and
                        all(x in ("local", "param", "const") for x, _ in roots(f, v, env))))
    return out


def writes_param(prog, f, k, seen=None):
    seen = set() if seen is None else seen
    if (f.name, k) in seen:
        return False
    seen.add((f.name, k))
    if k >= len(f.params):
        return True
    env = {"params": {nm for _, nm in f.params}, "defs": {i.res: i for i in f.insts() if i.res}}
    me = ("param", f.params[k][1])
    for i in f.insts():
        if i.op == "store" and me in roots(f, i.args[1], env):
            return True
        if i.op == "call":
            t = prog.lookup(f.mod, i.x)
            for j, (ty, v) in enumerate(i.args):
                if ty.k == "ptr" and me in roots(f, v, env):
                    if t is None and not (i.x.startswith(("llvm.memcpy", "llvm.memmove")) and j == 1):
                        return True
                    if t is not None and writes_param(prog, t, j, seen):
                        return True
    return False


def closure(prog, f):
    seen, stack = {}, [f]
    while stack:
        g = stack.pop()
        if id(g) in seen:
            continue
        seen[id(g)] = g
        if getattr(g, "bad", None):
            continue
        for i in g.insts():
            if i.op == "call":
                t = prog.lookup(g.mod, i.x)
                if t is not None:
                    stack.append(t)
    return list(seen.values())
