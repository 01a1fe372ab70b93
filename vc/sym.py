"""Verification-condition generator: forward symbolic execution of one function
with state merging at joins.  Calls go through the callee's contract when one
is registered, through a model for libm, and are otherwise inlined.  Loops are
unrolled until the loop condition is refuted by the path condition (an
obligation that cannot be met makes the run fail, it is never ignored)."""
import z3
from .ir import Unsupported, Ty
from . import fp
from .fp import (AND, OR, NOT, XOR, ITE, BV, T, F, FV, FB, FMT, SORT, RNE, isnum, sext, zext, trunc,
                 fite, align, shrink, fits_expr, round_sig, absI, clz_norm, shl_c, sbits)

MAXITER = 600


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off  # off: python int or BV64


class Undef:
    pass


UNDEF = Undef()


class Obl:
    __slots__ = ("pc", "cond", "kind", "where")

    def __init__(self, pc, cond, kind, where):
        self.pc, self.cond, self.kind, self.where = pc, cond, kind, where


class State:
    __slots__ = ("pc", "env", "mem", "prev")

    def __init__(self, pc, env, mem, prev=None):
        self.pc, self.env, self.mem, self.prev = pc, env, mem, prev


class Obj:
    _n = 0

    def __init__(self, name, size, const=None, ty=None):
        Obj._n += 1
        self.id, self.name, self.size, self.const, self.ty = Obj._n, name, size, const, ty


class Ctx:
    """one verification task"""

    def __init__(self, prog, contracts=None, libm=None, assume=(), qtimeout=4000):
        self.prog = prog
        self.contracts = contracts or {}
        self.libm = libm or {}
        self.assume = list(assume)
        self.facts = []
        self.obls = []
        self.stores_global = []
        self.loads_mutable = []
        self.called = {}
        self.inlined = {}
        self.nq = 0
        self.qtimeout = qtimeout
        self.qcache = {}
        self.depth = 0
        self.fresh_n = 0
        self.libm_used = {}
        self.trail = []
        self.rounded = 0
        self.approx = []
        self.apps = {}
        self.impl = None
        self._keep = []
        fp.CTX = self

    def app(self, name, args, rty, kind="libm", facts=None, define=None, pairs=None):
        """rty: float format name or bit width"""
        if self.impl is not None and kind in ("libm", "ieee"):
            args = [self.concrete(a) for a in args]
        if self.impl is not None and kind == "libm" and all(isinstance(a, FV) and a.isconst() for a in args):
            return fp.const(self.impl.call(name, [z3.simplify(a.ieee()).as_long() for a in args]), rty)
        k = (name, rty) + tuple(akey(a) for a in args)
        a = self.apps.get(k)
        if a is not None:
            return a.res
        nm = "%s#%d" % (name, len(self.apps))
        if isinstance(rty, str):
            res, var = fp.var(nm, rty)
        else:
            res = var = z3.BitVec(nm, rty)
        a = App(name, list(args), res, var, kind, define, pairs)
        if self.impl is not None and kind == "ieee" and isinstance(rty, str) and define is not None and \
                all(isinstance(x, FV) and x.isconst() for x in args):
            c = self.folded(a, rty)
            if c is not None:
                a.res = c
                self.apps[k] = a
                return c
        self.apps[k] = a
        self._keep.append([akeep(x) for x in args])
        if facts is not None:
            a.facts = [f for f in (z3.simplify(f) for f in facts(args, res)) if not z3.is_true(f)]
        return res

    def concrete(self, a):
        if isinstance(a, FV) and not a.isconst():
            b = z3.simplify(a.ieee())
            if z3.is_bv_value(b):
                return fp.const(b.as_long(), a.fmt)
        return a

    def folded(self, a, fmt):
        """the value of an IEEE operation on constants, from its definition (concrete runs only)"""
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(a.define(a.args, a.res))
        if s.check() != z3.sat:
            return None
        b = z3.simplify(s.model().eval(a.res.ieee(), model_completion=True))
        return fp.const(b.as_long(), fmt) if z3.is_bv_value(b) else None

    def fresh(self, name, sort):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (name, self.fresh_n), sort)

    # ---------------------------------------------------------- queries
    def valid(self, pc, cond):
        """pc -> cond, decided by a quick solver call; False when undecided"""
        if z3.is_true(cond):
            return True
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        key = (pc.get_id(), c.get_id())
        if key in self.qcache:
            return self.qcache[key][0]
        s = z3.SolverFor("QF_BV")
        s.set("timeout", self.qtimeout)
        for x in self.assume:
            s.add(x)
        for a in self.apps.values():
            if a.kind != "ieee":
                s.add(*a.facts)
        s.add(pc, z3.Not(c))
        self.nq += 1
        r = s.check() == z3.unsat
        self.qcache[key] = (r, pc, c)
        return r

    def infeasible(self, pc):
        if z3.is_false(pc):
            return True
        p = z3.simplify(pc)
        if z3.is_false(p):
            return True
        if z3.is_true(p):
            return False
        return self.valid(pc, F)

    def oblige(self, pc, cond, kind, where):
        if z3.is_true(cond):
            self.obls.append(Obl(T, T, kind, where))
            return
        c = z3.simplify(z3.Implies(pc, cond))
        if z3.is_true(c):
            self.obls.append(Obl(T, T, kind, where))
            return
        self.obls.append(Obl(pc, cond, kind, where))

    def fact(self, f):
        if not z3.is_true(f):
            self.facts.append(f)


class App:
    """application of a function known only by facts: an IEEE operation kept
    opaque, a libm function, or a callee contract.  `define` (when present)
    yields the formula that pins the result down completely."""
    __slots__ = ("name", "args", "res", "var", "facts", "define", "kind", "pairs")

    def __init__(self, name, args, res, var, kind, define=None, pairs=None):
        self.name, self.args, self.res, self.var, self.kind, self.define = name, args, res, var, kind, define
        self.facts, self.pairs = [], pairs


def occurs(v, t, _seen=None):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.eq(v):
            return True
        st.extend(x.children())
    return False


def akeep(x):
    if isinstance(x, FV):
        if x.fb is not None:
            return [z3.simplify(y) for y in (x.fb.I, x.fb.nan, x.fb.inf, x.fb.neg)]
        return x.ieee()
    return z3.simplify(b1(x)) if z3.is_bool(x) else z3.simplify(x)


def b1(x):
    return ITE(x, BV(1, 1), BV(0, 1))


def akey(x):
    if isinstance(x, FV):
        if x.fb is not None:
            b = x.fb
            return ("fb", b.k) + tuple(z3.simplify(y).get_id() for y in (b.I, b.nan, b.inf, b.neg))
        return (x.fmt, x.ieee().get_id())
    if z3.is_bool(x):
        x = ITE(x, BV(1, 1), BV(0, 1))
    return z3.simplify(x).get_id()


# --------------------------------------------------------------- memory
# mem: dict obj.id -> dict off -> (Ty, value); cells do not overlap
def cell_bytes(ty, v):
    """little-endian list of BV8"""
    if ty.isfp:
        b = v.ieee()
    elif ty.isint:
        b = bvof(v, ty.n)
        if ty.n % 8:
            b = zext(b, (ty.n + 7) // 8 * 8)
    else:
        raise Unsupported("bytes of %r" % ty)
    return [z3.simplify(z3.Extract(8 * i + 7, 8 * i, b)) for i in range(b.size() // 8)]


def from_bytes(ty, bs):
    if len(bs) == 1:
        b = bs[0]
    else:
        b = z3.Concat(*reversed(bs))
    b = z3.simplify(b)
    if ty.isint:
        if ty.n == 1:
            return z3.Extract(0, 0, b) == BV(1, 1)
        return trunc(b, ty.n)
    return fv_from_ieee(b, ty.k)


def fv_from_ieee(b, fmt):
    b = z3.simplify(b)
    if isnum(b):
        return fp.const(b.as_long(), fmt)
    if fmt == "f80":
        s = z3.Extract(79, 79, b) == BV(1, 1)
        e, f = z3.Extract(78, 64, b), z3.Extract(62, 0, b)
        return FV(fmt, bits=(s, e, f))
    eb, sb = FMT[fmt]
    n = eb + sb
    return FV(fmt, bits=(z3.Extract(n - 1, n - 1, b) == BV(1, 1), z3.Extract(n - 2, sb - 1, b),
                         z3.Extract(sb - 2, 0, b)))


def bvof(v, n):
    if z3.is_bool(v):
        return ITE(v, BV(1, n), BV(0, n))
    return v


def asbool(v):
    return v if z3.is_bool(v) else v == BV(1, v.size())


class Exec:
    def __init__(self, ctx):
        self.c = ctx

    # ------------------------------------------------------------- calls
    def run(self, fn, args, pc, mem=None):
        """execute fn; returns (value, mem, pc at return)"""
        c = self.c
        c.depth += 1
        if getattr(fn, "bad", None):
            raise Unsupported("%s: %s" % (fn.name, fn.bad))
        if c.depth > 40:
            raise Unsupported("call depth (recursion?) in %s" % fn.name)
        self_fn = getattr(self, "fn", None)
        self.fn = fn
        env = {}
        for (ty, nm), a in zip(fn.params, args):
            env[nm] = a
        mem = {} if mem is None else mem
        rets = []
        st = State(pc, env, mem)
        self.region(fn, set(fn.order), fn.order[0], [st], rets, {})
        self.fn = self_fn
        c.depth -= 1
        if not rets:
            raise Unsupported("no feasible return in %s" % fn.name)
        val, m, rpc = None, None, F
        for (s, v) in rets:
            if m is None:
                val, m = v, s.mem
            else:
                val = self.vite(s.pc, v, val) if v is not None else None
                m = self.memite(s.pc, s.mem, m)
            rpc = OR(rpc, s.pc)
        return val, m, rpc

    # --------------------------------------------------- control flow
    def region(self, fn, nodes, entry, entry_states, rets, exits):
        """run the sub-CFG `nodes` from `entry`; edges leaving it are appended
        to exits[target] as states"""
        sccs = self.sccs(fn, nodes, entry)
        pend = {entry: list(entry_states)}
        for comp in sccs:
            heads = [b for b in comp if pend.get(b)]
            if not heads:
                continue
            loop = len(comp) > 1 or comp[0] in fn.blocks[comp[0]].succs()
            if not loop:
                b = comp[0]
                for (tgt, s) in self.block(fn, b, self.merge(fn, b, pend.pop(b)), rets):
                    if tgt in nodes:
                        pend.setdefault(tgt, []).append(s)
                    else:
                        exits.setdefault(tgt, []).append(s)
                continue
            if len(heads) > 1:
                raise Unsupported("irreducible loop in %s" % fn.name)
            h = heads[0]
            states = pend.pop(h)
            cs = set(comp)
            for it in range(MAXITER + 1):
                st = self.merge(fn, h, states)
                if it and self.c.infeasible(st.pc):
                    break
                if it == MAXITER:
                    raise Unsupported("loop in %s not bounded by %d iterations" % (fn.name, MAXITER))
                back, outs = [], {}
                first = self.block(fn, h, st, rets)
                inner = {}
                for (tgt, s) in first:
                    if tgt == h:
                        back.append(s)
                    elif tgt in cs:
                        inner.setdefault(tgt, []).append(s)
                    else:
                        outs.setdefault(tgt, []).append(s)
                if inner:
                    self.region_multi(fn, cs - {h}, inner, rets, h, back, outs)
                for tgt, ss in outs.items():
                    if tgt in nodes:
                        pend.setdefault(tgt, []).extend(ss)
                    else:
                        exits.setdefault(tgt, []).extend(ss)
                states = [s for s in back if not z3.is_false(z3.simplify(s.pc))]
                if not states:
                    break

    def region_multi(self, fn, nodes, starts, rets, h, back, outs):
        order = self.sccs(fn, nodes, None)
        pend = {k: list(v) for k, v in starts.items()}
        for comp in order:
            hs = [b for b in comp if pend.get(b)]
            if not hs:
                continue
            if len(comp) == 1 and comp[0] not in fn.blocks[comp[0]].succs():
                b = comp[0]
                res = self.block(fn, b, self.merge(fn, b, pend.pop(b)), rets)
                items = [(t, [s]) for t, s in res]
            else:
                if len(hs) > 1:
                    raise Unsupported("irreducible loop in %s" % fn.name)
                ex = {}
                self.region(fn, set(comp), hs[0], pend.pop(hs[0]), rets, ex)
                items = list(ex.items())
            for t, ss in items:
                if t == h:
                    back.extend(ss)
                elif t in nodes:
                    pend.setdefault(t, []).extend(ss)
                else:
                    outs.setdefault(t, []).extend(ss)

    def sccs(self, fn, nodes, entry):
        """SCCs of the sub-CFG in topological order (edges back to entry kept)"""
        idx, low, onst, st, out = {}, {}, set(), [], []
        n = [0]

        def go(v):
            work = [(v, iter([s for s in fn.blocks[v].succs() if s in nodes]))]
            idx[v] = low[v] = n[0]
            n[0] += 1
            st.append(v)
            onst.add(v)
            while work:
                u, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = n[0]
                        n[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter([s for s in fn.blocks[w].succs() if s in nodes])))
                        adv = True
                        break
                    elif w in onst:
                        low[u] = min(low[u], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    out.append(comp)
        for v in ([entry] if entry else [b for b in fn.order if b in nodes]):
            if v not in idx:
                go(v)
        return list(reversed(out))

    def merge(self, fn, b, states):
        """merge incoming states, evaluating phis per edge"""
        phis = [i for i in fn.blocks[b].insts if i.op == "phi"]
        evald = []
        for s in states:
            new = {}
            for i in phis:
                for v, lbl in i.args:
                    if lbl == s.prev:
                        new[i.res] = self.val(v, i.ty, s)
                        break
                else:
                    raise Unsupported("phi without edge")
            if new:
                e = dict(s.env)
                e.update(new)
                s = State(s.pc, e, s.mem, s.prev)
            evald.append(s)
        if len(evald) == 1:
            return evald[0]
        base = evald[0]
        env, mem, pc = dict(base.env), base.mem, base.pc
        for s in evald[1:]:
            for k, v in s.env.items():
                if k in env:
                    if env[k] is not v:
                        env[k] = self.vite(s.pc, v, env[k])
                else:
                    env[k] = v
            mem = self.memite(s.pc, s.mem, mem)
            pc = OR(pc, s.pc)
        return State(self.simp(pc), env, mem, None)

    def simp(self, pc):
        return z3.simplify(pc) if not (z3.is_true(pc) or z3.is_false(pc)) else pc

    def vite(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if isinstance(a, FV):
            return fite(c, a, b)
        if isinstance(a, Ptr):
            if a.obj is b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                    return a
                return Ptr(a.obj, ITE(c, self.off(a), self.off(b)))
            if a.obj is None or b.obj is None:
                raise Unsupported("merge of null and pointer")
            return PtrIte(c, a, b)
        if isinstance(a, PtrIte) or isinstance(b, PtrIte):
            return PtrIte(c, a, b)
        if isinstance(a, list):
            return [self.vite(c, x, y) for x, y in zip(a, b)]
        return ITE(c, a, b)

    def off(self, p):
        return BV(p.off, 64) if isinstance(p.off, int) else p.off

    def memite(self, c, m1, m2):
        if m1 is m2:
            return m1
        out = {}
        for o in set(m1) | set(m2):
            a, b = m1.get(o), m2.get(o)
            if a is b or b is None:
                out[o] = a
            elif a is None:
                out[o] = b
            else:
                cells = {}
                keys = set(a) | set(b)
                ok = all(k not in a or k not in b or a[k][0] == b[k][0] for k in keys)
                if ok:
                    for k in keys:
                        x, y = a.get(k), b.get(k)
                        if x is None or y is None:
                            cells[k] = x or y
                        else:
                            cells[k] = (x[0], self.vite(c, x[1], y[1]))
                    # overlapping cells of different layouts: fall to bytes
                    ks = sorted(cells)
                    ok = all(k1 + cells[k1][0].store_size() <= k2 for k1, k2 in zip(ks, ks[1:]))
                if not ok:
                    A, B = self.tobytes(a), self.tobytes(b)
                    cells = {}
                    for k in set(A) | set(B):
                        x, y = A.get(k), B.get(k)
                        cells[k] = x if y is None else y if x is None else (x[0], ITE(c, x[1], y[1]))
                out[o] = cells
        return out

    def tobytes(self, cells):
        out = {}
        for k, (ty, v) in cells.items():
            if isinstance(v, Undef):
                continue
            for i, b in enumerate(cell_bytes(ty, v)):
                out[k + i] = (Ty("i", 8), b)
        return out

    # --------------------------------------------------------- memory ops
    def store(self, st, p, ty, v, where):
        if isinstance(p, PtrIte):
            raise Unsupported("store through merged pointer")
        if p.obj is None or p.obj.const is not None or p.obj.id not in st.mem:
            self.c.stores_global.append((self.fn.name, where, p.obj.name if p.obj else "null"))
            if p.obj is None or p.obj.const is not None:
                self.c.oblige(st.pc, F, "store", where)
                return
            return      # a writable object outside the frame: loads from it are arbitrary values
        off = self.concrete(p, st, where, ty)
        n = ty.store_size()
        if off is None:
            self.store_sym(st, p, ty, v, where)
            return
        self.c.oblige(st.pc, z3.BoolVal(0 <= off and off + n <= p.obj.size), "bounds", where)
        cells = dict(st.mem[p.obj.id])
        for k in list(cells):
            kt, kv = cells[k]
            if k + kt.store_size() <= off or k >= off + n:
                continue
            if k == off and kt.store_size() == n:
                del cells[k]
                continue
            del cells[k]
            if not isinstance(kv, Undef):
                for i, b in enumerate(cell_bytes(kt, kv)):
                    if not (off <= k + i < off + n):
                        cells[k + i] = (Ty("i", 8), b)
        cells[off] = (ty, v)
        st.mem = dict(st.mem)
        st.mem[p.obj.id] = cells

    def store_sym(self, st, p, ty, v, where):
        n = ty.store_size()
        self.c.oblige(st.pc, z3.ULE(p.off, BV(p.obj.size - n, 64)), "bounds", where)
        if p.obj.size > 256:
            raise Unsupported("symbolic store to large object")
        offs = [o for o in range(0, p.obj.size - n + 1, max(1, ty.align()))]
        self.c.oblige(st.pc, OR(*[p.off == BV(o, 64) for o in offs]), "alignment", where)
        for o in offs:
            cells = st.mem[p.obj.id]
            cur = cells.get(o)
            if cur is not None and cur[0] == ty:
                nv = self.vite(p.off == BV(o, 64), v, cur[1])
            elif cur is None:
                nv = v
            else:
                raise Unsupported("symbolic store, mixed layout")
            self.store(st, Ptr(p.obj, o), ty, nv, where)

    def concrete(self, p, st, where, ty):
        if isinstance(p.off, int):
            return p.off
        o = z3.simplify(p.off)
        if isnum(o):
            return o.as_signed_long()
        p.off = o
        return None

    def load(self, st, p, ty, where):
        if isinstance(p, PtrIte):
            return self.vite(p.c, self.load(st, p.a, ty, where), self.load(st, p.b, ty, where))
        if p.obj is None:
            self.c.oblige(st.pc, F, "null dereference", where)
            return self.freshval(ty)
        n = ty.store_size()
        off = self.concrete(p, st, where, ty)
        if p.obj.const is not None:
            if off is not None:
                if not 0 <= off <= p.obj.size - n:
                    self.c.oblige(st.pc, F, "bounds", where)
                    return self.freshval(ty)
                self.c.oblige(st.pc, T, "bounds", where)
                return self.const_load(p.obj, off, ty)
            a = max(1, ty.align())
            self.c.oblige(st.pc, AND(z3.ULE(p.off, BV(p.obj.size - n, 64)),
                                     z3.URem(p.off, BV(a, 64)) == BV(0, 64) if a > 1 else T), "bounds", where)
            r = None
            for o in range(p.obj.size - n - (p.obj.size - n) % a, -1, -a):
                v = self.const_load(p.obj, o, ty)
                r = v if r is None else self.vite(p.off == BV(o, 64), v, r)
            return r
        if p.obj.id not in st.mem:
            self.c.loads_mutable.append((self.fn.name, where, p.obj.name))
            return self.freshval(ty)
        cells = st.mem[p.obj.id]
        if off is None:
            self.c.oblige(st.pc, z3.ULE(p.off, BV(p.obj.size - n, 64)), "bounds", where)
            r = None
            for o in range(0, p.obj.size - n + 1, max(1, ty.align())):
                v = self.load(st, Ptr(p.obj, o), ty, where)
                r = v if r is None else self.vite(p.off == BV(o, 64), v, r)
            return r
        self.c.oblige(st.pc, z3.BoolVal(0 <= off and off + n <= p.obj.size), "bounds", where)
        cur = cells.get(off)
        if cur is not None and cur[0] == ty:
            if isinstance(cur[1], Undef):
                self.c.oblige(st.pc, F, "uninitialised read", where)
                return self.freshval(ty)
            return cur[1]
        bs = self.tobytes({k: cv for k, cv in cells.items() if k < off + n and k + cv[0].store_size() > off})
        out = []
        for i in range(n):
            if off + i not in bs:
                self.c.oblige(st.pc, F, "uninitialised read", where)
                out.append(self.c.fresh("uninit", z3.BitVecSort(8)))
            else:
                out.append(bs[off + i][1])
        return from_bytes(ty, out)

    def const_load(self, obj, off, ty):
        """value of type ty at byte offset off of a constant global"""
        b = obj.const
        n = ty.store_size()
        v = int.from_bytes(bytes(b[off:off + n]), "little")
        if ty.isint:
            return BV(v, ty.n) if ty.n > 1 else z3.BoolVal(bool(v & 1))
        return fp.const(v, ty.k)

    def freshval(self, ty):
        if ty.isint:
            return self.c.fresh("any", z3.BoolSort() if ty.n == 1 else z3.BitVecSort(ty.n))
        if ty.isfp:
            eb, sb = FMT[ty.k]
            self.c.fresh_n += 1
            return fp.var("any!%d" % self.c.fresh_n, ty.k)[0]
        raise Unsupported("fresh %r" % ty)

    def global_obj(self, name):
        mod = self.fn.mod
        if name not in mod.globals:
            raise Unsupported("global %s" % name)
        key = (mod.name, name)
        cache = self.c.__dict__.setdefault("gobj", {})
        if key in cache:
            return cache[key]
        ty, const, init = mod.globals[name]
        if const and init is not None:
            bs = flatten(ty, init)
        else:
            bs = None
        o = Obj(name, ty.size(), bs, ty)
        cache[key] = o
        return o

    # ------------------------------------------------------------- values
    def val(self, v, ty, st):
        k = v[0]
        if k == "loc":
            return st.env[v[1]]
        if k == "int":
            if ty.n == 1:
                return z3.BoolVal(bool(v[1] & 1))
            return BV(v[1], ty.n)
        if k == "fp":
            return fp.const(v[1], ty.k)
        if k == "undef":
            return UNDEF if not ty.isint else self.freshval(ty)
        if k == "glob":
            return Ptr(self.global_obj(v[1]), 0)
        if k == "null":
            return Ptr(None, 0)
        if k == "zero" and ty.isint:
            return BV(0, ty.n)
        if k == "cgep":
            _, t, base, idx = v
            return self.gep(self.val(base, Ty("ptr"), st), t,
                            [(it, self.val(x, it, st)) for it, x in idx], st, "constant gep")
        raise Unsupported("value %r" % (v,))

    def gep(self, p, ty, idx, st, where):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.gep(p.a, ty, idx, st, where), self.gep(p.b, ty, idx, st, where))
        off = p.off
        cur = ty
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                sz = ty.size()
            elif cur.k == "arr":
                cur = cur.el
                sz = cur.size()
            elif cur.k == "struct":
                fi = iv.as_long()
                o = cur.offsets()[0][fi]
                cur = cur.el[fi]
                off = off + o if isinstance(off, int) else off + BV(o, 64)
                continue
            else:
                raise Unsupported("gep into %r" % cur)
            iv = z3.simplify(sext(iv, 64))
            if isnum(iv) and isinstance(off, int):
                off = off + iv.as_signed_long() * sz
            else:
                off = (BV(off, 64) if isinstance(off, int) else off) + iv * BV(sz, 64)
        return Ptr(p.obj, off)

    # -------------------------------------------------------------- block
    def block(self, fn, b, st, rets):
        """execute block b; returns list of (target, state)"""
        st = State(st.pc, dict(st.env), st.mem, st.prev)
        env = st.env
        for i in fn.blocks[b].insts:
            op = i.op
            if op == "phi":
                continue
            if op == "ret":
                v = self.val(i.args[0], i.ty, st) if i.args else None
                rets.append((st, v))
                return []
            if op == "br":
                if len(i.x) == 1:
                    return [(i.x[0], State(st.pc, env, st.mem, b))]
                c = z3.simplify(self.val(i.args[0], Ty("i", 1), st))
                out = []
                if i.x[0] == i.x[1]:
                    return [(i.x[0], State(st.pc, env, st.mem, b))]
                if not z3.is_false(c):
                    p = AND(st.pc, c)
                    if not self.dead(p):
                        out.append((i.x[0], State(p, env, st.mem, b)))
                if not z3.is_true(c):
                    p = AND(st.pc, NOT(c))
                    if not self.dead(p):
                        out.append((i.x[1], State(p, env, st.mem, b)))
                return out
            if op == "switch":
                v = self.val(i.args[0], i.ty, st)
                out, rest = [], T
                for cv, lbl in i.x[1]:
                    c = z3.simplify(v == BV(cv, i.ty.n))
                    p = AND(st.pc, rest, c)
                    if not z3.is_false(c) and not self.dead(p):
                        out.append((lbl, State(p, env, st.mem, b)))
                    rest = AND(rest, NOT(c))
                p = AND(st.pc, rest)
                if not self.dead(p):
                    out.append((i.x[0], State(p, env, st.mem, b)))
                return out
            if op == "unreachable":
                self.c.oblige(st.pc, F, "unreachable", fn.name)
                return []
            r = self.inst(fn, i, st)
            if i.res is not None:
                env[i.res] = r
        raise Unsupported("block without terminator")

    def dead(self, pc):
        p = z3.simplify(pc)
        if z3.is_false(p):
            return True
        return self.c.infeasible(p)

    def inst(self, fn, i, st):
        op, c = i.op, self.c
        where = "%s: %s" % (fn.name, i.text)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = self.val(i.args[0], i.ty, st), self.val(i.args[1], i.ty, st)
            return self.binop(op, a, b, i.ty.n, i.x, st, where)
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self.val(i.args[0], i.ty, st), self.val(i.args[1], i.ty, st)
            return getattr(self, op)(a, b, st)
        if op == "fneg":
            return self.fneg(self.val(i.args[0], i.ty, st))
        if op == "freeze":
            return self.val(i.args[0], i.ty, st)
        if op == "icmp":
            a, b = self.val(i.args[0], i.ty, st), self.val(i.args[1], i.ty, st)
            return self.icmp(i.x, a, b, i.ty)
        if op == "fcmp":
            a, b = self.val(i.args[0], i.ty, st), self.val(i.args[1], i.ty, st)
            return self.fcmp(i.x, a, b)
        if op == "select":
            cnd = z3.simplify(asbool(self.val(i.args[0], Ty("i", 1), st)))
            a, b = self.val(i.args[1], i.ty, st), self.val(i.args[2], i.ty, st)
            return self.vite(cnd, a, b)
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast",
                  "ptrtoint", "inttoptr"):
            fty, v = i.args[0]
            return self.cast(op, self.val(v, fty, st), fty, i.ty, st, where, i.x)
        if op == "alloca":
            o = Obj(i.res, i.ty.size() * i.x, None, i.ty)
            st.mem = dict(st.mem)
            st.mem[o.id] = {}
            return Ptr(o, 0)
        if op == "load":
            return self.load(st, self.val(i.args[0], Ty("ptr"), st), i.ty, where)
        if op == "store":
            self.store(st, self.val(i.args[1], Ty("ptr"), st), i.ty, self.val(i.args[0], i.ty, st), where)
            return None
        if op == "getelementptr":
            base = self.val(i.args[0], Ty("ptr"), st)
            return self.gep(base, i.ty, [(t, self.val(v, t, st)) for t, v in i.args[1]], st, where)
        if op == "call":
            args = [self.val(v, t, st) for t, v in i.args]
            return self.call(fn, i.x, args, [t for t, _ in i.args], i.ty, st, where)
        if op == "extractvalue":
            v = self.val(i.args[0], i.ty, st)
            for k in i.x:
                v = v[k]
            return v
        raise Unsupported("instruction %s" % i.text)

    def binop(self, op, a, b, n, flags, st, where):
        c = self.c
        if n == 1:
            a, b = asbool(a), asbool(b)
            if op == "and":
                return AND(a, b)
            if op == "or":
                return OR(a, b)
            if op in ("xor", "add", "sub"):
                return XOR(a, b)
            raise Unsupported("i1 %s" % op)
        flags = flags or ()
        if op in ("add", "sub", "mul"):
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: self.mul(a, b)}[op]()
            if "nsw" in flags:
                w = n + 1 if op != "mul" else sbits(a) + sbits(b)
                if op == "mul":
                    if w > n:
                        c.oblige(st.pc, AND(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)),
                                 "signed overflow", where)
                    else:
                        c.oblige(st.pc, T, "signed overflow", where)
                elif max(sbits(a), sbits(b)) + 1 <= n:
                    c.oblige(st.pc, T, "signed overflow", where)
                else:
                    x, y = sext(a, n + 1), sext(b, n + 1)
                    e = x + y if op == "add" else x - y
                    c.oblige(st.pc, e == sext(r, n + 1), "signed overflow", where)
            if "nuw" in flags:
                w = 2 * n
                x, y = zext(a, w), zext(b, w)
                e = {"add": x + y, "sub": x - y, "mul": x * y}[op]
                c.oblige(st.pc, e == zext(r, w), "unsigned overflow", where)
            return self.fold(r)
        if op in ("shl", "lshr", "ashr"):
            c.oblige(st.pc, z3.ULT(b, BV(n, n)), "shift amount", where)
            if op == "lshr" and not isnum(z3.simplify(b)):
                r = self.unnormalise(a, b, n, st)
                if r is not None:
                    return r
            r = {"shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}[op]()
            if op == "shl" and "nsw" in flags:
                c.oblige(st.pc, (r >> b) == a, "signed shift overflow", where)
            return self.fold(r)
        if op in ("udiv", "sdiv", "urem", "srem"):
            nz = b != BV(0, n)
            if op[0] == "s":
                nz = AND(nz, NOT(AND(a == BV(1 << (n - 1), n), b == BV(-1, n))))
            c.oblige(st.pc, nz, "division", where)
            if isnum(b) and op == "srem" and b.as_signed_long() > 0 and (b.as_long() & (b.as_long() - 1)) == 0:
                # x srem 2^j without a divider circuit
                j = b.as_long().bit_length() - 1
                if j == 0:
                    return BV(0, n)
                low = zext(z3.Extract(j - 1, 0, a), n)
                return self.fold(ITE(AND(a < BV(0, n), low != BV(0, n)), low - BV(1 << j, n), low))
            r = {"udiv": lambda: z3.UDiv(a, b), "sdiv": lambda: a / b, "urem": lambda: z3.URem(a, b),
                 "srem": lambda: z3.SRem(a, b)}[op]()
            return self.fold(r)
        r = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[op]()
        return self.fold(r)

    def unnormalise(self, a, b, n, st):
        """a >> b where a holds the leading n bits of a normalised significand m << lz and b = lz + d:
        the result is (m shifted by a constant); justified by the facts of `norm` and a solver query"""
        c = self.c
        bs = z3.simplify(b)
        for ap in list(c.apps.values()):
            if ap.name != "norm" or not occurs(ap.var, bs):
                continue
            m = ap.args[0]
            W = m.size()
            M, lz = z3.Extract(W + 11, 12, ap.res), z3.Extract(11, 0, ap.res)
            w = min(n, 32)
            sv = z3.SolverFor("QF_BV")
            sv.set("timeout", c.qtimeout)
            sv.add(*c.assume)
            sv.add(st.pc, *ap.facts)
            c.nq += 1
            if sv.check() != z3.sat:
                continue
            d = sv.model().eval(trunc(bs, w) - zext(lz, w), model_completion=True).as_signed_long()
            if abs(d) > 4096:
                continue
            X = z3.Extract(W - 1, W - n, M) if W >= n else z3.Concat(M, BV(0, n - W))
            want = AND(bs == sext(zext(lz, w) + BV(d, w), n) if n > w else bs == zext(lz, w) + BV(d, w),
                       a == X, z3.ULT(b, BV(n, n)))
            if not c.valid(AND(st.pc, *ap.facts), want):
                continue
            # floor(m * 2^(n-W) / 2^d)
            sh = W - n + d
            if sh <= 0:
                r = trunc(shl_c(zext(m, max(W, n)), -sh), n)
            elif sh >= W:
                r = BV(0, n)
            else:
                r = z3.Extract(W - 1, sh, m)
                r = zext(r, n) if r.size() <= n else trunc(r, n)
            c.unnorm = getattr(c, "unnorm", 0) + 1
            return r
        return None

    def fold(self, r):
        if all(isnum(x) or z3.is_true(x) or z3.is_false(x) for x in r.children()):
            return z3.simplify(r)
        return r

    def mul(self, a, b):
        return a * b

    def icmp(self, p, a, b, ty):
        if ty.k == "ptr":
            if p in ("eq", "ne") and isinstance(a, Ptr) and isinstance(b, Ptr):
                r = z3.BoolVal(a.obj is b.obj and a.off == b.off) if (a.obj is not b.obj or isinstance(a.off, int)) \
                    else self.off(a) == self.off(b)
                return r if p == "eq" else NOT(r)
            raise Unsupported("pointer comparison")
        if ty.n == 1:
            a, b = bvof(a, 1), bvof(b, 1)
        r = {"eq": lambda: a == b, "ne": lambda: NOT(a == b), "slt": lambda: a < b, "sle": lambda: a <= b,
             "sgt": lambda: a > b, "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
             "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[p]()
        return z3.simplify(r)

    # ---------------------------------------------------------------- floats
    def fcmp(self, p, a, b):
        if p == "true":
            return T
        if p == "false":
            return F
        un = OR(a.isnan(), b.isnan())
        if p == "uno":
            return z3.simplify(un)
        if p == "ord":
            return z3.simplify(NOT(un))
        lt, eq = self.flt_feq(a, b)
        base = p[1:]
        r = {"eq": eq, "ne": NOT(eq), "lt": lt, "le": OR(lt, eq), "gt": AND(NOT(lt), NOT(eq)),
             "ge": NOT(lt)}[base]
        r = AND(NOT(un), r) if p[0] == "o" else OR(un, r)
        return z3.simplify(r)

    def flt_feq(self, a, b):
        """(a<b, a==b) for non-NaN a, b"""
        if a.fb is not None and b.fb is not None:
            x, y = a.fb, b.fb
            p, q, k = align(x, y)
            fx, fy = NOT(x.inf), NOT(y.inf)
            lt = OR(AND(fx, fy, p < q), AND(x.inf, x.neg, NOT(AND(y.inf, y.neg))),
                    AND(y.inf, NOT(y.neg), NOT(AND(x.inf, NOT(x.neg)))))
            eq = OR(AND(fx, fy, p == q), AND(x.inf, y.inf, x.neg == y.neg))
            return lt, eq
        p, q = fp.key(a), fp.key(b)
        return p < q, p == q

    def fneg(self, a):
        if a.fb is not None:
            b = a.fb
            return FV(a.fmt, fb=FB(b.nan, b.inf, NOT(b.neg), fp.neg(b.I), b.k))
        s, e, f = a.bits
        return FV(a.fmt, bits=(NOT(s), e, f))

    def fabs(self, a):
        if a.fb is not None:
            b = a.fb
            I = sext(b.I, b.W + 1)
            return FV(a.fmt, fb=FB(b.nan, b.inf, F, ITE(z3.simplify(b.I < BV(0, b.W)), fp.neg(b.I), I), b.k))
        s, e, f = a.bits
        return FV(a.fmt, bits=(F, e, f))

    def tighten(self, I, pc):
        """smaller width for I justified by the path condition"""
        I = shrink(I)
        W = I.size()
        if W <= 8 or isnum(I):
            return I
        lo, hi = 1, W
        # exponential-ish search from below costs solver calls; try few candidates
        for w in (W // 4, W // 2, 3 * W // 4, W - 8, W - 4, W - 2, W - 1):
            if 1 <= w < hi:
                ext = z3.Extract(W - 1, w - 1, I)
                if self.c.valid(pc, OR(ext == BV(0, W - w + 1), ext == BV(-1, W - w + 1))):
                    return trunc(I, w)
        return I

    def mkfb(self, fmt, nan, inf, neg, I, k, st, special=None):
        """FB result of an operation with exact value I*2^-k, rounded if needed.
        neg = sign when the exact value is zero"""
        p = FMT[fmt][1]
        I = shrink(z3.simplify(I))
        if I.size() - 1 > p:
            live = AND(st.pc, NOT(nan), NOT(inf))
            if not self.c.valid(live, fits_expr(I, p)):
                self.c.rounded += 1
                I = self.round_known(I, p, live, k)
            I = shrink(I)
        return FV(fmt, fb=FB(nan, inf, neg, I, k))

    def round_known(self, I, p, pc, k):
        """round to p significant bits; at a fixed position when the leading bit is known"""
        W = I.size()
        neg = z3.simplify(I < BV(0, W))
        if self.c.valid(pc, NOT(neg)):
            for top in range(W - 2, max(p - 1, W - 6), -1):
                hi = z3.Extract(W - 1, top, I)
                if self.c.valid(pc, hi == BV(1, W - top)):
                    j = top + 1 - p
                    if j <= 0:
                        return I
                    m = zext(I, W + 1)
                    low = z3.Extract(j - 1, 0, m)
                    up = z3.Extract(W, j, m)
                    half = BV(1 << (j - 1), j)
                    inc = OR(z3.UGT(low, half), AND(low == half, z3.Extract(0, 0, up) == BV(1, 1)))
                    return z3.Concat(up + ITE(inc, BV(1, W + 1 - j), BV(0, W + 1 - j)), BV(0, j))
        return fp.rnd(I, p, k)

    def usable(self, a):
        return a.fb is not None and a.fb.W <= 300 and a.fb.k <= 300

    def fadd(self, a, b, st):
        if self.usable(a) and self.usable(b):
            x, y = a.fb, b.fb
            nan = OR(x.nan, y.nan, AND(x.inf, y.inf, XOR(x.neg, y.neg)))
            inf = OR(x.inf, y.inf)
            p, q, k = align(x, y)
            w = p.size() + 1
            I = fp.addI(p, q)
            if w <= 400:
                zs = AND(x.sign(), y.sign())
                neg = ITE(x.inf, x.neg, ITE(y.inf, y.neg, zs))
                return self.mkfb(a.fmt, nan, inf, neg, I, k, st)
        for u, v in ((a, b), (b, a)):
            if u.fb is not None and u.fb.isconst():
                if isnum(u.fb.I) and u.fb.I.as_long() == 0:
                    # 0 + v = v, except that opposite zeros give +0
                    z = v.iszero()
                    s, e, f = v.bits
                    return FV(a.fmt, bits=(ITE(z, AND(s, u.sign()), s), e, f))
                x = abs(u.fb.I.as_signed_long())
                lim = x.bit_length() - 1 - u.fb.k - (FMT[a.fmt][1] - 1) - 2   # quarter ulp = 2^lim
                eb = FMT[a.fmt][0]
                bias = (1 << (eb - 1)) - 1
                if 0 < lim + bias < (1 << eb) - 1 and \
                        self.c.valid(st.pc, z3.ULT(v.bits[1], BV(lim + bias, eb))):
                    return u
        return self.fop("add", a, b)

    def fsub(self, a, b, st):
        return self.fadd(a, self.fneg(b), st)

    def unit(self, a, pc):
        """a is provably in {-1, 0, 1} (finite): returns the integer term or None"""
        if a.fb is None or a.fb.k != 0:
            return None
        b = a.fb
        if not (z3.is_false(b.nan) and z3.is_false(b.inf)):
            return None
        W = b.W
        if isnum(b.I):
            return b.I if b.I.as_signed_long() in (-1, 0, 1) else None
        I = b.I
        ok = OR(I == BV(0, W), I == BV(-1, W), I == BV(1, W)) if W > 1 else T
        return I if self.c.valid(pc, ok) else None

    def sgnmul(self, a, I, aux):
        """a * I with I in {-1,0,1} (aux: the FV holding I)"""
        W = I.size()
        z = BV(0, W)
        s = a.sign()
        neg = XOR(s, aux.sign())
        fin = NOT(OR(a.isnan(), a.isinf()))
        fl = fite(I < z, self.fneg(a), a)
        if isnum(I) and I.as_signed_long() != 0:
            return fl
        if self.c.valid(T, I != z):
            return fl
        zero = FV(a.fmt, fb=FB(NOT(fin), F, neg, BV(0, 1), 0))
        return fite(I == z, zero, fl)

    def fmul(self, a, b, st):
        ua, ub = self.unit(a, st.pc), self.unit(b, st.pc)
        if ub is not None and not (ua is not None and isnum(ua)):
            return self.sgnmul2(a, ub, b, st)
        if ua is not None:
            return self.sgnmul2(b, ua, a, st)
        if self.usable(a) and self.usable(b):
            x, y = a.fb, b.fb
            nan = OR(x.nan, y.nan, AND(x.inf, b.iszero()), AND(y.inf, a.iszero()))
            inf = OR(x.inf, y.inf)
            neg = XOR(x.sign(), y.sign())
            I = self.c.imul(x.I, y.I, st.pc) if hasattr(self.c, "imul") else None
            if I is None:
                w = x.W + y.W
                I = sext(x.I, w) * sext(y.I, w)
            if I.size() <= 400:
                return self.mkfb(a.fmt, nan, inf, neg, I, x.k + y.k, st)
        for u, v in ((a, b), (b, a)):
            e = pow2(u)
            if e is not None and v.fb is None:
                return self.scale(v, e, st)
        return self.fop("mul", a, b)

    def sgnmul2(self, a, I, aux, st):
        W = I.size()
        z = BV(0, W)
        s = a.sign()
        fl = fite(I < z, self.fneg(a), a)
        if self.c.valid(st.pc, I != z):
            return fl
        fin = NOT(OR(a.isnan(), a.isinf()))
        zero = FV(a.fmt, fb=FB(NOT(fin), F, XOR(s, aux.sign()), BV(0, 1), 0))
        return fite(I == z, zero, fl)

    def scale(self, v, e, st):
        """v * 2^e for generic v: exact on the exponent field while the result stays normal"""
        eb, sb = FMT[v.fmt]
        bias = (1 << (eb - 1)) - 1
        s, ex, f = v.bits
        w = eb + 3
        if abs(e) >= 1 << eb:
            return self.fop("mul", v, fp.cst(1, v.fmt))
        ne = zext(ex, w) + BV(e, w)
        W = sb
        sig = z3.Concat(BV(1, 1), f)
        keep = OR(v.isnan(), v.isinf(), v.iszero())
        ok = AND(ex != BV(0, eb), ne > BV(0, w), ne < BV((1 << eb) - 1, w))
        if self.c.valid(st.pc, OR(keep, ok)):
            return FV(v.fmt, bits=(s, ITE(keep, ex, trunc(ne, eb)), f))
        # general case: renormalise and round
        m, lz = clz_norm(f)
        e0 = ex == BV(0, eb)
        ww = eb + 5
        ue = ITE(e0, BV(-bias, ww) - (sext(lz, ww) if ww >= lz.size() else trunc(lz, ww)),
                 zext(ex, ww) - BV(bias, ww)) + BV(e, ww)
        sg = ITE(e0, z3.Concat(m, BV(0, 1)), sig)
        return fp.round_pack(s, ue, sg, v.fmt, v.isnan(), v.isinf(), v.iszero())

    def fdiv(self, a, b, st):
        ub = self.unit(b, st.pc)
        if ub is not None and isnum(ub) and ub.as_long() != 0:
            return self.sgnmul2(a, ub, b, st)
        if b.fb is not None and b.fb.isconst() and a.fb is not None:
            e = pow2(b)
            if e is not None:
                return self.ldexp_fb(a, -e, st)
        return self.fop("div", a, b)

    def fop(self, op, a, b):
        """IEEE operation on generic operands: an opaque application (commutative
        operands in canonical order, signs factored out of products and quotients)"""
        fmt = a.fmt
        if a.isconst() and b.isconst():
            f = {"add": z3.fpAdd, "mul": z3.fpMul, "div": z3.fpDiv}[op]
            return self.fvt(z3.simplify(f(RNE, a.t, b.t)), fmt)
        if op == "add":
            if a.ieee().get_id() > b.ieee().get_id():
                a, b = b, a
            return self.c.app("f%s_%s" % (op, fmt), [a, b], fmt, "ieee", ADDFACTS, lambda x, r: ieee_def("add", x, r))
        sg = XOR(a.sign(), b.sign())
        a, b = self.fabs(a), self.fabs(b)
        if op == "mul" and a.ieee().get_id() > b.ieee().get_id():
            a, b = b, a
        r = self.c.app("f%s_%s" % (op, fmt), [a, b], fmt, "ieee", MULFACTS if op == "mul" else DIVFACTS,
                       lambda x, r: ieee_def(op, x, r))
        s, e, f = r.bits
        return FV(fmt, bits=(XOR(s, sg), e, f))

    def fvt(self, t, fmt):
        t = z3.simplify(t)
        n = fp.fpval_bits(t, fmt)
        if fmt == "f80":
            e = (n >> 63) & 0x7FFF
            n = ((n >> 78) << 79) | (e << 64) | ((1 << 63) if e else 0) | (n & ((1 << 63) - 1))
        return fp.const(n, fmt)

    def ldexp_fb(self, a, n, st):
        """a * 2^n, n a Python int; a FB"""
        b = a.fb
        eb, sb = FMT[a.fmt]
        bias = (1 << (eb - 1)) - 1
        k = b.k - n
        I = b.I
        if k < 0:
            I, k = shl_c(I, -k), 0
        if I.size() - k > bias or k > bias - 1:
            raise Unsupported("ldexp leaves the normal range")
        return FV(a.fmt, fb=FB(b.nan, b.inf, b.neg if not True else a.sign(), I, k))

    def cast(self, op, v, fty, ty, st, where, flags):
        c = self.c
        if op == "zext":
            return bvof(v, ty.n) if fty.n == 1 else zext(v, ty.n)
        if op == "sext":
            return ITE(v, BV(-1, ty.n), BV(0, ty.n)) if fty.n == 1 else sext(v, ty.n)
        if op == "trunc":
            if ty.n == 1:
                return z3.simplify(z3.Extract(0, 0, v) == BV(1, 1))
            return self.fold(trunc(v, ty.n))
        if op == "bitcast":
            if fty == ty:
                return v
            if fty.isfp and ty.isint:
                return v.ieee()
            if fty.isint and ty.isfp:
                return fv_from_ieee(v, ty.k)
            raise Unsupported("bitcast")
        if op in ("sitofp", "uitofp"):
            if z3.is_bool(v):
                I = ITE(v, BV(-1 if op == "sitofp" else 1, 2), BV(0, 2))
            else:
                I = v if op == "sitofp" else zext(v, fty.n + 1)
            I = z3.simplify(I)
            I = shrink(I)
            if I.size() > 12 and not isnum(I):
                I = self.tighten(I, st.pc)
            return self.mkfb(ty.k, F, F, F, I, 0, st)
        if op in ("fptosi", "fptoui"):
            n = ty.n
            if v.fb is not None:
                b = v.fb
                q = self.truncint(b)
                w = max(q.size(), n) + 1
                qq = sext(q, w)
                if op == "fptosi":
                    ok = AND(qq >= BV(-(1 << (n - 1)), w), qq <= BV((1 << (n - 1)) - 1, w))
                else:
                    ok = AND(qq >= BV(0, w), qq <= BV((1 << n) - 1, w))
                c.oblige(st.pc, AND(NOT(b.nan), NOT(b.inf), ok), "float to integer range", where)
                return trunc(sext(q, max(n, q.size())), n)
            # generic: integer part by shifting the significand
            sg, e, f = v.bits
            eb, sb = FMT[v.fmt]
            bias = (1 << (eb - 1)) - 1
            W = n + sb + 2
            sig = zext(z3.Concat(BV(1, 1), f), W)
            w = max(eb + 2, W.bit_length() + 2)
            sh = zext(e, w) - BV(bias + sb - 1, w)          # sig * 2^sh
            shl = trunc(sh, W) if w >= W else sext(sh, W)
            shr = -shl
            mag = ITE(zext(e, w) < BV(bias, w), BV(0, W), ITE(sh >= BV(0, w), sig << shl, z3.LShR(sig, shr)))
            big = zext(e, w) > BV(bias + n, w)
            q = ITE(sg, -mag, mag)
            if op == "fptosi":
                ok = AND(q >= BV(-(1 << (n - 1)), W), q <= BV((1 << (n - 1)) - 1, W))
            else:
                ok = AND(q >= BV(0, W), q <= BV((1 << n) - 1, W))
            c.oblige(st.pc, AND(NOT(big), NOT(v.isnan()), NOT(v.isinf()), ok), "float to integer range", where)
            return trunc(q, n)
        if op == "fpext":
            if v.fb is not None:
                return FV(ty.k, fb=v.fb)
            return fp.convert(v, ty.k)
        if op == "fptrunc":
            if v.fb is not None and self.usable(v):
                b = v.fb
                eb, sb = FMT[ty.k]
                bias = (1 << (eb - 1)) - 1
                if b.W - b.k + 1 < bias and b.k < bias - 1:
                    return self.mkfb(ty.k, b.nan, b.inf, v.sign(), b.I, b.k, st)
            return fp.convert(v, ty.k)
        raise Unsupported("cast %s" % op)

    def truncint(self, b):
        if b.k == 0:
            return b.I
        W = b.W
        if isnum(b.I):
            x = b.I.as_signed_long()
            q = abs(x) >> b.k
            q = -q if x < 0 else q
            return BV(q, abs(q).bit_length() + 1)
        if b.k >= W:
            return BV(0, 1)
        I = sext(b.I, W + 1)
        adj = ITE(b.I < BV(0, W), I + BV((1 << b.k) - 1, W + 1), I)
        return z3.Extract(W, b.k, adj)

    def floor(self, a, st):
        if a.fb is not None:
            b = a.fb
            if b.k == 0:
                return a
            if isnum(b.I):
                q = b.I.as_signed_long() >> b.k
                q = BV(q, abs(q).bit_length() + 1)
            elif b.k >= b.W:
                q = ITE(b.I < BV(0, b.W), BV(-1, 2), BV(0, 2))
            else:
                q = z3.Extract(b.W - 1, b.k, b.I)
            return FV(a.fmt, fb=FB(b.nan, b.inf, a.sign(), q, 0))
        return self.rti(a, "RTN", st)

    def rti(self, a, rm, st):
        """round to integral of a generic value"""
        if a.fb is not None and rm in ("RTN", "RTP"):
            return self.floor(a, st) if rm == "RTN" else self.fneg(self.floor(self.fneg(a), st))
        if a.fb is not None and rm == "RTZ" and self.usable(a):
            b = a.fb
            return FV(a.fmt, fb=FB(b.nan, b.inf, a.sign(), self.truncint(b), 0))
        if a.isconst():
            return self.fvt(z3.fpRoundToIntegral(RMS[rm], a.t), a.fmt)
        if rm in ("RTN", "RTZ", "RTP"):
            one = fp.cst(1, a.fmt)
            small = fp.lt(self.fabs(a), one)
            if self.c.valid(st.pc, small):
                z = AND(NOT(a.iszero()), a.sign() if rm == "RTN" else NOT(a.sign())) if rm != "RTZ" else F
                zero = FV(a.fmt, fb=FB(F, F, a.sign(), BV(0, 1), 0))
                return fite(z, fp.cst(-1 if rm == "RTN" else 1, a.fmt), zero)
        return self.c.app("rti_%s_%s" % (rm, a.fmt), [a], a.fmt, "ieee", RTIFACTS,
                          lambda x, r: fpdef(z3.fpRoundToIntegral(RMS[rm], x[0].term()), r))

    # ------------------------------------------------------------------ calls
    def call(self, fn, name, args, tys, rty, st, where):
        c = self.c
        if name.startswith("llvm."):
            return self.intrinsic(name, args, tys, rty, st, where)
        target = c.prog.lookup(fn.mod, name)
        con = None
        if target is not None:
            con = c.contracts.get((target.mod.name, name)) if target.internal else c.contracts.get(name)
        if con is not None:
            c.called[name] = c.called.get(name, 0) + 1
            saved = self.fn
            r = con(self, args, st, where)
            self.fn = saved
            return r
        if target is not None:
            c.inlined[name] = c.inlined.get(name, 0) + 1
            c.trail.append(name)
            v, mem, rpc = self.run(target, args, st.pc, st.mem)
            c.trail.pop()
            st.mem = mem
            return v
        m = LIBM.get(name)
        if m is None:
            raise Unsupported("call to unmodelled external function %s" % name)
        c.libm_used[name] = c.libm_used.get(name, 0) + 1
        return m(self, args, tys, st, where)

    def intrinsic(self, name, args, tys, rty, st, where):
        base = name[5:]
        if base.startswith("fabs."):
            return self.fabs(args[0])
        if base.startswith("floor."):
            return self.floor(args[0], st)
        if base.startswith("is.fpclass."):
            return self.fpclass(args[0], z3.simplify(args[1]).as_long())
        if base.startswith("fmuladd."):
            return self.fadd(self.fmul(args[0], args[1], st), args[2], st)
        if base.startswith("copysign."):
            a = self.fabs(args[0])
            return fite(args[1].sign(), self.fneg(a), a)
        if base.startswith("abs."):
            n = rty.n
            z = asbool(args[1])
            self.c.oblige(st.pc, OR(NOT(z), args[0] != BV(1 << (n - 1), n)), "abs overflow", where)
            return ITE(args[0] < BV(0, n), -args[0], args[0])
        if base.split(".")[0] in ("smax", "smin", "umax", "umin"):
            a, b = args
            k = base.split(".")[0]
            lt = (a < b) if k[0] == "s" else z3.ULT(a, b)
            return ITE(lt, b, a) if k.endswith("max") else ITE(lt, a, b)
        if base.startswith("ctlz.") or base.startswith("cttz.") or base.startswith("ctpop."):
            n = rty.n
            a = args[0]
            if base.startswith("ctpop"):
                r = BV(0, n)
                for i in range(n):
                    r = r + zext(z3.Extract(i, i, a), n)
                return r
            if z3.is_true(z3.simplify(asbool(args[1]))):
                self.c.oblige(st.pc, a != BV(0, n), "clz/ctz of zero", where)
            r = BV(n, n)
            rng = range(n) if base.startswith("ctlz") else range(n - 1, -1, -1)
            for i in rng:
                r = ITE(z3.Extract(i, i, a) == BV(1, 1), BV(n - 1 - i if base.startswith("ctlz") else i, n), r)
            return r
        if base.startswith("fshl.") or base.startswith("fshr."):
            n = rty.n
            a, b, s = args
            s = z3.URem(zext(s, 2 * n), BV(n, 2 * n))
            ab = z3.Concat(a, b)
            return z3.Extract(2 * n - 1, n, ab << s) if base[3] == "l" else z3.Extract(n - 1, 0, z3.LShR(ab, s))
        if base.startswith("bswap."):
            n = rty.n
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, args[0]) for i in range(n // 8)])
        if base.startswith("memcpy.") or base.startswith("memmove."):
            dst, src, n = args[0], args[1], z3.simplify(args[2])
            if not isnum(n) or not isinstance(dst, Ptr) or not isinstance(src, Ptr):
                raise Unsupported("memcpy")
            n = n.as_long()
            vals = []
            if src.obj.const is None and src.obj.id in st.mem:
                cells = st.mem[src.obj.id]
                if isinstance(src.off, int):
                    inside = {k: v for k, v in cells.items() if src.off <= k and k + v[0].store_size() <= src.off + n}
                    over = [k for k, v in cells.items() if k < src.off + n and k + v[0].store_size() > src.off
                            and k not in inside]
                    if not over:
                        for k, (t, v) in inside.items():
                            self.store(st, Ptr(dst.obj, dst.off + k - src.off), t, v, where)
                        return None
            for i in range(n):
                vals.append(self.load(st, self.gep(src, Ty("i", 8), [(Ty("i", 64), BV(i, 64))], st, where),
                                      Ty("i", 8), where))
            for i, v in enumerate(vals):
                self.store(st, self.gep(dst, Ty("i", 8), [(Ty("i", 64), BV(i, 64))], st, where), Ty("i", 8), v, where)
            return None
        if base.startswith("memset."):
            dst, v, n = args[0], args[1], z3.simplify(args[2])
            if not isnum(n):
                raise Unsupported("memset")
            for i in range(n.as_long()):
                self.store(st, self.gep(dst, Ty("i", 8), [(Ty("i", 64), BV(i, 64))], st, where), Ty("i", 8), v, where)
            return None
        if base.startswith("sqrt."):
            return LIBM["sqrt"](self, args, tys, st, where)
        for nm in ("minnum", "maxnum"):
            if base.startswith(nm + "."):
                return fminmax(args[0], args[1], nm == "maxnum")
        if base.startswith(("fma.", "powi.", "exp.", "exp2.", "log.", "log2.", "log10.", "pow.", "sin.", "cos.")):
            nm = base.split(".")[0] + {"f32": "f", "f64": "", "f80": "l"}[rty.k]
            return LIBM[nm](self, args, tys, st, where)
        for nm in ("trunc", "ceil", "rint", "nearbyint", "round", "roundeven"):
            if base.startswith(nm + "."):
                rm = {"trunc": "RTZ", "ceil": "RTP", "rint": "RNE", "nearbyint": "RNE", "round": "RNA",
                      "roundeven": "RNE"}[nm]
                return self.rti(args[0], rm, st)
        raise Unsupported("intrinsic %s" % name)

    def fpclass(self, a, mask):
        nan, inf = a.isnan(), a.isinf()
        out = F
        if mask & 3 == 3:
            out = OR(out, nan)
        elif mask & 3:
            raise Unsupported("signalling NaN class test")
        s = a.sign() if mask & ~0x207 or (mask & 0x204) not in (0, 0x204) else None
        if mask & 0x204 == 0x204:
            out = OR(out, inf)
        elif mask & 0x200:
            out = OR(out, AND(inf, NOT(s)))
        elif mask & 4:
            out = OR(out, AND(inf, s))
        rest = mask & 0x1F8
        if rest == 0x1F8:
            out = OR(out, NOT(OR(nan, inf)))
            rest = 0
        if rest & 0x60:
            z = a.iszero()
            if rest & 0x60 == 0x60:
                out = OR(out, z)
            else:
                out = OR(out, AND(z, s if rest & 0x20 else NOT(s)))
        if rest & 0x198:
            bs, be, bf = a.bits
            sub = AND(be == BV(0, be.size()), bf != BV(0, bf.size()))
            nor = AND(be != BV(0, be.size()), be != BV(-1, be.size()))
            for bit, what, sg in ((8, nor, True), (0x10, sub, True), (0x80, sub, False), (0x100, nor, False)):
                if rest & bit:
                    out = OR(out, AND(what, s if sg else NOT(s)))
        return z3.simplify(out)


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


RMS = {"RTN": z3.RTN(), "RTZ": z3.RTZ(), "RTP": z3.RTP(), "RNE": RNE, "RNA": z3.RNA()}


def fpdef(t, r):
    """r is the datum denoted by the SMT float term t"""
    rt = r.term()
    return z3.If(z3.fpIsNaN(t), r.isnan(), rt == t)


def ieee_def(op, x, r):
    f = {"add": z3.fpAdd, "mul": z3.fpMul, "div": z3.fpDiv}[op]
    return fpdef(f(RNE, x[0].term(), x[1].term()), r)


Imp = z3.Implies


def ADDFACTS(x, r):
    a, b = x
    an = OR(a.isnan(), b.isnan(), AND(a.isinf(), b.isinf(), XOR(a.sign(), b.sign())))
    fin = AND(a.fin(), b.fin())
    out = [r.isnan() == an,
           Imp(AND(a.isinf(), NOT(an)), AND(r.isinf(), r.sign() == a.sign())),
           Imp(AND(b.isinf(), NOT(an)), AND(r.isinf(), r.sign() == b.sign())),
           Imp(AND(fin, a.iszero(), NOT(b.iszero())), fp.same(r, b)),
           Imp(AND(fin, b.iszero(), NOT(a.iszero())), fp.same(r, a)),
           Imp(AND(fin, a.iszero(), b.iszero()), AND(r.iszero(), r.sign() == AND(a.sign(), b.sign()))),
           # an exact sum of two non-zero numbers is zero only if they cancel; gradual underflow keeps the rest
           Imp(AND(fin, NOT(a.iszero()), NOT(b.iszero())),
               r.iszero() == AND(fp.key(a) == -fp.key(b))),
           Imp(AND(NOT(an), NOT(r.iszero()), a.sign() == b.sign()), r.sign() == a.sign()),
           Imp(AND(NOT(an), r.iszero(), NOT(a.iszero())), NOT(r.sign())),
           # monotonicity: adding a number of known sign moves in that direction (weakly)
           Imp(AND(fin, NOT(b.sign())), fp.key(r) >= fp.key(a)),
           Imp(AND(fin, b.sign()), fp.key(r) <= fp.key(a)),
           Imp(AND(fin, NOT(a.sign())), fp.key(r) >= fp.key(b)),
           Imp(AND(fin, a.sign()), fp.key(r) <= fp.key(b)),
           Imp(AND(fin, r.isinf()), OR(expbig(a), expbig(b))),
           # the exact sum is a multiple of the unit in the last place of the smaller operand
           Imp(AND(fin, NOT(a.iszero()), NOT(b.iszero()), NOT(r.iszero())),
               OR(ulpsum(a, r), ulpsum(b, r)))]
    return out


def ulpsum(a, r):
    sb = FMT[a.fmt][1]
    ea, er = zext(a.bits[1], a.bits[1].size() + 1), zext(r.bits[1], a.bits[1].size() + 1)
    return z3.UGE(er + BV(sb - 1, er.size()), ea)


def expbig(a):
    """|a| >= half the largest binade"""
    e = a.bits[1]
    return z3.UGE(e, BV((1 << e.size()) - 3, e.size()))


def MULFACTS(x, r):
    """operands are non-negative"""
    a, b = x
    n = OR(a.isnan(), b.isnan(), AND(a.isinf(), b.iszero()), AND(b.isinf(), a.iszero()))
    eb, sb = FMT[a.fmt]
    bias = (1 << (eb - 1)) - 1
    w = eb + 2
    ea, ebb, er = zext(a.bits[1], w), zext(b.bits[1], w), zext(r.bits[1], w)
    nora, norb = AND(a.fin(), ea != BV(0, w)), AND(b.fin(), ebb != BV(0, w))
    sm = ea + ebb - BV(bias, w)
    one = fp.cst(1, a.fmt)
    return [r.isnan() == n, Imp(NOT(n), NOT(r.sign())),
            Imp(AND(NOT(n), OR(a.isinf(), b.isinf())), r.isinf()),
            Imp(AND(NOT(n), OR(a.iszero(), b.iszero())), r.iszero()),
            # exponent of the product is the sum of the exponents or one more
            Imp(AND(nora, norb, sm >= BV(1, w), sm <= BV((1 << eb) - 3, w)), OR(er == sm, er == sm + BV(1, w))),
            Imp(AND(nora, norb, sm >= BV((1 << eb) - 1, w)), r.isinf()),
            Imp(AND(nora, norb, sm <= BV(-sb - 1, w)), r.iszero()),
            Imp(AND(nora, norb, sm >= BV(-sb + 3, w)), NOT(r.iszero())),
            Imp(fp.eq(a, one), fp.same(r, b)), Imp(fp.eq(b, one), fp.same(r, a)),
            Imp(AND(NOT(n), fp.le(a, one)), fp.le(r, b)), Imp(AND(NOT(n), fp.le(b, one)), fp.le(r, a)),
            Imp(AND(NOT(n), fp.le(one, a)), fp.le(b, r)), Imp(AND(NOT(n), fp.le(one, b)), fp.le(a, r))]


def DIVFACTS(x, r):
    a, b = x
    n = OR(a.isnan(), b.isnan(), AND(a.isinf(), b.isinf()), AND(a.iszero(), b.iszero()))
    eb, sb = FMT[a.fmt]
    bias = (1 << (eb - 1)) - 1
    w = eb + 2
    ea, ebb, er = zext(a.bits[1], w), zext(b.bits[1], w), zext(r.bits[1], w)
    nora, norb = AND(a.fin(), ea != BV(0, w)), AND(b.fin(), ebb != BV(0, w))
    sm = ea - ebb + BV(bias, w)
    one = fp.cst(1, a.fmt)
    # 1 / (1 + e) <= 1 - e / 2
    apart = [Imp(AND(fp.eq(a, one), fp.le(fp.cst(1 + 2.0 ** -k, a.fmt), b)), fp.le(r, fp.cst(1 - 2.0 ** (-k - 1), a.fmt)))
             for k in (29, 50) if k < sb - 2]
    return apart + [r.isnan() == n, Imp(NOT(n), NOT(r.sign())),
            Imp(AND(NOT(n), OR(a.isinf(), b.iszero())), r.isinf()),
            Imp(AND(NOT(n), OR(b.isinf(), a.iszero())), r.iszero()),
            Imp(AND(nora, norb, sm >= BV(2, w), sm <= BV((1 << eb) - 2, w)), OR(er == sm, er == sm - BV(1, w))),
            Imp(AND(nora, norb, sm >= BV(-sb + 4, w)), NOT(r.iszero())),
            Imp(AND(nora, norb, sm >= BV((1 << eb), w)), r.isinf()),
            Imp(fp.eq(b, one), fp.same(r, a)),
            Imp(AND(NOT(n), fp.le(a, b)), fp.le(r, one)), Imp(AND(NOT(n), fp.le(b, a)), fp.le(one, r)),
            Imp(AND(NOT(n), fp.lt(a, b), a.fin(), b.fin()), fp.lt(r, one)),
            Imp(AND(NOT(n), fp.lt(b, a), a.fin(), b.fin()), fp.lt(one, r))]


def RTIFACTS(x, r):
    a = x[0]
    return [r.isnan() == a.isnan(), r.isinf() == a.isinf()]


def pow2(a):
    """exponent e if a is the constant 2^e"""
    if a.fb is None or not a.fb.isconst():
        return None
    v = a.fb.I.as_signed_long()
    if v <= 0 or v & (v - 1):
        return None
    return v.bit_length() - 1 - a.fb.k


def flatten(ty, init):
    if init[0] in ("zero", "undef"):
        return [0] * ty.size()
    if ty.isint:
        return list((init[1] & ((1 << (8 * ty.store_size())) - 1)).to_bytes(ty.store_size(), "little")) + \
            [0] * (ty.size() - ty.store_size())
    if ty.isfp:
        return list(init[1].to_bytes(ty.store_size(), "little")) + [0] * (ty.size() - ty.store_size())
    if ty.k == "arr":
        out = []
        for x in init[1]:
            out += flatten(ty.el, x)
        return out
    if ty.k == "struct":
        offs, size = ty.offsets()
        out = [0] * size
        for o, t, x in zip(offs, ty.el, init[1]):
            b = flatten(t, x)
            out[o:o + len(b)] = b
        return out[:size]
    raise Unsupported("initialiser of %r" % ty)


LIBM = {}


def fminmax(a, b, big):
    lo = fp.lt(b, a) if big else fp.lt(a, b)
    return fite(a.isnan(), b, fite(OR(b.isnan(), lo), a, b))
