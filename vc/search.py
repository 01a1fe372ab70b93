"""Judging candidate inputs on the compiled code, and looking for failing ones.

Never decides that a property holds: it only finds an input for an obligation
the verifier did not accept."""
import random
import time

import z3

from . import fp, prove
from .fp import T, FMT
from .sym import Ctx, Exec

SB = {"f32": (8, 23), "f64": (11, 52), "f80": (15, 63)}


def mkconst(x, ty):
    if ty[0] == "f":
        return fp.const(x, ty)
    n = int(ty[1:])
    return z3.BoolVal(bool(x)) if n == 1 else z3.BitVecVal(x, n)


def judge(prog, impl, g, args, known=()):
    """(clause, result bits) if the compiled function violates the goal at these arguments, else None"""
    ps, rt = impl.sig[g.fn]
    try:
        ctx = Ctx(prog, {})
        ctx.impl = impl
        ex = Exec(ctx)
        a = [mkconst(x, t) for x, t in zip(args, ps)]
        if not all(z3.is_true(z3.simplify(p)) for p in g.pre(ctx, ex, a)):
            return None
        got = impl.call(g.fn, args)
        v = mkconst(got, rt)
        bad = broken(ctx, g.post(ctx, ex, a, v))
        if bad is None:
            return None
        for fid, alt in g.known:
            if fid in known and broken(ctx, alt(ctx, ex, a, v)) is None:
                return None
        return bad, got
    except Exception:
        return None


def broken(ctx, clauses):
    for cl, cond in clauses:
        c = z3.simplify(cond)
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return cl
        # undetermined applications are left: violated only if no completion satisfies the clause
        if prove.discharge(ctx, T, z3.Not(c), 5).status == "proved":
            return cl
    return None


# ------------------------------------------------------------------ generators
def corners(ty):
    if ty == "i1":
        return [0, 1]
    if ty[0] == "i":
        n = int(ty[1:])
        M = (1 << n) - 1
        one, nar = 1 << (n - 2), 1 << (n - 1)
        out = [0, nar, one, M + 1 - one, 1, M, nar - 1, nar + 1, one + 1, one - 1, M - one, M + 2 - one]
        for h in range(32):
            b = h << (n - 5)
            out += [b, (b - 1) & M, b + 1, b | (1 << (n - 6)), b | ((1 << (n - 5)) - 1)]
        for j in range(n):
            out += [1 << j, (M + 1 - (1 << j)) & M, one ^ (1 << j), (1 << j) - 1]
        if n == 64:
            out += [2, 3, M - 1, M - 2, 5, 10, 100, M - 9, 255, 256, 1000]
        return list(dict.fromkeys(out))
    eb, fb = SB[ty]
    bias = (1 << (eb - 1)) - 1
    out = []
    es = [0, 1, bias - 256, bias - 255, bias - 254, bias - 2, bias - 1, bias, bias + 1, bias + 2, bias + 63,
          bias + 253, bias + 254, bias + 255, bias + 256, (1 << eb) - 2, (1 << eb) - 1, bias - 127, bias - 126,
          bias - 128, bias + 127, bias + 126]
    fs = [0, 1, (1 << fb) - 1, 1 << (fb - 1), (1 << (fb - 1)) - 1, (1 << (fb - 1)) + 1, (1 << fb) - 2,
          (1 << (fb - 2))]
    for e in es:
        if 0 <= e < 1 << eb:
            for f in fs:
                for s in (0, 1):
                    out.append(packf(ty, s, e, f))
    return list(dict.fromkeys(out))


def packf(ty, s, e, f):
    eb, fb = SB[ty]
    if ty == "f80":
        return (s << 79) | (e << 64) | ((1 << 63) if e else 0) | f
    return (s << (eb + fb)) | (e << fb) | f


def rnd(R, ty):
    if ty == "i1":
        return R.getrandbits(1)
    if ty[0] == "i":
        n = int(ty[1:])
        M = (1 << n) - 1
        c = R.random()
        if n == 64 and c < .25:
            return (R.randrange(-1200, 1200) if c < .2 else R.randrange(-12, 13)) & M
        b = R.getrandbits(n)
        if c < .8:
            j = R.randrange(n)
            m = R.random()
            if m < .5:
                b &= -1 << j
            elif m < .7:
                b |= (1 << j) - 1
            else:
                b = (b & (-1 << j)) | (1 << j >> 1)
                b = (b + R.choice((-1, 0, 1))) & M
        return b & M
    eb, fb = SB[ty]
    bias = (1 << (eb - 1)) - 1
    c = R.random()
    e = R.randrange(1 << eb) if c < .1 else min(max(bias + R.randrange(-258, 259), 0), (1 << eb) - 1) if c < .6 else \
        bias + R.randrange(-8, 9)
    f = R.getrandbits(fb)
    m = R.random()
    j = R.randrange(fb)
    if m < .35:
        f &= -1 << j
    elif m < .5:
        f |= (1 << j) - 1
    elif m < .85:
        # midpoints of shorter fractions and their neighbours
        f = ((f & (-1 << j)) | (1 << j >> 1))
        f = min(max(f + R.choice((-1, 0, 0, 1)), 0), (1 << fb) - 1)
    return packf(ty, R.getrandbits(1), e, f & ((1 << fb) - 1))


def candidates(R, ps, goals, hints):
    for g in goals:
        if getattr(g, "samples", None):
            yield from g.samples(R)
    cs = [corners(t) for t in ps]
    if len(ps) == 1:
        yield from ([x] for x in cs[0])
        if ps[0] in ("i8", "i16"):
            xs = list(range(1 << int(ps[0][1:])))
            R.shuffle(xs)
            yield from ([x] for x in xs)
            return
    if ps == ["i8", "i8"]:
        xs = [(x, y) for x in range(256) for y in range(256)]
        R.shuffle(xs)
        yield from ([x, y] for x, y in xs)
        return
    while True:
        a = [R.choice(c) if R.random() < .3 else rnd(R, t) for c, t in zip(cs, ps)]
        if len(ps) == 2 and ps[0] == ps[1] and ps[0][0] == "i" and R.random() < .3:
            M = (1 << int(ps[0][1:])) - 1
            a[1] = R.choice((a[0], -a[0] & M, (a[0] + R.choice((-1, 1))) & M, a[0] ^ (M >> 1), (M >> 1) - a[0] & M))
        yield a


def hunt(prog, impl, goals, known, seed, budget, hints):
    t0 = time.time()
    R = random.Random("%d %s" % (seed, goals[0].fn))
    ps = impl.sig[goals[0].fn][0]
    seen = set()
    for a in candidates(R, ps, goals, hints):
        if time.time() - t0 > budget:
            return None
        k = tuple(a)
        if k in seen:
            continue
        seen.add(k)
        posts = set()
        for gi, g in enumerate(goals):
            key = getattr(g, "key", id(g.post))
            if key in posts and g.label.startswith("header"):
                continue
            posts.add(key)
            v = judge(prog, impl, g, a, known)
            if v:
                return gi, a, v
    return None
