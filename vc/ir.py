"""LLVM-IR text reader for the functions mechanically extracted from /repo.

The IR is produced on every run by clang from the current sources (see
extract.py); nothing in here knows anything about libtakum.
"""
import re
import struct


class Unsupported(Exception):
    """construct outside the fragment the verification-condition generator reads"""


# ----------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "packed")

    def __init__(self, k, n=0, el=None, packed=False):
        self.k, self.n, self.el, self.packed = k, n, el, packed

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.el))
        return self.k

    def __eq__(self, o):
        return repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))

    @property
    def isint(self):
        return self.k == "i"

    @property
    def isfp(self):
        return self.k in ("f32", "f64", "f80")

    def align(self):
        if self.k == "i":
            return min(16, max(1, 1 << max(0, (self.n + 7) // 8 - 1).bit_length()))
        if self.k == "f32":
            return 4
        if self.k in ("f64", "ptr"):
            return 8
        if self.k == "f80":
            return 16
        if self.k == "arr":
            return self.el.align()
        if self.k == "struct":
            return 1 if self.packed else max([e.align() for e in self.el] or [1])
        raise Unsupported("align of %r" % self)

    def store_size(self):
        if self.k == "i":
            return (self.n + 7) // 8
        if self.k == "f80":
            return 10
        return self.size()

    def size(self):
        if self.k == "i":
            a = self.align()
            b = (self.n + 7) // 8
            return (b + a - 1) // a * a
        if self.k == "f32":
            return 4
        if self.k in ("f64", "ptr"):
            return 8
        if self.k == "f80":
            return 16
        if self.k == "arr":
            return self.n * self.el.size()
        if self.k == "struct":
            return self.offsets()[1]
        raise Unsupported("size of %r" % self)

    def offsets(self):
        off, out = 0, []
        for e in self.el:
            a = 1 if self.packed else e.align()
            off = (off + a - 1) // a * a
            out.append(off)
            off += e.size() if not (self.packed and e.k == "f80") else e.size()
        a = self.align()
        return out, (off + a - 1) // a * a


I1 = Ty("i", 1)
FPN = {"float": "f32", "double": "f64", "x86_fp80": "f80"}

TOK = re.compile(
    r"""\s*(?:
      (?P<str>c?"(?:[^"\\]|\\.)*")
    | (?P<meta>!\w[\w.]*|![0-9]+|!\{)
    | (?P<loc>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))
    | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))
    | (?P<attr>\#[0-9]+)
    | (?P<num>-?(?:0x[KMLHR]?[0-9A-Fa-f]+|[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?))
    | (?P<word>[a-zA-Z_][\w.]*)
    | (?P<p>\.\.\.|<\{|\}>|[\[\](){}<>,=*:|])
    )""",
    re.X,
)


def tokenize(s):
    out, pos = [], 0
    s = s.rstrip()
    while pos < len(s):
        if s[pos:].lstrip().startswith(";"):
            break
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported("token: %r" % s[pos:])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out


class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported("expected %r, got %r in %r" % (v, self.peek(), [x[1] for x in self.t]))

    # --- types
    def type(self):
        w = self.next()
        if re.fullmatch(r"i[0-9]+", w):
            t = Ty("i", int(w[1:]))
        elif w in FPN:
            t = Ty(FPN[w])
        elif w in ("ptr", "void", "metadata", "label"):
            t = Ty(w)
        elif w == "[":
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect("]")
            t = Ty("arr", n, el)
        elif w in ("{", "<{"):
            packed = w == "<{"
            end = "}>" if packed else "}"
            el = []
            while not self.accept(end):
                el.append(self.type())
                self.accept(",")
            t = Ty("struct", 0, el, packed)
        elif w.startswith("%"):
            if w not in self.mod.types:
                raise Unsupported("named type %s" % w)
            t = self.mod.types[w]
        else:
            raise Unsupported("type %r" % w)
        while self.accept("*"):
            t = Ty("ptr")
        return t

    PATTR = {"noundef", "signext", "zeroext", "nocapture", "readonly", "readnone", "writeonly",
             "noalias", "nonnull", "immarg", "returned", "inreg", "nofree", "swiftself", "noext"}

    def param_attrs(self):
        while True:
            w = self.peek()
            if w in self.PATTR:
                self.next()
            elif w in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret"):
                self.next()
                if self.accept("("):
                    while not self.accept(")"):
                        self.next()
                elif self.kind() == "num":
                    self.next()
            else:
                return

    # --- values
    def value(self, ty):
        w = self.next()
        k = self.t[self.i - 1][0]
        if k == "loc":
            return ("loc", w)
        if k == "glob":
            return ("glob", w)
        if w == "true":
            return ("int", 1)
        if w == "false":
            return ("int", 0)
        if w in ("undef", "poison"):
            return ("undef",)
        if w == "null":
            return ("null",)
        if w == "zeroinitializer":
            return ("zero",)
        if k == "num":
            if ty.isfp:
                return ("fp", fpbits(w, ty))
            return ("int", int(w))
        if k == "str":
            return ("agg", [("int", b) for b in cstr(w)])
        if w in ("[", "{", "<{"):
            end = {"[": "]", "{": "}", "<{": "}>"}[w]
            out = []
            while not self.accept(end):
                t = self.type()
                out.append(self.value(t))
                self.accept(",")
            return ("agg", out)
        if w == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            self.expect("(")
            t = self.type()
            self.expect(",")
            bt = self.type()
            base = self.value(bt)
            idx = []
            while self.accept(","):
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(")")
            return ("cgep", t, base, idx)
        raise Unsupported("value %r" % w)

    def tv(self):
        t = self.type()
        self.param_attrs()
        return t, self.value(t)


def cstr(s):
    s = s[s.index('"') + 1:-1]
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(ord("\\"))
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def fpbits(w, ty):
    """constant -> IEEE bit pattern (80-bit explicit layout for x86_fp80)"""
    if ty.k == "f80":
        if not w.startswith("0xK"):
            raise Unsupported("x86_fp80 constant %s" % w)
        return int(w[3:], 16)
    if w.startswith("0x"):
        d = struct.unpack("<d", struct.pack("<Q", int(w, 16)))[0]
        raw = int(w, 16)
    else:
        d = float(w)
        raw = struct.unpack("<Q", struct.pack("<d", d))[0]
    if ty.k == "f64":
        return raw
    if d != d:
        return 0x7FC00000
    return struct.unpack("<I", struct.pack("<f", d))[0]


# ---------------------------------------------------------------- modules
class Inst:
    __slots__ = ("op", "res", "ty", "args", "x", "text", "line")

    def __init__(self, op, res, ty, args, x=None, text=""):
        self.op, self.res, self.ty, self.args, self.x, self.text = op, res, ty, args, x, text


class Block:
    def __init__(self, name):
        self.name, self.insts = name, []

    def succs(self):
        t = self.insts[-1]
        if t.op == "br":
            return list(dict.fromkeys(t.x))
        if t.op == "switch":
            return list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
        return []


class Func:
    def __init__(self, name, ret, params, mod, internal):
        self.name, self.ret, self.params, self.mod, self.internal = name, ret, params, mod, internal
        self.blocks = {}
        self.order = []

    def insts(self):
        for b in self.blocks.values():
            yield from b.insts

    def names(self):
        """(callees, other global names) occurring in the body"""
        out, calls = set(), set()
        for i in self.insts():
            ns = set(re.findall(r"@([-\w.$]+)", i.text))
            if i.op == "call":
                m = re.search(r"@([-\w.$]+)\(", i.text)
                if m:
                    calls.add(m.group(1))
            out |= ns
        return calls, out - calls

    def callees(self):
        return sorted(self.names()[0])

    def globals_used(self):
        return sorted(self.names()[1])

    def has_volatile(self):
        return any(re.search(r"\b(volatile|atomic|cmpxchg|atomicrmw|fence|asm)\b", i.text) for i in self.insts())


class Module:
    def __init__(self, name):
        self.name = name
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, {}


LINK = {"internal", "private", "dso_local", "external", "linkonce_odr", "weak", "common", "unnamed_addr",
        "local_unnamed_addr", "hidden", "default", "protected", "weak_odr", "available_externally",
        "thread_local"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}


def parse_module(text, name):
    mod = Module(name)
    cur = blk = None
    lines = text.split("\n")
    for raw in lines:
        line = raw.rstrip()
        if not line or line.lstrip().startswith(";"):
            continue
        if cur is None:
            if line.startswith("%") and " = type " in line:
                nm, rest = line.split(" = type ", 1)
                if rest.strip() == "opaque":
                    continue
                mod.types[nm.strip()] = P(tokenize(rest), mod).type()
            elif line.startswith("@"):
                parse_global(line, mod)
            elif line.startswith("define"):
                try:
                    cur = parse_header(line, mod)
                except Unsupported as e:
                    nm = re.search(r"@([-\w.$]+)\(", line)
                    cur = Func(nm.group(1) if nm else "?", Ty("void"), [], mod, " internal " in line)
                    cur.bad = str(e)
                mod.funcs[cur.name] = cur
                blk = None
                nimp = len(cur.params)
            elif line.startswith("declare"):
                try:
                    f = parse_header(line, mod)
                except Unsupported:
                    continue
                mod.decls[f.name] = f
            continue
        if line == "}":
            cur = None
            continue
        m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', line)
        if m:
            blk = Block("%" + m.group(1))
            cur.blocks[blk.name] = blk
            cur.order.append(blk.name)
            continue
        if blk is None:
            # unnamed entry block takes the next unnamed number
            blk = Block("%" + str(nimp))
            cur.blocks[blk.name] = blk
            cur.order.append(blk.name)
        s = line.strip()
        if s.startswith("]"):  # end of switch table
            continue
        if blk.insts and blk.insts[-1].op == "switch" and re.match(r"^i[0-9]+ ", s):
            p = P(tokenize(s), mod)
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.expect("label")
            blk.insts[-1].x[1].append((v[1], p.next()))
            continue
        try:
            ins = parse_inst(s, mod)
        except Unsupported as e:            # reported when (and only when) the instruction is executed
            m = re.match(r"^(%[-\w.$]+) = ", s)
            ins = Inst("unsupported", m and m.group(1), None, [], str(e), s)
        if ins is not None:
            blk.insts.append(ins)
    return mod


def parse_global(line, mod):
    nm, rest = line.split("=", 1)
    p = P(tokenize(rest), mod)
    const = None
    internal = False
    while p.peek() in LINK:
        w = p.next()
        internal |= w in ("internal", "private")
        if p.accept("("):
            while not p.accept(")"):
                p.next()
    w = p.next()
    if w not in ("constant", "global"):
        return
    const = w == "constant"
    ty = p.type()
    init = None
    if p.peek() not in (None, ","):
        init = p.value(ty)
    mod.globals[nm.strip()] = (ty, const, init)


def parse_header(line, mod):
    p = P(tokenize(line), mod)
    p.next()
    internal = False
    while p.peek() in LINK or p.peek() in P.PATTR or p.peek() in ("fastcc", "ccc", "range"):
        w = p.next()
        internal |= w in ("internal", "private")
    p.param_attrs()
    ret = p.type()
    name = p.next()
    p.expect("(")
    params = []
    n = 0
    while not p.accept(")"):
        if p.accept("..."):
            params.append((Ty("va"), "..."))
        else:
            t = p.type()
            p.param_attrs()
            if p.kind() == "loc":
                params.append((t, p.next()))
            else:
                params.append((t, "%" + str(n)))
            n += 1
        p.accept(",")
    return Func(name[1:].strip('"'), ret, params, mod, internal)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "bitcast",
        "ptrtoint", "inttoptr"}


def parse_inst(s, mod):
    p = P(tokenize(s), mod)
    res = None
    if p.kind() == "loc" and p.peek(1) == "=":
        res = p.next()
        p.next()
    op = p.next()
    while op in ("tail", "notail", "musttail"):
        op = p.next()
    flags = set()
    if op in BIN or op in CAST or op == "trunc":
        while p.peek() in ("nsw", "nuw", "exact", "disjoint", "nneg"):
            flags.add(p.next())
    if op in FBIN or op in ("fneg", "fcmp", "call", "select", "phi", "fptrunc", "fpext"):
        while p.peek() in FMF:
            raise Unsupported("fast-math flag %s" % p.peek())
    if op in BIN or op in FBIN:
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Inst(op, res, t, [a, b], flags, s)
    if op == "fneg" or op == "freeze":
        t, a = p.tv()
        return Inst(op, res, t, [a], None, s)
    if op in ("icmp", "fcmp"):
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Inst(op, res, t, [a, b], pred, s)
    if op in CAST:
        t, a = p.tv()
        p.expect("to")
        to = p.type()
        return Inst(op, res, to, [(t, a)], flags, s)
    if op == "select":
        ct, c = p.tv()
        p.expect(",")
        t, a = p.tv()
        p.expect(",")
        t2, b = p.tv()
        return Inst(op, res, t, [c, a, b], None, s)
    if op == "phi":
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            lbl = p.next()
            p.expect("]")
            inc.append((v, lbl))
            if not p.accept(","):
                break
        return Inst(op, res, t, inc, None, s)
    if op == "br":
        if p.accept("label"):
            return Inst(op, None, None, [], [p.next()], s)
        p.expect("i1")
        c = p.value(I1)
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        b = p.next()
        return Inst(op, None, None, [c], [a, b], s)
    if op == "switch":
        t, v = p.tv()
        p.expect(",")
        p.expect("label")
        d = p.next()
        cases = []
        ins = Inst(op, None, t, [v], (d, cases), s)
        p.expect("[")
        while p.peek() is not None and not p.accept("]"):
            t2 = p.type()
            cv = p.value(t2)
            p.expect(",")
            p.expect("label")
            cases.append((cv[1], p.next()))
        return ins
    if op == "ret":
        if p.accept("void"):
            return Inst(op, None, None, [], None, s)
        t, v = p.tv()
        return Inst(op, None, t, [v], None, s)
    if op == "unreachable":
        return Inst(op, None, None, [], None, s)
    if op == "alloca":
        t = p.type()
        n = None
        if p.accept(",") and p.peek() != "align":
            n = p.tv()
            raise Unsupported("dynamic alloca") if n[1][0] != "int" else None
        return Inst(op, res, t, [], n[1][1] if n else 1, s)
    if op == "load":
        if p.accept("volatile") or p.accept("atomic"):
            raise Unsupported("volatile/atomic load")
        t = p.type()
        p.expect(",")
        pt, a = p.tv()
        return Inst(op, res, t, [a], None, s)
    if op == "store":
        if p.accept("volatile") or p.accept("atomic"):
            raise Unsupported("volatile/atomic store")
        t, v = p.tv()
        p.expect(",")
        pt, a = p.tv()
        return Inst(op, None, t, [v, a], None, s)
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            flags.add(p.next())
        t = p.type()
        p.expect(",")
        pt, base = p.tv()
        idx = []
        while p.accept(","):
            idx.append(p.tv())
        return Inst(op, res, t, [base, idx], flags, s)
    if op == "call":
        while p.peek() in P.PATTR or p.peek() in ("fastcc", "ccc"):
            p.next()
        p.param_attrs()
        rt = p.type()
        if p.peek() == "(":
            d = 0
            while True:
                w = p.next()
                d += w == "("
                d -= w == ")"
                if d == 0:
                    break
        if p.kind() != "glob":
            raise Unsupported("indirect call: %s" % s)
        callee = p.next()[1:].strip('"')
        if callee.startswith(("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.donothing")):
            return None
        p.expect("(")
        args = []
        while not p.accept(")"):
            args.append(p.tv())
            p.accept(",")
        return Inst(op, res, rt, args, callee, s)
    if op == "extractvalue":
        t, a = p.tv()
        idx = []
        while p.accept(","):
            idx.append(int(p.next()))
        return Inst(op, res, t, [a], idx, s)
    raise Unsupported("instruction: %s" % s)
