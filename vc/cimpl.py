"""The compiled library, for replaying candidate inputs on the real code.

The library sources are compiled with gcc as the Makefile does (-Os -std=c99);
a generated shim exposes every external function through byte buffers, so that
long double values pass exactly.  Signatures come from the extracted IR."""
import atexit
import ctypes
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import extract as ext

CT = {"i1": "_Bool", "i8": "int8_t", "i16": "int16_t", "i32": "int32_t", "i64": "int64_t", "f32": "float",
      "f64": "double", "f80": "long double"}
SZ = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "f32": 4, "f64": 8, "f80": 10}
LIBM1 = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2",
         "expm1", "log", "log2", "log10", "log1p", "sqrt", "cbrt", "logb", "erf",
         "erfc", "tgamma", "lgamma"]
LIBM2 = ["atan2", "hypot", "pow", "fmod", "remainder", "fdim", "nextafter"]
SUFF = {"f": "f32", "": "f64", "l": "f80"}


def tyname(ty):
    if ty.isfp:
        return ty.k
    if ty.isint:
        return "i%d" % ty.n
    return None


class CImpl:
    def __init__(self, prog):
        self.dir = tempfile.mkdtemp(prefix="vpc_")
        self.pid = os.getpid()
        atexit.register(self.close)
        self.sig = {}
        out = ["#include <math.h>", "#include <string.h>", "#include <stdint.h>", "#include <stdbool.h>"]
        for name, f in sorted(prog.ext.items()):
            ps = [tyname(t) for t, _ in f.params]
            rt = tyname(f.ret)
            if None in ps or rt is None:
                continue
            self.sig[name] = (ps, rt)
            out.append("extern %s %s(%s);" % (CT[rt], name, ", ".join(CT[p] for p in ps) or "void"))
        lm = {}
        for b in LIBM1 + LIBM2:
            for s, fm in SUFF.items():
                lm[b + s] = ([fm] * (1 if b in LIBM1 else 2), fm)
        for name, (ps, rt) in list(self.sig.items()) + list(lm.items()):
            a = ["%s a%d; memcpy(&a%d, in + %d, %d);" % (CT[p], i, i, 16 * i, SZ[p]) for i, p in enumerate(ps)]
            out.append("void vpc_%s(const unsigned char *in, unsigned char *out) { %s volatile %s r = %s(%s); "
                       "memset(out, 0, 16); %s x = r; memcpy(out, &x, %d); }"
                       % (name, " ".join(a), CT[rt], name, ", ".join("a%d" % i for i in range(len(ps))), CT[rt],
                          SZ[rt]))
        self.sig.update({k: v for k, v in lm.items() if k not in self.sig})
        shim = os.path.join(self.dir, "shim.c")
        open(shim, "w").write("\n".join(out) + "\n")
        objs = []

        def cc(a):
            src, obj, flags = a
            subprocess.run(["gcc", "-std=c99", "-D_ISOC99_SOURCE", "-fPIC", "-w", "-c", src, "-o", obj] + flags,
                           check=True, capture_output=True)
            return obj
        jobs = [(s, os.path.join(self.dir, "o%d.o" % i), ["-Os"]) for i, s in enumerate(ext.sources())]
        jobs.append((shim, os.path.join(self.dir, "shim.o"), ["-O1", "-fno-builtin"]))
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, jobs))
        so = os.path.join(self.dir, "lib.so")
        subprocess.run(["gcc", "-shared", "-o", so] + objs + ["-lm"], check=True, capture_output=True)
        self.lib = ctypes.CDLL(so)

    def call(self, name, args):
        """bit patterns (unsigned ints) in, bit pattern out"""
        ps, rt = self.sig[name]
        buf = b"".join(int(a).to_bytes(SZ[p], "little").ljust(16, b"\0") for a, p in zip(args, ps)) or b"\0"
        out = ctypes.create_string_buffer(16)
        getattr(self.lib, "vpc_" + name)(buf, out)
        return int.from_bytes(out.raw[:SZ[rt]], "little")

    def has(self, name):
        return name in self.sig

    def close(self):
        if os.getpid() == self.pid:
            shutil.rmtree(self.dir, ignore_errors=True)
