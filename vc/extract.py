"""Mechanical extraction of the verified text: /repo/src/*.c -> LLVM IR.

Nothing is dropped except what the C preprocessor and clang's front end drop:
comments, declarations that are not used, and the parts of the translation
units that the configuration macros exclude (the non-x87 `long double`
layouts).  No optimisation is run besides sroa (scalar replacement of local
variables), so every signed operation keeps its nsw flag and therefore its
undefined-behaviour obligation.
"""
import glob
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

from .ir import parse_module

REPO = os.environ.get("VP_REPO", "/repo")
CFLAGS = ["-std=c99", "-D_ISOC99_SOURCE", "-O0", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off",
          "-fno-builtin-malloc", "-w"]
CLANG = "clang"
OPT = "/usr/lib/llvm-18/bin/opt"
if not os.path.exists(OPT):
    OPT = "opt-18"


class ExtractError(Exception):
    pass


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.c")))


def _one(c):
    p = subprocess.run([CLANG] + CFLAGS + ["-S", "-emit-llvm", c, "-o", "-"], capture_output=True, text=True)
    if p.returncode:
        raise ExtractError("clang failed on %s: %s" % (c, p.stderr[-2000:]))
    q = subprocess.run([OPT, "-passes=sroa", "-S"], input=p.stdout, capture_output=True, text=True)
    if q.returncode:
        raise ExtractError("opt failed on %s: %s" % (c, q.stderr[-2000:]))
    return parse_module(q.stdout, os.path.basename(c))


class Program:
    def __init__(self, mods):
        self.mods = mods
        self.ext = {}
        for m in mods:
            for f in m.funcs.values():
                if not f.internal:
                    self.ext[f.name] = f

    def lookup(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        return self.ext.get(name)

    def get(self, name):
        return self.ext.get(name)

    def find_static(self, modname, name):
        for m in self.mods:
            if m.name == modname:
                return m.funcs.get(name)


def extract():
    with ThreadPoolExecutor(8) as ex:
        mods = list(ex.map(_one, sources()))
    return Program(mods)
