"""Looking for a call history or schedule on which a function's result is not a function of its arguments.

Only used after a frame obligation failed, to find a concrete failing input."""
import os
import random
import shutil
import subprocess
import tempfile

from . import extract as ext
from .cimpl import CT, SZ, tyname
from .search import corners

PROG = r"""
#include <pthread.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#define N %(n)d
#define NA %(na)d
#define NT 8
static const unsigned char args[N][NA * 16] = { %(args)s };
typedef unsigned char cell[16];
static cell *ref;
%(decls)s
static void run(int f, int i, unsigned char *out) { const unsigned char *in = args[i]; memset(out, 0, 16); switch (f) {
%(cases)s
} }
static volatile int found;
static void report(const char *how, int f, int i, const unsigned char *got) {
	if (__sync_lock_test_and_set(&found, 1)) return;
	printf("%%s %%d %%d ", how, f, i);
	for (int k = 15; k >= 0; k--) printf("%%02x", ref[f * N + i][k]);
	printf(" ");
	for (int k = 15; k >= 0; k--) printf("%%02x", got[k]);
	printf("\n"); fflush(stdout);
}
static int F;
static void *thread(void *p) {
	long id = (long)p; unsigned s = 17 * id + 1; cell o;
	for (int k = 0; k < 400000 && !found; k++) {
		int i = rand_r(&s) %% 16 + 16 * (id %% (N / 16));
		run(F, i, o);
		if (memcmp(o, ref[F * N + i], 16)) report("threads", F, i, o);
	}
	return 0;
}
int main(void) {
	static const int fs[] = { %(fs)s };
	int nf = sizeof(fs) / sizeof(*fs);
	ref = mmap(0, sizeof(cell) * N * %(nf)d, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int k = 0; k < nf; k++) for (int i = 0; i < N; i++) {
		pid_t c = fork();
		if (c == 0) { run(fs[k], i, ref[fs[k] * N + i]); _exit(0); }
		waitpid(c, 0, 0);
	}
	cell o; unsigned s = %(seed)d;
	for (int r = 0; r < 400000 && !found; r++) {
		int k = fs[rand_r(&s) %% nf], i = rand_r(&s) %% 4 ? rand_r(&s) %% N : r %% 8;
		run(k, i, o);
		if (memcmp(o, ref[k * N + i], 16)) report("history", k, i, o);
	}
	for (int k = 0; k < nf && !found; k++) {
		pthread_t t[NT]; F = fs[k];
		for (long j = 0; j < NT; j++) pthread_create(&t[j], 0, thread, (void *)j);
		for (int j = 0; j < NT; j++) pthread_join(t[j], 0);
	}
	return found;
}
"""


def hunt(prog, fns, seed, timeout=60, maxf=12):
    """(how, function, argument patterns, expected, got) or None"""
    rnd = random.Random(seed)
    fns = [f for f in fns if all(tyname(t) for t, _ in f.params) and tyname(f.ret)][:maxf]
    if not fns:
        return None
    n, na = 128, max(1, max(len(f.params) for f in fns))
    d = tempfile.mkdtemp(prefix="vph_")
    try:
        sigs = {f.name: ([tyname(t) for t, _ in f.params], tyname(f.ret)) for f in fns}
        rows = []
        for i in range(n):
            # argument bytes serve every signature: takums near one and random patterns
            r = [rnd.getrandbits(64) if rnd.random() < .6 else
                 (rnd.choice(corners("i64")) if rnd.random() < .5 else (1 << 62) + rnd.getrandbits(60)) for _ in range(na)]
            rows.append(b"".join((x & ((1 << 64) - 1)).to_bytes(8, "little") + (0x3fff + rnd.randrange(-300, 300) ^
                                 (0x8000 if rnd.random() < .5 else 0)).to_bytes(2, "little") + bytes(6) for x in r))
        cells = rows
        decl, cases = [], []
        for k, f in enumerate(fns):
            ps, rt = sigs[f.name]
            decl.append("extern %s %s(%s);" % (CT[rt], f.name, ", ".join(CT[p] for p in ps) or "void"))
            body = []
            for j, p in enumerate(ps):
                w = SZ[p]
                off = 16 * j + (8 - w if w < 8 else 0)
                fix = "a%d |= 0" % j if p[0] == "i" else ""
                if p == "f80":
                    body.append("unsigned char b%d[16] = {0}; memcpy(b%d, in + %d, 10); b%d[7] |= 0x80; "
                                "long double a%d; memcpy(&a%d, b%d, 16);" % (j, j, 16 * j, j, j, j, j))
                else:
                    body.append("%s a%d; memcpy(&a%d, in + %d, %d);" % (CT[p], j, j, off, w))
            cases.append("case %d: { %s %s r = %s(%s); if (r == r) memcpy(out, &r, %d); return; }" %
                         (k, " ".join(body), CT[rt], f.name, ", ".join("a%d" % j for j in range(len(ps))), SZ[rt]))
        src = PROG % {"n": n, "na": na, "args": ",\n".join("{%s}" % ",".join(map(str, r)) for r in cells),
                      "decls": "\n".join(decl), "cases": "\n".join(cases), "fs": ", ".join(map(str, range(len(fns)))),
                      "nf": len(fns), "seed": seed}
        c = os.path.join(d, "h.c")
        open(c, "w").write(src)
        exe = os.path.join(d, "h")
        subprocess.run(["gcc", "-std=gnu99", "-Os", "-w", c] + ext.sources() + ["-o", exe, "-lm", "-lpthread"], check=True,
                       capture_output=True)
        p = subprocess.run(["timeout", str(timeout), exe], capture_output=True, text=True)
        for line in p.stdout.splitlines():
            how, k, i, want, got = line.split()
            f = fns[int(k)]
            a = []
            for j, t in enumerate(sigs[f.name][0]):
                b = rows[int(i)][16 * j:16 * j + 16]
                w = SZ[t]
                if t == "f80":
                    v = int.from_bytes(b[:10], "little") | 1 << 63
                else:
                    v = int.from_bytes(b[8 - w:8], "little")
                a.append(v)
            return how, f.name, a, int(want, 16), int(got, 16)
    except (subprocess.CalledProcessError, OSError):
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
