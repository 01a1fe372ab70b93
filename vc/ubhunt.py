"""Looking for an input on which the compiled library commits undefined behaviour, crashes or does not return.

Only ever used to attach a failing input to an undischarged obligation of P24.  The library is compiled with clang's
undefined-behaviour, float-cast and bounds checks in trapping mode (and AddressSanitizer for memory accesses), and the
affected exported functions are called natively on corner cases and random arguments; a trap, a crash or a call that
does not return within two seconds is reported with its arguments."""
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import extract as ext
from .cimpl import CT, SZ, tyname
from .search import corners

MAIN = r"""
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static unsigned char cur[4][16];
static int curn, cursz[4];
static volatile unsigned long calls, last;
static void put(const char *what)
{
	char b[256]; int k = 0;
	for (; *what; what++) b[k++] = *what;
	for (int i = 0; i < curn; i++) {
		b[k++] = ' '; b[k++] = '0'; b[k++] = 'x';
		for (int j = cursz[i] - 1; j >= 0; j--) {
			b[k++] = "0123456789abcdef"[cur[i][j] >> 4]; b[k++] = "0123456789abcdef"[cur[i][j] & 15];
		}
	}
	b[k++] = '\n';
	if (write(1, b, k)) {}
	_exit(3);
}
static void onsig(int s) { put(s == SIGSEGV || s == SIGBUS ? "memory" : s == SIGFPE ? "arithmetic" : s == SIGABRT ? "abort" : "trap"); }
static void tick(int s) { (void)s; if (calls == last) put("hang"); last = calls; }
void __asan_on_error(void) { put("memory"); }
const char *__asan_default_options(void) { return "detect_leaks=0:handle_segv=0:handle_sigfpe=0:handle_sigill=0:handle_abort=0"; }
static uint64_t st;
static uint64_t r64(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1DULL; }
static void rndarg(int ty, unsigned char *o)
{
	uint64_t x = r64(), c = r64();
	int n = ty < 5 ? 8 << (ty - 1) : 0;
	memset(o, 0, 16);
	if (ty == 0) { o[0] = x & 1; return; }
	if (ty <= 4) {
		int j = (c >> 8) % n;
		uint64_t lo = j ? (~(uint64_t)0) << j : ~(uint64_t)0;
		if (n == 64 && (c & 3) == 0) x = (uint64_t)((int64_t)(x % 2400) - 1200);
		else switch ((c >> 2) & 3) { case 0: x &= lo; break; case 1: x |= ~lo; break; case 2: x = ((x & lo) ^ (1ULL << j)) + ((c >> 20) % 3) - 1; break; }
		memcpy(o, &x, 8); memset(o + n / 8, 0, 16 - n / 8); return;
	}
	int eb = ty == 5 ? 8 : ty == 6 ? 11 : 15, fb = ty == 5 ? 23 : ty == 6 ? 52 : 63;
	int64_t bias = (1 << (eb - 1)) - 1, e = (c & 7) == 0 ? (int64_t)((c >> 8) % (1u << eb)) : (c & 1) ? bias - 300 + (int64_t)((c >> 8) % 601) : bias - 8 + (int64_t)((c >> 8) % 17);
	if (e < 0) e = 0;
	if (e > (1 << eb) - 1) e = (1 << eb) - 1;
	uint64_t f = x & ((1ULL << fb) - 1);
	if (c & 16) f &= ~0ULL << ((c >> 30) % fb);
	uint64_t s = x >> 63;
	if (ty == 7) { f |= e ? 1ULL << 63 : 0; memcpy(o, &f, 8); uint16_t h = (s << 15) | e; memcpy(o + 8, &h, 2); }
	else { f |= ((uint64_t)e << fb) | (s << (eb + fb)); memcpy(o, &f, ty == 5 ? 4 : 8); }
}
int main(int argc, char **argv)
{
	signal(SIGILL, onsig); signal(SIGTRAP, onsig); signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig);
	struct itimerval it = {{2, 0}, {2, 0}};
	signal(SIGALRM, tick); setitimer(ITIMER_REAL, &it, 0);
	int f = 0;
	while (f < NF && strcmp(names[f], argv[1])) f++;
	if (f == NF) return 2;
	int n = nargs[f];
	curn = n;
	for (int i = 0; i < n; i++) cursz[i] = sizes[tys[f][i]];
	if (argc > 3 + n - 1 && !strcmp(argv[2], "one")) {
		for (int i = 0; i < n; i++) {
			const char *p = argv[3 + i] + 2; int l = strlen(p);
			memset(cur[i], 0, 16);
			for (int j = 0; j < l; j++) { char h = p[l - 1 - j]; int v = h <= '9' ? h - '0' : h - 'a' + 10; cur[i][j / 2] |= v << (4 * (j & 1)); }
		}
		call[f](cur); calls++;
		return 0;
	}
	st = strtoull(argv[2], 0, 0) * 2 + 1;
	double budget = atof(argv[3]);
	struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
	if (n == 1) for (int i = 0; i < ncor[tys[f][0]]; i++) { memcpy(cur[0], cor[tys[f][0]] + 16 * i, 16); call[f](cur); calls++; }
	if (n == 2) for (int i = 0; i < ncor[tys[f][0]]; i++) for (int j = 0; j < ncor[tys[f][1]]; j++) {
		memcpy(cur[0], cor[tys[f][0]] + 16 * i, 16); memcpy(cur[1], cor[tys[f][1]] + 16 * j, 16); call[f](cur); calls++; }
	if (n == 1 && sizes[tys[f][0]] <= 2) { for (unsigned i = 0; i < 65536; i++) { memset(cur[0], 0, 16); memcpy(cur[0], &i, cursz[0]); call[f](cur); calls++; } return 0; }
	if (n == 0) { call[f](cur); return 0; }
	for (;;) {
		for (int k = 0; k < 2000; k++) {
			for (int i = 0; i < n; i++) {
				int t = tys[f][i];
				if (r64() % 3 == 0) memcpy(cur[i], cor[t] + 16 * (r64() % ncor[t]), 16); else rndarg(t, cur[i]);
			}
			call[f](cur); calls++;
		}
		clock_gettime(CLOCK_MONOTONIC, &b);
		if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9 > budget) return 0;
	}
}
"""
TY = ["i1", "i8", "i16", "i32", "i64", "f32", "f64", "f80"]
WHAT = {"trap": "undefined behaviour (sanitizer trap)", "memory": "invalid memory access", "hang": "does not return",
        "arithmetic": "arithmetic trap", "abort": "aborts"}


class Hunter:
    def __init__(self, prog):
        self.dir = tempfile.mkdtemp(prefix="vpu_")
        self.sig = {}
        out = ["#include <stdint.h>", "#include <stdbool.h>", "#include <string.h>"]
        names = []
        for name, f in sorted(prog.ext.items()):
            ps, rt = [tyname(t) for t, _ in f.params], tyname(f.ret)
            if None in ps or rt is None or len(ps) > 4:
                continue
            self.sig[name] = (ps, rt)
            names.append(name)
            out.append("extern %s %s(%s);" % (CT[rt], name, ", ".join(CT[p] for p in ps) or "void"))
            a = ["%s a%d; memcpy(&a%d, in[%d], %d);" % (CT[p], i, i, i, SZ[p]) for i, p in enumerate(ps)]
            out.append("static void c_%s(unsigned char in[4][16]) { (void)in; %s volatile %s r = %s(%s); (void)r; }"
                       % (name, " ".join(a), CT[rt], name, ", ".join("a%d" % i for i in range(len(ps)))))
        out.append("#define NF %d" % len(names))
        out.append("static const char *names[] = {%s};" % ",".join('"%s"' % n for n in names))
        out.append("static void (*call[])(unsigned char[4][16]) = {%s};" % ",".join("c_" + n for n in names))
        out.append("static const int nargs[] = {%s};" % ",".join(str(len(self.sig[n][0])) for n in names))
        out.append("static const int tys[][4] = {%s};" % ",".join(
            "{%s}" % ",".join([str(TY.index(p)) for p in self.sig[n][0]] or ["0"]) for n in names))
        out.append("static const int sizes[] = {%s};" % ",".join(str(SZ[t]) for t in TY))
        cs = [corners(t) for t in TY]
        for i, c in enumerate(cs):
            out.append("static const unsigned char cor%d[] = {%s};" % (
                i, ",".join(str(b) for x in c for b in int(x).to_bytes(16, "little"))))
        out.append("static const int ncor[] = {%s};" % ",".join(str(len(c)) for c in cs))
        out.append("static const unsigned char *cor[] = {%s};" % ",".join("cor%d" % i for i in range(len(cs))))
        main = os.path.join(self.dir, "main.c")
        open(main, "w").write("\n".join(out) + MAIN)
        san = ["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=pointer-overflow",
               "-fsanitize-trap=undefined,float-cast-overflow", "-fsanitize=address"]

        def cc(a):
            subprocess.run(["clang", "-std=gnu99", "-D_ISOC99_SOURCE", "-O1", "-w", "-c", a[0], "-o", a[1]] + a[2],
                           check=True, capture_output=True, timeout=120)
            return a[1]
        jobs = [(s, os.path.join(self.dir, "o%d.o" % i), san) for i, s in enumerate(ext.sources())]
        jobs.append((main, os.path.join(self.dir, "main.o"), []))
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, jobs))
        self.exe = os.path.join(self.dir, "hunt")
        subprocess.run(["clang", "-fsanitize=address,undefined", "-o", self.exe] + objs + ["-lm"], check=True,
                       capture_output=True, timeout=120)

    def run(self, fn, args, tmo):
        try:
            p = subprocess.run([self.exe, fn] + args, capture_output=True, text=True, timeout=tmo)
        except subprocess.TimeoutExpired:
            return None
        if p.returncode == 3 and p.stdout:
            w = p.stdout.split()
            return w[0], [int(x, 16) for x in w[1:]]
        return None

    def hunt(self, fns, seed, total):
        """{function: (what, arguments)} for functions that misbehave, within about `total` seconds"""
        per = max(.3, min(20.0, total * 8 / max(1, len(fns))))
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda f: self.run(f, [str(seed), "%.2f" % per], per + 20), fns))
        return {f: r for f, r in zip(fns, rs) if r}

    def one(self, fn, args):
        return self.run(fn, ["one"] + ["0x%0*x" % (2 * SZ[t], a) for a, t in zip(args, self.sig[fn][0])], 30)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
