/* The same probes built for x86-32 and run without a C library.  usage: mo32 SEED ROUNDS */
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <signal.h>
#include <ucontext.h>
#define FREESTANDING
#include "../step/sys.h"
#include "probe.h"
extern struct mtab *const mtabs[];
extern void (*const minits[])(void);
extern const unsigned n_mtabs;
static int hc_viols;
static uint64_t hc_s;
static uint64_t hc_mix(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static uint64_t hmix2(uint64_t a, uint64_t b) { return hc_mix(a ^ (b * 0xff51afd7ed558ccdULL)); }
static uint64_t rnd(void) { hc_s += 0x9e3779b97f4a7c15ULL; return hc_mix(hc_s); }
static struct { const char *k; long n; } st[16];
static void stat_add(const char *k, long n)
{
	for (int i = 0; i < 16; i++) {
		if (!st[i].k) st[i].k = k;
		if (!strcmp(st[i].k, k)) { st[i].n += n; return; }
	}
}
static uint64_t ds[4096];
static void distinct(uint64_t h)
{
	unsigned i;
	h = hc_mix(h) | 1;
	for (i = (unsigned)(h >> 20) & 4095; ds[i]; i = (i + 1) & 4095)
		if (ds[i] == h || st[15].n > 3000) return;
	ds[i] = h;
	st[15].n++;
}
/* %s %d %ld %lld %#llx only */
static void viol(const char *props, const char *f, ...)
{
	char b[32];
	va_list ap;
	if (hc_viols++ >= 30) return;
	va_start(ap, f);
	o_str("VIOL "); o_str(props); o_str(" ");
	for (; *f; f++) {
		int l = 0, x = 0;
		if (*f != '%') { b[0] = *f; b[1] = 0; o_str(b); continue; }
		for (f++; *f == '#' || *f == 'l'; f++) { l += *f == 'l'; x |= *f == '#'; }
		if (*f == 's') o_str(va_arg(ap, const char *));
		else if (l == 2) o_hex(va_arg(ap, uint64_t));
		else { o_dec(b, va_arg(ap, long)); o_str(b); }
	}
	va_end(ap);
	o_str("\n"); o_flush();
}
#include "core.h"
/* store buffering between two processes sharing a page */
struct shm { volatile int x; char p0[252]; volatile int y; char p1[252]; volatile int r[2]; char p2[248]; volatile long go; char p3[252]; volatile long fin; char p4[252]; volatile long stop; };
static void pin(int c) { unsigned m[32]; memset(m, 0, sizeof(m)); m[c / 32] = 1u << (c & 31); sc(241, 0, sizeof(m), (long)m, 0); }
static void litmus(const struct sb *s, struct shm *L, int c0, int c1, long rounds)
{
	long pid, n, weird = 0, mixed = 0, w;
	memset((void *)L, 0, sizeof(*L));
	o_flush();
	pid = sc(2, 0, 0, 0, 0);
	if (pid < 0) return;
	if (!pid) {
		sc(172, 1, 9, 0, 0);	/* ends with its parent */
		pin(c1);
		for (n = 1;; n++) {
			for (w = 0; L->go < n; w++) { if (L->stop) sys_exit(0); if (w > 20000) sc(158, 0, 0, 0, 0); }
			for (unsigned d = (unsigned)(n * 7) % 13; d; d--) __asm__ volatile("" ::: "memory");
			s->a(&L->y, &L->x, (int *)&L->r[1]);
			__atomic_store_n(&L->fin, n, __ATOMIC_SEQ_CST);
		}
	}
	pin(c0);
	for (n = 1; n <= rounds; n++) {
		L->x = L->y = 0;
		__atomic_store_n(&L->go, n, __ATOMIC_SEQ_CST);
		for (unsigned d = (unsigned)(n * 5) % 61; d; d--) __asm__ volatile("" ::: "memory");
		s->a(&L->x, &L->y, (int *)&L->r[0]);
		for (w = 0; __atomic_load_n(&L->fin, __ATOMIC_SEQ_CST) != n; w++) if (w > 20000) sc(158, 0, 0, 0, 0);
		weird += !L->r[0] && !L->r[1];
		mixed += L->r[0] && L->r[1];
	}
	L->stop = 1;
	sc(7, pid, 0, 0, 0);
	stat_add("store_buffering_rounds_32bit", rounds);
	stat_add("store_buffering_overlapped_32bit", mixed);
	if (weird) viol("C25", "full barrier, compiled as %s: %ld rounds in which neither side saw the other's store", s->tu, weird);
}
int step_main(int argc, char **argv)
{
	static char alt[32768];
	unsigned aff[32];
	int cpus[64], nc = 0;
	long rounds = argc > 2 ? (long)o_atou(argv[2]) : 20000;
	struct shm *L;
	hc_s = argc > 1 ? o_atou(argv[1]) : 1;
	if (argc > 1 && !strcmp(argv[1], "none")) return 0;
	sys_altstack(alt, sizeof(alt));
	sys_sigaction(SIGTRAP, onstep);
	for (unsigned i = 0; i < n_mtabs; i++) minits[i]();
	for (unsigned i = 0; i < n_mtabs; i++) {
		for (unsigned k = 0; k < mtabs[i]->np && hc_viols < 8; k++) run_probe(&mtabs[i]->p[k]);
		for (unsigned k = 0; k < mtabs[i]->nv && hc_viols < 8; k++) run_values(&mtabs[i]->v[k]);
		for (long s = -50; s < 50; s++) {
			long r = 0;
			for (int j = 0; j < 14; j++) { r += (s * (j + 3)) ^ (j * 7); r += (s * (j + 3)) * (j + 1); }
			stat_add("red_zone_checks", 1);
			if (mtabs[i]->sb->redzone(s) != r) { viol("C25,C05", "barrier changed values of its function, compiled as %s", mtabs[i]->sb->tu); break; }
		}
	}
	memset(aff, 0, sizeof(aff));
	sc(242, 0, sizeof(aff), (long)aff, 0);
	for (int i = 0; i < 1024 && nc < 64; i++) if (aff[i / 32] >> (i & 31) & 1) cpus[nc++] = i;
	{
		struct { unsigned long a, l, p, f, fd, o; } m = { 0, 8192, 3, 0x21, (unsigned long)-1, 0 };	/* old mmap: shared anonymous */
		L = (struct shm *)sc(90, (long)&m, 0, 0, 0);
	}
	if (nc >= 2 && (unsigned long)L < 0xfffff000ul)
		for (unsigned i = 0; i < n_mtabs; i++) {
			unsigned a = (unsigned)rnd() % (unsigned)nc, b = (a + 1 + (unsigned)rnd() % (unsigned)(nc - 1)) % (unsigned)nc;
			litmus(mtabs[i]->sb, L, cpus[a], cpus[b], rounds);
		}
	for (int i = 0; i < 15 && st[i].k; i++) o_stat(st[i].k, (unsigned long)st[i].n);
	for (int i = 0; i < 4096; i++)
		if (ds[i]) { o_str("D "); char h[24]; uint64_t v = ds[i] >> 8; int j = 23; h[j] = 0; do { h[--j] = "0123456789abcdef"[v & 15]; v >>= 4; } while (v); o_str(h + j); o_str("\n"); }
	return hc_viols ? 1 : 0;
}
