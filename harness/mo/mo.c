/* Ordering primitives: every instruction boundary of small probes is observed
 * (single-step), plus multi-core litmus loops.  usage: mo SEED SECONDS [shard n] */
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <ucontext.h>
#include "hc.h"
#include "probe.h"
extern struct mtab *const mtabs[];
extern void (*const minits[])(void);
extern const unsigned n_mtabs;
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
#include "core.h"
/* store-buffering litmus */
struct shm { volatile int x; char p0[252]; volatile int y; char p1[252]; volatile long a_seq, pad[31]; volatile long b_seq, pad2[31]; };
static struct shm L __attribute__((aligned(4096)));
static struct { int r __attribute__((aligned(256))); } R[2];
static const struct sb *csb;
static int pair[2];
static long iters;
static volatile int lstop;
static void pin(int c) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(c, &s); sched_setaffinity(0, sizeof(s), &s); }
static volatile long gen_go __attribute__((aligned(256))), fin0 __attribute__((aligned(256))), fin1 __attribute__((aligned(256)));
static void *side_b(void *a)
{
	long g = 0;
	(void)a;
	pin(pair[1]);
	for (;;) {
		long w = 0;
		while (__atomic_load_n(&gen_go, __ATOMIC_ACQUIRE) == g) { if (lstop) return NULL; if (++w > 20000) sched_yield(); }
		g++;
		for (unsigned d = (unsigned)(g * 7) % 13; d; d--) __asm__ volatile("" ::: "memory");
		csb->a(&L.y, &L.x, &R[1].r);
		__atomic_store_n(&fin1, g, __ATOMIC_RELEASE);
	}
}
static long sb(const struct sb *s, int c0, int c1, double secs)
{
	pthread_t t;
	double t1 = now() + secs;
	long n = 0, weird = 0, mixed = 0;
	csb = s;
	pair[0] = c0; pair[1] = c1;
	gen_go = 0; fin1 = 0; lstop = 0;
	pthread_create(&t, NULL, side_b, NULL);
	pin(c0);
	while ((n & 1023) || now() < t1) {
		long w = 0;
		L.x = 0; L.y = 0;
		n++;
		__atomic_store_n(&gen_go, n, __ATOMIC_SEQ_CST);
		for (unsigned d = (unsigned)(n * 5) % 61; d; d--) __asm__ volatile("" ::: "memory");
		s->a(&L.x, &L.y, &R[0].r);
		while (__atomic_load_n(&fin1, __ATOMIC_ACQUIRE) != n) if (++w > 20000) sched_yield();
		if (!R[0].r && !R[1].r) weird++;
		if (R[0].r && R[1].r) mixed++;
	}
	lstop = 1;
	pthread_join(t, NULL);
	stat_add("store_buffering_rounds", n);
	stat_add("store_buffering_overlapped", mixed);
	return weird;
}
int main(int argc, char **argv)
{
	uint64_t seed = strtoull(argv[1], NULL, 0);
	double secs = atof(argv[2]);
	int shard = argc > 3 ? atoi(argv[3]) : 0, ns = argc > 4 ? atoi(argv[4]) : 1;
	struct sigaction sa = { 0 };
	stack_t ss = { .ss_sp = malloc(1 << 16), .ss_size = 1 << 16 };
	cpu_set_t set;
	int cpus[64], nc = 0, idx = 0;
	hc_s = seed;
	setvbuf(stdout, NULL, _IOLBF, 0);
	sigaltstack(&ss, NULL);
	sa.sa_sigaction = onstep;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGTRAP, &sa, NULL);
	for (unsigned i = 0; i < n_mtabs; i++) minits[i]();
	if (ns == 0) goto litmus;
	for (unsigned i = 0; i < n_mtabs; i++) {
		for (unsigned k = 0; k < mtabs[i]->np && hc_viols < 8; k++)
			if (idx++ % ns == shard) run_probe(&mtabs[i]->p[k]);
		for (unsigned k = 0; k < mtabs[i]->nv && hc_viols < 8; k++)
			if (idx++ % ns == shard) run_values(&mtabs[i]->v[k]);
		if (idx++ % ns == shard)
			for (long s = -50; s < 50; s++) {
				long r = 0;
				for (int j = 0; j < 14; j++) { r += (s * (j + 3)) ^ (j * 7); r += (s * (j + 3)) * (j + 1); }
				stat_add("red_zone_checks", 1);
				if (mtabs[i]->sb->redzone(s) != r) { viol("C25,C05", "barrier changed values of its function, compiled as %s", mtabs[i]->sb->tu); break; }
			}
	}
	sample("%s: type %s, unit %s", kname[mtabs[0]->p[seed % mtabs[0]->np].kind], mtabs[0]->p[seed % mtabs[0]->np].type, mtabs[0]->p[0].tu);
	hc_report();
	return hc_viols ? 1 : 0;
litmus:
	sched_getaffinity(0, sizeof(set), &set);
	for (int i = 0; i < 1024 && nc < 64; i++) if (CPU_ISSET(i, &set)) cpus[nc++] = i;
	if (nc < 2) { stat_add("litmus_skipped_single_cpu", 1); hc_report(); return 0; }
	{
		unsigned k = n_mtabs;
		for (unsigned i = 0; i < k; i++) {
			int a = (int)rn((unsigned)nc), b = (a + 1 + (int)rn((unsigned)nc - 1)) % nc;
			long w = sb(mtabs[i]->sb, cpus[a], cpus[b], secs / k);
			if (w) viol("C25", "full barrier, compiled as %s: %ld rounds in which neither side saw the other's store (cpus %d and %d)", mtabs[i]->sb->tu, w, cpus[a], cpus[b]);
			distinct(hmix2(i, (uint64_t)(a * 64 + b)));
		}
		sample("store buffering, both sides store then barrier then load, all compiled units");
	}
	hc_report();
	return hc_viols ? 1 : 0;
}
