/* Registration, queries and unregistered operations on the real kernel.
 * usage: regreal SEED SECONDS   (run once with and once without glibc.pthread.rseq=0) */
#include <rseq/rseq.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/auxv.h>
#include <sys/syscall.h>
#include <time.h>
#include "hc.h"

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static int ncpus, cpus[1024], owned;
static pthread_mutex_t L = PTHREAD_MUTEX_INITIALIZER;
#define V(props, ...) do { pthread_mutex_lock(&L); viol(props, __VA_ARGS__); pthread_mutex_unlock(&L); } while (0)
#define S(k, n) do { pthread_mutex_lock(&L); stat_add(k, n); pthread_mutex_unlock(&L); } while (0)
static double tend;
static int cid0_done, unreg;
static uint64_t seed0;

static int pin(int c)
{
	cpu_set_t s;
	CPU_ZERO(&s);
	CPU_SET(c, &s);
	return sched_setaffinity(0, sizeof(s), &s);
}
static void raw_getcpu(unsigned *c, unsigned *n)
{
	register long r10 __asm__("r10") = 0;
	long r;
	__asm__ volatile("syscall" : "=a"(r) : "a"(SYS_getcpu), "D"(c), "S"(n), "d"(0L), "r"(r10) : "rcx", "r11", "memory");
}
static void queries(int reg, int cpu)
{
	unsigned c = 0, n = 0;
	int max = rseq_get_max_nr_cpus();
	raw_getcpu(&c, &n);
	if ((int)c != cpu)
		return;		/* affinity changed under us */
	S("real_query_rounds", 1);
	if (reg ? rseq_current_cpu_raw() != cpu : rseq_current_cpu_raw() >= 0)
		V("C09,C07", "real kernel: raw cpu query %d, thread %s, pinned to cpu %d", rseq_current_cpu_raw(), reg ? "registered" : "not registered", cpu);
	if ((int)rseq_current_cpu() != cpu)
		V("C09", "real kernel: current cpu query %u, thread %s, pinned to cpu %d", rseq_current_cpu(), reg ? "registered" : "not registered", cpu);
	if (rseq_fallback_current_cpu() != cpu || rseq_fallback_current_node() != (int)n)
		V("C09", "real kernel: fallback queries %d node %d, pinned to cpu %d node %u", rseq_fallback_current_cpu(), rseq_fallback_current_node(), cpu, n);
	if (rseq_cpu_start() >= (unsigned)max || (reg && (int)rseq_cpu_start() != cpu))
		V("C09", "real kernel: cpu_start query %u, pinned to cpu %d, max %d", rseq_cpu_start(), cpu, max);
	if (reg && rseq_node_id_available() && rseq_current_node_id() != n)
		V("C09", "real kernel: node query %u, node is %u", rseq_current_node_id(), n);
	if (rseq_mm_cid_available() && rseq_current_mm_cid() >= (unsigned)max)
		V("C09", "real kernel: concurrency id %u, max %d", rseq_current_mm_cid(), max);
}
#define RESET() do { for (int _i = 0; _i < 64; _i++) l[_i] = 0x1000 + _i; l[8] = (long)&l[16]; l[20] = (long)&l[32]; } while (0)
/* operations of a thread the kernel does not know must fail and leave memory alone */
static void unreg_ops(int mode, int cpu)
{
	long l[64], want[64];
	for (int op = 0; op < 9; op++) {
		int r = 99;
		RESET();
		memcpy(want, l, sizeof(l));
		switch (op) {
		case 0: r = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, &l[0], 0x1000, 77, cpu); break;
		case 1: r = rseq_load_cbeq_store_add_load_store__ptr(RSEQ_MO_RELAXED, mode, &l[8], 0, 8, &l[1], cpu); break;
		case 2: r = rseq_load_add_store__ptr(RSEQ_MO_RELAXED, mode, &l[0], 5, cpu); break;
		case 3: r = rseq_load_cbne_store_store__ptr(RSEQ_MO_RELAXED, mode, &l[0], 0x1000, &l[1], 5, 6, cpu); break;
		case 4: r = rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, &l[0], 0x1000, &l[1], 0x1001, 6, cpu); break;
		case 5: r = rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, mode, &l[0], 0x1000, &l[40], &l[2], 48, 6, cpu); break;
		case 6: r = rseq_load_cbne_store_store__ptr(RSEQ_MO_RELEASE, mode, &l[0], 0x1000, &l[1], 5, 6, cpu); break;
		case 7: r = rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELEASE, mode, &l[0], 0x1000, &l[40], &l[2], 48, 6, cpu); break;
		case 8:
#ifdef rseq_arch_has_load_add_load_load_add_store
			r = rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, mode, &l[8], 32, 5, cpu);
#else
			r = -1;
#endif
			break;
		}
		S("unregistered_ops", 1);
		if (r != -1 || memcmp(l, want, sizeof(l)))
			V("C03", "unregistered thread, %s index, cpu %d, operation %d: returned %d%s", mode == RSEQ_PERCPU_CPU_ID ? "cpu_id" : "mm_cid", cpu, op, r, memcmp(l, want, sizeof(l)) ? " and changed memory" : "");
	}
}
static void *thr(void *a)
{
	uint64_t s = seed0 * 131 + (uint64_t)(uintptr_t)a;
	int max = rseq_get_max_nr_cpus(), regd = !owned;
#define R(n) ((int)((s = hc_mix(s)) % (unsigned)(n)))

	while (now() < tend) {
		int cpu = cpus[R(ncpus)];
		if (pin(cpu))
			continue;
		if (!owned) {
			/* C library owned: both calls succeed and nothing changes */
			int r = R(2) ? rseq_register_current_thread() : rseq_unregister_current_thread();
			S("real_registrations", 1);
			if (r)
				V("C07", "real kernel: call returned %d although the C library owns registration", r);
			queries(1, cpu);
			continue;
		}
		queries(regd, cpu);
		if (!regd && unreg) {
			unreg_ops(RSEQ_PERCPU_CPU_ID, R(max));
			unreg_ops(RSEQ_PERCPU_CPU_ID, R(2) ? 0 : cpu);
			if (max > 1)
				unreg_ops(RSEQ_PERCPU_MM_CID, 1 + R(max - 1));
			if (!__atomic_exchange_n(&cid0_done, 1, __ATOMIC_RELAXED))
				unreg_ops(RSEQ_PERCPU_MM_CID, 0);
		}
		switch (R(3)) {
		case 0:
			if (!regd) {
				if (rseq_register_current_thread())
					V("C07", "real kernel: registration failed, errno %d", errno);
				else
					regd = 1;
				S("real_registrations", 1);
			}
			break;
		case 1: {
			int r = rseq_unregister_current_thread();
			S("real_unregistrations", 1);
			if (r != (regd ? 0 : -1))
				V("C07", "real kernel: unregistration of a %s thread returned %d", regd ? "registered" : "not registered", r);
			regd = 0;
			break;
		}
		}
		queries(regd, cpu);
		if (regd && !rseq_size)
			V("C07", "real kernel: registered thread sees published size 0");
		pthread_mutex_lock(&L);
		distinct(hmix2((uint64_t)regd, (uint64_t)cpu));
		pthread_mutex_unlock(&L);
	}
	if (regd && owned && rseq_unregister_current_thread())
		V("C07", "real kernel: final unregistration failed, errno %d", errno);
	return NULL;
}
int main(int argc, char **argv)
{
	pthread_t th[12];
	cpu_set_t set;
	unsigned long feat = getauxval(27);
	const char *tun = getenv("GLIBC_TUNABLES");
	unsigned want;

	unreg = argc > 3;
	setvbuf(stdout, NULL, _IOLBF, 0);
	seed0 = strtoull(argv[1], NULL, 0);
	sched_getaffinity(0, sizeof(set), &set);
	for (int i = 0; i < 1024; i++)
		if (CPU_ISSET(i, &set))
			cpus[ncpus++] = i;
	owned = tun && strstr(tun, "rseq=0");
	if (!rseq_available(RSEQ_AVAILABLE_QUERY_KERNEL)) {
		if (syscall(SYS_rseq, NULL, 0, 0, 0) == -1 && errno == ENOSYS)
			harness_error("this kernel has no rseq");
		V("C08", "real kernel: availability query denies a kernel that has rseq");
	}
	if (rseq_available(RSEQ_AVAILABLE_QUERY_LIBC) != !owned)
		V("C08", "real kernel: C library availability query returned %d", !!owned);
	want = feat ? (unsigned)feat : 20;
	if (owned) {
		if (rseq_size != 0)
			V("C07,C08", "real kernel: published size %u before the first registration", rseq_size);
		if (rseq_register_current_thread())
			V("C07", "real kernel: first registration failed, errno %d", errno);
		if (rseq_size != want)
			V("C07,C08", "real kernel: published size %u, kernel provides %u", rseq_size, want);
	} else {
		extern const unsigned int __rseq_size __attribute__((weak));
		unsigned ls = __rseq_size;
		if (ls == 20 || ls == 32)
			ls = want < 32 ? want : 32;
		if (rseq_size != ls)
			V("C08", "real kernel: published size %u, expected %u", rseq_size, ls);
	}
	if (rseq_node_id_available() != (rseq_size >= 24) || rseq_mm_cid_available() != (rseq_size >= 28))
		V("C08", "real kernel: feature predicates wrong for size %u", rseq_size);
	stat_add("real_worlds", 1);
	tend = now() + atof(argv[2]);
	for (int i = 0; i < 12; i++)
		pthread_create(&th[i], NULL, thr, (void *)(intptr_t)(i + 1));
	for (int i = 0; i < 12; i++)
		pthread_join(th[i], NULL);
	sample("real kernel, %s registration, %d cpus, published size %u", owned ? "librseq" : "C library", ncpus, rseq_size);
	hc_report();
	return hc_viols ? 1 : 0;
}
