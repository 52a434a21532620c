/* NUMA helper against recording stand-ins for libnuma. usage: numa SEED SECONDS */
#include <rseq/mempool.h>
#include <errno.h>
#include <time.h>
#include "hc.h"
#include "pagelen.h"
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

static int q_calls, q_cpu_ok, q_ret, q_err;	/* numa_node_of_cpu */
static long mv_calls, mv_pages, mv_fail_at, mv_short;
static int mv_err, want_cpu, want_node, want_flags, bad;
static char *r_base; static size_t r_pages;
static unsigned char *seen;
static char why[200];

int numa_node_of_cpu(int cpu)
{
	q_calls++;
	if (cpu != want_cpu) { bad++; snprintf(why, sizeof(why), "node asked for cpu %d instead of %d", cpu, want_cpu); }
	if (q_ret < 0) { errno = q_err; return -1; }
	return want_node;
}
static long mv(int pid, unsigned long count, void **pages, const int *nodes, int *status, int flags)
{
	mv_calls++;
	if (pid != 0 && pid != getpid()) { bad++; snprintf(why, sizeof(why), "pid %d", pid); }
	if (flags != want_flags) { bad++; snprintf(why, sizeof(why), "flags %d instead of %d", flags, want_flags); }
	if (!nodes) { bad++; snprintf(why, sizeof(why), "no target nodes"); }
	for (unsigned long i = 0; i < count; i++) {
		char *p = pages[i];
		size_t k = (size_t)(p - r_base) / PAGE;
		if (p < r_base || k >= r_pages || ((uintptr_t)p & (PAGE - 1))) { bad++; snprintf(why, sizeof(why), "page %p outside the range %p+%zu pages", p, r_base, r_pages); return 0; }
		if (seen[k]++) { bad++; snprintf(why, sizeof(why), "page %zu of %zu requested twice", k, r_pages); }
		if (nodes && nodes[i] != want_node) { bad++; snprintf(why, sizeof(why), "page %zu sent to node %d instead of %d", k, nodes[i], want_node); }
		status[i] = mv_short && i % 7 == 3 ? -EBUSY : want_node;
		mv_pages++;
	}
	if (mv_fail_at && mv_calls == mv_fail_at) { errno = mv_err; return -1; }
	return mv_short ? (long)count / 7 : 0;
}
long move_pages(int pid, unsigned long count, void **pages, const int *nodes, int *status, int flags) { return mv(pid, count, pages, nodes, status, flags); }
int numa_move_pages(int pid, unsigned long count, void **pages, const int *nodes, int *status, int flags) { return (int)mv(pid, count, pages, nodes, status, flags); }

int main(int argc, char **argv)
{
	uint64_t seed = strtoull(argv[1], NULL, 0);
	double secs = atof(argv[2]), t0 = now();
	long n = 0;
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (!freopen("/dev/null", "w", stderr)) return 3;
	seen = calloc(1, 1 << 20);
	while (now() - t0 < secs && hc_viols < 10) {
		int r, e, flags;
		hc_s = hmix2(seed, (uint64_t)n++);
		r_pages = rn(3) ? PICK(0UL, 1UL, 2UL, 3UL, 16UL, 255UL, 256UL, 1023UL, 1024UL, 4095UL, 4096UL, 4097UL, 4098UL, 8191UL, 8192UL, 8193UL, 12288UL, 12289UL, 20000UL, 65536UL, 65537UL) : rnd() % 70000;
		r_base = (char *)(0x7f0000000000UL + (rnd() % 100000) * PAGE);
		want_cpu = PICK(0, 1, 2, 5, 63, 1000, 8191, 40000, 1 << 20);
		want_node = rn(4) ? (int)rn(9) : PICK(100, 255, 256, 1023, 40000);
		flags = rn(12) ? PICK(1 << 1, 1 << 2, (1 << 1) | (1 << 2), 0x40000000) : 0;
		want_flags = flags;
		q_ret = rn(12) ? 0 : -1;
		q_err = PICK(EINVAL, ENOMEM);
		mv_fail_at = rn(4) ? 0 : 1 + (long)rn(6);
		mv_err = PICK(EPERM, EINVAL, ENOENT, ENODEV, E2BIG, ENOMEM, EACCES);
		mv_short = rn(4) == 0;
		mv_calls = mv_pages = q_calls = bad = 0;
		memset(seen, 0, r_pages + 1);
		errno = 0;
		r = rseq_mempool_range_init_numa(r_base, r_pages * PAGE, want_cpu, flags);
		e = errno;
		stat_add("numa_calls", 1);
		stat_add("pages_requested", mv_pages);
		distinct(hmix2(hmix2(r_pages, (uint64_t)flags), hmix2((uint64_t)want_cpu * 16 + (uint64_t)want_node, (uint64_t)mv_fail_at * 4 + (uint64_t)mv_short * 2 + (uint64_t)(q_ret < 0))));
		if (bad)
			viol("C24", "range of %zu pages, cpu %d: %s", r_pages, want_cpu, why);
		if (!flags) {
			if (r != -1 || e != EINVAL) viol("C24", "missing flags: returned %d errno %d", r, e);
			if (mv_calls) viol("C24", "missing flags: pages were moved");
			stat_add("no_flags", 1);
		} else if (q_ret < 0) {
			if (r != -1 || !e) viol("C24", "unknown cpu: returned %d errno %d", r, e);
			if (mv_calls) viol("C24", "unknown cpu: pages were moved");
			stat_add("unknown_cpu", 1);
		} else if (mv_fail_at && mv_calls >= mv_fail_at) {
			if (r != -1 || e != mv_err) viol("C24", "kernel refused batch %ld with errno %d: helper returned %d errno %d (%zu pages)", mv_fail_at, mv_err, r, e, r_pages);
			stat_add("kernel_refusals", 1);
		} else {
			if (r) viol("C24", "returned %d errno %d for %zu pages", r, e, r_pages);
			if ((size_t)mv_pages != r_pages) viol("C24", "%ld of %zu pages requested", mv_pages, r_pages);
			for (size_t i = 0; i < r_pages; i++)
				if (seen[i] != 1) { viol("C24", "page %zu of %zu requested %d times", i, r_pages, seen[i]); break; }
			stat_add("complete_ranges", 1);
			if (mv_calls > 1) stat_add("multi_batch", 1);
		}
		sample("%zu pages, cpu %d -> node %d, flags %d: %ld batches, returned %d", r_pages, want_cpu, want_node, flags, mv_calls, r);
	}
	hc_report();
	return hc_viols ? 1 : 0;
}
