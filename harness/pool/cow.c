/* Page population of idle CPUs, read from /proc/self/pagemap. usage: cow SEED SECONDS */
#include "model.h"
#include <time.h>
#include <fcntl.h>

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static int pm;

/* a page frame this process owns alone and which is not the file's */
static int is_private(uint64_t e) { return (e >> 63) && ((e >> 56) & 1) && !((e >> 61) & 1); }
static long private_pages(char *a, size_t len, char **first)
{
	static uint64_t e[4096];
	long n = 0;
	for (size_t o = 0; o < len; o += sizeof(e) / 8 * PAGE) {
		size_t k = (len - o) / PAGE;
		if (k > 4096) k = 4096;
		if (pread(pm, e, k * 8, (off_t)((uintptr_t)(a + o) / PAGE * 8)) != (ssize_t)(k * 8))
			harness_error("pagemap");
		for (size_t i = 0; i < k; i++) {
			if ((e[i] >> 62) & 1)	/* swapped: was private */
				n++;
			if (is_private(e[i])) {
				if (!n && first)
					*first = a + o + i * PAGE;
				n++;
			}
		}
	}
	return n;
}

static void scenario(struct geo *g)
{
	size_t isz = pow2up(g->item_len), stride = g->stride ? g->stride : 65536, slots = stride / isz;
	int ncpu = g->ncpu ? g->ncpu : rseq_get_max_nr_cpus();
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	struct rseq_mempool *h;
	static struct { char *p; int wr; } it[5000];
	static char *bases[64];
	static unsigned char ib[1 << 17];
	unsigned char active[600] = { 0 };
	int n = 0, nb = 0, steps = 40 + (int)rn(160), freed = 0;

	for (int c = 0; c < ncpu; c++)
		active[c] = rn(4) == 0;
	active[rn((unsigned)ncpu)] = 0;	/* at least one idle */
	rseq_mempool_attr_set_percpu(a, g->stride, g->ncpu);
	rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy)g->policy);
	if (g->robust) rseq_mempool_attr_set_robust(a);
	if (g->poison_set) rseq_mempool_attr_set_poison(a, g->poison);
	rseq_mempool_attr_set_max_nr_ranges(a, g->ranges);
	h = rseq_mempool_create("cow", g->item_len, a);
	rseq_mempool_attr_destroy(a);
	if (!h) {
		viol("C22", "create failed errno %d %s", errno, gstr(g));
		return;
	}
	for (int s = 0; s < steps; s++) {
		int k = 1 + (int)rn(rn(6) ? 4 : 80);
		if (rn(2)) {
			while (k-- > 0 && n < 4000) {
				char *p, *b;
				size_t len = rlen(isz);
				int mode = (int)rn(3), i;
				if ((size_t)n >= slots * (g->ranges ? g->ranges : 6))
					break;
				if (len > sizeof(ib))
					len = sizeof(ib);
				if (mode == M_INIT) {
					if (g->policy == RSEQ_MEMPOOL_POPULATE_COW_ZERO) memset(ib, 0, len);
					else fill(ib, len, rnd());
				}
				p = mode == M_PLAIN ? rseq_mempool_percpu_malloc(h) : mode == M_ZERO ? rseq_mempool_percpu_zmalloc(h) : rseq_mempool_percpu_malloc_init(h, ib, len);
				stat_add("allocs", 1);
				if (!p)
					break;
				b = (char *)((uintptr_t)p & ~(stride - 1));
				for (i = 0; i < nb && bases[i] != b; i++)
					;
				if (i == nb && nb < 64)
					bases[nb++] = b;
				it[n].p = p;
				it[n].wr = 0;
				if (rn(2))
					for (int c = 0; c < ncpu; c++)
						if (active[c]) {
							fill((unsigned char *)p + (size_t)c * stride, isz, rnd());
							it[n].wr = 1;
						}
				/* idle CPUs may read */
				volatile char sink = 0;
				for (int c = 0; c < ncpu; c++)
					if (!active[c] && rn(2))
						sink += p[(size_t)c * stride + rnd() % isz];
				n++;
			}
		} else {
			while (k-- > 0 && n) {
				int i = (int)rn((unsigned)n);
				rseq_mempool_percpu_free(it[i].p, stride);
				stat_add("frees", 1);
				freed = 1;
				it[i] = it[--n];
			}
		}
		for (int b = 0; b < nb; b++)
			for (int c = 0; c < ncpu; c++) {
				char *f = NULL;
				long x;
				if (active[c])
					continue;
				/* a zero-populated pool without robust attribute keeps its free list in the first CPU's memory */
				if (c == 0 && freed && g->policy == RSEQ_MEMPOOL_POPULATE_COW_ZERO && !g->robust)
					continue;
				x = private_pages(bases[b] + (size_t)c * stride, stride, &f);
				stat_add("idle_cpu_areas_checked", 1);
				if (x) {
					viol("C22", "%ld private page(s) (first at offset %#zx) populated for idle cpu %d after %d steps %s", x, (size_t)(f - bases[b]) & (stride - 1), c, s + 1, gstr(g));
					goto out;
				}
			}
		distinct(hmix2(hmix2((uint64_t)g->policy * 8 + (uint64_t)g->robust * 4 + (uint64_t)g->poison_set, hmix2(isz, stride)), (uint64_t)n * 64 + (uint64_t)nb));
	}
	/* the monitor itself must see population when it happens */
	if (nb) {
		for (int c = 0; c < ncpu; c++)
			if (!active[c] && n) {
				it[0].p[(size_t)c * stride] ^= 1;
				if (!private_pages((char *)((uintptr_t)it[0].p & ~(stride - 1)) + (size_t)c * stride, stride, NULL))
					harness_error("pagemap monitor does not see a written page");
				it[0].p[(size_t)c * stride] ^= 1;
				stat_add("positive_controls", 1);
				break;
			}
	}
out:
	while (n)
		rseq_mempool_percpu_free(it[--n].p, stride);
	rseq_mempool_destroy(h);
	stat_add("pools", 1);
	sample("%d ranges, %d steps %s", nb, steps, gstr(g));
}

int main(int argc, char **argv)
{
	uint64_t seed = strtoull(argv[1], NULL, 0);
	double secs = atof(argv[2]), t0 = now();
	long n = 0;

	setvbuf(stdout, NULL, _IOLBF, 0);
	pm = open("/proc/self/pagemap", O_RDONLY);
	if (pm < 0)
		harness_error("no pagemap");
	while (now() - t0 < secs && hc_viols < 10) {
		struct geo g;
		hc_s = hmix2(seed, (uint64_t)n++);
		geo_random(&g, 2UL << 20);
		g.attr_null = g.init = g.global = 0;
		if (g.policy == RSEQ_MEMPOOL_POPULATE_COW_ZERO)
			g.poison = 0;
		scenario(&g);
	}
	hc_report();
	return hc_viols ? 1 : 0;
}
