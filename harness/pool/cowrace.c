/* Known finding F1: a thread's first store to a neighbouring item (copy-on-write of the page) concurrent
 * with the initialisation of an item in the same page. usage: cowrace SEED SECONDS */
#include <rseq/mempool.h>
#include <pthread.h>
#include <time.h>
#include "hc.h"
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static char *a;
static int go, done;
static void *writer(void *x)
{
	unsigned r = 1;
	for (int n = 1;; n++) {
		int g;
		while ((g = __atomic_load_n(&go, __ATOMIC_ACQUIRE)) < n)
			;
		if (g == 1 << 30)
			return x;
		r = r * 1103515245 + 12345;
		for (volatile unsigned d = (r >> 16) % 1500; d; d--)
			;
		rseq_percpu_ptr(a, 0)[0] = 0x33;
		__atomic_store_n(&done, n, __ATOMIC_RELEASE);
	}
}
int main(int argc, char **argv)
{
	pthread_t t;
	double secs = atof(argv[2]), t0 = now();
	long bad = 0;
	int n;
	unsigned char init[256];
	hc_s = strtoull(argv[1], NULL, 0);
	memset(init, 0x22, sizeof(init));
	pthread_create(&t, NULL, writer, NULL);
	for (n = 1; now() - t0 < secs; n++) {
		struct rseq_mempool_attr *at = rseq_mempool_attr_create();
		struct rseq_mempool *pool;
		char *b;
		rseq_mempool_attr_set_percpu(at, 0, 1);
		rseq_mempool_attr_set_max_nr_ranges(at, 1);
		pool = rseq_mempool_create("x", 256, at);
		rseq_mempool_attr_destroy(at);
		a = rseq_mempool_percpu_zmalloc(pool);
		__atomic_store_n(&go, n, __ATOMIC_RELEASE);
		for (volatile unsigned d = rn(1500); d; d--)
			;
		b = rseq_mempool_percpu_malloc_init(pool, init, sizeof(init));
		while (__atomic_load_n(&done, __ATOMIC_ACQUIRE) < n)
			;
		bad += memcmp(b, init, sizeof(init)) != 0;
		rseq_mempool_percpu_free(b);
		rseq_mempool_percpu_free(a);
		rseq_mempool_destroy(pool);
	}
	__atomic_store_n(&go, 1 << 30, __ATOMIC_RELEASE);
	stat_add("cow_race_rounds", n);
	if (bad)
		viol("C12", "first store to a neighbouring item during malloc_init left stale content (COW_INIT, same page): %ld of %d rounds", bad, n);
	hc_report();
	return bad ? 1 : 0;
}
