/* Random API histories against the model. usage: hist SEED COUNT [MODE]
 * modes: pool (default), set, params */
#ifndef __SANITIZE_ADDRESS__
#define PAGELEN_MMAP
#include "pagelen.h"
#endif
#include "model.h"
#include <time.h>

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static int item_cap(const struct pool *q)
{
	size_t per = q->isz * (size_t)q->ncpu;
	size_t m = (6UL << 20) / per;
	if (m < 3) m = 3;
	if (m > MAXITEM - 2) m = MAXITEM - 2;
	return (int)m;
}
static int range_cap(const struct pool *q) { size_t m = q->slots * 9; return m > MAXITEM - 2 ? MAXITEM - 2 : (int)m; }

static void one_op(struct pool *q)
{
	int cap = item_cap(q), rc = range_cap(q);
	unsigned op = rn(100);
	static unsigned bias;

	if (rn(40) == 0)
		bias = rn(60);
	q->ops++;
	if (cap > rc)
		cap = rc;
	if (op < 20 + bias) {
		int k = 1 + (int)rn(rn(10) == 0 ? 60 : 4);
		while (k-- > 0 && q->n < cap) {
			int mode = (int)rn(3);
			size_t len = rlen(q->isz);
			int i;
			if (mode == M_INIT && rn(30) == 0)
				len = q->isz + 1 + rn(16);
			i = pool_alloc(q, mode, len, q->g.init && rn(4) == 0 ? 1 + (int)rn((unsigned)q->ncpu) : 0);
			if (i < 0)
				continue;
			/* scribble over every byte of every copy, or a part of one */
			switch (rn(4)) {
			case 0: for (int c = 0; c < q->ncpu; c++) item_write(q, i, c, 0, q->isz, rnd()); break;
			case 1: item_write(q, i, (int)rn((unsigned)q->ncpu), 0, q->isz, rnd()); break;
			case 2: { size_t o = rnd() % q->isz; item_write(q, i, (int)rn((unsigned)q->ncpu), o, 1 + rnd() % (q->isz - o), rnd()); break; }
			}
		}
	} else if (op < 88 && q->n) {
		int k = 1 + (int)rn(rn(10) == 0 ? 60 : 4), pol = (int)rn(3);
		while (k-- > 0 && q->n)
			pool_free(q, pol == 0 ? q->n - 1 : pol == 1 ? 0 : (int)rn((unsigned)q->n));
	} else if (op < 95 && q->n) {
		int i = (int)rn((unsigned)q->n), c = (int)rn((unsigned)q->ncpu);
		size_t o = rnd() % q->isz;
		item_write(q, i, c, o, 1 + rnd() % (q->isz - o), rnd());
		item_verify(q, i, "after a store to one copy", "C13,C11");
		if (q->n > 1)
			item_verify(q, (int)rn((unsigned)q->n), "after a store to another item", "C13,C11");
	} else if (op < 97 && q->g.ranges && q->slots * q->g.ranges < (size_t)cap) {
		/* to the brim, repeatedly refused, then one slot given back */
		while ((size_t)q->n < q->slots * q->g.ranges)
			if (pool_alloc(q, (int)rn(3), rlen(q->isz), 0) < 0)
				break;
		for (int k = 0; k < 3; k++)
			pool_alloc(q, (int)rn(3), rlen(q->isz), 0);
		pool_free(q, (int)rn((unsigned)q->n));
		pool_alloc(q, (int)rn(3), rlen(q->isz), 0);
		pool_alloc(q, (int)rn(3), rlen(q->isz), 0);
		stat_add("brim", 1);
	} else if (op >= 97 && q->n && rn(2)) {
		/* churn: recycle slots in quick succession */
		for (int k = 0; k < 40 && q->n; k++) {
			int i;
			pool_free(q, rn(2) ? q->n - 1 : (int)rn((unsigned)q->n));
			if (rn(3) == 0 && q->n)
				pool_free(q, (int)rn((unsigned)q->n));
			i = pool_alloc(q, (int)rn(3), rlen(q->isz), 0);
			if (i >= 0 && rn(2))
				item_write(q, i, (int)rn((unsigned)q->ncpu), 0, q->isz, rnd());
			if (rn(3) == 0 && q->n < cap)
				pool_alloc(q, (int)rn(3), rlen(q->isz), 0);
		}
	} else if (op >= 97 && rn(4) == 0)
		pool_verify(q, "during history");
	if (q->n)
		item_verify(q, (int)rn((unsigned)q->n), "after an operation elsewhere", "C13,C11");
}

static void history(uint64_t seed)
{
	struct pool *ps[4];
	int np = 1 + (int)rn(4), steps = 20 + (int)rn(180);

	for (int i = 0; i < np; i++) {
		struct geo g;
		do {
			geo_random(&g, 24UL << 20);
			ps[i] = pool_make(&g, rn(2) ? "hist" : rn(8) ? NULL : "a-very-long-pool-name-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789-0123456789",
					  g.init && rn(3) == 0 ? 1 + (int)rn(8) : 0);
			if (ps[i] && ps[i]->cb_fail_at)
				ps[i]->cb_fail_at = 0;
		} while (!ps[i] && hc_viols < 10);
		if (hc_viols >= 10)
			return;
	}
	sample("seed %llu: %d pools, first %s, %d steps", (unsigned long long)seed, np, gstr(&ps[0]->g), steps);
	for (int s = 0; s < steps && hc_viols < 10; s++) {
		int i = (int)rn((unsigned)np);
		one_op(ps[i]);
		if (rn(60) == 0) {	/* replace a pool mid-history */
			struct geo g;
			struct pool *n;
			pool_end(ps[i], (int)rn(2));
			for (int j = 0; j < np; j++)
				if (j != i)
					pool_verify(ps[j], "after another pool was destroyed");
			geo_random(&g, 24UL << 20);
			while (!(n = pool_make(&g, NULL, 0)))
				if (hc_viols >= 10)
					return;
			ps[i] = n;
		}
	}
	for (int i = 0; i < np; i++)
		pool_end(ps[i], (int)rn(2));
	stat_add("histories", 1);
}

/* ---- pool sets (C19) ---- */
static struct pool *owner_of(struct pool **ps, int np, const char *p)
{
	for (int i = 0; i < np; i++)
		for (int a = 0; a < ps[i]->nar; a++)
			if (p >= ps[i]->ar[a].base && p < ps[i]->ar[a].base + ps[i]->stride)
				return ps[i];
	return NULL;
}
static void set_history(uint64_t seed)
{
	struct rseq_mempool_set *s = rseq_mempool_set_create();
	struct pool *ps[8] = { 0 };
	int np = 0, want = (int)rn(6), steps = 30 + (int)rn(200);
	static unsigned char ib[1 << 17];
	size_t sizes[] = { 8, 16, 32, 64, 256, 1024, 4096, 32768, 65536 };

	if (!s) {
		viol("C19", "set_create failed");
		return;
	}
	for (int t = 0; t < steps && hc_viols < 10; t++) {
		if (np < want && (t == 0 || rn(8) == 0)) {
			struct geo g;
			struct pool *q;
			int dup = 0, r, e;
			geo_random(&g, 4UL << 20);
			g.attr_null = 0;
			g.item_len = sizes[rn(9)] - (rn(2) ? rn(3) : 0);
			g.init = 1 + (int)rn(2);	/* the callback tells which pool a range belongs to */
			g.ranges = rn(4);
			if (pow2up(g.item_len) > (g.stride ? g.stride : 65536))
				g.stride = pow2up(g.item_len);
			q = pool_make(&g, "set", 0);
			if (!q)
				continue;
			/* some items are taken from the pool before it joins */
			for (int k = (int)rn(4); k > 0; k--)
				pool_alloc(q, (int)rn(3), rlen(q->isz), 0);
			for (int i = 0; i < np; i++)
				dup |= ps[i]->isz == q->isz;
			errno = 0;
			r = rseq_mempool_set_add_pool(s, q->h);
			e = errno;
			stat_add("set_adds", 1);
			if (dup) {
				stat_add("set_dups", 1);
				if (r != -1 || e != EBUSY)
					viol("C19", "adding a second pool of item size %zu returned %d errno %d", q->isz, r, e);
				/* still the caller's: usable and destroyable */
				if (r == -1) {
					pool_alloc(q, M_ZERO, 0, 0);
					pool_end(q, 1);
				}
			} else {
				if (r)
					viol("C19", "adding a pool of unused item size %zu failed, errno %d", q->isz, e);
				ps[np++] = q;
			}
			continue;
		}
		if (rn(100) < 60) {
			size_t len = rn(9) == 0 ? rn(9) : rn(12) == 0 ? PICK(0UL, 0x7fffffffffffffffUL, 0x8000000000000000UL, 0x8000000000000001UL, ~0UL, 131073UL, 65537UL) :
				(rn(3) ? rlen(sizes[rn(9)]) : sizes[rn(9)] + rn(2));
			int mode = (int)rn(3), e;
			struct pool *exp = NULL, *got, *failing = NULL;
			char *p;

			if (len > sizeof(ib) && mode == M_INIT)
				mode = M_ZERO;
			for (int k = 0; k < 2; k++) {
				exp = NULL;
				for (int i = 0; i < np; i++)
					if (ps[i] != failing && ps[i]->isz >= len && (!ps[i]->g.ranges || (size_t)ps[i]->n < ps[i]->slots * ps[i]->g.ranges) && (!exp || ps[i]->isz < exp->isz))
						exp = ps[i];
				/* the best pool cannot extend right now: it has no room */
				if (k == 0 && exp && (size_t)exp->n == (size_t)exp->nar * exp->slots && rn(4) == 0) {
					failing = exp;
					exp->cb_fail_at = 1 + (int)rn((unsigned)exp->ncpu);
				} else
					break;
			}
			if (exp && (exp->n >= item_cap(exp) || exp->nar >= 60)) {
				if (failing)
					failing->cb_fail_at = 0;
				continue;
			}
			if (failing)
				stat_add("set_extension_failures", 1);
			int gl = exp && exp->g.global;
			cb_cur = CB_ANY;
			errno = 0;
			if (mode == M_PLAIN) p = gl ? rseq_mempool_set_malloc(s, len) : rseq_mempool_set_percpu_malloc(s, len);
			else if (mode == M_ZERO) p = gl ? rseq_mempool_set_zmalloc(s, len) : rseq_mempool_set_percpu_zmalloc(s, len);
			else {
				fill(ib, len, rnd());
				p = gl ? rseq_mempool_set_malloc_init(s, ib, len) : rseq_mempool_set_percpu_malloc_init(s, ib, len);
			}
			e = errno;
			cb_cur = NULL;
			stat_add("set_allocs", 1);
			distinct(hmix2(hmix2(len, (uint64_t)np), hmix2(exp ? exp->isz : 0, exp ? (uint64_t)exp->n : 0) + (uint64_t)mode));
			for (int i = 0; i < np; i++) {
				drain_cb(ps[i], ps[i] != failing, "set allocation");
				ps[i]->cb_fail_at = 0;
			}
			if (!exp) {
				stat_add("set_refusals", 1);
				if (p)
					viol("C19", "set allocation of %zu bytes succeeded although no pool fits with room", len);
				else if (e != ENOMEM)
					viol("C19", "set allocation of %zu bytes failed with errno %d", len, e);
				if (p)
					break;
				continue;
			}
			if (!p) {
				viol("C19", "set allocation of %zu bytes failed (errno %d) although the pool of %zu-byte items has room (%d of %zu)", len, e, exp->isz, exp->n, exp->slots * exp->g.ranges);
				continue;
			}
			got = owner_of(ps, np, p);
			if (got != exp) {
				viol("C19", "set allocation of %zu bytes was served by the pool of %zu-byte items instead of %zu", len, got ? got->isz : 0, exp->isz);
				break;
			}
			int i = item_add(exp, p, mode, ib, len, "set allocation");
			if (i >= 0 && rn(2))
				item_write(exp, i, (int)rn((unsigned)exp->ncpu), 0, exp->isz, rnd());
		} else if (np) {
			struct pool *q = ps[rn((unsigned)np)];
			int k = (int)rn(6);
			while (k-- > 0 && q->n)
				pool_free(q, (int)rn((unsigned)q->n));
			if (q->n)
				item_verify(q, (int)rn((unsigned)q->n), "after set operations", "C13,C11");
		}
	}
	for (int i = 0; i < np; i++) {
		pool_verify(ps[i], "before set destroy");
		if (ps[i]->g.robust || rn(2))
			while (ps[i]->n)
				pool_free(ps[i], (int)rn((unsigned)ps[i]->n));
	}
	sample("set seed %llu: %d pools, %d steps", (unsigned long long)seed, np, steps);
	if (rseq_mempool_set_destroy(s))
		viol("C19,C17", "set_destroy failed, errno %d", errno);
	for (int i = 0; i < np; i++)
		pool_forget(ps[i]);
	stat_add("set_histories", 1);
}

/* ---- parameter validation (C20) ---- */
static void params(void)
{
	struct geo g;
	struct pool *q;

	geo_random(&g, 8UL << 20);
	g.attr_null = 0;
	switch (rn(9)) {
	case 0: g.stride = PICK(1UL, 8UL, 64UL, 1024UL, 2048UL, 4095UL); break;
	case 1: g.stride = PICK(4097UL, 6000UL, 12288UL, 65535UL, 65537UL, 98304UL, 0x8000000000000001UL); break;
	case 2: g.global = 0; g.ncpu = PICK(-1, -2, -2147483647 - 1, -64); break;
	case 3: g.policy = PICK(2, 3, -1, 7, 0x7fffffff, 256); break;
	case 4: { size_t s = g.stride ? g.stride : 65536; g.item_len = PICK(s + 1, s + 2, 2 * s, 2 * s - 1, 3 * s); break; }
	case 5: g.item_len = PICK(1UL << 62, 1UL << 63, (1UL << 63) + 1, ~0UL, ~0UL - 7, 0xffffffffUL, (1UL << 32) + 8); break;
	case 6: g.item_len = (g.stride ? g.stride : 65536) / 2 + 1; break;	/* valid: rounds up to the stride */
	case 7: g.stride = 0; g.item_len = PICK(65536UL, 65535UL, 65537UL); break;
	case 8: break;
	}
	distinct(hmix2(hmix2(g.item_len, g.stride), (uint64_t)(unsigned)g.ncpu * 64 + (uint64_t)(unsigned)g.policy * 8 + (uint64_t)g.global));
	/* any name will do, and the caller's copy is gone afterwards */
	char *nm = NULL;
	if (rn(2)) {
		size_t nl = rn(2) ? (size_t)PICK(0, 1, 235, 236, 247, 248, 249, 250, 255, 256, 1000, 5000) : rn(40);
		nm = malloc(nl + 1);
		for (size_t i = 0; i < nl; i++) nm[i] = "%sdn/.:-\xff\n abc"[rn(14)];
		nm[nl] = 0;
	}
	q = pool_make(&g, nm, 0);
	free(nm);
	stat_add("param_cases", 1);
	if (q) {
		/* the settings take effect exactly: fill it when small */
		if (q->g.ranges && q->slots * q->g.ranges < 600 && q->slots * q->g.ranges * q->isz * (size_t)q->ncpu < (4UL << 20)) {
			while ((size_t)q->n < q->slots * q->g.ranges)
				if (pool_alloc(q, (int)rn(3), rlen(q->isz), 0) < 0)
					break;
			pool_alloc(q, M_PLAIN, 0, 0);
		} else
			for (int i = 0; i < 3; i++)
				pool_alloc(q, (int)rn(3), rlen(q->isz), 0);
		if (q->isz < 4096)
			pool_alloc(q, M_INIT, q->isz + 1 + rn((unsigned)PICK(1, 8, 4096 - q->isz)), 0);
		for (int i = 0; i < q->n; i++)
			item_write(q, i, (int)rn((unsigned)q->ncpu), 0, q->isz, rnd());
		pool_end(q, 1);
	}
	if (rn(16) == 0) {
		int bad = 0;
#define N(e) do { errno = 0; if ((e) != -1 || errno != EINVAL) bad++; stat_add("null_attr_cases", 1); } while (0)
		N(rseq_mempool_attr_set_init(NULL, init_cb, NULL));
		N(rseq_mempool_attr_set_robust(NULL));
		N(rseq_mempool_attr_set_percpu(NULL, 4096, 1));
		N(rseq_mempool_attr_set_global(NULL, 4096));
		N(rseq_mempool_attr_set_max_nr_ranges(NULL, 1));
		N(rseq_mempool_attr_set_poison(NULL, 0));
		N(rseq_mempool_attr_set_populate_policy(NULL, RSEQ_MEMPOOL_POPULATE_COW_ZERO));
		N(rseq_mempool_get_max_nr_cpus(NULL));
		if (bad)
			viol("C20", "%d attribute setters/queries accepted a null object or failed without EINVAL", bad);
		rseq_mempool_attr_destroy(NULL);
		if (rseq_mempool_destroy(NULL))
			viol("C17,C20", "destroying a null pool failed");
	}
}

int main(int argc, char **argv)
{
	uint64_t seed = strtoull(argv[1], NULL, 0);
	double secs = atof(argv[2]), t0 = now();
	const char *m = argc > 3 ? argv[3] : "pool";
	long n = 0;

	setvbuf(stdout, NULL, _IOLBF, 0);
	if (PAGE != 4096)
		stat_add("larger_page_runs", 1);
	distinct_allocs = !strcmp(m, "pool");
	if (argc > 4) {
		distinct_allocs = 0;
		distinct_cbs = !strcmp(argv[4], "cb");
	}
	while (now() - t0 < secs && hc_viols < 10) {
		hc_s = hmix2(seed, (uint64_t)n);
		nall = 0;
		if (!strcmp(m, "pool")) history(seed * 1000000 + (uint64_t)n);
		else if (!strcmp(m, "set")) set_history(seed * 1000000 + (uint64_t)n);
		else for (int i = 0; i < 20; i++) params();
		n++;
	}
	hc_report();
	return hc_viols ? 1 : 0;
}
