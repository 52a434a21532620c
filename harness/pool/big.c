/* Geometries beyond 32 bits: strides of gigabytes, tens of thousands of CPUs, huge items. usage: big SEED SECONDS
 * A pool larger than the address space the sandbox grants is skipped (the harness tries the same mapping itself). */
#include "model.h"
#include <time.h>

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
#define NIT 24
static struct { int viols; long st[8]; char txt[300]; } *sh;
enum { S_PROBES, S_ITEMS, S_POOLS, S_SKIP, S_SET, S_CB };

static size_t vm_now(void)
{
	FILE *f = fopen("/proc/self/statm", "r");
	size_t p = 0;
	if (fscanf(f, "%zu", &p) != 1)
		p = 0;
	fclose(f);
	return p;
}
static int covered(char *a, char *b)	/* every page of [a,b) readable and writable */
{
	FILE *f = fopen("/proc/self/maps", "r");
	char line[512], pr[8];
	unsigned long s, e;
	char *at = a;
	while (fgets(line, sizeof(line), f))
		if (sscanf(line, "%lx-%lx %7s", &s, &e, pr) == 3 && pr[0] == 'r' && pr[1] == 'w' && (char *)s <= at && (char *)e > at)
			at = (char *)e;
	fclose(f);
	return at >= b;
}
static int affordable(size_t len)
{
	void *p = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED)
		return 0;
	munmap(p, len);
	return 1;
}
struct bg { size_t stride, isz; int ncpu, global, policy, robust, poison; unsigned long ranges; int cb; };
static const char *bs(const struct bg *g)
{
	static char b[200];
	snprintf(b, sizeof(b), "{item=%zu stride=%zu cpus=%d %s %s%s%s ranges=%lu}", g->isz, g->stride, g->ncpu, g->global ? "global" : "percpu", g->policy ? "COW_ZERO" : "COW_INIT",
		 g->robust ? " robust" : "", g->poison ? g->cb ? " poison init-callback" : " poison" : g->cb ? " init-callback" : "", g->ranges);
	return b;
}
/* init callback: once per CPU and range, with that CPU's area */
static struct { const struct bg *g; long n; char *base; unsigned char *seen; int bad; char why[120]; } cbs;
#define CBBAD(...) do { if (!cbs.bad++) snprintf(cbs.why, sizeof(cbs.why), __VA_ARGS__); } while (0)
static int big_cb(void *priv, void *addr, size_t len, int cpu)
{
	const struct bg *g = cbs.g;
	char *b;
	if (priv != &cbs) { CBBAD("private pointer %p", priv); return 0; }
	if (len != g->stride) CBBAD("length %zu for cpu %d", len, cpu);
	if (g->global ? cpu != -1 : cpu < 0 || cpu >= g->ncpu) { CBBAD("cpu argument %d", cpu); return 0; }
	if (cpu < 0) cpu = 0;
	b = (char *)addr - (size_t)cpu * g->stride;
	if (!cbs.n) cbs.base = b;
	if (b != cbs.base || ((uintptr_t)b & (g->stride - 1))) CBBAD("area %p for cpu %d, range at %p", addr, cpu, (void *)cbs.base);
	if (cbs.seen[cpu]++) CBBAD("cpu %d twice", cpu);
	cbs.n++;
	return 0;
}
static void cb_start(const struct bg *g) { cbs.g = g; cbs.n = 0; cbs.bad = 0; memset(cbs.seen, 0, (size_t)g->ncpu); }
static const char *bs(const struct bg *g);
static void cb_done(const struct bg *g, char *newbase, const char *what)
{
	if (cbs.bad)
		viol("C23", "%s: init callback got %s %s", what, cbs.why, bs(g));
	else if (newbase && (cbs.n != g->ncpu || cbs.base != newbase))
		viol("C23,C20", "%s: init callback ran %ld times for a new range of %d CPUs (at %p, range at %p) %s", what, cbs.n, g->ncpu, (void *)cbs.base, (void *)newbase, bs(g));
	sh->st[S_CB] += cbs.n;
}
static struct rseq_mempool *mk(const struct bg *g)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	struct rseq_mempool *h;
	if (g->global) rseq_mempool_attr_set_global(a, g->stride);
	else rseq_mempool_attr_set_percpu(a, g->stride, g->ncpu);
	if (g->cb) {
		cbs.seen = calloc((size_t)g->ncpu, 1);
		cb_start(g);
		rseq_mempool_attr_set_init(a, big_cb, &cbs);
	}
	rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy)g->policy);
	rseq_mempool_attr_set_max_nr_ranges(a, g->ranges);
	if (g->robust) rseq_mempool_attr_set_robust(a);
	if (g->poison) rseq_mempool_attr_set_poison(a, 0x1122334455667788UL);
	h = rseq_mempool_create("big", g->isz, a);
	rseq_mempool_attr_destroy(a);
	return h;
}
/* CPUs which are looked at: ends, powers of two, random ones */
static int cpus_of(const struct bg *g, int *c)
{
	int n = 0;
	if (g->ncpu <= 40) {
		for (; n < g->ncpu; n++)
			c[n] = n;
		return n;
	}
	c[n++] = 0; c[n++] = 1; c[n++] = g->ncpu - 1; c[n++] = g->ncpu - 2;
	for (int k = 2; k < g->ncpu - 2; k *= 2) { c[n++] = k; if (k > 2) c[n++] = k - 1; }
	for (int k = 0; k < 6; k++)
		c[n++] = 2 + (int)rn((unsigned)g->ncpu - 4);
	/* without repeats */
	for (int i = 0; i < n; i++)
		for (int j = i + 1; j < n; )
			if (c[i] == c[j]) c[j] = c[--n]; else j++;
	return n;
}
static uint64_t probe_at(const struct bg *g, int k)
{
	switch (k) {
	case 0: return 0;
	case 1: return g->isz - 8;
	case 2: return g->isz / 2 & ~7UL;
	default: return g->isz > 4096 ? g->isz / 4 & ~7UL : 0;
	}
}
static uint64_t tagof(char *p, int c, int k) { return hmix2((uint64_t)(uintptr_t)p * 31 + (uint64_t)k, (uint64_t)c) | 1; }

static void scenario(const struct bg *g)
{
	size_t slots = g->stride / g->isz, v0 = vm_now(), v1;
	struct rseq_mempool *h;
	int cp[128], nc = cpus_of(g, cp), n = 0, small = g->isz <= 4096;
	char *it[NIT], *base[NIT];
	int lim = NIT, nb = 0;
	size_t span = g->stride * (size_t)g->ncpu;

	int sure = affordable(span + 4 * g->stride);
	if (!sure && !affordable(span + (size_t)(1 + !g->policy + g->robust) * g->stride + (64UL << 20))) {
		sh->st[S_SKIP]++;
		return;
	}
	h = mk(g);
	if (!h) {
		if (!sure) {	/* the library may need more address space than there is */
			sh->st[S_SKIP]++;
			return;
		}
		viol("C11,C14,C20", "creation failed, errno %d %s", errno, bs(g));
		return;
	}
	sh->st[S_POOLS]++;
	char *cbbase = NULL;
	if (g->cb) {
		cb_done(g, cbs.n ? cbs.base : (char *)1, "create");
		cbbase = cbs.base;
	}
	if (!g->global && rseq_mempool_get_max_nr_cpus(h) != g->ncpu)
		viol("C20", "max_nr_cpus query returned %d %s", rseq_mempool_get_max_nr_cpus(h), bs(g));
	if (g->ranges && slots * g->ranges < (size_t)lim)
		lim = (int)(slots * g->ranges);
	else if (slots < (size_t)lim && span > (256UL << 20))
		lim = (int)slots;	/* one range is enough */
	if (small) {	/* memory that initialised items occupy */
		size_t m = (512UL << 20) / (g->isz * (size_t)g->ncpu);
		if (m < 2) m = 2;
		if ((size_t)lim > m) lim = (int)m;
	}
	for (int round = 0; round < 3; round++) {
		while (n < lim) {
			int mode = small ? (int)rn(3) : (int)rn(2) * 2;
			unsigned char ib[64];
			size_t il = g->isz < 64 ? g->isz : 64;
			char *p;
			fill(ib, sizeof(ib), rnd());
			errno = 0;
			if (g->cb) cb_start(g);
			p = mode == 0 ? rseq_mempool_percpu_malloc(h) : mode == 1 ? rseq_mempool_percpu_zmalloc(h) : rseq_mempool_percpu_malloc_init(h, ib, il);
			if (!p) {
				viol("C14", "allocation %d of %d failed, errno %d %s", n, lim, errno, bs(g));
				goto end;
			}
			sh->st[S_ITEMS]++;
			if ((uintptr_t)p & (g->isz - 1))
				viol("C11", "item %p is not aligned on its size %s", (void *)p, bs(g));
			for (int i = 0; i < n; i++)
				if (it[i] < p + g->isz && p < it[i] + g->isz)
					viol("C11,C13", "item %p overlaps live item %p %s", (void *)p, (void *)it[i], bs(g));
			char *b = (char *)((uintptr_t)p & ~(g->stride - 1));
			int known = 0;
			for (int i = 0; i < nb; i++) {
				known |= base[i] == b;
				if (base[i] != b && base[i] < b + span && b < base[i] + span)
					viol("C11,C13", "range at %p overlaps range at %p %s", (void *)b, (void *)base[i], bs(g));
			}
			if (g->cb) {
				if (cbbase == b && !known && !nb)
					cb_done(g, NULL, "first allocation");
				else
					cb_done(g, known ? NULL : b, "allocation");
				if (known && cbs.n && !cbs.bad)
					viol("C23", "the init callback ran again for the range at %p %s", (void *)b, bs(g));
			}
			if (!known) {
				if (nb < NIT)
					base[nb++] = b;
				if (!covered(b, b + span)) {
					viol("C11,C13,C20", "the per-CPU areas of the range at %p are not all mapped %s", (void *)b, bs(g));
					goto end;
				}
			}
			it[n++] = p;
			for (int j = 0; j < nc; j++) {
				char *x = rseq_percpu_ptr(p, cp[j], g->stride);
				if (x != p + (size_t)cp[j] * g->stride)
					viol("C11,C13", "copy of cpu %d is at %p %s", cp[j], (void *)x, bs(g));
				if (mode == 1)
					for (size_t o = 0; o < g->isz; o++)
						if (x[o]) { viol("C12", "zeroed item: byte %zu of cpu %d's copy is %#x %s", o, cp[j], (unsigned char)x[o], bs(g)); break; }
				if (mode == 2 && memcmp(x, ib, il))
					viol("C12", "initialised item: cpu %d's copy differs %s", cp[j], bs(g));
				sh->st[S_PROBES]++;
			}
			for (int j = 0; j < nc; j++)
				for (int k = 0; k < 4; k++)
					*(volatile uint64_t *)(rseq_percpu_ptr(p, cp[j], g->stride) + probe_at(g, k)) = tagof(p, cp[j], k && probe_at(g, k) ? (int)(probe_at(g, k) % 65521) : 0);
		}
		if (g->ranges && slots * g->ranges == (size_t)lim) {
			errno = 0;
			if (rseq_mempool_percpu_malloc(h) || errno != ENOMEM)
				viol("C14", "allocation beyond the capacity of %d items succeeded or failed with errno %d %s", lim, errno, bs(g));
		}
		/* nobody's probes were overwritten */
		for (int i = 0; i < n; i++)
			for (int j = 0; j < nc; j++)
				for (int k = 0; k < 4; k++) {
					uint64_t v = *(volatile uint64_t *)(rseq_percpu_ptr(it[i], cp[j], g->stride) + probe_at(g, k));
					if (v != tagof(it[i], cp[j], k && probe_at(g, k) ? (int)(probe_at(g, k) % 65521) : 0)) {
						viol("C13,C11", "item %p: cpu %d's copy changed at offset %zu %s", (void *)it[i], cp[j], (size_t)probe_at(g, k), bs(g));
						goto end;
					}
					sh->st[S_PROBES]++;
				}
		for (int k = round == 2 ? n : 1 + (int)rn((unsigned)n); k > 0; k--) {
			int i = (int)rn((unsigned)n);
			char *p = it[i];
			if (g->poison && !small)
				break;
			rseq_mempool_percpu_free(p, g->stride);
			it[i] = it[--n];
			size_t link = g->robust ? g->isz : ~0UL;	/* a non-robust pool may keep one word */
			if (g->poison)
				for (int j = 0; j < nc; j++)
					for (size_t o = 0; o < g->isz; o += 8)
						if (*(volatile uint64_t *)(rseq_percpu_ptr(p, cp[j], g->stride) + o) != 0x1122334455667788UL) {
							if (link == ~0UL) link = o;
							if (link == o) continue;
							viol("C16", "freed item: word %zu of cpu %d's copy is not poisoned %s", o, cp[j], bs(g));
							o = g->isz;
						}
		}
	}
end:
	if (g->robust && n)
		return;
	if (rseq_mempool_destroy(h))
		viol("C17", "destroy failed, errno %d %s", errno, bs(g));
	v1 = vm_now();
	if (v1 > v0 + 4096)
		viol("C17", "destroy left %zu pages mapped %s", v1 - v0, bs(g));
}
/* hundreds of ranges, limits beyond 8, 16 and 32 bits */
static void ranges_scenario(void)
{
	struct bg g = { .policy = (int)rn(4) > 0, .stride = 4096, .ncpu = 1 + (int)rn(3), .robust = rn(4) == 0 };
	unsigned long nr = (unsigned long)PICK(40, 129, 256, 257, 300, 513);
	size_t slots, got = 0, want;
	char **it;
	struct rseq_mempool *h;

	g.isz = PICK(4096UL, 4096UL, 2048UL, 1024UL);
	slots = g.stride / g.isz;
	/* the limit is reached exactly, or lies far above what is used */
	g.ranges = rn(2) ? nr : PICK(0UL, 256UL << 8, 65537UL, 65538UL, 1UL << 32, (1UL << 32) + 1, (1UL << 32) + 2, 1UL << 40, ~0UL >> 16);
	if (g.ranges && nr > g.ranges) nr = g.ranges;
	want = nr * slots;
	it = malloc(want * sizeof(*it));
	h = mk(&g);
	if (!h) {
		viol("C14,C20", "creation failed, errno %d %s", errno, bs(&g));
		return;
	}
	sh->st[S_POOLS]++;
	for (; got < want; got++) {
		errno = 0;
		it[got] = rseq_mempool_percpu_malloc(h);
		if (!it[got]) {
			viol("C14,C20", "allocation %zu failed, errno %d, only %zu ranges of the %lu allowed are needed %s", got, errno, got / slots + 1, g.ranges, bs(&g));
			break;
		}
		*(size_t *)rseq_percpu_ptr(it[got], g.ncpu - 1, g.stride) = got ^ 0xabcdefUL;
	}
	sh->st[S_ITEMS] += (long)got;
	if (got == want && g.ranges == nr) {
		errno = 0;
		if (rseq_mempool_percpu_malloc(h) || errno != ENOMEM)
			viol("C14,C20", "allocation beyond the capacity of %lu ranges succeeded or failed with errno %d %s", nr, errno, bs(&g));
	}
	for (size_t i = 0; i < got; i++)
		if (*(size_t *)rseq_percpu_ptr(it[i], g.ncpu - 1, g.stride) != (i ^ 0xabcdefUL)) {
			viol("C11,C13,C14", "item %zu of %zu over %lu ranges was overwritten %s", i, got, nr, bs(&g));
			break;
		}
	sh->st[S_PROBES] += (long)got;
	for (size_t i = 0; i < got; i++) {
		size_t j = i + rn((unsigned)(got - i));
		char *t = it[j];
		it[j] = it[i];
		it[i] = t;
		rseq_mempool_percpu_free(t, g.stride);
	}
	/* all of it can be allocated again */
	for (size_t i = 0; i < got; i++)
		if (!(it[i] = rseq_mempool_percpu_malloc(h))) {
			viol("C14", "after freeing %zu items only %zu could be allocated again %s", got, i, bs(&g));
			got = i;
		}
	for (size_t i = 0; i < got; i++)
		rseq_mempool_percpu_free(it[i], g.stride);
	if (rseq_mempool_destroy(h))
		viol("C17", "destroy failed, errno %d %s", errno, bs(&g));
}
/* sets whose pools hold items of many megabytes */
static void set_scenario(void)
{
	struct rseq_mempool_set *s = rseq_mempool_set_create();
	struct { size_t isz; char *lo; int n, room; } q[6];
	int nq = 0, want = 2 + (int)rn(4);

	for (int i = 0; i < want; i++) {
		struct bg g = { .policy = 1, .ncpu = 1, .global = (int)rn(2) };
		struct rseq_mempool *h;
		int dup = 0;
		g.isz = 1UL << (rn(3) ? 16 + rn(16) : 3 + rn(13));
		g.stride = g.isz < 4096 ? 4096 : g.isz << rn(2);
		g.ranges = 1 + rn(2);
		for (int k = 0; k < nq; k++)
			dup |= q[k].isz == g.isz;
		if (dup || !affordable(g.stride * 12))
			continue;
		h = mk(&g);
		if (!h) {
			viol("C19,C20,C14", "creation failed, errno %d %s", errno, bs(&g));
			return;
		}
		if (rseq_mempool_set_add_pool(s, h))
			viol("C19", "adding a pool of unused item size %zu failed, errno %d", g.isz, errno);
		q[nq].isz = g.isz;
		q[nq].n = 0;
		q[nq++].room = (int)(g.stride / g.isz * g.ranges > 100000 ? 100000 : g.stride / g.isz * g.ranges);
		sh->st[S_POOLS]++;
	}
	for (int t = 0; t < 30 && nq; t++) {
		int exp = -1;
		size_t z = q[rn((unsigned)nq)].isz, len = PICK(z, z - 1, z / 2 + 1, z / 2, z + 1, z / 3 + 1, rn(9));
		char *p;
		for (int k = 0; k < nq; k++)
			if (q[k].isz >= len && q[k].n < q[k].room && (exp < 0 || q[k].isz < q[exp].isz))
				exp = k;
		errno = 0;
		p = len <= 65536 && rn(2) ? rseq_mempool_set_percpu_zmalloc(s, len) : rseq_mempool_set_percpu_malloc(s, len);
		sh->st[S_SET]++;
		if (exp < 0) {
			if (p || errno != ENOMEM)
				viol("C19", "set allocation of %zu bytes returned %p errno %d although no pool fits with room", len, (void *)p, errno);
			continue;
		}
		if (!p) {
			viol("C19", "set allocation of %zu bytes failed (errno %d) although the pool of %zu-byte items has room", len, errno, q[exp].isz);
			continue;
		}
		q[exp].n++;
		/* items of the expected pool are aligned on its size; the last byte is usable */
		if ((uintptr_t)p & (q[exp].isz - 1))
			viol("C19,C11", "set allocation of %zu bytes returned %p, not an item of the pool of %zu-byte items", len, (void *)p, q[exp].isz);
		if (!covered((char *)((uintptr_t)p & ~4095UL), p + (len ? len : 1)))
			viol("C19,C11", "set allocation of %zu bytes returned %p which is not mapped that far", len, (void *)p);
		else {
			p[0] = 1;
			if (len) p[len - 1] = 1;
		}
	}
	if (rseq_mempool_set_destroy(s))
		viol("C19,C17", "set_destroy failed, errno %d", errno);
}
int main(int argc, char **argv)
{
	uint64_t seed = strtoull(argv[1], NULL, 0);
	double secs = atof(argv[2]), t0 = now();
	long n = 0;

	setvbuf(stdout, NULL, _IOLBF, 0);
	rseq_get_max_nr_cpus();
	sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	do {
		struct bg g = { 0 };
		int kind, st;
		pid_t pid;
		hc_s = hmix2(seed, (uint64_t)n++);
		kind = (int)rn(5);
		g.policy = (int)rn(2);
		g.robust = rn(4) == 0;
		g.poison = rn(4) == 0;
		g.ranges = rn(3);
		g.cb = rn(3) == 0;
		if (kind == 0) {	/* gigabyte strides */
			g.stride = 1UL << (30 + rn(4));
			g.ncpu = g.stride >= 1UL << 33 ? 1 : g.stride >= 1UL << 32 ? 1 + (int)rn(2) : 1 + (int)rn(6);
			g.global = rn(6) == 0;
			if (rn(3) == 0) {	/* items of gigabytes */
				g.stride = 1UL << (32 + rn(2));
								g.ncpu = 1;
				g.isz = g.stride >> rn(2);
				g.robust = 0;
			} else
				g.isz = rn(2) ? 1UL << (3 + rn(10)) : g.stride >> rn(6);
			g.ranges = 1;
			if (g.robust && g.stride / g.isz > (1UL << 24))
				g.robust = 0;
		} else if (kind == 1) {	/* very many CPUs */
			g.stride = PICK(65536UL, 65536UL, 4096UL, 131072UL, 16384UL);
			g.ncpu = g.policy ? PICK(70000, 65537, 40000, 100001, 66000) : PICK(2000, 5000, 20000);
			if (g.stride * (size_t)g.ncpu > 13UL << 30)
				g.ncpu = (int)((13UL << 30) / g.stride);
			g.isz = 1UL << (3 + rn(10));
			if (g.isz > g.stride) g.isz = g.stride;
		} else {		/* between */
			g.stride = 1UL << (20 + rn(9));
			g.ncpu = 1 + (int)rn((unsigned)((6UL << 30) / g.stride));
			if (g.ncpu > 600) g.ncpu = 600;
			g.isz = rn(2) ? 1UL << (3 + rn(10)) : g.stride >> (1 + rn(6));
		}
		if (g.global) { g.ncpu = 1; g.policy = 1; }
		if (!g.policy && g.ncpu > 600) g.ranges = 1;	/* the kernel limits the number of mappings */
		/* the monitor touches whole items only when they are small */
		if (g.isz > 4096) g.robust = g.poison = 0;
		if (g.robust && !g.poison) g.poison = 1;
		fflush(stdout);
		pid = fork();
		if (!pid) {
			int v0 = hc_viols;
			alarm(120);
			hc_nst = 0;
			if (kind == 3) set_scenario();
			else if (kind == 4) ranges_scenario();
			else scenario(&g);
			sh->viols = hc_viols - v0;
			fflush(stdout);
			_exit(0);
		}
		waitpid(pid, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st))
			viol("C11,C12,C13,C14,C16,C17,C19,C20,C23", "process stopped (status %#x) in a legal history with a large pool %s", st, kind == 3 ? "set" : kind == 4 ? "of many ranges" : bs(&g));
		hc_viols += sh->viols;
		sh->viols = 0;
		stat_add("big_scenarios", 1);
		distinct(kind >= 3 ? hc_s : hmix2(hmix2(g.stride, g.isz), (uint64_t)g.ncpu * 32 + (uint64_t)(g.policy + 2 * g.robust + 4 * g.poison)));
		if (kind < 3)
			sample("large pool %s", bs(&g));
	} while (now() - t0 < secs && hc_viols < 10);
	stat_add("big_pools", sh->st[S_POOLS]);
	stat_add("big_items", sh->st[S_ITEMS]);
	stat_add("big_probes", sh->st[S_PROBES]);
	stat_add("big_skipped", sh->st[S_SKIP]);
	stat_add("big_init_callbacks", sh->st[S_CB]);
	stat_add("big_set_allocs", sh->st[S_SET]);
	hc_report();
	return hc_viols ? 1 : 0;
}
