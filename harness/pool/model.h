/* Reference model of one pool, driven next to the real one through the public API only. */
#ifndef MODEL_H
#define MODEL_H
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <rseq/mempool.h>
#include "hc.h"

#ifndef PAGE
#define PAGE 4096UL
#endif
#define MAXAREA 64
#define MAXITEM 4096

struct geo {
	size_t item_len, stride;	/* as requested, stride 0 = default */
	int ncpu;			/* as requested, 0 = default */
	int global, policy, robust, poison_set, init;	/* init: 0 none, 1 callback, 2 callback which writes */
	uintptr_t poison;
	unsigned long ranges;
	int attr_null;
};
struct item {
	char *p;
	unsigned char *sh;	/* expected content of every copy */
	int area, slot;
	int mode;		/* how it was allocated */
};
struct area { char *base; unsigned char *live, *ever; };
struct pool {
	int id, alive;
	struct geo g;
	size_t isz, stride, slots;
	int ncpu;
	struct rseq_mempool *h;
	struct area ar[MAXAREA];
	int nar, ncb_ranges;
	struct item it[MAXITEM];
	int n, peak;
	long ops;
	/* callback bookkeeping */
	struct { char *addr; size_t len; int cpu; } cb[600];
	int ncb, cb_fail_at, cb_failed;
	/* last freed */
};
static int distinct_allocs = 1, distinct_cbs;
static int use_global_api(const struct pool *q) { return q->g.global; }

static size_t pow2up(size_t n) { size_t k = sizeof(void *); while (k < n && k) k <<= 1; return k ? k : ~0UL; }

static uint64_t cbword(int id, uintptr_t addr) { return hmix2(0xcb00 + (uint64_t)id, addr) | 1; }
#define CB_ANY ((struct pool *) 1)
static struct pool *cb_cur;	/* pool under operation, to catch foreign private pointers */

static struct pool *null_owner;	/* the live pool whose private pointer is NULL, if any */
static void pfree(struct pool *q) { if (null_owner == q) null_owner = NULL; free(q); }

static int init_cb(void *priv, void *addr, size_t len, int cpu)
{
	struct pool *q = priv ? priv : null_owner;

	if (!q || (priv && q == null_owner) || (q != cb_cur && cb_cur != CB_ANY)) {
		viol("C23,C20", "init callback got private pointer %p, expected %p", priv, cb_cur == null_owner ? NULL : (void *)cb_cur);
		return 0;
	}
	if (!priv)
		stat_add("init_callbacks_null_priv", 1);
	if (q->ncb < 600) {
		q->cb[q->ncb].addr = addr;
		q->cb[q->ncb].len = len;
		q->cb[q->ncb].cpu = cpu;
	}
	q->ncb++;
	stat_add("init_callbacks", 1);
	if (q->cb_fail_at && q->ncb == q->cb_fail_at) {
		q->cb_failed = 1;
		errno = PICK(EIO, EPERM, ENOSPC, ENOMEM);
		return -1;
	}
	if (q->g.init == 2 && len == q->stride)
		for (size_t i = 0; i < len; i += 8)
			*(uint64_t *)((char *)addr + i) = cbword(q->id, (uintptr_t)addr + i);
	return 0;
}

static const char *gstr(const struct geo *g)
{
	static __thread char b[300];
	snprintf(b, sizeof(b), "{item_len=%zu stride=%zu cpus=%d %s %s%s%s%#lx ranges=%lu%s%s}", g->item_len, g->stride, g->ncpu,
		g->global ? "global" : "percpu", g->policy ? "COW_ZERO" : "COW_INIT", g->robust ? " robust" : "",
		g->poison_set ? " poison=" : " poison-default ", (unsigned long)g->poison, g->ranges,
		g->init ? (g->init == 2 ? " init-callback(writes)" : " init-callback") : "", g->attr_null ? " attr=NULL" : "");
	return b;
}

static int geo_valid(const struct geo *g, size_t stride)
{
	if (g->item_len > ((size_t)1 << 63))
		return 0;
	return pow2up(g->item_len) <= stride && stride >= PAGE && !(stride & (stride - 1)) && (g->global || g->ncpu >= 0) &&
		(g->policy == 0 || g->policy == 1);
}
extern int rseq_get_max_nr_cpus(void);

static int eff_poison(const struct pool *q, uintptr_t *v)
{
	if (q->g.poison_set) { *v = q->g.poison; return 1; }
	if (q->g.robust) {
		/* documented default only for COW_ZERO */
		if (q->g.policy == RSEQ_MEMPOOL_POPULATE_COW_ZERO || q->g.global) { *v = 0; return 1; }
		return 2;	/* some uniform value */
	}
	return 0;
}

static int decoy_cb(void *priv, void *addr, size_t len, int cpu)
{
	(void)priv; (void)addr; (void)len;
	viol("C20,C23", "an init callback which was replaced before the creation ran (cpu %d)", cpu);
	return 0;
}
static struct rseq_mempool_attr *mk_attr(const struct geo *g, struct pool *q)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	int bad = 0;

	if (!a)
		harness_error("attr_create");
	/* earlier settings which the later ones replace */
	if (hc_s & 0x300) {
		if (hc_s & 0x400) bad |= rseq_mempool_attr_set_global(a, 1UL << (12 + (hc_s >> 12 & 7)));
		if (hc_s & 0x800) bad |= rseq_mempool_attr_set_percpu(a, 1UL << (12 + (hc_s >> 15 & 7)), (int)(hc_s >> 18 & 15));
		if (g->poison_set) bad |= rseq_mempool_attr_set_poison(a, hc_s);
		if (g->init) bad |= rseq_mempool_attr_set_init(a, decoy_cb, a);
		bad |= rseq_mempool_attr_set_max_nr_ranges(a, hc_s >> 22 & 15);
		bad |= rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy)(hc_s >> 26 & 1));
		/* an earlier use for another pool does not change what it says */
		if (!g->init && hc_s >> 30 & 1) {
			struct rseq_mempool *t;
			if (g->robust) bad |= rseq_mempool_attr_set_robust(a);
			t = rseq_mempool_create("earlier", 64, a);
			if (t) {
				stat_add("attr_reused", 1);
				if (rseq_mempool_destroy(t))
					viol("C17", "destroy of an unused pool failed, errno %d", errno);
			}
		}
	}
	if (g->init)
		bad |= rseq_mempool_attr_set_init(a, init_cb, q == null_owner ? NULL : q);
	/* setters in varying order; policy after init (set_init selects a policy) */
	if (hc_s & 64) {
		if (g->robust) bad |= rseq_mempool_attr_set_robust(a);
		if (g->poison_set) bad |= rseq_mempool_attr_set_poison(a, g->poison);
	}
	if (g->global) bad |= rseq_mempool_attr_set_global(a, g->stride);
	else bad |= rseq_mempool_attr_set_percpu(a, g->stride, g->ncpu);
	bad |= rseq_mempool_attr_set_populate_policy(a, g->policy);
	bad |= rseq_mempool_attr_set_max_nr_ranges(a, g->ranges);
	if (!(hc_s & 64)) {
		if (g->robust) bad |= rseq_mempool_attr_set_robust(a);
		if (g->poison_set) bad |= rseq_mempool_attr_set_poison(a, g->poison);
	}
	if (bad)
		viol("C20", "an attribute setter failed on a valid attribute");
	return a;
}

static struct pool *allpools[16];
static int nall;

/* Absorb the callbacks of one API call. created: a pool or item was delivered. */
static void drain_cb(struct pool *q, int created, const char *what)
{
	int want = q->g.global ? 1 : q->ncpu;

	if (!q->g.init || !q->ncb)
		return;
	if (q->cb_failed) {
		if (created)
			viol("C23", "%s succeeded although the init callback failed %s", what, gstr(&q->g));
		q->cb_failed = 0;
		q->cb_fail_at = 0;
		q->ncb = 0;
		stat_add("cb_failures", 1);
		return;
	}
	stat_add("cb_ranges", 1);
	if (distinct_cbs)
		for (int i = 0; i < q->ncb && i < 600; i++)
			distinct(hmix2(hmix2(q->isz, q->stride), hmix2((uint64_t)q->ncpu * 1000 + (uint64_t)(q->cb[i].cpu + 1), (uint64_t)q->nar * 64 + (uint64_t)q->g.policy * 32 + (uint64_t)q->g.robust * 16 + (uint64_t)q->g.init * 4 + (uint64_t)created)));
	if (q->ncb != want)
		viol("C23,C20", "%s: init callback ran %d times for a new range of %d CPUs %s", what, q->ncb, want, gstr(&q->g));
	else {
		char *base = NULL;
		unsigned char seen[600] = { 0 };

		for (int i = 0; i < want; i++) {
			int c = q->cb[i].cpu;
			if (q->g.global ? c != -1 : (c < 0 || c >= q->ncpu)) {
				viol("C23", "%s: init callback got cpu %d %s", what, c, gstr(&q->g));
				goto out;
			}
			if (q->g.global)
				c = 0;
			if (seen[c]++)
				viol("C23", "%s: init callback ran twice for cpu %d %s", what, c, gstr(&q->g));
			if (q->cb[i].len != q->stride)
				viol("C23", "%s: init callback got length %zu %s", what, q->cb[i].len, gstr(&q->g));
			if (!base)
				base = q->cb[i].addr - (size_t)c * q->stride;
			if (q->cb[i].addr != base + (size_t)c * q->stride)
				viol("C23", "%s: init callback got the wrong area for cpu %d %s", what, c, gstr(&q->g));
		}
		if (q->nar < MAXAREA && created) {
			q->ar[q->nar].base = base;
			q->ar[q->nar].live = calloc(1, q->slots);
			q->ar[q->nar].ever = calloc(1, q->slots);
			q->nar++;
			q->ncb_ranges++;
		}
	}
out:
	q->ncb = 0;
}

static struct pool *pool_make(const struct geo *g0, const char *name, int fail_at)
{
	struct geo g = *g0;
	struct pool *q = calloc(1, sizeof(*q));
	struct rseq_mempool_attr *a = NULL;
	static int ids;
	int ok;

	q->id = ++ids;
	q->stride = g.stride ? g.stride : RSEQ_MEMPOOL_STRIDE;
	if (g.attr_null) {
		q->stride = RSEQ_MEMPOOL_STRIDE;
		g.stride = 0; g.ncpu = 0; g.global = g.policy = g.robust = g.poison_set = g.init = 0; g.ranges = 0;
	}
	q->isz = pow2up(g.item_len);
	q->slots = q->stride / q->isz;
	q->ncpu = g.global ? 1 : (g.ncpu ? g.ncpu : rseq_get_max_nr_cpus());
	q->g = g;
	q->cb_fail_at = fail_at;
	if (g.init && !null_owner && !(hmix2(hc_s, 77) & 3))
		null_owner = q;
	if (!g.attr_null)
		a = mk_attr(&g, q);
	cb_cur = q;
	errno = 0;
	q->h = rseq_mempool_create(name, g.item_len, a);
	cb_cur = NULL;
	stat_add("pools_created", 1);
	ok = geo_valid(&g, q->stride);
	if (a) {
		/* the attribute is the caller's: scribble over it, then destroy it */
		if (rn(2)) {
			rseq_mempool_attr_set_percpu(a, 1 << 20, 3);
			rseq_mempool_attr_set_poison(a, 0x123456789abcdefUL);
			rseq_mempool_attr_set_max_nr_ranges(a, 9);
			rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy) !g.policy);
			rseq_mempool_attr_set_robust(a);
		}
		rseq_mempool_attr_destroy(a);
	}
	if (!ok) {
		stat_add("invalid_refused", 1);
		if (q->h)
			viol("C20", "creation with invalid parameters succeeded %s", gstr(&g));
		else if (errno != EINVAL)
			viol("C20", "creation with invalid parameters failed with errno %d %s", errno, gstr(&g));
		if (q->ncb)
			viol("C20,C23", "refused creation ran the init callback %s", gstr(&g));
		pfree(q);
		return NULL;
	}
	if (q->cb_failed) {
		if (q->h)
			viol("C23", "creation succeeded although the init callback failed %s", gstr(&g));
		if (!errno)
			viol("C23,C17", "creation failed without errno %s", gstr(&g));
		q->ncb = 0;
		stat_add("cb_failures", 1);
		pfree(q);
		return NULL;
	}
	if (!q->h) {
		viol("C20,C14", "creation with valid parameters failed, errno %d %s", errno, gstr(&g));
		pfree(q);
		return NULL;
	}
	q->alive = 1;
	drain_cb(q, 1, "create");
	errno = 0;
	int m = rseq_mempool_get_max_nr_cpus(q->h);
	if (g.global ? (m != -1 || errno != EINVAL) : m != q->ncpu)
		viol("C20", "max_nr_cpus query returned %d errno %d, expected %d %s", m, errno, g.global ? -1 : q->ncpu, gstr(&g));
	if (nall < 16)
		allpools[nall++] = q;
	return q;
}

static void pool_forget(struct pool *q)
{
	for (int i = 0; i < q->n; i++)
		free(q->it[i].sh);
	for (int i = 0; i < q->nar; i++) {
		free(q->ar[i].live);
		free(q->ar[i].ever);
	}
	for (int i = 0; i < nall; i++)
		if (allpools[i] == q)
			allpools[i] = allpools[--nall];
	pfree(q);
}

static char *cpy(const struct pool *q, const char *p, int c)
{
	struct wide { uint64_t w[5]; } *t = (struct wide *)p;
	if (c & 1)	/* typed pointers, expressions and the default stride mean the same place */
		return q->stride == RSEQ_MEMPOOL_STRIDE ? (char *)rseq_percpu_ptr(t + 0, c | 0) : (char *)rseq_percpu_ptr(t + 1 - 1, c - 1 + 1, q->stride / 2 + q->stride / 2);
	return rseq_percpu_ptr((char *)p, c, q->stride);
}

/* does the item's content match the shadow on every CPU? */
static int item_verify(struct pool *q, int i, const char *when, const char *props)
{
	struct item *it = &q->it[i];

	for (int c = 0; c < q->ncpu; c++) {
		char *p = cpy(q, it->p, c);
		if (memcmp(p, it->sh + (size_t)c * q->isz, q->isz)) {
			size_t o = 0;
			while (p[o] == (char)it->sh[(size_t)c * q->isz + o])
				o++;
			viol(props, "live item %p: byte %zu of cpu %d's copy is %#x, expected %#x, %s %s", (void *)it->p, o, c,
			     (unsigned char)p[o], it->sh[(size_t)c * q->isz + o], when, gstr(&q->g));
			memcpy(it->sh + (size_t)c * q->isz, p, q->isz);
			return 0;
		}
		stat_add("copies_verified", 1);
	}
	return 1;
}

static void pool_verify(struct pool *q, const char *when)
{
	for (int i = 0; i < q->n; i++)
		item_verify(q, i, when, "C13,C11");
}

static void fill(unsigned char *d, size_t n, uint64_t s)
{
	for (size_t i = 0; i < n; i++)
		d[i] = (unsigned char)(hc_mix(s + (i >> 3)) >> ((i & 7) * 8));
}

enum { M_PLAIN, M_ZERO, M_INIT };

/* Account a pointer just handed out. Returns item index or -1. */
static int item_add(struct pool *q, char *p, int mode, const unsigned char *init, size_t len, const char *how)
{
	uintptr_t u = (uintptr_t)p;
	char *base = (char *)(u & ~(q->stride - 1));
	size_t off = u & (q->stride - 1);
	int a, recycled;
	struct item *it;

	if (off & (q->isz - 1)) {
		viol("C11", "%s returned %p, not aligned on the item size %zu %s", how, p, q->isz, gstr(&q->g));
		return -1;
	}
	for (a = 0; a < q->nar; a++)
		if (q->ar[a].base == base)
			break;
	if (a == q->nar) {
		if (q->g.init && q->nar < MAXAREA)
			viol("C23,C20", "%s handed out an item of a range on which the init callback did not run %s", how, gstr(&q->g));
		/* a new range: only when every known slot is live */
		if ((size_t)q->n < q->nar * q->slots)
			viol("C14", "%s grew the pool to range %d while only %d of %zu slots were in use %s", how, q->nar + 1, q->n, q->nar * q->slots, gstr(&q->g));
		for (int k = 0; k < nall; k++) {
			struct pool *r = allpools[k];
			for (int j = 0; j < r->nar; j++) {
				char *s = r->ar[j].base, *e = s + r->stride * (size_t)r->ncpu;
				if (base < e && base + q->stride * (size_t)q->ncpu > s)
					viol("C11", "%s: the pool's new range at %p overlaps a live range at %p %s", how, base, s, gstr(&q->g));
			}
		}
		if (q->nar == MAXAREA)
			return -1;
		q->ar[a].base = base;
		q->ar[a].live = calloc(1, q->slots);
		q->ar[a].ever = calloc(1, q->slots);
		q->nar++;
		stat_add("ranges", 1);
	}
	if (q->g.ranges && (unsigned long)q->nar > q->g.ranges)
		viol("C14,C20", "%s: pool uses %d ranges, limit %lu %s", how, q->nar, q->g.ranges, gstr(&q->g));
	if (q->ar[a].live[off / q->isz]) {
		viol("C11,C21", "%s returned %p which is already live %s", how, p, gstr(&q->g));
		return -1;
	}
	recycled = q->ar[a].ever[off / q->isz];
	q->ar[a].live[off / q->isz] = q->ar[a].ever[off / q->isz] = 1;
	if (q->n == MAXITEM)
		harness_error("too many items");
	it = &q->it[q->n++];
	if (q->n > q->peak)
		q->peak = q->n;
	it->p = p;
	it->area = a;
	it->slot = (int)(off / q->isz);
	it->mode = mode;
	it->sh = malloc(q->isz * (size_t)q->ncpu);
	for (int c = 0; c < q->ncpu; c++) {
		char *x = cpy(q, p, c);
		size_t o;

		if (mode == M_ZERO) {
			for (o = 0; o < q->isz; o++)
				if (x[o])
					break;
			if (o < q->isz)
				viol("C12", "%s: %s item %p: byte %zu of cpu %d's copy is %#x instead of 0 %s", how, recycled ? "recycled" : "fresh", p, o, c, (unsigned char)x[o], gstr(&q->g));
			stat_add("zero_copies_checked", 1);
		} else if (mode == M_INIT) {
			if (memcmp(x, init, len)) {
				for (o = 0; x[o] == (char)init[o]; o++)
					;
				viol("C12", "%s: %s item %p: byte %zu of %zu of cpu %d's copy is %#x, init value is %#x %s", how, recycled ? "recycled" : "fresh", p, o, len, c,
				     (unsigned char)x[o], init[o], gstr(&q->g));
			}
			stat_add("init_copies_checked", 1);
		}
		if (mode != M_ZERO && !recycled && q->g.init == 2) {
			size_t from = mode == M_INIT ? (len + 7) & ~7UL : 0;
			for (o = from; o < q->isz; o += 8)
				if (*(uint64_t *)(x + o) != cbword(q->id, (uintptr_t)x + o)) {
					viol("C23", "%s: fresh item %p, cpu %d: word at %zu does not hold what the init callback wrote %s", how, p, c, o, gstr(&q->g));
					break;
				}
			stat_add("cb_content_checked", 1);
		}
		memcpy(it->sh + (size_t)c * q->isz, x, q->isz);
	}
	stat_add(recycled ? "recycled_items" : "fresh_items", 1);
	return q->n - 1;
}

/* One allocation through the pool API. full: model says no slot is available. */
static int pool_alloc(struct pool *q, int mode, size_t len, int fail_at)
{
	static unsigned char ib[(1 << 20) + 64];
	char *p;
	int full = q->g.ranges && (size_t)q->n >= q->slots * q->g.ranges;
	const char *how = mode == M_PLAIN ? "malloc" : mode == M_ZERO ? "zmalloc" : "malloc_init";
	int gl = use_global_api(q) && rn(2), err;

	q->cb_fail_at = fail_at;
	cb_cur = q;
	errno = 0;
	switch (mode) {
	case M_PLAIN: p = gl ? rseq_mempool_malloc(q->h) : rseq_mempool_percpu_malloc(q->h); break;
	case M_ZERO: p = gl ? rseq_mempool_zmalloc(q->h) : rseq_mempool_percpu_zmalloc(q->h); break;
	default:
		if (rn(4) == 0)
			memset(ib, PICK(0, 0, 0x55, 0xff), len);
		else
			fill(ib, len, rnd());
		p = gl ? rseq_mempool_malloc_init(q->h, ib, len) : rseq_mempool_percpu_malloc_init(q->h, ib, len);
	}
	err = errno;
	cb_cur = NULL;
	stat_add("allocs", 1);
	if (distinct_allocs) distinct(hmix2(hmix2((uint64_t)(q->isz * 64 + (size_t)q->ncpu) * 64 + (uint64_t)(q->g.policy * 32 + q->g.robust * 16 + q->g.poison_set * 8 + q->g.init), q->stride),
		       (uint64_t)mode * 1000003 + (uint64_t)q->n * 17 + (len == q->isz) + 2 * (q->peak > q->n) + 4 * full));
	if (mode == M_INIT && len > q->isz) {
		if (p) {
			viol("C12,C20", "malloc_init of %zu bytes into items of %zu succeeded %s", len, q->isz, gstr(&q->g));
			if (len < sizeof(ib))
				rseq_mempool_percpu_free(p, q->stride);
		} else if (err != EINVAL && !(full && err == ENOMEM))
			viol("C12,C20", "malloc_init of %zu bytes into items of %zu failed with errno %d %s", len, q->isz, err, gstr(&q->g));
		q->ncb = 0;
		stat_add("oversize_init", 1);
		return -1;
	}
	if (q->cb_failed) {
		if (p)
			viol("C23", "%s succeeded although the init callback failed %s", how, gstr(&q->g));
		else if (!err)
			viol("C23", "%s failed without errno %s", how, gstr(&q->g));
		drain_cb(q, 0, how);
		if (!p)
			return -1;
	} else
		drain_cb(q, !!p, how);
	q->cb_fail_at = 0;
	if (full) {
		stat_add("full_refusals", 1);
		if (p) {
			viol("C14,C20", "%s succeeded with %d items live, capacity %zu %s", how, q->n, q->slots * q->g.ranges, gstr(&q->g));
			return -1;
		}
		if (err != ENOMEM)
			viol("C14", "%s on a full pool failed with errno %d %s", how, err, gstr(&q->g));
		return -1;
	}
	if (!p) {
		viol("C14,C20", "%s failed (errno %d) with %d items live, capacity %zu (0 = unlimited) %s", how, err, q->n, q->slots * q->g.ranges, gstr(&q->g));
		return -1;
	}
	return item_add(q, p, mode, ib, len, how);
}

static void item_write(struct pool *q, int i, int c, size_t o, size_t n, uint64_t s)
{
	unsigned char *sh = q->it[i].sh + (size_t)c * q->isz + o;
	fill(sh, n, s);
	memcpy(cpy(q, q->it[i].p, c) + o, sh, n);
	stat_add("user_writes", 1);
}

/* Free item i and check what is left of it. */
static void pool_free(struct pool *q, int i)
{
	char *p = q->it[i].p;
	unsigned char *sh = q->it[i].sh;
	uintptr_t pv = 0, w;
	int pk = eff_poison(q, &pv);

	item_verify(q, i, "at free", "C13,C11");
	if (q->stride == RSEQ_MEMPOOL_STRIDE && rn(2)) {
		if (q->g.global) rseq_mempool_free((uint64_t *)p + 1 - 1);
		else rseq_mempool_percpu_free(p);
	} else {
		if (q->g.global) rseq_mempool_free((uint64_t *)(p + 8) - 1, q->stride / 2 + q->stride / 2);
		else rseq_mempool_percpu_free(p, q->stride);
	}
	stat_add("frees", 1);
	q->ar[q->it[i].area].live[q->it[i].slot] = 0;
	if (pk) {
		long bad_off = -1;
		if (pk == 2)
			memcpy(&pv, cpy(q, p, 0) + (q->isz > 8 ? q->isz - 8 : 0), sizeof(pv));
		for (int c = 0; c < q->ncpu; c++)
			for (size_t o = 0; o < q->isz; o += sizeof(w)) {
				memcpy(&w, cpy(q, p, c) + o, sizeof(w));
				if (w == pv)
					continue;
				if (!q->g.robust && (bad_off < 0 || bad_off == (long)o)) {
					/* one word of linkage */
					uintptr_t old;
					memcpy(&old, sh + (size_t)c * q->isz + o, sizeof(old));
					bad_off = (long)o;
					if (w == old && old != 0 && (old >> 56))
						viol("C16", "freed item %p: word %zu of cpu %d's copy still holds the old content %s", p, o, c, gstr(&q->g));
					continue;
				}
				viol("C16,C20", "freed item %p: word %zu of cpu %d's copy is %#lx, poison is %#lx %s", p, o, c, (unsigned long)w, (unsigned long)pv, gstr(&q->g));
				goto out;
			}
		if (pk == 2) {
			/* uniform, but is the old content gone? */
			size_t o = q->isz > 8 ? q->isz - 8 : 0;
			int same = 0;
			for (int c = 0; c < q->ncpu; c++) {
				uintptr_t old;
				memcpy(&old, sh + (size_t)c * q->isz + o, sizeof(old));
				same += old == pv && (old & 0xff) != (old >> 56);
			}
			if (same == q->ncpu)
				viol("C16", "freed item %p keeps its old content %s", p, gstr(&q->g));
		}
		stat_add("poisoned_frees_checked", 1);
	}
out:
	free(sh);
	q->it[i] = q->it[--q->n];
}

static inline void pool_end(struct pool *q, int freeall)
{
	pool_verify(q, "before destroy");
	if (q->g.robust || freeall)
		while (q->n)
			pool_free(q, (int)rn((unsigned)q->n));
	if (rseq_mempool_destroy(q->h))
		viol("C17", "destroy failed, errno %d %s", errno, gstr(&q->g));
	stat_add("pools_destroyed", 1);
	pool_forget(q);
}

static size_t rlen(size_t isz)
{
	switch (rn(8)) {
	case 0: return isz;
	case 1: return isz - 1;
	case 2: return isz / 2 + 1;
	case 3: return rn(9) > isz ? isz : rn(9);
	case 4: return isz > 5 ? isz - 5 : isz;
	default: return 1 + rnd() % isz;
	}
}

static void geo_random(struct geo *g, size_t budget)
{
	memset(g, 0, sizeof(*g));
again:
	g->stride = PICK(4096UL, 4096UL, 8192UL, 16384UL, 65536UL, 0UL, 131072UL, 1UL << 20);
	if (g->stride && g->stride < PAGE)
		g->stride = PAGE;
	g->ncpu = PICK(1, 2, 3, 5, 8, 17, 64, 0);
	g->item_len = PICK(0UL, 1UL, 7UL, 8UL, 9UL, 16UL, 24UL, 33UL, 64UL, 100UL, 128UL, 256UL, 511UL, 1000UL, 2048UL, 2049UL, 4096UL, 5000UL, 65536UL);
	g->global = rn(5) == 0;
	if (rn(12) == 0)
		g->item_len = g->stride ? g->stride : RSEQ_MEMPOOL_STRIDE;
	if (!geo_valid(g, g->stride ? g->stride : RSEQ_MEMPOOL_STRIDE))
		goto again;
	if ((g->stride ? g->stride : 65536) * (size_t)(g->global ? 1 : g->ncpu ? g->ncpu : 8) > budget)
		goto again;
	if (PAGE <= 4096 && !g->global && rn(24) == 0) {	/* hundreds of CPUs */
		g->ncpu = PICK(129, 257, 300, 520);
		g->stride = 4096UL << rn(2);
		if (g->item_len < 256) g->item_len = PICK(300UL, 512UL, 1000UL, 2048UL, 4096UL);
		if (g->item_len > g->stride) g->item_len = g->stride;
	}
	g->policy = (int)rn(2);
	g->robust = rn(3) == 0;
	g->poison_set = rn(2);
	g->poison = g->poison_set ? PICK(0UL, 0UL, ~0UL, 0x5555555555555555UL, 0x42UL, 0x8000000000000000UL, 0xdeadbeef00c0ffeeUL) : 0;
	g->ranges = PICK(0UL, 1UL, 1UL, 2UL, 3UL, 7UL);
	g->init = PICK(0, 0, 0, 1, 2);
	g->attr_null = rn(25) == 0;
	if (g->attr_null && g->item_len > RSEQ_MEMPOOL_STRIDE)
		g->attr_null = 0;
}
#endif
