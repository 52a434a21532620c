/* Concurrent use of pools and sets. usage: mt SEED SECONDS
 * Link with --wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock so that the
 * windows around the library's critical sections are widened and logged. */
#include "model.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
#define AL(x) __atomic_load_n(&(x), __ATOMIC_RELAXED)
#define AA(x, n) __atomic_fetch_add(&(x), (n), __ATOMIC_RELAXED)

/* schedule noise and log: relaxed atomics only, so that no ordering is added */
static __thread unsigned tid;
static __thread uint64_t tr;
static unsigned noise;
#define NRING (1 << 16)
static unsigned char ring[NRING];
static unsigned ringi;
static uint64_t trnd(void) { tr += 0x9e3779b97f4a7c15ULL; return hc_mix(tr); }
static void jitter(void)
{
	unsigned r = (unsigned)trnd() & 63;
	if (!tid || !noise)
		return;
	if (r < noise)
		sched_yield();
	else if (r == 63) {
		struct timespec t = { 0, 1000 + (long)(trnd() % 30000) };
		nanosleep(&t, NULL);
	} else
		for (unsigned i = 0; i < (r & 15) * 8; i++)
			__asm__ volatile("pause");
}
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	int r;
	jitter();
	r = __real_pthread_mutex_lock(m);
	__atomic_store_n(&ring[AA(ringi, 1) & (NRING - 1)], (unsigned char)tid, __ATOMIC_RELAXED);
	if ((trnd() & 15) == 0)
		jitter();
	return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	int r;
	if ((trnd() & 15) == 0)
		jitter();
	r = __real_pthread_mutex_unlock(m);
	jitter();
	return r;
}

/* ownership table: address -> number of current owners */
#define NOWN (1 << 16)
static struct { uintptr_t p; int own; } owns[NOWN];
static int *own_cell(void *p)
{
	unsigned i = (unsigned)(hc_mix((uintptr_t)p) & (NOWN - 1));
	for (;; i = (i + 1) & (NOWN - 1)) {
		uintptr_t v = AL(owns[i].p);
		if (v == (uintptr_t)p)
			return &owns[i].own;
		if (!v) {
			uintptr_t z = 0;
			if (__atomic_compare_exchange_n(&owns[i].p, &z, (uintptr_t)p, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED) || z == (uintptr_t)p)
				return &owns[i].own;
		}
	}
}

struct mpool {
	struct rseq_mempool *h;
	size_t isz, stride, slots;
	int ncpu, policy, robust, stores, order;
	unsigned long ranges;
	long cb, live_hi;
	struct geo g;
};
static struct mpool P[5];
static int np, nthreads, per;
static int inset[5];
static long filled;
static struct rseq_mempool_set *S;
static pthread_barrier_t bar;
static long c_allocs, c_refused, c_frees, c_checked, c_cross, n_viol;
static char viol_msg[20][400];
static const char *viol_prop[20];
static void mviol(const char *prop, const char *fmt, ...)
{
	long i = AA(n_viol, 1);
	va_list ap;
	if (i >= 20)
		return;
	va_start(ap, fmt);
	vsnprintf(viol_msg[i], sizeof(viol_msg[i]), fmt, ap);
	va_end(ap);
	viol_prop[i] = prop;
}
static int cbfail;	/* the init callback fails now and then */
static long c_cbfail, c_ranges_cb;
/* hand-over of items between threads */
#define NBOX 64
static void *box[NBOX];
struct held { char *p; struct mpool *m; uint64_t tag; };

static void put_tag(struct mpool *m, char *p, uint64_t tag)
{
	if (!m->stores)
		return;
	for (int c = 0; c < m->ncpu; c++)
		for (size_t o = 0; o < m->isz; o += 8)
			*(uint64_t *)(p + (size_t)c * m->stride + o) = tag + (uint64_t)c * 1000003 + o;
}
static void check_tag(struct mpool *m, char *p, uint64_t tag)
{
	if (!m->stores)
		return;
	for (int c = 0; c < m->ncpu; c++)
		for (size_t o = 0; o < m->isz; o += 8)
			if (*(uint64_t *)(p + (size_t)c * m->stride + o) != tag + (uint64_t)c * 1000003 + o) {
				mviol("C21,C11,C13", "content of an item owned by one thread changed (cpu %d, offset %zu) %s", c, o, gstr(&m->g));
				return;
			}
	AA(c_checked, 1);
}
#define NAREA 1024
static struct mpool *from_ptr(char *p, size_t len, int *ok);
static void check_cb(struct mpool *m, char *p);

static char *do_alloc(struct mpool **mp, uint64_t *tag)
{
	struct mpool *m = &P[trnd() % (unsigned)np];
	int mode = (int)(trnd() % 3), viaset = S && trnd() % 2, own;
	unsigned char ib[4096];
	size_t len = 1 + trnd() % (m->isz < 4096 ? m->isz : 4096);
	char *p;

	if (mode == M_INIT)
		fill(ib, len, trnd());
	if (viaset)
		p = mode == M_PLAIN ? rseq_mempool_set_percpu_malloc(S, len) : mode == M_ZERO ? rseq_mempool_set_percpu_zmalloc(S, len) : rseq_mempool_set_percpu_malloc_init(S, ib, len);
	else
		p = mode == M_PLAIN ? rseq_mempool_percpu_malloc(m->h) : mode == M_ZERO ? rseq_mempool_percpu_zmalloc(m->h) : rseq_mempool_percpu_malloc_init(m->h, ib, len);
	AA(c_allocs, 1);
	/* a request that is refused in between holds nobody up */
	if (trnd() % 64 == 0) {
		void *q = rseq_mempool_percpu_malloc_init(m->h, ib, m->isz + 1);
		if (q || errno != EINVAL)
			mviol("C21,C20", "concurrent oversized malloc_init: %p errno %d %s", q, errno, gstr(&m->g));
		if (!p)
			return NULL;
	}
	if (!p) {
		if (errno != ENOMEM)
			mviol("C21,C14", "concurrent allocation failed with errno %d", errno);
		/* all threads together cannot hold more than that many items */
		if (!cbfail && (!viaset || inset[m - P]) && (!m->ranges || m->ranges * m->slots > (size_t)nthreads * 62 + NBOX))
			mviol(viaset ? "C21,C14,C19" : "C21,C14", "concurrent allocation refused although the pool cannot be full %s", gstr(&m->g));
		AA(c_refused, 1);
		return NULL;
	}
	own = AA(*own_cell(p), 1);
	if (own)
		mviol("C21,C11", "item %p handed out while %d other thread(s) own it %s", (void *)p, own, gstr(&m->g));
	if (viaset) {
		int ok = 0;
		m = from_ptr(p, len, &ok);
		if (!m)
			return p;
	}
	check_cb(m, p);
	for (int c = 0; c < m->ncpu; c++) {
		unsigned char *x = (unsigned char *)p + (size_t)c * m->stride;
		if (mode == M_ZERO) {
			for (size_t o = 0; o < (viaset ? len : m->isz); o++)
				if (x[o]) {
					mviol("C21,C12", "concurrent zmalloc: byte %zu of cpu %d is %#x %s", o, c, x[o], gstr(&m->g));
					break;
				}
		} else if (mode == M_INIT && memcmp(x, ib, len))
			mviol("C21,C12", "concurrent malloc_init: cpu %d does not hold the init value %s", c, gstr(&m->g));
	}
	*mp = m;
	*tag = trnd();
	put_tag(m, p, *tag);
	return p;
}
/* ranges are learnt through the init callback; how far it got is counted per range */
static struct { char *a; size_t len; struct mpool *m; int n; } area[NAREA];
static int nareas;
static int acb(void *priv, void *addr, size_t len, int cpu)
{
	struct mpool *m = priv;
	char *b = (char *)addr - (cpu > 0 ? (size_t)cpu * len : 0);
	int n = AL(nareas), i;
	AA(m->cb, 1);
	for (i = 0; i < n && i < NAREA; i++)
		if (__atomic_load_n(&area[i].a, __ATOMIC_ACQUIRE) == b && area[i].m == m)
			break;
	if (i == n || i >= NAREA) {
		i = AA(nareas, 1);
		if (i < NAREA) {
			area[i].m = m;
			area[i].len = len;
			__atomic_store_n(&area[i].a, b, __ATOMIC_RELEASE);
			AA(c_ranges_cb, 1);
		}
	}
	if ((trnd() & 3) == 0)
		jitter();
	if (tid && cbfail && i < NAREA / 2 && trnd() % (4 * (unsigned)m->ncpu) == 0) {
		if (i < NAREA)
			__atomic_store_n(&area[i].a, NULL, __ATOMIC_RELEASE);
		AA(c_cbfail, 1);
		errno = EIO;
		return -1;
	}
	if (i < NAREA)
		AA(area[i].n, 1);
	return 0;
}
static void check_cb(struct mpool *m, char *p)
{
	int n = AL(nareas), k;
	if (!m->g.init || n > NAREA)
		return;
	for (int i = 0; i < n; i++) {
		char *a = __atomic_load_n(&area[i].a, __ATOMIC_ACQUIRE);
		if (a && p >= a && p < a + area[i].len) {
			if ((k = AL(area[i].n)) != m->ncpu)
				mviol("C21,C23", "item %p handed out when the init callback had run %d times for its range of %d CPUs %s", (void *)p, k, m->ncpu, gstr(&m->g));
			return;
		}
	}
	mviol("C21,C23", "item %p handed out from a range on which the init callback did not run %s", (void *)p, gstr(&m->g));
}
static struct mpool *from_ptr(char *p, size_t len, int *ok)
{
	int n = AL(nareas);
	(void)len; (void)ok;
	for (int i = 0; i < n && i < NAREA; i++) {
		char *a = __atomic_load_n(&area[i].a, __ATOMIC_ACQUIRE);
		if (a && p >= a && p < a + area[i].len)
			return area[i].m;
	}
	mviol("C21,C19,C23", "set allocation returned %p, in no range the callback announced", (void *)p);
	return NULL;
}

#define NFR 4096
static struct { char *p; struct mpool *m; } freed[NFR];
static unsigned nfreed;
static void do_free(char *p, struct mpool *m)
{
	unsigned i = AA(nfreed, 1) & (NFR - 1);
	__atomic_store_n(&freed[i].p, NULL, __ATOMIC_RELAXED);
	__atomic_store_n(&freed[i].m, m, __ATOMIC_RELAXED);
	__atomic_store_n(&freed[i].p, p, __ATOMIC_RELAXED);
	AA(*own_cell(p), -1);
	rseq_mempool_percpu_free(p, m->stride);
	AA(c_frees, 1);
}
/* all threads are gone: what is free is poisoned, whoever freed it last */
static long c_poisoned;
static void check_poison(void)
{
	for (unsigned i = 0; i < NFR && i < nfreed; i++) {
		char *p = freed[i].p;
		struct mpool *m = freed[i].m;
		size_t link = ~0UL;
		uintptr_t v;
		if (!p || *own_cell(p))
			continue;
		if (m->g.poison_set) v = m->g.poison;
		else if (m->robust && m->policy == 1) v = 0;
		else continue;
		if (m->robust) link = m->isz;
		for (int c = 0; c < m->ncpu; c++)
			for (size_t o = 0; o < m->isz; o += 8)
				if (*(uintptr_t *)(p + (size_t)c * m->stride + o) != v && link != o) {
					if (link == ~0UL) { link = o; continue; }
					mviol("C21,C16", "item %p freed among other threads' operations: word %zu of cpu %d's copy is %#lx, poison is %#lx %s", (void *)p, o / 8, c, *(unsigned long *)(p + (size_t)c * m->stride + o), (unsigned long)v, gstr(&m->g));
					return;
				}
		c_poisoned++;
	}
}

static int adders_won[8], adders_busy[8];
static struct mpool addp[16];
static int adding;

static void *worker(void *arg)
{
	static __thread struct held hd[200];
	int n = 0, lim;

	tid = (unsigned)(uintptr_t)arg + 1;
	tr = hmix2(hc_s, tid);
	lim = 1 + (int)(trnd() % 60);
	pthread_barrier_wait(&bar);
	if (adding) {
		struct mpool *m = &addp[tid - 1];
		int r;
		for (unsigned i = 0; i < tid * 3; i++)
			jitter();
		r = rseq_mempool_set_add_pool(S, m->h);
		if (r == 0) AA(adders_won[m->order & 7], 1);
		else {
			if (errno != EBUSY)
				mviol("C21,C19", "concurrent set_add_pool failed with errno %d", errno);
			AA(adders_busy[m->order & 7], 1);
			m->live_hi = -1;
		}
	}
	for (int k = 0; k < per; k++) {
		unsigned r = (unsigned)(trnd() % 100);
		if (r < 50 && n < lim) {
			struct mpool *m = NULL;
			uint64_t tag = 0;
			char *p = do_alloc(&m, &tag);
			if (p && m) {
				hd[n].p = p;
				hd[n].m = m;
				hd[n++].tag = tag;
			}
		} else if (r < 85 && n) {
			int i = (int)(trnd() % (unsigned)n);
			check_tag(hd[i].m, hd[i].p, hd[i].tag);
			do_free(hd[i].p, hd[i].m);
			hd[i] = hd[--n];
		} else if (r < 92 && n) {
			/* give an item away: the receiver frees it */
			struct held *x = malloc(sizeof(*x)), *old;
			int i = (int)(trnd() % (unsigned)n);
			*x = hd[i];
			hd[i] = hd[--n];
			old = __atomic_exchange_n(&box[trnd() % NBOX], x, __ATOMIC_ACQ_REL);
			if (old) {
				check_tag(old->m, old->p, old->tag);
				do_free(old->p, old->m);
				free(old);
				AA(c_cross, 1);
			}
		} else if (n) {
			int i = (int)(trnd() % (unsigned)n);
			check_tag(hd[i].m, hd[i].p, hd[i].tag);
		}
	}
	while (n) {
		n--;
		check_tag(hd[n].m, hd[n].p, hd[n].tag);
		do_free(hd[n].p, hd[n].m);
	}
	tid = 0;
	return NULL;
}

/* fill race: everybody allocates until refused */
static long won[64];
static void *filler(void *arg)
{
	long k = (long)(uintptr_t)arg, refusals = 0;
	tid = (unsigned)k + 1;
	tr = hmix2(hc_s, tid * 77);
	pthread_barrier_wait(&bar);
	while (refusals < 3) {
		char *p = trnd() & 1 ? rseq_mempool_percpu_malloc(P[0].h) : rseq_mempool_percpu_zmalloc(P[0].h);
		if (!p) {
			if (errno != ENOMEM)
				mviol("C21,C14", "racing allocation on a full pool failed with errno %d", errno);
			/* every other thread may have got one item it has not counted yet */
			long f = AL(filled);
			if (f + nthreads - 1 < (long)(P[0].ranges * P[0].slots))
				mviol("C21,C14", "racing allocation refused with at most %ld of %lu items handed out %s", f + nthreads - 1, P[0].ranges * P[0].slots, gstr(&P[0].g));
			refusals++;
			continue;
		}
		if (AA(*own_cell(p), 1))
			mviol("C21,C11", "racing allocation: item %p handed out twice %s", (void *)p, gstr(&P[0].g));
		won[k]++;
		AA(filled, 1);
	}
	tid = 0;
	return NULL;
}

static int mk(struct mpool *m, int ranged)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	struct geo *g = &m->g;
	do
		geo_random(g, 1 << 18);
	while (pow2up(g->item_len) > 512 || (!g->global && (g->ncpu > 5 || g->ncpu == 0)) || (g->stride ? g->stride : 65536) / pow2up(g->item_len) > (cbfail ? 32 : 1024));
	g->attr_null = 0;
	if (ranged && !g->ranges)
		g->ranges = 2;
	if (S || cbfail || rn(2)) {
		rseq_mempool_attr_set_init(a, acb, m);
		g->init = 1;
	} else
		g->init = 0;
	m->isz = pow2up(g->item_len);
	m->stride = g->stride ? g->stride : 65536;
	m->slots = m->stride / m->isz;
	m->ncpu = g->global ? 1 : g->ncpu;
	m->policy = g->global ? 1 : g->policy;
	m->robust = g->robust;
	m->ranges = g->ranges;
	m->cb = 0;
	m->live_hi = 0;
	if (g->global) rseq_mempool_attr_set_global(a, g->stride);
	else rseq_mempool_attr_set_percpu(a, g->stride, g->ncpu);
	rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy)g->policy);
	if (g->robust) rseq_mempool_attr_set_robust(a);
	if (g->poison_set) rseq_mempool_attr_set_poison(a, g->poison);
	rseq_mempool_attr_set_max_nr_ranges(a, g->ranges);
	m->h = rseq_mempool_create("mt", g->item_len, a);
	rseq_mempool_attr_destroy(a);
	if (!m->h) {
		mviol("C21,C14", "create failed errno %d %s", errno, gstr(g));
		return -1;
	}
	/* first stores to a page shared with the init values while another thread initialises a neighbour are a
	   known finding (F1): copy-on-write-init pools are either never stored to, or populated beforehand */
	m->stores = m->policy == 1;
	if (m->policy == 0 && m->ranges && m->ranges * m->slots <= 2048 && rn(3)) {
		static char *t[2048];
		size_t k = m->ranges * m->slots;
		for (size_t i = 0; i < k; i++) {
			t[i] = rseq_mempool_percpu_malloc(m->h);
			if (!t[i]) {
				mviol("C21,C14", "filling failed errno %d %s", errno, gstr(g));
				return -1;
			}
			for (int c = 0; c < m->ncpu; c++)
				*(volatile char *)(t[i] + (size_t)c * m->stride) ^= 1;
		}
		while (k)
			rseq_mempool_percpu_free(t[--k], m->stride);
		m->stores = 1;
	}
	return 0;
}

/* after the threads are gone: nothing lost, nothing doubled */
static void drain(struct mpool *m)
{
	static char *t[8192];
	size_t k = 0, cap = m->ranges * m->slots, lim = m->ranges ? cap + 1 : 600;
	while (k < lim && k < 8192) {
		char *p = rseq_mempool_percpu_malloc(m->h);
		if (!p)
			break;
		if (AA(*own_cell(p), 1))
			mviol("C21,C11", "after the threads ended, item %p is handed out twice %s", (void *)p, gstr(&m->g));
		t[k++] = p;
	}
	if (m->ranges && cap < 8000 && k != cap)
		mviol("C21,C14", "after the threads ended the pool serves %zu items, capacity %zu %s", k, cap, gstr(&m->g));
	while (k) {
		k--;
		AA(*own_cell(t[k]), -1);
		rseq_mempool_percpu_free(t[k], m->stride);
	}
}

static void scenario(void)
{
	pthread_t th[16];
	int fillrace = rn(3) == 0, i;

	memset(owns, 0, sizeof(owns));
	memset(won, 0, sizeof(won));
	memset(adders_won, 0, sizeof(adders_won));
	memset(adders_busy, 0, sizeof(adders_busy));
	ringi = 0;
	nfreed = 0;
	memset(freed, 0, sizeof(freed));
	cbfail = 0;
	nareas = 0;
	memset(area, 0, sizeof(area));
	adding = 0;
	S = NULL;
	nthreads = 2 + (int)rn(7);
	noise = PICK(0u, 2u, 8u, 24u);
	np = fillrace ? 1 : 1 + (int)rn(3);
	per = 60 + (int)rn(500);
	if (!fillrace && rn(2)) {
		S = rseq_mempool_set_create();
		adding = (int)rn(2);
	}
	cbfail = !fillrace && !adding && rn(4) == 0;
	for (i = 0; i < np; i++)
		if (mk(&P[i], fillrace))
			return;
	memset(inset, 0, sizeof(inset));
	filled = 0;
	if (S)
		for (i = 0; i < np; i++)
			inset[i] = rseq_mempool_set_add_pool(S, P[i].h) == 0;
	if (adding)
		for (i = 0; i < nthreads; i++) {
			if (mk(&addp[i], 0))
				return;
			addp[i].order = __builtin_ctzl(addp[i].isz);
		}
	pthread_barrier_init(&bar, NULL, (unsigned)nthreads);
	for (i = 0; i < nthreads; i++)
		pthread_create(&th[i], NULL, fillrace ? filler : worker, (void *)(uintptr_t)i);
	for (i = 0; i < nthreads; i++)
		pthread_join(th[i], NULL);
	pthread_barrier_destroy(&bar);
	for (i = 0; i < NBOX; i++)
		if (box[i]) {
			struct held *x = box[i];
			check_tag(x->m, x->p, x->tag);
			do_free(x->p, x->m);
			free(x);
			box[i] = NULL;
		}
	if (fillrace) {
		long t = 0;
		for (i = 0; i < nthreads; i++)
			t += won[i];
		if (t != (long)(P[0].ranges * P[0].slots))
			mviol("C21,C14", "%d racing threads obtained %ld items from a pool of %lu %s", nthreads, t, P[0].ranges * P[0].slots, gstr(&P[0].g));
		stat_add("fill_races", 1);
		/* give everything back through the table */
		for (i = 0; i < NOWN; i++)
			if (owns[i].own > 0) {
				rseq_mempool_percpu_free((void *)owns[i].p, P[0].stride);
				owns[i].own = 0;
			}
	}
	if (!AL(n_viol))
		check_poison();
	if (!AL(n_viol)) {
		if (nareas <= NAREA)
			for (i = 0; i < nareas; i++)
				if (area[i].a && area[i].n != area[i].m->ncpu)
					mviol("C21,C23", "init callback ran %d times for a range of %d CPUs %s", area[i].n, area[i].m->ncpu, gstr(&area[i].m->g));
		for (i = 0; i < np; i++) {
			unsigned long r = 0;
			for (int k = 0; k < nareas && k < NAREA; k++)
				r += area[k].a && area[k].m == &P[i];
			if (P[i].ranges && r > P[i].ranges)
				mviol("C21,C14", "pool limited to %lu ranges has %lu %s", P[i].ranges, r, gstr(&P[i].g));
		}
		if (adding)
			for (i = 3; i < 10; i++) {
				int members = 0, pre = 0, tries = adders_won[i & 7] + adders_busy[i & 7];
				for (int k = 0; k < np; k++)
					pre += inset[k] && __builtin_ctzl(P[k].isz) == i;
				members = pre + adders_won[i & 7];
				if (tries && members != 1)
					mviol("C21,C19", "%d pools of one size class joined the set", members);
			}
		for (i = 0; i < np; i++)
			drain(&P[i]);
		for (i = 0; adding && i < nthreads; i++)
			drain(&addp[i]);
	}
	if (!AL(n_viol)) {
		if (S && rseq_mempool_set_destroy(S))
			mviol("C21,C19", "set_destroy failed errno %d", errno);
		for (i = 0; i < np; i++)
			if (!S || !inset[i])
				rseq_mempool_destroy(P[i].h);
		for (i = 0; adding && i < nthreads; i++)
			if (addp[i].live_hi == -1)
				rseq_mempool_destroy(addp[i].h);
	}
	/* what was observed */
	unsigned k = ringi < NRING ? ringi : NRING;
	for (unsigned j = 0; j + 8 <= k; j++) {
		uint64_t h = 0;
		unsigned mix = 0;
		for (int q = 0; q < 8; q++) {
			h = h * 17 + ring[j + (unsigned)q];
			mix |= ring[j + (unsigned)q] ^ ring[j];
		}
		if (mix)	/* windows of 8 acquisitions by more than one thread */
			distinct(h);
	}
	stat_add("scenarios", 1);
	stat_add("lock_acquisitions_logged", k);
	sample("%d threads, %d pools%s%s, noise %u, first %s, %u lock acquisitions", nthreads, np, S ? " in a set" : "", fillrace ? ", racing to fill" : "", noise, gstr(&P[0].g), ringi);
}

int main(int argc, char **argv)
{
	uint64_t seed = strtoull(argv[1], NULL, 0);
	double secs = atof(argv[2]), t0 = now();
	long n = 0;

	setvbuf(stdout, NULL, _IOLBF, 0);
	rseq_get_max_nr_cpus();
	while (now() - t0 < secs && !AL(n_viol)) {
		hc_s = hmix2(seed, (uint64_t)n++);
		scenario();
	}
	for (long i = 0; i < n_viol && i < 20; i++)
		viol(viol_prop[i], "%s", viol_msg[i]);
	stat_add("mt_allocs", c_allocs);
	stat_add("mt_refusals", c_refused);
	stat_add("mt_frees", c_frees);
	stat_add("mt_items_verified", c_checked);
	stat_add("mt_handovers", c_cross);
	stat_add("mt_callback_ranges", c_ranges_cb);
	stat_add("mt_callback_failures", c_cbfail);
	stat_add("mt_poisoned_checked", c_poisoned);
	hc_report();
	return hc_viols ? 1 : 0;
}
