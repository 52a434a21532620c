/* Many threads run the operations on shared per-CPU data on the real kernel
 * while timers, signals, forced migrations and yields interrupt them; the logs
 * are checked for conservation and for complete publication.
 * usage: stress SEED SECONDS */
#include <rseq/rseq.h>
#include <rseq/mempool.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/syscall.h>
#include <time.h>
#include "hc.h"

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
#define NT 16
#define NNODE 4000
#define BUFN 64
#define REC 24
struct node { struct node *next; unsigned long chk; };
struct pc {
	intptr_t ctr, a1, a2; intptr_t *pp; intptr_t arr[4];
	intptr_t head, vseq, v2;
	intptr_t off; char buf[BUFN * 8];
	intptr_t doff; unsigned long rec[BUFN][REC / 8];
	intptr_t gate;
};
static struct pc __rseq_percpu *D;
static struct node nodes[NNODE];
static unsigned char owner[NNODE];
static int ncpus, cpus[1024], mode;
static volatile int stop;
static unsigned long g_hops, g_h5[NT], g_add[NT], g_ll[NT], g_cas[NT], g_pair[NT], g_abort, g_push, g_pop, g_rpush, g_rpop, g_bpush, g_bpop;
static pthread_mutex_t L = PTHREAD_MUTEX_INITIALIZER;
#define V(...) do { pthread_mutex_lock(&L); viol("C01,C04", __VA_ARGS__); pthread_mutex_unlock(&L); } while (0)
static int cur(void) { return mode == RSEQ_PERCPU_CPU_ID ? (int)rseq_cpu_start() : (int)rseq_current_mm_cid(); }
/* the handler uses the interrupted thread's data, on the same words */
static __thread volatile int h_on;
static __thread volatile unsigned long h_add, h_cas, h_ab;
static void sig(int s)
{
	(void)s;
	if (!h_on)
		return;
	int c = cur();
	struct pc *p = rseq_percpu_ptr(D, c);
	if (rseq_load_add_store__ptr(RSEQ_MO_RELAXED, mode, &p->ctr, 5, c)) h_ab++; else h_add += 5;
	intptr_t e = RSEQ_READ_ONCE(p->vseq);
	int r = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, &p->vseq, e, e + 1, c);
	if (!r) h_cas++; else if (r < 0) h_ab++;
}
static struct node *n_of(intptr_t p) { return (struct node *)p; }
static void rec_fill(unsigned long *r, unsigned long id) { for (int i = 0; i < REC / 8; i++) r[i] = hc_mix(id * 4 + (unsigned long)i); r[0] = id; }
static int rec_ok(unsigned long *r) { unsigned long t[REC / 8]; rec_fill(t, r[0]); return !memcmp(r, t, REC); }

static void *worker(void *a)
{
	int me = (int)(intptr_t)a;
	uint64_t s = hc_s * 977 + (uint64_t)me;
	unsigned long add = 0, ll = 0, cas = 0, pair = 0, ab = 0, push = 0, pop = 0, rpush = 0, rpop = 0, bpush = 0, bpop = 0, rid = (unsigned long)me << 40;
	/* every thread owns a share of the nodes at the start */
	struct node *mine[NNODE];
	unsigned long recs[BUFN * 4][REC / 8];
	int nm = 0, nr = 0;
	void *bm[NNODE];
	int nb = 0;
	timer_t tm;
	struct sigevent se = { 0 };
	struct itimerspec it = { { 0, 20000 + me * 7919 }, { 0, 50000 } };

	if (rseq_register_current_thread())
		V("registration failed");
	se.sigev_notify = SIGEV_THREAD_ID;
	se.sigev_signo = SIGUSR1;
	se._sigev_un._tid = (int)syscall(SYS_gettid);
	if (!timer_create(CLOCK_MONOTONIC, &se, &tm))
		timer_settime(tm, 0, &it, NULL);
	for (int i = me; i < NNODE; i += NT) { if (i & 16) mine[nm++] = &nodes[i]; else bm[nb++] = &nodes[i]; }
	for (int i = 0; i < BUFN; i++) rec_fill(recs[nr++], ++rid);
	h_add = h_cas = h_ab = 0;
	h_on = 1;
	while (!stop) {
		s = hc_mix(s);
		if (s % 97 == 0) {
			cpu_set_t st;
			CPU_ZERO(&st);
			CPU_SET(cpus[(s >> 20) % (unsigned)ncpus], &st);
			if ((s >> 40) % 3 == 0)
				for (int i = 0; i < ncpus; i++) CPU_SET(cpus[i], &st);
			sched_setaffinity(0, sizeof(st), &st);
		}
		if (s % 53 == 0)
			sched_yield();
		int c = cur();
		struct pc *p = rseq_percpu_ptr(D, c);
		int r;
		switch ((s >> 8) % 10) {
		case 0:
			r = rseq_load_add_store__ptr(RSEQ_MO_RELAXED, mode, &p->ctr, 1 + (me & 3), c);
			if (!r) add += 1 + (unsigned)(me & 3); else ab++;
			break;
		case 1:
#ifdef rseq_arch_has_load_add_load_load_add_store
			r = rseq_load_add_load_load_add_store__ptr(RSEQ_MO_RELAXED, mode, (intptr_t *)&p->pp, 8 * (long)((s >> 30) & 3), 3, c);
			if (!r) ll += 3; else ab++;
#endif
			break;
		case 2: {
			intptr_t e = RSEQ_READ_ONCE(p->vseq);
			r = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, &p->vseq, e, e + 1, c);
			if (!r) cas++; else if (r < 0) ab++;
			break;
		}
		case 3: {	/* two words change together: a1 then a2, a2 counts */
			intptr_t e = RSEQ_READ_ONCE(p->a2);
			r = rseq_load_cbne_store_store__ptr((s >> 50) & 1 ? RSEQ_MO_RELAXED : RSEQ_MO_RELEASE, mode, &p->a2, e, &p->a1, e + 1, e + 1, c);
			if (!r) pair++; else if (r < 0) ab++;
			break;
		}
		case 4: {	/* list push */
			if (!nm) break;
			struct node *n = mine[nm - 1];
			intptr_t e = RSEQ_READ_ONCE(p->head);
			n->next = n_of(e);
			n->chk = (unsigned long)e ^ 0x5555;
			r = rseq_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, &p->head, e, (intptr_t)n, c);
			if (!r) { nm--; push++; } else if (r < 0) ab++;
			break;
		}
		case 5: {	/* list pop */
			intptr_t h = 0;
			r = rseq_load_cbeq_store_add_load_store__ptr(RSEQ_MO_RELAXED, mode, &p->head, 0, (long)offsetof(struct node, next), &h, c);
			if (!r) {
				struct node *n = n_of(h);
				if (n < nodes || n >= nodes + NNODE) { V("popped %p, not a node", (void *)n); stop = 1; break; }
				if (n->chk != ((unsigned long)n->next ^ 0x5555))
					V("popped node with inconsistent content");
				mine[nm++] = n;
				pop++;
			} else if (r < 0) ab++;
			break;
		}
		case 6: {	/* array stack push: two stores */
			if (!nb) break;
			intptr_t o = RSEQ_READ_ONCE(p->off);
			if (o >= BUFN) break;
			r = rseq_load_cbne_store_store__ptr((s >> 50) & 1 ? RSEQ_MO_RELAXED : RSEQ_MO_RELEASE, mode, &p->off, o, (intptr_t *)(p->buf + 8 * o), (intptr_t)bm[nb - 1], o + 1, c);
			if (!r) { nb--; bpush++; } else if (r < 0) ab++;
			break;
		}
		case 7: {	/* array stack pop: two compares */
			intptr_t o = RSEQ_READ_ONCE(p->off);
			if (o <= 0) break;
			intptr_t *w = (intptr_t *)(p->buf + 8 * (o - 1));
			intptr_t h = RSEQ_READ_ONCE(*w);
			r = rseq_load_cbne_load_cbne_store__ptr(RSEQ_MO_RELAXED, mode, &p->off, o, w, h, o - 1, c);
			if (!r) {
				if ((struct node *)h < nodes || (struct node *)h >= nodes + NNODE) { V("array stack popped %#lx, not a node", (long)h); stop = 1; break; }
				bm[nb++] = (void *)h;
				bpop++;
			} else if (r < 0) ab++;
			break;
		}
		case 8: {	/* record push by copy */
			if (!nr) break;
			intptr_t o = RSEQ_READ_ONCE(p->doff);
			if (o >= BUFN) break;
			r = rseq_load_cbne_memcpy_store__ptr((s >> 50) & 1 ? RSEQ_MO_RELAXED : RSEQ_MO_RELEASE, mode, &p->doff, o, p->rec[o], recs[nr - 1], REC, o + 1, c);
			if (!r) { nr--; rpush++; } else if (r < 0) ab++;
			break;
		}
		case 9: {
			intptr_t o = RSEQ_READ_ONCE(p->doff);
			if (o <= 0 || nr >= BUFN * 4) break;
			r = rseq_load_cbne_memcpy_store__ptr(RSEQ_MO_RELAXED, mode, &p->doff, o, recs[nr], p->rec[o - 1], REC, o - 1, c);
			if (!r) {
				if (!rec_ok(recs[nr]))
					V("popped record %#lx is torn", recs[nr][0]);
				nr++;
				rpop++;
			} else if (r < 0) ab++;
			break;
		}
		}
	}
	timer_delete(tm);
	h_on = 0;
	cas += h_cas; ab += h_ab;
	g_h5[me] = h_add;
	__atomic_fetch_add(&g_hops, h_add / 5 + h_cas, __ATOMIC_RELAXED);
	g_add[me] = add; g_ll[me] = ll; g_cas[me] = cas; g_pair[me] = pair;
	pthread_mutex_lock(&L);
	g_abort += ab; g_push += push; g_pop += pop; g_rpush += rpush; g_rpop += rpop; g_bpush += bpush; g_bpop += bpop;
	for (int i = 0; i < nm; i++)
		if (owner[mine[i] - nodes]++) viol("C01,C04", "a list node has two owners at the end");
	for (int i = 0; i < nb; i++)
		if (owner[(struct node *)bm[i] - nodes]++) viol("C01,C04", "an array-stack element has two owners at the end");
	for (int i = 0; i < nr; i++)
		if (!rec_ok(recs[i])) viol("C01,C04", "a record held at the end is torn");
	pthread_mutex_unlock(&L);
	rseq_unregister_current_thread();
	return NULL;
}
static unsigned long rids[1 << 16];
static int round1(double secs)
{
	pthread_t th[NT];
	struct rseq_mempool *pool;
	int maxc = rseq_get_max_nr_cpus();
	unsigned long ctr = 0, ll = 0, cas = 0, pair = 0, x;

	pool = rseq_mempool_create("stress", sizeof(struct pc), NULL);
	D = pool ? (struct pc __rseq_percpu *)rseq_mempool_percpu_zmalloc(pool) : NULL;
	if (!D)
		harness_error("no pool");
	for (int c = 0; c < maxc; c++) {
		struct pc *p = rseq_percpu_ptr(D, c);
		p->pp = p->arr - 0;
	}
	/* load_add_load_load_add_store: *(ptr)+off is the address of a pointer to the word */
	memset(owner, 0, sizeof(owner));
	g_abort = g_push = g_pop = g_rpush = g_rpop = g_bpush = g_bpop = 0;
	static intptr_t *tab[1024][4];
	for (int c = 0; c < maxc && c < 1024; c++) {
		struct pc *p = rseq_percpu_ptr(D, c);
		for (int k = 0; k < 4; k++)
			tab[c][k] = &p->arr[k];
		p->pp = (intptr_t *)tab[c];
	}
	stop = 0;
	for (int i = 0; i < NT; i++)
		pthread_create(&th[i], NULL, worker, (void *)(intptr_t)i);
	double t1 = now() + secs;
	while (now() < t1 && !stop)
		usleep(2000);
	stop = 1;
	for (int i = 0; i < NT; i++)
		pthread_join(th[i], NULL);
	for (int c = 0; c < maxc; c++) {
		struct pc *p = rseq_percpu_ptr(D, c);
		ctr += (unsigned long)p->ctr;
		cas += (unsigned long)p->vseq;
		pair += (unsigned long)p->a2;
		/* an aborted operation may have left its preparatory store behind */
		if (p->a1 != p->a2 && p->a1 != p->a2 + 1)
			viol("C01,C04", "second word %ld does not match the committed word %ld on cpu %d", (long)p->a1, (long)p->a2, c);
		for (int k = 0; k < 4; k++) ll += (unsigned long)p->arr[k];
		for (struct node *n = n_of(p->head); n; n = n->next) {
			if (n < nodes || n >= nodes + NNODE) { viol("C01,C04", "list is damaged"); break; }
			if (owner[n - nodes]++) { viol("C01,C04", "node is in two places"); break; }
		}
		for (int k = 0; k < p->off; k++) {
			struct node *n = *(struct node **)(p->buf + 8 * k);
			if (n < nodes || n >= nodes + NNODE) { viol("C01,C04", "array stack is damaged"); break; }
			if (owner[n - nodes]++) { viol("C01,C04", "element is in two places"); break; }
		}
		for (int k = 0; k < p->doff; k++)
			if (!rec_ok(p->rec[k])) viol("C01,C04", "record %d on cpu %d is torn at the end", k, c);
	}
	for (int i = 0; i < NNODE; i++)
		if (!owner[i]) { viol("C01,C04", "node %d was lost", i); break; }
	x = 0; for (int i = 0; i < NT; i++) x += g_add[i] + g_h5[i];
	if (x != ctr) viol("C01,C04", "counters sum to %lu, %lu was added by successful operations", ctr, x);
	x = 0; for (int i = 0; i < NT; i++) x += g_ll[i];
	if (x != ll) viol("C01,C04", "indirect counters sum to %lu, %lu was added by successful operations", ll, x);
	x = 0; for (int i = 0; i < NT; i++) x += g_cas[i];
	if (x != cas) viol("C01,C04", "sequence words sum to %lu, %lu updates succeeded", cas, x);
	x = 0; for (int i = 0; i < NT; i++) x += g_pair[i];
	if (x != pair) viol("C01,C04", "paired words sum to %lu, %lu updates succeeded", pair, x);
	for (int i = 0; i < NT; i++) stat_add("stress_commits", (long)(g_add[i] / (1 + (unsigned)(i & 3)) + g_ll[i] / 3 + g_cas[i] + g_pair[i]));
	stat_add("stress_commits", (long)(g_push + g_pop + g_rpush + g_rpop + g_bpush + g_bpop));
	stat_add("stress_commits_in_handlers", (long)g_hops);
	g_hops = 0;
	stat_add("stress_aborts_seen", (long)g_abort);
	stat_add(mode == RSEQ_PERCPU_CPU_ID ? "stress_rounds_cpu_id" : "stress_rounds_mm_cid", 1);
	rseq_mempool_percpu_free(D);
	if (rseq_mempool_destroy(pool))
		viol("C17", "destroy failed");
	return 0;
}
int main(int argc, char **argv)
{
	cpu_set_t set;
	double secs = atof(argv[2]);
	(void)argc; (void)rids;
	setvbuf(stdout, NULL, _IOLBF, 0);
	hc_s = strtoull(argv[1], NULL, 0);
	sched_getaffinity(0, sizeof(set), &set);
	for (int i = 0; i < 1024; i++)
		if (CPU_ISSET(i, &set))
			cpus[ncpus++] = i;
	signal(SIGUSR1, sig);
	if (rseq_register_current_thread())
		harness_error("rseq is not available");
	for (double t = 0; t < secs && hc_viols < 5; t += 1) {
		hc_s = rnd();
		mode = (int)t & 1 && rseq_mm_cid_available() ? RSEQ_PERCPU_MM_CID : RSEQ_PERCPU_CPU_ID;
		round1(1);
	}
	hc_report();
	return hc_viols ? 1 : 0;
}
