/* Robust pools: every promised misuse must stop the process, at the promised time.
 * usage: misuse SEED SECONDS */
#include "model.h"
#include <time.h>
#include <fcntl.h>

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

enum { DOUBLE_FREE, LEAK, POISON_DESTROY, POISON_REALLOC, FREELIST, LEGAL, NKIND };
static const char *kname[] = { "double-free", "leak", "poison-at-destroy", "poison-at-realloc", "freelist-at-destroy", "legal" };

struct msg { int phase; int detail; char txt[160]; };
static int pfd;
static void tell(int phase, const char *fmt, ...)
{
	struct msg m = { .phase = phase };
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(m.txt, sizeof(m.txt), fmt, ap);
	va_end(ap);
	if (write(pfd, &m, sizeof(m)) != sizeof(m))
		_exit(5);
}

/* end of the accessible mapping run holding addr */
static char *map_end(char *addr)
{
	FILE *f = fopen("/proc/self/maps", "r");
	char line[512], *end = NULL;
	unsigned long a, b;
	char pr[8];
	while (fgets(line, sizeof(line), f))
		if (sscanf(line, "%lx-%lx %7s", &a, &b, pr) == 3 && pr[0] == 'r') {
			if (!end && a <= (unsigned long)addr && (unsigned long)addr < b)
				end = (char *)b;
			else if (end && (char *)a == end)
				end = (char *)b;
		}
	fclose(f);
	return end;
}

static void corrupt_item(struct pool *q, char *p, char *txt, size_t n)
{
	int c = (int)rn((unsigned)q->ncpu);
	size_t w = rn((unsigned)(q->isz / 8)) * 8;
	uint64_t *x = (uint64_t *)(cpy(q, p, c) + w);

	switch (rn(6)) {
	case 0: case 1:
		*x ^= 1UL << rn(64);
		snprintf(txt, n, "one bit of word %zu, cpu %d of %d", w / 8, c, q->ncpu);
		return;
	case 2:
		((unsigned char *)x)[rn(8)] ^= (unsigned char)(1 + rn(255));
		snprintf(txt, n, "one byte of word %zu, cpu %d of %d", w / 8, c, q->ncpu);
		return;
	case 3:	/* last word of last cpu */
		c = q->ncpu - 1;
		w = q->isz - 8;
		x = (uint64_t *)(cpy(q, p, c) + w);
		*x ^= 1UL << rn(64);
		snprintf(txt, n, "last word of the last cpu (%d)", c);
		return;
	case 4:	/* changes that cancel in a sum */
		if (q->isz >= 16) {
			size_t v = (w + 8) % q->isz;
			uint64_t d = 1 + rn(1000);
			*x += d;
			*(uint64_t *)(cpy(q, p, c) + v) -= d;
			snprintf(txt, n, "two words with cancelling changes, cpu %d of %d", c, q->ncpu);
			return;
		}
		/* fallthrough */
	default: {	/* the same change in every copy */
		uint64_t b = 1UL << rn(64);
		for (int k = 0; k < q->ncpu; k++)
			*(uint64_t *)(cpy(q, p, k) + w) ^= b;
		snprintf(txt, n, "one bit of word %zu on all %d cpus", w / 8, q->ncpu);
		return;
	}
	}
}

/* child: never returns */
static void child(struct geo *g, int kind)
{
	struct pool *q = pool_make(g, rn(2) ? "misuse" : NULL, 0);
	static char *freed[MAXITEM];
	int nf = 0, steps = 1 + (int)rn(60), cap;
	char txt[120] = "";
	int viols0 = hc_viols;

	if (!q)
		_exit(6);
	cap = (int)(q->slots * (q->g.ranges ? q->g.ranges : 3));
	/* mostly small histories; sometimes a range of a thousand items is filled */
	if (cap > 2100 && q->stride * (size_t)q->ncpu <= 1UL << 19 && rn(2))
		cap = 2100;
	else if (cap > 200 && (q->slots > 2100 || q->stride * (size_t)q->ncpu > 1UL << 20 || rn(3)))
		cap = 200;
	else if (cap > 2100)
		cap = 2100;
	if (rn(3) == 0)
		for (int i = 0; i < cap; i++)
			pool_alloc(q, (int)rn(3), rlen(q->isz), 0);
	for (int s = 0; s < steps; s++) {
		if (rn(3) && q->n < cap) {
			int i = pool_alloc(q, (int)rn(3), rlen(q->isz), 0);
			if (i >= 0 && rn(3))
				item_write(q, i, (int)rn((unsigned)q->ncpu), 0, q->isz, rnd());
		} else if (q->n)
			pool_free(q, (int)rn((unsigned)q->n));
	}
	while (q->n < 3 && q->n < cap)
		if (pool_alloc(q, (int)rn(3), rlen(q->isz), 0) < 0)
			break;
	if (hc_viols != viols0)
		_exit(8);
	switch (kind) {
	case LEGAL:
		while (q->n)
			pool_free(q, (int)rn((unsigned)q->n));
		tell(0, "legal history of %ld allocations, %d ranges", (long)q->peak, q->nar);
		if (rseq_mempool_destroy(q->h))
			_exit(9);
		_exit(0);
	case DOUBLE_FREE: {
		int k = 1 + (int)rn((unsigned)(q->n < 10 ? q->n : 10));
		char *p;
		while (k-- > 0 && q->n) {
			int i = (int)rn((unsigned)q->n);
			freed[nf++] = q->it[i].p;
			pool_free(q, i);
		}
		p = freed[rn((unsigned)nf)];
		tell(1, "item %d of %d freed ones, slot %zu, %d ranges", 0, nf, ((uintptr_t)p & (q->stride - 1)) / q->isz, q->nar);
		rseq_mempool_percpu_free(p, q->stride);
		_exit(77);
	}
	case LEAK: {
		int keep = 1 + (rn(3) ? 0 : (int)rn(3));
		int k = (int)rn((unsigned)q->n), want = (int)rn(5);
		struct item t = q->it[0];
		/* ends of the range and of the words a bitmap may consist of */
		if (want < 4)
			for (int i = 0; i < q->n; i++) {
				size_t sl = (size_t)q->it[i].slot;
				if (want == 0 ? sl == q->slots - 1 : want == 1 ? !sl : want == 2 ? sl % 64 == 63 : sl % 64 == 32 || sl % 32 == 31) { k = i; break; }
			}
		q->it[0] = q->it[k];
		q->it[k] = t;
		while (q->n > keep)
			pool_free(q, q->n - 1);
		tell(1, "%d leaked, one at slot %d of range %d/%d", q->n, q->it[0].slot, q->it[0].area, q->nar);
		rseq_mempool_destroy(q->h);
		_exit(77);
	}
	case POISON_DESTROY:
	case POISON_REALLOC: {
		int k = kind == POISON_DESTROY ? q->n : 1 + (int)rn((unsigned)q->n);
		char *p;
		while (k-- > 0) {
			int i = (int)rn((unsigned)q->n);
			freed[nf++] = q->it[i].p;
			pool_free(q, i);
		}
		p = freed[rn((unsigned)nf)];
		corrupt_item(q, p, txt, sizeof(txt));
		tell(1, "%s; slot %zu of %zu, %d freed items", txt, ((uintptr_t)p & (q->stride - 1)) / q->isz, q->slots, nf);
		if (kind == POISON_DESTROY)
			rseq_mempool_destroy(q->h);
		else {
			static unsigned char ib[1 << 17];
			for (int i = 0; i < MAXITEM; i++) {
				char *x = rn(2) ? rseq_mempool_percpu_malloc(q->h) : rn(2) ? rseq_mempool_percpu_zmalloc(q->h) :
					rseq_mempool_percpu_malloc_init(q->h, ib, q->isz > sizeof(ib) ? sizeof(ib) : q->isz);
				if (x == p || !x)
					break;
			}
		}
		_exit(77);
	}
	case FREELIST: {
		static uintptr_t before[1 << 17];
		char *base = (char *)((uintptr_t)q->it[0].p & ~(q->stride - 1)), *z = base + (size_t)q->ncpu * q->stride, *e = map_end(base);
		size_t words = (size_t)(e - z) / 8, i;
		uintptr_t *w = (uintptr_t *)z, *hit = NULL;
		char *first;
		int same = 0;

		/* two frees in the first item's range, nothing in between */
		while (q->n > 1)
			pool_free(q, q->n - 1);
		if (q->n != 1 || q->peak < 2)
			_exit(78);
		if (!e || e < z)
			_exit(78);
		first = NULL;
		if (words > q->stride * 2 / 8)
			words = q->stride * 2 / 8;
		int mem = open("/proc/self/mem", O_RDONLY);
		for (i = 0; i < words * 8; i += 4096)
			if (pread(mem, (char *)before + i, 4096, (off_t)(uintptr_t)(z + i)) != 4096) {
				words = i / 8;	/* the rest belongs to somebody else */
				break;
			}
		close(mem);
		pool_free(q, 0);
		for (i = 0; i < words; i++)
			if (w[i] != before[i] && w[i] >= (uintptr_t)base && w[i] < (uintptr_t)e) {
				hit = &w[i];
				same++;
			}
		(void)first;
		if (!hit || same != 1)
			_exit(78);	/* no free list found where the monitor can reach it */
		{	/* any link of the list may be the damaged one */
			int steps = (int)rn(4) ? MAXITEM : (int)rn((unsigned)q->peak), back = (int)rn(2);
			uintptr_t *prev = hit;
			while (steps-- > 0 && *hit) { prev = hit; hit = (uintptr_t *)*hit; }
			if (!*hit && back) hit = prev;
		}
		if (!*hit) {	/* the end of the list */
			uintptr_t v = PICK(1UL << rn(48), (uintptr_t)hit ^ (8UL << rn(12)), (uintptr_t)hit, (uintptr_t)base + 8 * (rnd() % (q->stride / 8)), (uintptr_t)z + 8 * (rnd() % (q->stride / 8)));
			*hit = v;
			tell(1, "end of the list replaced by %#lx", (unsigned long)v);
		} else switch (rn(8)) {
		case 5: {	/* inside the item */
			unsigned n = (unsigned)(q->isz / 8);
			if (n < 2) _exit(78);
			*hit += 8 * (1 + rn(n - 1));
			tell(1, "list node points into the middle of an item");
			break;
		}
		case 6: {	/* another slot, freed or never used */
			uintptr_t o = *hit & (q->stride - 1), t = q->isz * rn((unsigned)q->slots);
			if (o == t) _exit(78);
			*hit = *hit - o + t;
			tell(1, "list node points to slot %zu instead of %zu", t / q->isz, o / q->isz);
			break;
		}
		case 7: {
			unsigned b = rn(64);
			*hit ^= 1UL << b;
			tell(1, "bit %u of a list node changed", b);
			break;
		}
		case 0: *hit = 0; tell(1, "list truncated after its head"); break;
		case 1: *hit = (uintptr_t)hit; tell(1, "list node points to itself"); break;
		case 2: *hit = (uintptr_t)e + 4096 + 8 * rn(1000); tell(1, "list node points beyond the pool"); break;
		case 3: *hit = (uintptr_t)txt & ~7UL; tell(1, "list node points to the stack"); break;
		case 4: {	/* drop one node */
			uintptr_t nx = *(uintptr_t *)*hit;
			*hit = nx;
			tell(1, "list node skips the next one");
			break;
		}
		}
		rseq_mempool_destroy(q->h);
		_exit(77);
	}
	}
	_exit(79);
}

int main(int argc, char **argv)
{
	uint64_t seed = strtoull(argv[1], NULL, 0);
	double secs = atof(argv[2]), t0 = now();
	int only = argc > 3 ? atoi(argv[3]) : -1;
	long n = 0;

	setvbuf(stdout, NULL, _IOLBF, 0);
	rseq_get_max_nr_cpus();
	distinct_allocs = 0;
	while (now() - t0 < secs && hc_viols < 10) {
		struct geo g;
		int kind = only >= 0 ? only : (int)(n % NKIND), st, fd[2], got;
		struct msg m = { 0 }, t;
		pid_t pid;

		hc_s = hmix2(seed, (uint64_t)n++);
		geo_random(&g, 1UL << 20);
		g.robust = 1;
		g.attr_null = 0;
		if (g.init == 1) g.init = 0;
		/* at most 400 items per range */
		while ((g.stride ? g.stride : 65536) / pow2up(g.item_len) > 2048)
			g.item_len = g.item_len ? pow2up(g.item_len) * 2 : 16;
		if (kind == FREELIST && (g.stride ? g.stride : 65536) > 65536)
			g.stride = 65536;
		if (!geo_valid(&g, g.stride ? g.stride : 65536))
			continue;
		if (pipe(fd))
			harness_error("pipe");
		fflush(stdout);
		pid = fork();
		if (!pid) {
			int nul = open("/dev/null", O_WRONLY);
			close(fd[0]);
			dup2(nul, 2);
			pfd = fd[1];
			signal(SIGALRM, SIG_DFL);
			alarm(20);
			child(&g, kind);
		}
		close(fd[1]);
		got = 0;
		while (read(fd[0], &t, sizeof(t)) == sizeof(t)) {
			m = t;
			got = 1;
		}
		close(fd[0]);
		waitpid(pid, &st, 0);
		stat_add("misuse_cases", 1);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 8)
			continue;	/* child printed a violation of its own */
		if (WIFEXITED(st) && WEXITSTATUS(st) == 78) {
			stat_add("freelist_not_observable", 1);
			continue;
		}
		if (kind == LEGAL) {
			if (!WIFEXITED(st) || WEXITSTATUS(st))
				viol("C15", "a correct user of a robust pool was stopped (status %#x): %s %s", st, m.txt, gstr(&g));
			stat_add("case_legal", 1);
			distinct(hmix2(g.item_len, hmix2((uint64_t)g.ncpu, g.stride)));
			continue;
		}
		if (!got) {
			viol("C15", "a correct user of a robust pool was stopped (status %#x) before misusing it, seed %llu case %ld %s", st, (unsigned long long)seed, n - 1, gstr(&g));
			continue;
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
			viol("C15", "robust pool did not stop the process: %s (%s) %s", kname[kind], m.txt, gstr(&g));
		else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGABRT || (kind == FREELIST && WTERMSIG(st) != SIGALRM))) {
			char k[40];
			snprintf(k, sizeof(k), "detected_%s", kname[kind]);
			stat_add(kind == DOUBLE_FREE ? "detected_double_free" : kind == LEAK ? "detected_leak" : kind == POISON_DESTROY ? "detected_poison_destroy" :
				 kind == POISON_REALLOC ? "detected_poison_realloc" : "detected_freelist", 1);
			distinct(hmix2(hmix2((uint64_t)kind, hc_mix((uint64_t)g.item_len * 131 + (uint64_t)g.ncpu)), hmix2(g.stride, strlen(m.txt) + (uint64_t)m.txt[0] * 7 + (uint64_t)g.policy)));
			sample("%s: %s -> SIGABRT %s", kname[kind], m.txt, gstr(&g));
		} else
			viol("C15", "robust pool: %s (%s) ended with status %#x instead of a detection %s", kname[kind], m.txt, st, gstr(&g));
	}
	hc_report();
	return hc_viols ? 1 : 0;
}
