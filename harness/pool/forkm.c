/* Pools across fork. usage: forkm SEED SECONDS */
#include "model.h"
#include <time.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <malloc.h>

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static struct { int phase; int viols; long child_checks; char txt[200]; } *sh;
static int fcb(void *priv, void *addr, size_t len, int cpu) { (void)priv; (void)addr; (void)len; (void)cpu; return 0; }

/* does any mapping of this process intersect [a,b)? */
static int mapped(char *a, char *b, char *out, size_t n)
{
	FILE *f = fopen("/proc/self/maps", "r");
	char line[512];
	unsigned long s, e;
	int hit = 0;
	while (fgets(line, sizeof(line), f))
		if (sscanf(line, "%lx-%lx", &s, &e) == 2 && s < (unsigned long)b && e > (unsigned long)a) {
			hit++;
			if (out)
				snprintf(out, n, "%.60s", line);
		}
	fclose(f);
	if (out)
		for (char *c = out; *c; c++)
			if (*c == '\n') *c = 0;
	return hit;
}
static int poke(char *a, const void *d, size_t n)	/* store without faulting */
{
	static int fd = -1;
	struct iovec l = { (void *)d, n }, r = { a, n };
	(void)fd;
	return process_vm_writev(getpid(), &l, 1, &r, 1, 0) == (ssize_t)n;
}

struct span { char *a, *b; };
/* all mappings that appeared since the listing in m0 */
struct mm { unsigned long a, b; };
static int list_maps(struct mm *m, int max)
{
	FILE *f = fopen("/proc/self/maps", "r");
	char line[512], nm[200];
	int n = 0;
	while (fgets(line, sizeof(line), f) && n < max) {
		nm[0] = 0;
		if (sscanf(line, "%lx-%lx %*s %*s %*s %*s %199s", &m[n].a, &m[n].b, nm) >= 2 && strncmp(nm, "[heap", 5) && strncmp(nm, "[stack", 6))
			n++;
	}
	fclose(f);
	return n;
}
static int new_spans(struct mm *m0, int n0, struct span *sp, int max)
{
	static struct mm m1[4000];
	int n1 = list_maps(m1, 4000), n = 0;
	for (int i = 0; i < n1; i++)
		for (unsigned long p = m1[i].a; p < m1[i].b; p += PAGE) {
			int old = 0;
			for (int j = 0; j < n0 && !old; j++)
				old = p >= m0[j].a && p < m0[j].b;
			if (old)
				continue;
			if (n && sp[n - 1].b == (char *)p)
				sp[n - 1].b += PAGE;
			else if (n < max) {
				sp[n].a = (char *)p;
				sp[n].b = (char *)p + PAGE;
				n++;
			}
		}
	return n;
}

static struct mm m0[4000];
static struct span sp[64];

static void use_pool(struct pool *q, int k)
{
	while (k-- > 0) {
		if (rn(2)) {
			if (q->n < 300) {
				int i = pool_alloc(q, (int)rn(3), rlen(q->isz), 0);
				if (i >= 0)
					item_write(q, i, (int)rn((unsigned)q->ncpu), 0, q->isz, rnd());
			}
		} else if (q->n)
			pool_free(q, (int)rn((unsigned)q->n));
		if (q->n)
			item_verify(q, (int)rn((unsigned)q->n), "around fork", "C18,C13");
	}
}

static void child_cow_init(struct pool *q, int nsp, int generation)
{
	static char *mine[64];
	static size_t minelen[64];
	int nm = 0, r;
	char txt[100];
	long scr = 0;

	/* whatever is still reachable in the child gets scribbled over: the parent must not notice */
	if (rn(2))
		for (int i = 0; i < nsp; i++)
			for (char *p = sp[i].a; p < sp[i].b; p += 512) {
				int isarea = 0;
				for (int a = 0; a < q->nar; a++)
					isarea |= p >= q->ar[a].base && p < q->ar[a].base + (size_t)(q->ncpu + 2) * q->stride;
				if (isarea)
					scr += poke(p, "\xa5\xa5\xa5\xa5\xa5\xa5\xa5\xa5", 8);
			}
	stat_add("child_scribbles", scr);
	if (generation) {
		pid_t pid = fork();
		int st;
		if (!pid)
			return child_cow_init(q, nsp, 0), _exit(0);
		waitpid(pid, &st, 0);
		if (st)
			viol("C18", "grandchild stopped with status %#x when destroying a copy-on-write-init pool %s", st, gstr(&q->g));
	}
	/* new mappings of the child where the pool's data used to be */
	for (int i = 0; i < nsp && nm < 60; i++)
		for (char *p = sp[i].a; p < sp[i].b && nm < 60; ) {
			size_t l = PAGE * (1 + rn(4)), whole = q->stride;
			if (rn(2))
				l = whole;
			if (p + l > sp[i].b)
				l = (size_t)(sp[i].b - p);
			if (mmap(p, l, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == p) {
				memset(p, 0x77, l);
				mine[nm] = p;
				minelen[nm++] = l;
				if (rn(3) == 0)
					p += l;	/* leave a hole as well */
				p += l;
			} else
				p += PAGE;
		}
	r = rseq_mempool_destroy(q->h);
	if (r)
		viol("C18,C17", "destroying a copy-on-write-init pool in the child failed, errno %d %s", errno, gstr(&q->g));
	for (int i = 0; i < nm; i++)
		for (size_t o = 0; o < minelen[i]; o += PAGE) {
			unsigned char v = 0;
			struct iovec l = { &v, 1 }, rr = { mine[i] + o, 1 };
			if (process_vm_readv(getpid(), &l, 1, &rr, 1, 0) != 1 || v != 0x77) {
				viol("C18", "destroying the pool in the child removed or changed the child's own mapping at %p %s", (void *)(mine[i] + o), gstr(&q->g));
				goto out;
			}
			sh->child_checks++;
		}
out:
	for (int i = 0; i < nm; i++)
		munmap(mine[i], minelen[i]);
	for (int i = 0; i < nsp; i++)
		if (mapped(sp[i].a, sp[i].b, txt, sizeof(txt))) {
			viol("C18,C17", "after destroy in the child part of the pool is still mapped: %s %s", txt, gstr(&q->g));
			break;
		}
	stat_add("child_mappings", nm);
}

static void scenario(struct geo *g)
{
	struct pool *q;
	int nsp, n0 = list_maps(m0, 4000), st, gen = rn(4) == 0, use_child = (int)rn(3), p1[2], p2[2];
	char c;
	pid_t pid;

	q = pool_make(g, rn(2) ? "fork" : NULL, 0);
	if (!q)
		return;
	use_pool(q, 10 + (int)rn(120));
	if (g->ranges != 1 && rn(2))
		while (q->n < 300 && (size_t)q->n < q->slots * (g->ranges ? g->ranges : 3))
			if (pool_alloc(q, (int)rn(3), rlen(q->isz), 0) < 0)
				break;
	if (g->robust && g->policy == 0 && !g->global)	/* a robust pool must be empty to be destroyed */
		while (q->n)
			pool_free(q, (int)rn((unsigned)q->n));
	nsp = new_spans(m0, n0, sp, 64);
	if (pipe(p1) || pipe(p2))
		harness_error("pipe");
	fflush(stdout);
	pid = fork();
	if (!pid) {
		int v0 = hc_viols;
		alarm(30);
		hc_nst = 0;
		if (g->policy == 0 && !g->global)
			child_cow_init(q, nsp, gen);
		else {
			/* full private copy: wait until the parent has scribbled over its own */
			if (write(p2[1], "x", 1) != 1 || read(p1[0], &c, 1) != 1)
				_exit(4);
			for (int i = 0; i < q->n; i++)
				item_verify(q, i, "in the child after the parent changed its copy", "C18");
			sh->child_checks += q->n;
			use_pool(q, 60);
			if (use_child == 0) {
				/* to capacity */
				while (g->ranges && q->n < 2000 && (size_t)q->n < q->slots * g->ranges)
					if (pool_alloc(q, (int)rn(3), rlen(q->isz), 0) < 0)
						break;
			}
			for (int i = 0; i < q->n; i++)
				for (int cpu = 0; cpu < q->ncpu; cpu++)
					item_write(q, i, cpu, 0, q->isz, rnd());
			pool_verify(q, "in the child");
			if (g->robust || rn(2))
				while (q->n)
					pool_free(q, 0);
			if (rseq_mempool_destroy(q->h))
				viol("C18,C17", "destroying a zero-populated pool in the child failed, errno %d %s", errno, gstr(g));
			char txt[100];
			for (int i = 0; i < nsp; i++)
				if (mapped(sp[i].a, sp[i].b, txt, sizeof(txt))) {
					/* libc may have grown its own mappings meanwhile; only areas of the pool count */
					for (int a = 0; a < q->nar; a++)
						if (mapped(q->ar[a].base, q->ar[a].base + q->stride * (size_t)q->ncpu, txt, sizeof(txt))) {
							viol("C18,C17", "after destroy in the child the pool is still mapped: %s %s", txt, gstr(g));
							break;
						}
					break;
				}
		}
		sh->viols += hc_viols - v0;
		fflush(stdout);
		_exit(0);
	}
	if (!(g->policy == 0 && !g->global)) {
		if (read(p2[0], &c, 1) == 1) {
			for (int i = 0; i < q->n; i++)
				for (int cpu = 0; cpu < q->ncpu; cpu++)
					item_write(q, i, cpu, 0, q->isz, rnd());
			if (write(p1[1], "x", 1) != 1)
				harness_error("pipe");
		}
	} else if (rn(2))
		use_pool(q, 30);	/* the parent goes on while the child runs */
	waitpid(pid, &st, 0);
	close(p1[0]); close(p1[1]); close(p2[0]); close(p2[1]);
	hc_viols += sh->viols;
	sh->viols = 0;
	stat_add("forks", 1);
	distinct(hmix2(hmix2((uint64_t)g->policy * 4 + (uint64_t)g->robust * 2 + (uint64_t)g->global, (uint64_t)q->ncpu * 64 + (uint64_t)q->nar), hmix2(q->isz, q->stride) + (uint64_t)q->n));
	sample("fork with %d live items in %d ranges, child %s %s", q->n, q->nar, g->policy == 0 && !g->global ? "destroys" : "uses and destroys its copy", gstr(g));
	if (st)
		viol("C18", "child stopped with status %#x while %s %s", st, g->policy == 0 && !g->global ? "destroying a copy-on-write-init pool" : "using a zero-populated pool", gstr(g));
	for (int i = 0; i < q->n; i++)
		item_verify(q, i, "in the parent after the child ran", "C18,C13");
	use_pool(q, 60);
	/* fresh items must still get proper content: the child may not have reached the init values */
	for (int i = 0; i < 20 && q->n < 300; i++)
		pool_alloc(q, 1 + (int)rn(2), rlen(q->isz), 0);
	pool_end(q, (int)rn(2));
}

int main(int argc, char **argv)
{
	uint64_t seed = strtoull(argv[1], NULL, 0);
	double secs = atof(argv[2]), t0 = now();
	long n = 0;

	(void)fcb;
	setvbuf(stdout, NULL, _IOLBF, 0);
	rseq_get_max_nr_cpus();
	distinct_allocs = 0;
	sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	mallopt(M_MMAP_THRESHOLD, 1 << 30);
	mallopt(M_TOP_PAD, 64 << 20);
	free(malloc(32 << 20));	/* keep the harness heap away from new mappings */
	while (now() - t0 < secs && hc_viols < 10) {
		struct geo g;
		hc_s = hmix2(seed, (uint64_t)n++);
		nall = 0;
		geo_random(&g, 2UL << 20);
		g.attr_null = 0;
		g.init = rn(4) == 0;
		if (pow2up(g.item_len) * (size_t)(g.global ? 1 : g.ncpu ? g.ncpu : 8) > (g.ncpu > 64 ? 1UL << 19 : 1UL << 16))
			continue;
		scenario(&g);
	}
	stat_add("child_checks", sh->child_checks);
	hc_report();
	return hc_viols ? 1 : 0;
}
