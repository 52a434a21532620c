/* Resource failures at every acquisition point, and complete release. usage: faults SEED SECONDS
 * Every scenario runs in its own process. */
#include "model.h"
#include "inter.h"
#include <time.h>

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static struct snap s0, s1, s2;
static int cbn, cbfail;
static int fcb(void *priv, void *addr, size_t len, int cpu)
{
	(void)priv; (void)cpu;
	memset(addr, 0x3c, len < 4096 ? len : 4096);
	if (++cbn == cbfail) {
		errno = EPERM;
		return -1;
	}
	return 0;
}
static struct rseq_mempool_attr *attr_of(struct geo *g)
{
	struct rseq_mempool_attr *a = rseq_mempool_attr_create();
	if (g->init) rseq_mempool_attr_set_init(a, fcb, NULL);
	if (g->global) rseq_mempool_attr_set_global(a, g->stride);
	else rseq_mempool_attr_set_percpu(a, g->stride, g->ncpu);
	rseq_mempool_attr_set_populate_policy(a, (enum rseq_mempool_populate_policy)g->policy);
	if (g->robust) rseq_mempool_attr_set_robust(a);
	if (g->poison_set) rseq_mempool_attr_set_poison(a, g->poison);
	rseq_mempool_attr_set_max_nr_ranges(a, g->ranges);
	return a;
}

struct res { int calls, hit, nviol; char name[24]; };
static struct res *sh;
static const int KINDS = K_HEAP | K_MMAP | K_FD | K_TRUNC | K_ADVISE;

/* foreign mappings next to wherever the kernel puts the pool */
static char *guards[64];
static int nguards;
static void guard(void)
{
	if (nguards < 64) {
		guards[nguards] = mmap(NULL, PAGE * (1 + rn(3)), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		nguards++;
	}
}
/* make holes so that placement varies */
static void holes(void)
{
	for (int i = 0; i < 6; i++) {
		char *p = mmap(NULL, PAGE * 64, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		size_t o = PAGE * (1 + rn(8)), l = PAGE * (1 + rn(50));
		munmap(p + o, l);
	}
}

#define BEGIN(k, fail) do { win_kinds = (k); win_calls = 0; win_hit = 0; win_fail = (fail); errno = 0; win = 1; } while (0)
#define END() do { win_err = errno; win = 0; } while (0)

/* phase 0: fail in create; 1: fail in an extending allocation; 2: no failure, full lifetime; 3: munmap failure in destroy; 4: callback failure */
static void scenario(struct geo *g, int phase, int fail, const char *name)
{
	struct rseq_mempool *h;
	size_t isz = pow2up(g->item_len), stride = g->stride ? g->stride : 65536, slots = stride / isz;
	int ncpu = g->global ? 1 : g->ncpu ? g->ncpu : rseq_get_max_nr_cpus();
	static char *items[8192];
	static uint64_t tag[8192];
	int n = 0, r;
	const char *d;
	struct rseq_mempool_attr *a;

	holes();
	guard();
	a = attr_of(g);
	win_errno = PICK(ENOMEM, ENOMEM, EMFILE, ENFILE, EPERM, EINVAL, ENOSPC);
	snap_take(&s0);
	cbn = 0;
	cbfail = phase == 4 && !(fail & 1) ? 1 + (int)rn((unsigned)ncpu) : 0;
	BEGIN(KINDS, phase == 0 ? fail : 0);
	h = rseq_mempool_create(name, g->item_len, a);
	END();
	if (phase == 0) {
		sh->calls = win_calls;
		sh->hit = win_hit;
		if (win_hit) {
			strncpy(sh->name, win_hit_name, 20);
			snap_take(&s1);
			if (h)
				viol("C17", "create returned a pool although %s (call %d) failed %s", win_hit_name, fail, gstr(g));
			else if (!win_err)
				viol("C17", "create failed without errno after %s (call %d) failed %s", win_hit_name, fail, gstr(g));
			if (!h && (d = snap_diff(&s0, &s1)))
				viol("C17", "create failed at %s (call %d) but %s %s", win_hit_name, fail, d, gstr(g));
			if (!h) {	/* the shortage ends */
				h = rseq_mempool_create(name, g->item_len, a);
				if (!h)
					viol("C14,C17", "create still fails after the shortage ended %s", gstr(g));
			}
			return;
		}
	}
	if (phase == 4 && cbfail) {
		snap_take(&s1);
		if (h) {
			viol("C23,C17", "create succeeded although the init callback failed %s", gstr(g));
			return;
		}
		if (!win_err)
			viol("C17,C23", "create failed without errno after a callback failure %s", gstr(g));
		if ((d = snap_diff(&s0, &s1)))
			viol("C17,C23", "create failed in the init callback but %s %s", d, gstr(g));
		cbfail = 0;
		cbn = 0;
		BEGIN(KINDS, 0);
		h = rseq_mempool_create(name, g->item_len, a);
		END();
		sh->hit = 1;
		strcpy(sh->name, "callback");
	}
	if (!h) {
		viol("C17,C14", "create failed, errno %d %s", win_err, gstr(g));
		return;
	}
	if (phase != 3)
		guard();
	int nr = g->ranges ? (int)g->ranges : 3;
	int target = (int)slots * nr, maxit = 8000;
	if (target > maxit)
		target = maxit;
	/* fill the first range completely */
	while (n < (int)slots && n < target) {
		char *p;
		BEGIN(KINDS, 0);
		p = rseq_mempool_percpu_malloc(h);
		END();
		if (!p) {
			viol("C14", "malloc failed (errno %d) with %d of %zu items live %s", win_err, n, slots, gstr(g));
			return;
		}
		items[n] = p;
		tag[n] = rnd();
		for (int c = 0; c < ncpu; c++)
			memcpy(p + (size_t)c * stride + (isz - 8), &tag[n], 8);
		n++;
	}
	if ((phase == 1 || (phase == 4 && !sh->hit && g->init)) && n == (int)slots && nr > 1) {
		int k;
		/* items may have been handed out before: give one back so that recycling still works after the failure */
		for (k = 0; k < (phase == 4 ? 2 : 1); k++) {
			char *p;
			snap_take(&s1);
			if (phase == 4) {
				cbn = 0;
				cbfail = 1 + (int)rn((unsigned)ncpu);
			}
			BEGIN(KINDS, phase == 1 ? fail : 0);
			p = rseq_mempool_percpu_zmalloc(h);
			END();
			sh->calls = win_calls;
			sh->hit |= phase == 1 ? win_hit : 1;
			if (phase == 1 && !win_hit) {
				if (p)
					items[n] = p, tag[n] = 0, n++;
				break;
			}
			strncpy(sh->name, phase == 1 ? win_hit_name : "callback", 20);
			snap_take(&s2);
			if (p) {
				viol(phase == 1 ? "C17,C14" : "C23,C17", "extending allocation succeeded although %s (call %d) failed %s", sh->name, fail, gstr(g));
				return;
			}
			if (win_err != ENOMEM)
				viol("C14,C17", "extending allocation failed with errno %d instead of ENOMEM after %s failed %s", win_err, sh->name, gstr(g));
			if ((d = snap_diff(&s1, &s2)))
				viol("C17", "extending allocation failed at %s (call %d) but %s %s", sh->name, fail, d, gstr(g));
			cbfail = 0;
			/* still full: freeing one slot makes exactly one available without growing */
			char *v = items[n - 1];
			rseq_mempool_percpu_free(v, stride);
			n--;
			snap_take(&s1);
			BEGIN(KINDS, 0);
			p = rseq_mempool_percpu_malloc(h);
			END();
			snap_take(&s2);
			if (!p) {
				viol("C14", "after a failed extension and a free, malloc fails (errno %d) %s", win_err, gstr(g));
				return;
			}
			if (snap_diff(&s1, &s2))
				viol("C14", "after a failed extension the pool grew although an item was free %s", gstr(g));
			items[n] = p;
			tag[n] = 0;
			for (int c = 0; c < ncpu; c++)
				memcpy(p + (size_t)c * stride + (isz - 8), &tag[n], 8);
			n++;
		}
	}
	/* the shortage is over: the full capacity must be available, exactly */
	while (n < target) {
		char *p;
		BEGIN(KINDS, 0);
		p = rseq_mempool_percpu_malloc(h);
		END();
		if (!p) {
			viol("C14", "malloc failed (errno %d) with %d items live, capacity %d%s %s", win_err, n, target, sh->hit ? " after an earlier failure" : "", gstr(g));
			return;
		}
		items[n] = p;
		tag[n] = rnd();
		for (int c = 0; c < ncpu; c++)
			memcpy(p + (size_t)c * stride + (isz - 8), &tag[n], 8);
		n++;
	}
	if (g->ranges && target < maxit) {
		char *p;
		snap_take(&s1);
		BEGIN(KINDS, 0);
		p = rseq_mempool_percpu_malloc(h);
		END();
		snap_take(&s2);
		if (p || win_err != ENOMEM)
			viol("C14", "malloc on a full pool returned %p errno %d%s %s", (void *)p, win_err, sh->hit ? " after an earlier failure" : "", gstr(g));
		if ((d = snap_diff(&s1, &s2)))
			viol("C17,C14", "refused allocation: %s %s", d, gstr(g));
	}
	for (int i = 0; i < n; i++)
		for (int c = 0; c < ncpu; c++)
			if (memcmp(items[i] + (size_t)c * stride + (isz - 8), &tag[i], 8)) {
				viol("C13,C11,C14", "content of a live item changed after %s failures %s", sh->hit ? "resource" : "no", gstr(g));
				return;
			}
	/* release */
	if (g->robust || rn(2))
		while (n) {
			int k = (int)rn((unsigned)n);
			win = 1; win_kinds = 0;
			rseq_mempool_percpu_free(items[k], stride);
			win = 0;
			items[k] = items[--n];
		}
	if (phase == 3) {
		BEGIN(K_MUNMAP, fail);
		r = rseq_mempool_destroy(h);
		END();
		sh->calls = win_calls;
		sh->hit = win_hit;
		strcpy(sh->name, "munmap");
		if (win_hit && !r)
			viol("C17", "destroy returned success although releasing range %d failed %s", fail, gstr(g));
		if (win_hit && r && !win_err)
			viol("C17", "destroy failed without errno %s", gstr(g));
		if (!win_hit && r)
			viol("C17", "destroy failed, errno %d %s", win_err, gstr(g));
		if (r && win_hit && (fail == 1 || !g->robust)) {
			/* what is left can be released later */
			win = 1; win_kinds = 0;
			r = rseq_mempool_destroy(h);
			win = 0;
			snap_take(&s1);
			if (r)
				viol("C17", "destroy still fails (errno %d) after the kernel refused once to unmap range %d %s", errno, fail, gstr(g));
			else if ((d = snap_diff(&s0, &s1)))
				viol("C17", "destroy was refused at range %d and then succeeded but %s %s", fail, d, gstr(g));
		}
		return;
	}
	win = 1; win_kinds = 0;
	r = rseq_mempool_destroy(h);
	win = 0;
	if (r)
		viol("C17", "destroy failed, errno %d %s", errno, gstr(g));
	snap_take(&s1);
	heap_live = s1.heap;
	if (s1.heap != s0.heap)
		viol("C17", "destroy left %ld heap blocks %s", s1.heap - s0.heap, gstr(g));
	for (int i = 0; i < 256; i++)
		if (s0.fds[i] != s1.fds[i])
			viol("C17", "destroy left descriptor %d %s", i, gstr(g));
	sh->hit |= 2;
}

/* Lifetime without guards in between: the process must look exactly as before. */
static void lifetime(struct geo *g, int kind, const char *name)
{
	struct rseq_mempool_attr *a;
	struct rseq_mempool *h[4] = { 0 };
	struct rseq_mempool_set *s = NULL;
	size_t stride = g->stride ? g->stride : 65536;
	int np = 1 + (int)rn(3), inset[4] = { 0 };
	const char *d;
	char *gd;
	int v0 = hc_viols, fs = 0, had_set;

	holes();
	gd = mmap(NULL, PAGE, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	(void)gd;
	snap_take(&s0);
	win = 1; win_kinds = 0;
	a = attr_of(g);
	if (kind == 1) {
		BEGIN(K_HEAP, 1);
		s = rseq_mempool_set_create();
		END();
		if (s)
			viol("C17,C19", "set_create succeeded without memory");
		else if (win_err != ENOMEM)
			viol("C17,C19", "set_create failed with errno %d", win_err);
		win = 1; win_kinds = 0; win_fail = 0;
		s = rseq_mempool_set_create();
		if (!s) {
			viol("C17,C19", "set_create failed, errno %d", errno);
			return;
		}
	}
	for (int i = 0; i < np; i++) {
		char *it[600];
		int n = 0, lim;
		size_t il = g->item_len, slots;
		if (i) { il = pow2up(g->item_len) << i; if (il > stride) il = 8UL << rn(3); }
		h[i] = rseq_mempool_create(name, il, a);
		if (!h[i]) {
			viol("C17,C14", "create failed, errno %d %s", errno, gstr(g));
			return;
		}
		slots = stride / pow2up(il);
		lim = (int)(slots * (g->ranges ? g->ranges : 1 + rn(6)));
		if (lim > 600) lim = 600;
		if (rn(5) == 0) lim = (int)rn(3) < lim ? (int)rn(3) : lim;
		if (s && rseq_mempool_set_add_pool(s, h[i]) == 0)
			inset[i] = 1;
		while (n < lim) {
			it[n] = rseq_mempool_percpu_zmalloc(h[i]);
			if (!it[n])
				break;
			memset(it[n], 1, 8);
			n++;
		}
		if (g->robust || rn(2))
			while (n)
				rseq_mempool_percpu_free(it[--n], stride);
	}
	rseq_mempool_attr_destroy(a);
	if (kind == 2) {
		/* a child gives back everything it inherited */
		pid_t pid;
		int st;
		win = 0;
		fflush(stdout);
		pid = fork();
		if (!pid) {
			alarm(20);
			win = 1;
			for (int i = np - 1; i >= 0; i--)
				if (rseq_mempool_destroy(h[i]))
					viol("C18,C17", "destroy in the child failed, errno %d %s", errno, gstr(g));
			win = 0;
			snap_take(&s1);
			if ((d = snap_diff(&s0, &s1)))
				viol("C18,C17", "after destroying everything in the child, %s %s", d, gstr(g));
			fflush(stdout);
			_exit(hc_viols - v0);
		}
		waitpid(pid, &st, 0);
		if (!WIFEXITED(st))
			viol("C18", "child stopped with status %#x when destroying inherited pools %s", st, gstr(g));
		else
			hc_viols += WEXITSTATUS(st);
		win = 1;
	}
	if (s && rn(2)) {
		/* the kernel refuses once to unmap a range of one of the pools */
		int k = g->robust ? 1 : 1 + (int)rn(6), r;
		win_errno = ENOMEM;
		BEGIN(K_MUNMAP, k);
		r = rseq_mempool_set_destroy(s);
		END();
		win = 1; win_kinds = 0; win_fail = 0;
		if (!r)
			s = NULL;
		if (win_hit && !r)
			viol("C17,C19", "set destroy returned success although releasing its range %d failed %s", k, gstr(g));
		else if (win_hit && !win_err)
			viol("C17", "set destroy failed without errno %s", gstr(g));
		else if (!win_hit && r)
			viol("C17,C19", "set destroy failed, errno %d", win_err);
		if (win_hit)
			sh->hit |= 4;
		fs = 1;
	}
	if (s && rseq_mempool_set_destroy(s))
		viol("C17,C19", "set destroy %sfailed, errno %d", fs ? "still " : "", errno);
	/* pools the set does not own are still the caller's */
	had_set = kind == 1;
	for (int i = np - 1; i >= 0; i--)
		if (!inset[i]) {
			if (had_set) {
				void *p = rseq_mempool_percpu_zmalloc(h[i]);
				if (!p && !g->ranges)
					viol("C19", "a pool refused by the set is unusable after the set's destruction");
				if (p)
					rseq_mempool_percpu_free(p, stride);
			}
			if (rseq_mempool_destroy(h[i]))
				viol("C17", "destroy failed, errno %d %s", errno, gstr(g));
		}
	win = 0;
	snap_take(&s1);
	if ((d = snap_diff(&s0, &s1)))
		viol(had_set ? "C17,C19" : "C17", "after destroying everything%s, %s %s", fs ? " (a first set destroy may have been refused)" : "", d, gstr(g));
	sh->hit |= 1;
	strcpy(sh->name, sh->hit & 4 ? "set_destroy" : had_set ? "set" : kind == 2 ? "forked" : "pools");
}

static int in_child(struct geo *g, int phase, int fail)
{
	static const char *names[] = { NULL, "faults" };
	const char *nm = names[rn(2)];
	int st;
	pid_t pid;
	memset(sh, 0, sizeof(*sh));
	fflush(stdout);
	pid = fork();
	if (!pid) {
		int nul = open("/dev/null", O_WRONLY);
		int v0 = hc_viols;
		dup2(nul, 2);
		close(nul);
		if (rn(4) == 0)
			close(0);	/* the library's own descriptors may then be number 0 */
		alarm(30);
		hc_nst = 0;
		if (phase >= 10) lifetime(g, phase - 10, nm);
		else scenario(g, phase, fail, nm);
		if (bad_close >= 0)
			viol("C17", "descriptor %d was closed again after it was closed (phase %d, failing call %d (%s)): a file another thread opens meanwhile is lost %s", bad_close, phase, fail, sh->name, gstr(g));
		if (bad_unmap)
			viol("C17", "a range already given back was unmapped again (phase %d, failing call %d (%s)): what another thread maps there meanwhile is lost %s", phase, fail, sh->name, gstr(g));
		sh->nviol = hc_viols - v0;
		fflush(stdout);
		_exit(0);
	}
	waitpid(pid, &st, 0);
	hc_viols += sh->nviol;
	stat_add("scenarios", 1);
	if (!WIFEXITED(st) || WEXITSTATUS(st)) {
		viol(phase == 11 ? "C17,C19,C14,C15" : "C17,C14,C15", "process stopped (status %#x) in a legal history, phase %d, failing call %d (%s) %s", st, phase, fail, sh->name, gstr(g));
		return 0;
	}
	if (sh->hit & 1) {
		char k[48];
		static char *keep[64];
		static int nk;
		int i;
		snprintf(k, sizeof(k), "injected_%s", sh->name);
		for (i = 0; i < nk; i++)
			if (!strcmp(keep[i], k))
				break;
		if (i == nk && nk < 64)
			keep[nk++] = strdup(k);
		stat_add(keep[i], 1);
		stat_add("faults_injected", phase < 10);
		distinct(hmix2(hmix2((uint64_t)phase * 64 + (uint64_t)fail, g->stride), hmix2((uint64_t)g->policy * 8 + (uint64_t)g->robust * 4 + (uint64_t)g->global * 2 + (uint64_t)!!g->init, (uint64_t)g->ncpu + (uint64_t)sh->name[0])));
		sample("phase %d: call %d (%s) failed %s", phase, fail, sh->name, gstr(g));
	}
	return sh->calls;
}

int main(int argc, char **argv)
{
	uint64_t seed = strtoull(argv[1], NULL, 0);
	double secs = atof(argv[2]), t0 = now();
	long n = 0;

	setvbuf(stdout, NULL, _IOLBF, 0);
	rseq_get_max_nr_cpus();
	/* warm up lazily initialised C library state */
	{ struct geo g = { .item_len = 8, .stride = 4096, .ncpu = 1 }; struct rseq_mempool *p; struct rseq_mempool_attr *a = attr_of(&g); p = rseq_mempool_create("warm", 8, a); rseq_mempool_destroy(p); rseq_mempool_attr_destroy(a); fprintf(stderr, " "); printf("\n"); snap_take(&s0); }
	sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	while (now() - t0 < secs && hc_viols < 10) {
		struct geo g;
		int c;

		hc_s = hmix2(seed, (uint64_t)n++);
		geo_random(&g, 1UL << 20);
		g.attr_null = 0;
		while ((g.stride ? g.stride : 65536) / pow2up(g.item_len) > 512)
			g.item_len = pow2up(g.item_len) * 2;
		if (g.ranges == 7)
			g.ranges = 3;
		if (!g.global && g.ncpu > 17)
			g.ncpu = 17;
		/* every acquiring call of create, in turn */
		c = in_child(&g, 0, 0);
		stat_add("create_acquisitions", c);
		for (int f = 1; f <= c && hc_viols < 10; f++)
			in_child(&g, 0, f);
		if (g.ranges != 1) {
			c = in_child(&g, 1, 0);
			for (int f = 1; f <= c && hc_viols < 10; f++)
				in_child(&g, 1, f);
		}
		c = in_child(&g, 3, 0);
		for (int f = 1; f <= c && hc_viols < 10; f++)
			in_child(&g, 3, f);
		if (g.init) {
			in_child(&g, 4, 0);
			in_child(&g, 4, 1);
		}
		in_child(&g, 10, 0);
		in_child(&g, 11, 0);
		in_child(&g, 12, 0);
		in_child(&g, 10, 0);
		in_child(&g, 11, 0);
		if (g.policy || g.global) {	/* inherited copy-on-write-init pools matter most */
			g.policy = g.global = 0;
			in_child(&g, 12, 0);
		}
	}
	hc_report();
	return hc_viols ? 1 : 0;
}
