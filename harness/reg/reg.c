/* Registration, feature set and queries against an emulated kernel and C library.
 * usage: reg SEED SECONDS   (re-executes itself once per world) */
#include <rseq/rseq.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include "hc.h"
#include "cfg.h"

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
#define AA(x, n) __atomic_fetch_add(&(x), (n), __ATOMIC_RELAXED)
#define AL(x) __atomic_load_n(&(x), __ATOMIC_RELAXED)

/* ---- emulated kernel ---- */
struct kthread { int reg; char *area; unsigned len, sig; int cpu, node, cid; long calls; };
static __thread struct kthread kt;
static int k_attempts, k_successes, k_live;
static __thread int k_gfail;	/* errno the next getcpu fails with */
static __thread int k_ufail;	/* errno the next unregistration fails with */
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
	long r;
	register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static unsigned kfeat(void) { return vcfg.feat ? (unsigned)vcfg.feat : 20; }
static void k_publish(void)
{
	struct rseq_abi *a = (void *)kt.area;
	if (!kt.reg)
		return;
	*(volatile uint32_t *)&a->cpu_id_start = (uint32_t)kt.cpu;
	*(volatile uint32_t *)&a->cpu_id = (uint32_t)kt.cpu;
	if (kfeat() >= 24) *(volatile uint32_t *)&a->node_id = (uint32_t)kt.node;
	if (kfeat() >= 28) *(volatile uint32_t *)&a->mm_cid = (uint32_t)kt.cid;
}
/* size of the emulated machine: ids beyond 8, 12 and 16 bits occur */
static int k_ncpu(void)
{
	static const int n[] = { 0, 0, 300, 5000, 70000 };
	int c = n[vcfg.seed % 5];
	if (!c) { c = rseq_get_max_nr_cpus(); if (c > 8) c = 8; }
	return c;
}
static void k_migrate(void)
{
	kt.cpu = (int)(rnd() % (unsigned)k_ncpu());
	kt.node = (int)(rnd() % (k_ncpu() > 8 ? (unsigned)k_ncpu() : 5));
	kt.cid = (int)(rnd() % (unsigned)k_ncpu());
	k_publish();
}
static int k_rseq(char *area, unsigned len, int flags, unsigned sig)
{
	struct rseq_abi *a = (void *)area;
	kt.calls++;
	if (vcfg.enosys)
		return -ENOSYS;
	if (flags & RSEQ_ABI_FLAG_UNREGISTER) {
		if (flags & ~RSEQ_ABI_FLAG_UNREGISTER) return -EINVAL;
		if (k_ufail) return -k_ufail;
		if (!kt.reg || kt.area != area || kt.len != len) return -EINVAL;
		if (kt.sig != sig) return -EPERM;
		*(volatile uint32_t *)&a->cpu_id_start = 0;
		*(volatile int32_t *)&a->cpu_id = RSEQ_ABI_CPU_ID_UNINITIALIZED;
		if (kfeat() >= 24) *(volatile uint32_t *)&a->node_id = 0;
		if (kfeat() >= 28) *(volatile uint32_t *)&a->mm_cid = 0;
		kt.reg = 0;
		AA(k_live, -1);
		return 0;
	}
	if (flags)
		return -EINVAL;
	if (kt.reg) {
		if (kt.area != area || kt.len != len) return -EINVAL;
		if (kt.sig != sig) return -EPERM;
		return -EBUSY;
	}
	if (len < 32) return -EINVAL;
	if (len == 32) { if ((uintptr_t)area & 31) return -EINVAL; }
	else if (((uintptr_t)area & ((vcfg.align ? vcfg.align : 32) - 1)) || len < kfeat()) return -EINVAL;
	if (!area) return -EFAULT;
	if (AA(k_attempts, 1) < vcfg.failk)
		return -vcfg.failerr;
	kt.reg = 1;
	kt.area = area;
	kt.len = len;
	kt.sig = sig;
	AA(k_successes, 1);
	AA(k_live, 1);
	k_migrate();
	return 0;
}
long syscall(long n, ...)
{
	va_list ap;
	long a[6], r;
	va_start(ap, n);
	for (int i = 0; i < 6; i++)
		a[i] = va_arg(ap, long);
	va_end(ap);
	if (vcfg_set() && n == SYS_rseq)
		r = k_rseq((char *)a[0], (unsigned)a[1], (int)a[2], (unsigned)a[3]);
	else if (vcfg_set() && n == SYS_getcpu && k_gfail)
		r = -k_gfail;
	else if (vcfg_set() && n == SYS_getcpu) {
		if (a[0]) *(unsigned *)a[0] = (unsigned)kt.cpu;
		if (a[1]) *(unsigned *)a[1] = (unsigned)kt.node;
		r = 0;
	} else
		r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (r < 0 && r > -4096) {
		errno = (int)-r;
		return -1;
	}
	return r;
}
int sched_getcpu(void) { return vcfg_set() ? kt.cpu : (int)raw_syscall(SYS_getcpu, 0, 0, 0, 0, 0, 0); }
int getcpu(unsigned *c, unsigned *n) { return (int)syscall(SYS_getcpu, c, n, NULL); }
unsigned long getauxval(unsigned long t)
{
	static unsigned long (*real)(unsigned long);
	if (vcfg_set() && t == 27) { if (!vcfg.feat) errno = ENOENT; return vcfg.feat; }
	if (vcfg_set() && t == 28) { if (!vcfg.align) errno = ENOENT; return vcfg.align; }
	if (!real) real = (unsigned long (*)(unsigned long))dlvsym(RTLD_NEXT, "getauxval", "GLIBC_2.16");
	return real ? real(t) : 0;
}
void *dlsym(void *h, const char *s)
{
	static void *(*real)(void *, const char *);
	if (!real) real = (void *(*)(void *, const char *))dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34");
	if (vcfg_set()) {
		if (!strcmp(s, "__rseq_offset") && (vcfg.absent & 1)) return NULL;
		if (!strcmp(s, "__rseq_size") && (vcfg.absent & 2)) return NULL;
		if (!strcmp(s, "__rseq_flags") && (vcfg.absent & 4)) return NULL;
		if (!strncmp(s, "__rseq_", 7)) {
			extern ptrdiff_t __rseq_offset; extern unsigned __rseq_size, __rseq_flags;
			return !strcmp(s, "__rseq_offset") ? (void *)&__rseq_offset : !strcmp(s, "__rseq_size") ? (void *)&__rseq_size : !strcmp(s, "__rseq_flags") ? (void *)&__rseq_flags : NULL;
		}
	}
	return real(h, s);
}

/* ---- monitor ---- */
struct shared { long regs, unregs, refused, queries, observed_sizes, migrations, viols; };
static struct shared *sh;
static int libc_owned;
static unsigned want_size;
static int polled_zero, polled_nonzero, poll_stop;
static char cfgtxt[200];
static pthread_mutex_t vlock = PTHREAD_MUTEX_INITIALIZER;
#define V(props, ...) do { char _b[300]; snprintf(_b, sizeof(_b), __VA_ARGS__); pthread_mutex_lock(&vlock); viol(props, "%s [%s]", _b, cfgtxt); sh->viols++; pthread_mutex_unlock(&vlock); } while (0)
static uint64_t *areas_seen[64];
static char *thread_areas[64];

static void check_queries(const char *when)
{
	int raw = rseq_current_cpu_raw(), maxc = vcfg.seed % 5 > 1 ? k_ncpu() : rseq_get_max_nr_cpus();
	int registered = libc_owned ? 0 : kt.reg;
	AA(sh->queries, 1);
	if (libc_owned)
		return;
	if (registered ? raw != kt.cpu : raw >= 0)
		V("C09,C07", "raw cpu query returned %d %s, thread is %s, on cpu %d", raw, when, registered ? "registered" : "not registered", kt.cpu);
	if ((int)rseq_current_cpu() != kt.cpu)
		V("C09", "current cpu query returned %d %s, thread (%s) runs on cpu %d", (int)rseq_current_cpu(), when, registered ? "registered" : "not registered", kt.cpu);
	if (rseq_fallback_current_cpu() != kt.cpu)
		V("C09", "fallback cpu query returned %d, thread runs on cpu %d", rseq_fallback_current_cpu(), kt.cpu);
	if (rseq_fallback_current_node() != kt.node)
		V("C09", "fallback node query returned %d, node is %d", rseq_fallback_current_node(), kt.node);
	if (rnd() % 16 == 0) {
		int n;
		fflush(stderr);
		k_gfail = PICK(ENOSYS, EPERM, EFAULT);
		n = rseq_fallback_current_node();
		k_gfail = 0;
		if (n >= 0)
			V("C09", "fallback node query returned node %d although the kernel did not tell", n);
	}
	if (rseq_cpu_start() >= (uint32_t)maxc || (registered && (int)rseq_cpu_start() != kt.cpu))
		V("C09", "cpu_start query returned %u %s (cpu %d, max %d)", rseq_cpu_start(), when, kt.cpu, maxc);
	if (registered && kfeat() >= 24 && rseq_node_id_available() && (int)rseq_current_node_id() != kt.node)
		V("C09", "node query returned %u, node is %d", rseq_current_node_id(), kt.node);
	if (rseq_mm_cid_available() && (rseq_current_mm_cid() >= (uint32_t)maxc || (registered && (int)rseq_current_mm_cid() != kt.cid)))
		V("C09", "concurrency id query returned %u %s, id is %d", rseq_current_mm_cid(), when, kt.cid);
}
static void check_world(const char *when)
{
	unsigned s = *(volatile unsigned *)&rseq_size;
	unsigned w = libc_owned ? want_size : AL(k_successes) ? want_size : 0;
	if (libc_owned || !vcfg.early || AL(k_successes) == 0 || 1) {
		if (s != w && !(w && !s && !libc_owned && AL(k_live) && 0))
			V("C08,C07", "published size is %u %s, expected %u", s, when, w);
	}
	if (rseq_node_id_available() != (s >= 24))
		V("C08", "node id predicate is %d with published size %u", rseq_node_id_available(), s);
	if (rseq_mm_cid_available() != (s >= 28))
		V("C08", "concurrency id predicate is %d with published size %u", rseq_mm_cid_available(), s);
	if (rseq_available(RSEQ_AVAILABLE_QUERY_KERNEL) != !vcfg.enosys)
		V("C08", "kernel availability query returned %d", rseq_available(RSEQ_AVAILABLE_QUERY_KERNEL));
	if (rseq_available(RSEQ_AVAILABLE_QUERY_LIBC) != libc_owned)
		V("C08", "C library availability query returned %d %s", rseq_available(RSEQ_AVAILABLE_QUERY_LIBC), when);
	if (rseq_available(17) || rseq_available(2))
		V("C08", "an unknown availability query returned true");
	if (rseq_flags != (libc_owned ? vcfg.libc_flags : 0))
		V("C08,C07", "published flags are %#x", rseq_flags);
	AA(sh->observed_sizes, 1);
}
static void do_register(int k)
{
	long c0 = kt.calls;
	int was = kt.reg, r = rseq_register_current_thread();
	AA(sh->regs, 1);
	if (libc_owned) {
		if (r)
			V("C07", "register returned %d although the C library owns registration", r);
		if (kt.calls != c0)
			V("C07", "register made a kernel call although the C library owns registration");
		return;
	}
	(void)was;
	if (r == 0) {
		if (!kt.reg)
			V("C07", "register returned success but the kernel has no registration of the thread");
		else {
			if (kt.len < *(volatile unsigned *)&rseq_size)
				V("C07,C08", "the registered area has %u bytes, the published features need %u", kt.len, *(volatile unsigned *)&rseq_size);
			if (kt.len > 4096)
				V("C07", "the registered length is %u bytes", kt.len);
			if (kt.area != (char *)rseq_get_abi())
				V("C07", "the kernel got area %p, the published one is %p", kt.area, (void *)rseq_get_abi());
			if (kt.sig != RSEQ_SIG)
				V("C07", "registered with signature %#x", kt.sig);
			thread_areas[k] = kt.area;
		}
		if (*(volatile unsigned *)&rseq_size == 0)
			V("C07,C08", "published size is 0 after a successful registration");
	} else {
		AA(sh->refused, 1);
		if (r != -1)
			V("C07", "register returned %d", r);
		if (kt.reg)
			V("C07", "register returned failure but the kernel has the thread registered");
		if (!vcfg.enosys && !vcfg.failk)
			V("C07", "register failed (errno %d) although the kernel accepts registrations", errno);
	}
}
static void do_unregister(void)
{
	long c0 = kt.calls;
	int was = kt.reg, r = rseq_unregister_current_thread();
	AA(sh->unregs, 1);
	if (libc_owned) {
		if (r)
			V("C07", "unregister returned %d although the C library owns registration", r);
		if (kt.calls != c0)
			V("C07", "unregister made a kernel call although the C library owns registration");
		return;
	}
	if (r == 0 && kt.reg)
		V("C07", "unregister returned success but the kernel still has the thread registered");
	if (r == 0 && !was)
		V("C07", "unregister of an unregistered thread returned success");
	if (k_ufail && !r)
		V("C07", "unregister returned success although the kernel refused it with errno %d", k_ufail);
	if (r && was && !k_ufail)
		V("C07", "unregister of a registered thread failed, errno %d (registered with length %u)", errno, kt.len);
	if (r && r != -1)
		V("C07", "unregister returned %d", r);
	if (!r && *(volatile unsigned *)&rseq_size == 0)
		V("C07", "published size became 0 again after an unregistration");
}
static void thread_script(int k, int n)
{
	int fail_phase = vcfg.failk > 0;
	k_migrate();
	check_queries("before registration");
	for (int i = 0; i < n; i++) {
		switch (rnd() % 6) {
		case 0: case 1:
			if (libc_owned || !kt.reg)
				do_register(k);
			break;
		case 2:
			k_ufail = rnd() % 3 ? 0 : PICK(EPERM, EINVAL, EFAULT, EBUSY, ENOMEM, EINTR, EAGAIN, ENOSYS, EOPNOTSUPP, ESRCH);
			do_unregister();
			k_ufail = 0;
			break;
		default:
			k_migrate();
			AA(sh->migrations, 1);
		}
		check_queries("in the middle");
		if (!fail_phase && AL(k_live) > 0 && *(volatile unsigned *)&rseq_size == 0 && kt.reg)
			V("C07", "a registered thread sees published size 0");
	}
	if (libc_owned || !kt.reg)
		do_register(k);
	check_queries("after registration");
	if (rnd() & 1) {
		do_unregister();
		check_queries("after unregistration");
	}
}
static pthread_barrier_t bar;
static void *worker(void *a)
{
	int k = (int)(intptr_t)a;
	if (vcfg.early != 2)
		pthread_barrier_wait(&bar);
	/* hc_s is shared; racy updates only perturb the script */
	thread_script(k, 20);
	return NULL;
}
static void *poller(void *a)
{
	(void)a;
	int seen = 0;
	while (!__atomic_load_n(&poll_stop, __ATOMIC_ACQUIRE)) {
		unsigned s = *(volatile unsigned *)&rseq_size;
		if (s == 0) {
			polled_zero++;
			if (seen)
				V("C07", "published size went back to 0");
		} else {
			polled_nonzero++;
			if (s != want_size)
				V("C07,C08", "published size took the value %u, expected %u", s, want_size);
			seen = 1;
		}
	}
	return NULL;
}
static void prep(void)
{
	libc_owned = !(vcfg.absent & 7) && vcfg.libc_size != 0;
	want_size = !libc_owned ? kfeat() : vcfg.libc_size == 20 || vcfg.libc_size == 32 ? (kfeat() < 32 ? kfeat() : 32) : vcfg.libc_size;
	snprintf(cfgtxt, sizeof(cfgtxt), "libc size=%u absent=%d flags=%u, kernel feature size=%lu align=%lu%s failing=%d/%d, %d threads%s", vcfg.libc_size, vcfg.absent,
		 vcfg.libc_flags, vcfg.feat, vcfg.align, vcfg.enosys ? " no rseq" : "", vcfg.failk, vcfg.failerr, vcfg.threads, vcfg.early ? ", before the constructor" : "");
	snprintf(cfgtxt + strlen(cfgtxt), sizeof(cfgtxt) - strlen(cfgtxt), ", %d cpus", k_ncpu());
	stat_add(k_ncpu() > 8 ? "worlds_large_machine" : "worlds_small_machine", 1);
	hc_s = vcfg.seed;
}
static void *early_worker(void *a)
{
	int k = (int)(intptr_t)a;
	pthread_barrier_wait(&bar);
	k_migrate();
	do_register(k);
	/* whoever returned from registration must see the finished initialisation */
	if (*(volatile unsigned *)&rseq_size != want_size)
		V("C07,C08", "thread registering before the constructor sees size %u, expected %u", *(volatile unsigned *)&rseq_size, want_size);
	check_queries("early");
	do_unregister();
	return NULL;
}
/* outside the library's lifetime its size says "unknown": no feature may be announced */
static char *last_area;
static void check_unset(const char *when, int late)
{
	unsigned s = *(volatile unsigned *)&rseq_size;
	int known = s != 0 && s != -1U;
	/* an area that is not the thread's own offers nothing */
	if (known && !libc_owned && last_area && (char *)rseq_get_abi() != last_area)
		known = 0;
	if (late && libc_owned && ((char *)rseq_get_abi() != fake_area || s != want_size))
		V("C08,C07", "size %u and area %p published %s, the C library's are %u and %p", s, (void *)rseq_get_abi(), when, want_size, fake_area);
	if (rseq_node_id_available() != (known && s >= 24) || rseq_mm_cid_available() != (known && s >= 28))
		V("C08", "feature predicates are %d/%d %s (published size %#x)", rseq_node_id_available(), rseq_mm_cid_available(), when, s);
	if (rseq_available(RSEQ_AVAILABLE_QUERY_LIBC) != libc_owned)
		V("C08", "C library availability query returned %d %s", rseq_available(RSEQ_AVAILABLE_QUERY_LIBC), when);
	AA(sh->observed_sizes, 1);
}
static int inner_done;
static __attribute__((destructor(101))) void late(void)
{
	if (!vcfg_set() || !inner_done)
		return;
	check_unset("after the library's destructor", 1);
	fflush(stdout);
	_exit(hc_viols ? 1 : 0);
}
/* runs before the library's own constructor */
static __attribute__((constructor(101))) void early(void)
{
	pthread_t th[16];
	if (!vcfg_set() || !vcfg.early)
		return;
	sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, 9, 0);
	if (sh == MAP_FAILED)
		_exit(33);
	prep();
	if (rnd() & 1)
		check_unset("before the library's constructor", 0);
	pthread_barrier_init(&bar, NULL, (unsigned)vcfg.threads);
	for (int i = 0; i < vcfg.threads; i++)
		pthread_create(&th[i], NULL, early_worker, (void *)(intptr_t)i);
	for (int i = 0; i < vcfg.threads; i++)
		pthread_join(th[i], NULL);
	pthread_barrier_destroy(&bar);
}
static int inner(void)
{
	pthread_t th[16], po;
	struct rseq_abi *fa = (void *)fake_area;

	sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, 9, 0);
	if (sh == MAP_FAILED)
		return 33;
	setvbuf(stdout, NULL, _IOLBF, 0);
	prep();
	check_world("at start");
	if (libc_owned) {
		/* the accessors must read the C library's area */
		for (int i = 0; i < 12; i++) {
			int st = (int)(rnd() % 3);
			k_migrate();
			if ((char *)rseq_get_abi() != fake_area)
				V("C07,C08", "published area is not the C library's");
			*(volatile int32_t *)&fa->cpu_id = st == 0 ? kt.cpu : st == 1 ? -1 : -2;
			*(volatile uint32_t *)&fa->cpu_id_start = st ? 0 : (uint32_t)kt.cpu;
			*(volatile uint32_t *)&fa->node_id = (uint32_t)kt.node;
			*(volatile uint32_t *)&fa->mm_cid = (uint32_t)kt.cid;
			if (rseq_current_cpu_raw() != (st == 0 ? kt.cpu : st == 1 ? -1 : -2))
				V("C09", "raw query returned %d for state %d", rseq_current_cpu_raw(), st);
			if ((int)rseq_current_cpu() != kt.cpu)
				V("C09", "current cpu query returned %d, cpu is %d, state %d", (int)rseq_current_cpu(), kt.cpu, st);
			if (rseq_cpu_start() != (st ? 0u : (uint32_t)kt.cpu))
				V("C09", "cpu_start query returned %u", rseq_cpu_start());
			if (rseq_node_id_available() && (int)rseq_current_node_id() != kt.node)
				V("C09", "node query returned %u", rseq_current_node_id());
			if (rseq_mm_cid_available() && (int)rseq_current_mm_cid() != kt.cid)
				V("C09", "concurrency id query returned %u", rseq_current_mm_cid());
			AA(sh->queries, 5);
		}
	}
	/* refused attempts come first, from the main thread */
	for (int i = 0; i < vcfg.failk; i++) {
		if (libc_owned || vcfg.early)
			break;
		do_register(60);
		if (*(volatile unsigned *)&rseq_size != 0 && !vcfg.enosys)
			V("C07", "published size is %u after a refused registration", *(volatile unsigned *)&rseq_size);
		check_world("after a refused registration");
		check_queries("after a refused registration");
		do_unregister();
	}
	vcfg.failk = 0;
	pthread_create(&po, NULL, poller, NULL);
	pthread_barrier_init(&bar, NULL, (unsigned)vcfg.threads);
	for (int i = 0; i < vcfg.threads; i++)
		pthread_create(&th[i], NULL, worker, (void *)(intptr_t)i);
	for (int i = 0; i < vcfg.threads; i++)
		pthread_join(th[i], NULL);
	thread_script(61, 30);
	last_area = thread_areas[61];
	check_world("at the end");
	__atomic_store_n(&poll_stop, 1, __ATOMIC_RELEASE);
	pthread_join(po, NULL);
	fflush(stdout);
	inner_done = 1;
	exit(hc_viols ? 1 : 0);
}
int main(int argc, char **argv)
{
	uint64_t seed;
	double secs, t0 = now();
	long n = 0;
	int fd;

	if (vcfg_set())
		return inner();
	seed = strtoull(argv[1], NULL, 0);
	secs = atof(argv[2]);
	setvbuf(stdout, NULL, _IOLBF, 0);
	fd = memfd_create("sh", 0);
	if (fd < 0 || ftruncate(fd, 4096) || dup2(fd, 9) < 0)
		harness_error("memfd");
	sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, 9, 0);
	while (now() - t0 < secs && sh->viols < 10) {
		struct cfg c = { 0 };
		char env[200];
		pid_t pid;
		int st;
		hc_s = hmix2(seed, (uint64_t)n++);
		c.seed = rnd() >> 1;
		c.absent = rn(3) ? 0 : (int)rn(8);
		c.feat = PICK(0UL, 20UL, 24UL, 28UL, 28UL, 32UL, 33UL, 40UL, 48UL, 64UL, 100UL, 256UL);
		c.align = c.feat ? (c.feat > 128 ? 256 : c.feat > 64 ? 128 : c.feat > 32 ? 64 : 32) : 0;
		if (rn(20) == 0 && c.feat <= 32)
			c.align = 0;
		c.libc_size = rn(2) ? 0 : rn(3) ? PICK(20u, 32u) : PICK(20u, 24u, 28u, 32u, 33u, 40u, 48u, 64u);
		/* other sizes are what the C library negotiated with this kernel */
		if (c.libc_size != 20 && c.libc_size != 32 && c.libc_size > (c.feat ? c.feat : 20))
			c.libc_size = 32;
		c.libc_flags = c.libc_size ? PICK(0u, 0u, 1u, 4u) : 0;
		c.enosys = rn(8) == 0;
		c.failk = rn(4) ? 0 : 1 + (int)rn(4);
		c.failerr = PICK(EINVAL, EPERM, EBUSY, EFAULT, ENOMEM);
		c.threads = 1 + (int)rn(8);
		c.early = rn(4) == 0;
		if (c.early) { c.failk = 0; if (c.enosys) c.enosys = 0; }
		if (c.enosys) c.failk = 0;
		snprintf(env, sizeof(env), "%lu %d %u %u %lu %lu %d %d %d %d %d", c.seed, c.absent, c.libc_size, c.libc_flags, c.feat, c.align, c.enosys, c.failk, c.failerr, c.threads, c.early);
		fflush(stdout);
		pid = fork();
		if (!pid) {
			setenv("VCFG", env, 1);
			alarm(20);
			execl("/proc/self/exe", "reg", (char *)NULL);
			_exit(34);
		}
		waitpid(pid, &st, 0);
		stat_add("worlds", 1);
		distinct(hmix2(hmix2(c.feat * 8 + (uint64_t)c.absent, c.libc_size * 16 + c.libc_flags), hmix2((uint64_t)c.enosys * 64 + (uint64_t)c.failk * 8 + (uint64_t)c.early, (uint64_t)c.threads)));
		sample("world: libc size=%u absent=%d, kernel feature size=%lu, enosys=%d, refused attempts=%d, threads=%d early=%d", c.libc_size, c.absent, c.feat, c.enosys, c.failk, c.threads, c.early);
		if (WIFEXITED(st) && WEXITSTATUS(st) > 1)
			harness_error("inner process exited with %d", WEXITSTATUS(st));
		if (!WIFEXITED(st))
			viol("C07,C08,C09", "process stopped (status %#x) in world: %s", st, env);
	}
	hc_viols += (int)sh->viols;
	stat_add("registrations", sh->regs);
	stat_add("unregistrations", sh->unregs);
	stat_add("refused", sh->refused);
	stat_add("query_rounds", sh->queries);
	stat_add("world_checks", sh->observed_sizes);
	stat_add("migrations", sh->migrations);
	hc_report();
	return hc_viols ? 1 : 0;
}
