/* Possible-CPU discovery against generated sysfs trees, with split, interrupted
 * and failing system calls.  One fork per case because the answer is cached.
 * usage: smp SEED SECONDS */
#include <rseq/rseq.h>
#include <rseq/mempool.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include "hc.h"

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
#define SYSCPU "/sys/devices/system/cpu"
static char root[200];		/* scratch stand-in for SYSCPU */
static int active;
static struct { int split, eintr, eio_after, openerr, direrr; long conf; } in;
static struct { long opens, reads, eintrs, dirs, sysconfs; int open_fds; } seen;
static char ismask[1024];
static long mask_got[1024];
#define ISM(fd) (active && (fd) >= 0 && (fd) < 1024 && ismask[fd])

/* ---- interposed environment ---- */
static const char *redir(const char *p, char *b, size_t n)
{
	if (active && p && !strncmp(p, SYSCPU, sizeof(SYSCPU) - 1) && (p[sizeof(SYSCPU) - 1] == '/' || !p[sizeof(SYSCPU) - 1])) {
		snprintf(b, n, "%s%s", root, p + sizeof(SYSCPU) - 1);
		return b;
	}
	return p;
}
static int do_open(int dfd, const char *p, int fl, int mode)
{
	char b[600];
	const char *q = redir(p, b, sizeof(b));
	if (q != p && strstr(p, "possible")) {
		seen.opens++;
		if (in.openerr) { errno = in.openerr; return -1; }
		int fd = (int)syscall(SYS_openat, dfd, q, fl, mode);
		if (fd >= 0 && fd < 1024) {
			ismask[fd] = 1;
			mask_got[fd] = 0;
			__atomic_fetch_add(&seen.open_fds, 1, __ATOMIC_RELAXED);
		}
		return fd;
	}
	return (int)syscall(SYS_openat, dfd, q, fl, mode);
}
int open(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(d, p, fl, m); }
int __open_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
static ssize_t do_read(int fd, void *b, size_t n)
{
	if (ISM(fd)) {
		ssize_t r;
		seen.reads++;
		if (in.eintr && rn(100) < (unsigned)in.eintr) { seen.eintrs++; errno = EINTR; return -1; }
		if (in.eio_after >= 0 && mask_got[fd] >= in.eio_after) { errno = EIO; return -1; }
		if (in.split && n) {
			size_t k = 1 + rn((unsigned)in.split);
			if (k < n) n = k;
		}
		if (in.eio_after >= 0 && n > (size_t)(in.eio_after - mask_got[fd])) n = (size_t)(in.eio_after - mask_got[fd]);
		r = syscall(SYS_read, fd, b, n);
		if (r > 0) mask_got[fd] += r;
		return r;
	}
	return syscall(SYS_read, fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t l) { (void)l; return do_read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (ISM(fd)) { if (lseek(fd, o, SEEK_SET) < 0) return -1; return do_read(fd, b, n); } return syscall(SYS_pread64, fd, b, n, o); }
static int bad_close = -1;
int close(int fd) { if (active && fd >= 0 && syscall(SYS_fcntl, fd, F_GETFD, 0) < 0) bad_close = fd; if (ISM(fd)) { ismask[fd] = 0; __atomic_fetch_add(&seen.open_fds, -1, __ATOMIC_RELAXED); } return (int)syscall(SYS_close, fd); }
/* stdio readers go through the same descriptor rules */
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read((int)(intptr_t)c, b, n); }
static int ck_close(void *c) { return close((int)(intptr_t)c); }
FILE *fopen(const char *p, const char *m)
{
	static FILE *(*real)(const char *, const char *);
	char b[600];
	if (!real) real = (FILE *(*)(const char *, const char *))dlsym(RTLD_NEXT, "fopen");
	if (redir(p, b, sizeof(b)) != p && strstr(p, "possible")) {
		int fd = do_open(AT_FDCWD, p, O_RDONLY, 0);
		if (fd < 0) return NULL;
		return fopencookie((void *)(intptr_t)fd, "r", (cookie_io_functions_t){ ck_read, NULL, NULL, ck_close });
	}
	return real(redir(p, b, sizeof(b)), m);
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
DIR *opendir(const char *p)
{
	static DIR *(*real)(const char *);
	char b[600];
	if (!real) real = (DIR *(*)(const char *))dlsym(RTLD_NEXT, "opendir");
	if (redir(p, b, sizeof(b)) != p) {
		seen.dirs++;
		if (in.direrr) { errno = in.direrr; return NULL; }
		DIR *d = real(b);
		if (d) __atomic_fetch_add(&seen.open_fds, 1, __ATOMIC_RELAXED);
		return d;
	}
	return real(p);
}
int closedir(DIR *d)
{
	static int (*real)(DIR *);
	if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
	if (active) __atomic_fetch_add(&seen.open_fds, -1, __ATOMIC_RELAXED);
	return real(d);
}
long sysconf(int n)
{
	static long (*real)(int);
	if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
	if (active && n == _SC_NPROCESSORS_CONF) { seen.sysconfs++; if (in.conf < 0) errno = EINVAL; return in.conf; }
	if (active && n == _SC_NPROCESSORS_ONLN) return in.conf > 1 ? in.conf - 1 : in.conf;
	return real(n);
}

/* ---- generator ---- */
static char list[40000];
static size_t llen;
static int want_mask;		/* >0: count from list, 0: malformed/missing, -1: list too long, either answer */
static char what[300];
static int max_dir;		/* highest cpuN directory + 1 */

static void put_file(const char *name, const char *d, size_t n)
{
	char p[400];
	snprintf(p, sizeof(p), "%s/%s", root, name);
	int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, d, n) != (ssize_t)n) harness_error("scratch file");
	syscall(SYS_close, fd);
}
static void put_dir(const char *name)
{
	char p[400];
	snprintf(p, sizeof(p), "%s/%s", root, name);
	if (mkdir(p, 0700) && errno != EEXIST) harness_error("scratch dir");
}
static void clear_tree(void)
{
	char p[600];
	DIR *d;
	struct dirent *e;
	active = 0;
	d = opendir(root);
	while (d && (e = readdir(d))) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		snprintf(p, sizeof(p), "%s/%s", root, e->d_name);
		if (unlink(p)) rmdir(p);
	}
	if (d) closedir(d);
}
/* sorted list of ranges as the kernel prints it */
static unsigned gen_list(size_t target, int nl)
{
	unsigned long c = rn(3) ? 0 : rn(50), last = 0;
	llen = 0;
	do {
		unsigned long lo = c, hi = lo + (rn(2) ? 0 : rn(4) ? 1 + rn(9) : rn(400));
		int k = hi == lo ? sprintf(list + llen, "%s%lu", llen ? "," : "", lo) : sprintf(list + llen, "%s%lu-%lu", llen ? "," : "", lo, hi);
		if (target && llen && llen + (size_t)k + (size_t)nl > target) { list[llen] = 0; break; }
		llen += (size_t)k;
		last = hi;
		c = hi + 2 + (rn(3) ? 0 : rn(40));
	} while (target ? llen < target : rn(4) != 0);
	if (nl) list[llen++] = '\n';
	list[llen] = 0;
	return (unsigned)last;
}
static void gen(void)
{
	int kind = (int)rn(12);
	char nm[40];
	clear_tree();
	memset(&in, 0, sizeof(in));
	in.eio_after = -1;
	in.conf = (long)PICK(-1, 0, 1, 2, 4, 8, 64, 300, 4096);
	if (rn(3) == 0) in.split = (int)PICK(1, 2, 3, 7, 100, 1000);
	if (rn(3) == 0) in.eintr = (int)PICK(5, 30, 60, 90);
	want_mask = 0;
	llen = 0;
	switch (kind) {
	case 0: case 1: case 2:
		want_mask = (int)gen_list(0, (int)rn(2)) + 1;
		snprintf(what, sizeof(what), "list '%.120s'", list);
		break;
	case 3: {	/* long lists near what a page holds */
		int nl = (int)rn(2);
		want_mask = (int)gen_list(rn(3) ? 3900 + rn(195) : 200 + rn(3800), nl) + 1;
		if (llen > 4095) want_mask = -1 - want_mask;
		snprintf(what, sizeof(what), "list of %zu bytes", llen);
		break;
	}
	case 4: {	/* exactly as long as a page, or longer: the answer may come from list or fallback, never from a cut list */
		want_mask = (int)gen_list(PICK(4096u, 4097u, 4100u, 5000u, 8191u, 8192u, 12000u, 30000u), (int)rn(2)) + 1;
		if (llen >= 4096) want_mask = -1 - want_mask;
		snprintf(what, sizeof(what), "list of %zu bytes", llen);
		break;
	}
	case 5:	/* large ids */
		{
			unsigned long v = PICK(255ul, 1023ul, 4095ul, 8191ul, 65535ul, 1000000ul, 2147483645ul);
			llen = (size_t)(rn(2) ? sprintf(list, "0-%lu\n", v) : sprintf(list, "0-3,%lu\n", v));
			want_mask = (int)v + 1;
			snprintf(what, sizeof(what), "list '0-...%lu'", v);
		}
		break;
	case 6:	/* single cpu forms */
		llen = (size_t)sprintf(list, "%s", PICK((const char *)"0", "0\n", "7", "7\n", "12", "12\n", "0-0\n", "5-5"));
		want_mask = atoi(strchr(list, '-') ? strchr(list, '-') + 1 : list) + 1;
		snprintf(what, sizeof(what), "list '%s'", list);
		break;
	case 7:
		in.openerr = PICK(ENOENT, EACCES, EMFILE, ENOMEM);
		snprintf(what, sizeof(what), "no list (errno %d)", in.openerr);
		break;
	case 8:
		gen_list(rn(2) ? 0 : 300, 1);
		in.eio_after = (int)rn((unsigned)llen + 1);
		snprintf(what, sizeof(what), "read error after %d of %zu bytes", in.eio_after, llen);
		break;
	case 9:
		llen = 0;
		snprintf(what, sizeof(what), "empty list");
		break;
	case 10:	/* no number at the end */
		llen = (size_t)sprintf(list, "%s", PICK((const char *)"\n", "-", ",", "abc", "0-", "0,", "0-3,", "0-x\n", "none\n", "0-3,zz", " ", "x7y", "0-\n", "3,\n"));
		snprintf(what, sizeof(what), "malformed list '%s'", list);
		break;
	case 11:	/* numbers no CPU can have */
		llen = (size_t)sprintf(list, "0-%s\n", PICK((const char *)"2147483647", "2147483648", "4294967295", "4294967296", "4294967303", "99999999999", "9223372036854775807", "18446744073709551615", "99999999999999999999999"));
		snprintf(what, sizeof(what), "impossible list '%s'", list);
		break;
	}
	if (!in.openerr && !(kind == 9 && rn(2)))
		put_file("possible", list, llen);
	else if (kind == 9)
		in.openerr = 0;		/* really absent */
	/* directories */
	max_dir = 0;
	if (rn(5)) {
		int n = (int)rn(12);
		for (int i = 0; i < n; i++) {
			int id = rn(3) ? i : (int)PICK(9, 10, 99, 100, 255, 1000, 4095, 8192, 33000, 40000, 70000);
			snprintf(nm, sizeof(nm), "cpu%d", id);
			put_dir(nm);
			if (id + 1 > max_dir) max_dir = id + 1;
		}
	}
	/* things that are not CPUs */
	if (rn(2)) put_dir("cpufreq");
	if (rn(2)) put_dir("cpuidle");
	if (rn(2)) put_dir("cpu5000x");
	if (rn(2)) put_dir("cpu");
	if (rn(2)) put_dir("microcode");
	if (rn(2)) put_dir("xcpu6000");
	if (rn(2)) put_dir(PICK((const char *)"cpx6001", "cxu6002", "CPU6003", "node6004", "pu6005"));
	if (rn(2)) put_file("cpu7000", "", 0);
	if (rn(2)) put_file("online", "0-9999\n", 7);
	if (rn(2)) put_file("present", "0-9998\n", 7);
	if (rn(2)) put_file("kernel_max", "8191\n", 5);
	if (rn(6) == 0) in.direrr = PICK(ENOENT, EMFILE, ENOMEM);
}
static int fallback(void)
{
	long m = in.direrr ? 0 : max_dir;
	return (int)(in.conf > m ? in.conf : m);
}
static void check(const char *when, int r)
{
	int fb = fallback() < 1 ? 0 : fallback();
	if (want_mask > 0 ? r != want_mask : want_mask == 0 ? r != fb : (r != -1 - want_mask && r != fb))
		viol("C10", "%s: count is %d, expected %d [%s; configured %ld, highest cpu directory %d%s; reads split %d, interrupted %d%%]", when, r,
		     want_mask > 0 ? want_mask : want_mask == 0 ? fb : -1 - want_mask, what, in.conf, max_dir - 1, in.direrr ? " unreadable" : "", in.split, in.eintr);
}
static pthread_barrier_t bar;
static int qres[6];
static void *qthread(void *a)
{
	pthread_barrier_wait(&bar);
	qres[(intptr_t)a] = rseq_get_max_nr_cpus();
	return NULL;
}
static void one(void)
{
	int r, r2;
	active = 1;
	if (rn(4) == 0) {
		/* the first queries of several threads at once */
		pthread_t th[6];
		pthread_barrier_init(&bar, NULL, 6);
		for (int i = 0; i < 6; i++) pthread_create(&th[i], NULL, qthread, (void *)(intptr_t)i);
		for (int i = 0; i < 6; i++) pthread_join(th[i], NULL);
		for (int i = 0; i < 6; i++) check("query by one of several threads", qres[i]);
	}
	r = rseq_get_max_nr_cpus();
	check("first query", r);
	if (seen.open_fds)
		viol("C10,C17", "%d descriptors left open [%s]", seen.open_fds, what);
	if (r > 0) {
		/* the answer is for the lifetime of the process: the sources may be out of reach later on */
		if (rn(2)) { in.openerr = PICK(EMFILE, EACCES, ENOMEM); in.direrr = EMFILE; }
		r2 = rseq_get_max_nr_cpus();
		if (r2 != r)
			viol("C10", "second query returned %d after %d%s [%s]", r2, r, in.openerr ? ", with no descriptor to read the list" : "", what);
	} else {
		struct rseq_mempool_attr *at;
		/* nothing known: a pool sized by default cannot be made */
		if (rn(2)) {
			at = rseq_mempool_attr_create();
			rseq_mempool_attr_set_percpu(at, 0, 0);
			errno = 0;
			struct rseq_mempool *p = rseq_mempool_create("x", 8, at);
			if (p)
				viol("C10,C20", "pool for an unknown number of CPUs was created [%s]", what);
			rseq_mempool_attr_destroy(at);
		}
		/* the failure is not remembered */
		in.openerr = 0;
		in.eio_after = -1;
		want_mask = (int)gen_list(0, 1) + 1;
		snprintf(what, sizeof(what), "list '%.120s' after a failure", list);
		put_file("possible", list, llen);
		check("query after a failure", rseq_get_max_nr_cpus());
		stat_add("recovered_after_failure", 1);
	}
}
int main(int argc, char **argv)
{
	double t0 = now(), secs = atof(argv[2]);
	uint64_t seed = strtoull(argv[1], NULL, 0), n = 0;
	(void)argc;
	setvbuf(stdout, NULL, _IOLBF, 0);
	snprintf(root, sizeof(root), "%s/smpXXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp");
	if (!mkdtemp(root)) harness_error("mkdtemp");
	/* real machine first: the count covers the CPUs in use */
	{
		pid_t p = fork();
		int st;
		if (!p) {
			cpu_set_t *s = CPU_ALLOC(65536);
			int r = rseq_get_max_nr_cpus(), hi = -1;
			if (sched_getaffinity(0, CPU_ALLOC_SIZE(65536), s) >= 0)
				for (int i = 0; i < 65536; i++) if (CPU_ISSET_S(i, CPU_ALLOC_SIZE(65536), s)) hi = i;
			if (r <= hi) viol("C10", "this machine: count %d, CPU %d is usable", r, hi);
			_exit(hc_viols ? 1 : 0);
		}
		waitpid(p, &st, 0);
		if (st) hc_viols++;
	}
	while (now() - t0 < secs && hc_viols < 10) {
		pid_t p;
		int st;
		hc_s = hmix2(seed, n++);
		gen();
		fflush(stdout);
		p = fork();
		if (!p) {
			if (rn(4) == 0) close(0);	/* the library's descriptor may then be number 0 */
			alarm(20);
			one();
			if (bad_close >= 0) viol("C10,C17", "descriptor %d closed twice [%s]", bad_close, what);
			fflush(stdout);
			_exit(hc_viols ? 1 : seen.eintrs ? 2 : 0);
		}
		waitpid(p, &st, 0);
		stat_add("lists", 1);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 2) stat_add("lists_with_interrupted_reads", 1);
		if (want_mask > 0) stat_add("lists_parsed", 1); else if (!want_mask) stat_add("lists_unusable", 1); else stat_add("lists_too_long", 1);
		if (!want_mask && fallback() < 1) stat_add("everything_failed", 1);
		if (!want_mask && !in.direrr && max_dir > in.conf) stat_add("fallback_directory_decides", 1);
		uint64_t h = hmix2((uint64_t)in.openerr, (uint64_t)want_mask);
		for (size_t i = 0; i < llen; i++) h = hmix2(h, (uint64_t)(unsigned char)list[i]);
		distinct(hmix2(h, hmix2((uint64_t)in.conf, (uint64_t)max_dir * 64 + (uint64_t)in.direrr)));
		sample("%s; configured %ld, highest cpu directory %d, split %d, interrupted %d%%", what, in.conf, max_dir - 1, in.split, in.eintr);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 1) hc_viols++;
		else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) exit(3);
		else if (!WIFEXITED(st)) viol("C10", "process stopped (status %#x) [%s]", st, what);
	}
	clear_tree();
	rmdir(root);
	hc_report();
	return hc_viols ? 1 : 0;
}
