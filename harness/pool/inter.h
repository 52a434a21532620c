/* Interposed resource calls: ledger plus failure of the k-th acquiring call made inside a monitored window. */
#ifndef INTER_H
#define INTER_H
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <errno.h>
#include <malloc.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

enum { K_HEAP = 1, K_MMAP = 2, K_FD = 4, K_TRUNC = 8, K_ADVISE = 16, K_MUNMAP = 32 };
static __thread int win;		/* inside a monitored API call */
static int win_calls, win_fail, win_hit, win_kinds, win_errno, win_err;
static const char *win_hit_name;
static char win_log[64][16];
static long heap_live;		/* blocks allocated in windows and not freed */
#define NBLK 4096
static void *blk[NBLK];

static int should_fail(int kind, const char *name)
{
	if (!win || !(kind & win_kinds))
		return 0;
	win_calls++;
	if (win_calls <= 64)
		__builtin_strncpy(win_log[win_calls - 1], name, 15);
	if (win_fail && win_calls == win_fail) {
		win_hit++;
		win_hit_name = name;
		errno = win_errno ? win_errno : ENOMEM;
		return 1;
	}
	return 0;
}
static void blk_add(void *p)
{
	if (!win || !p)
		return;
	for (int i = 0; i < NBLK; i++)
		if (!blk[i]) { blk[i] = p; heap_live++; return; }
}
static void blk_del(void *p)
{
	if (!p || !heap_live)
		return;
	for (int i = 0; i < NBLK; i++)
		if (blk[i] == p) { blk[i] = NULL; heap_live--; return; }
}
void *malloc(size_t n) { void *p; if (should_fail(K_HEAP, "malloc")) return NULL; p = __libc_malloc(n); blk_add(p); return p; }
void *calloc(size_t a, size_t b) { void *p; if (should_fail(K_HEAP, "calloc")) return NULL; p = __libc_calloc(a, b); blk_add(p); return p; }
void *realloc(void *o, size_t n) { void *p; if (should_fail(K_HEAP, "realloc")) return NULL; p = __libc_realloc(o, n); if (p) { blk_del(o); blk_add(p); } return p; }
void *memalign(size_t a, size_t n) { void *p; if (should_fail(K_HEAP, "memalign")) return NULL; p = __libc_memalign(a, n); blk_add(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
void free(void *p) { blk_del(p); __libc_free(p); }

static void *inter_mmap(void *a, size_t l, int p, int f, int fd, off_t o)
{
	if (should_fail(K_MMAP, "mmap"))
		return MAP_FAILED;
	return (void *)syscall(SYS_mmap, a, l, p, f, fd, o);
}
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) { return inter_mmap(a, l, p, f, fd, o); }
void *mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return inter_mmap(a, l, p, f, fd, o); }
void *mremap(void *a, size_t o, size_t n, int f, ...) { if (should_fail(K_MMAP, "mremap")) return MAP_FAILED; return (void *)syscall(SYS_mremap, a, o, n, f); }
static int bad_unmap;		/* a range unmapped in a window although nothing is mapped there */
static int nothing_mapped(char *a, size_t l)
{
	unsigned char v;
	int e = errno, r = 1;
	for (size_t o = 0; o < l && r; o += 4096)
		if (!syscall(SYS_mincore, a + o, 4096L, &v) || errno != ENOMEM)
			r = 0;
	errno = e;
	return r;
}
int munmap(void *a, size_t l) { if (win && l < 1UL << 32 && nothing_mapped(a, l)) bad_unmap++; if (should_fail(K_MUNMAP, "munmap")) return -1; return (int)syscall(SYS_munmap, a, l); }
int madvise(void *a, size_t l, int ad) { if (should_fail(K_ADVISE, "madvise")) return -1; return (int)syscall(SYS_madvise, a, l, ad); }
int memfd_create(const char *n, unsigned f) { if (should_fail(K_FD, "memfd_create")) return -1; return (int)syscall(SYS_memfd_create, n, f); }
int ftruncate(int fd, off_t l) { if (should_fail(K_TRUNC, "ftruncate")) return -1; return (int)syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off_t l) { return ftruncate(fd, l); }

static int bad_close = -1;	/* a descriptor closed in a window without being open */
int close(int fd)
{
	int e = errno;
	if (win && fd >= 0 && fcntl(fd, F_GETFD) < 0)
		bad_close = fd;
	errno = e;
	return (int)syscall(SYS_close, fd);
}

/* Ground truth: the kernel's list of mappings (without heap and stacks) and the open descriptors. */
struct snap { char m[1 << 18]; int mlen; unsigned char fds[256]; long heap; };
static void snap_take(struct snap *s)
{
	static char raw[1 << 18];
	int w = win, fd, n, len = 0;
	char *l, *e;

	win = 0;
	fd = open("/proc/self/maps", O_RDONLY | O_CLOEXEC);
	while ((n = (int)read(fd, raw + len, sizeof(raw) - 1 - (size_t)len)) > 0)
		len += n;
	close(fd);
	raw[len] = 0;
	s->mlen = 0;
	/* address range, permissions and inode only; adjacent identical lines are merged by the kernel in either order, so normalise */
	unsigned long pa = 0, pb = 0;
	char pp[8] = "", pi[64] = "";
	for (l = raw; *l; l = e + 1) {
		unsigned long a, b, off;
		char pr[8], dev[32], ino[32], nm[256] = "", id[64];
		e = __builtin_strchr(l, '\n');
		*e = 0;
		sscanf(l, "%lx-%lx %7s %lx %31s %31s %255s", &a, &b, pr, &off, dev, ino, nm);
		if (!__builtin_strcmp(nm, "[heap]") || !__builtin_strncmp(nm, "[stack", 6) || !__builtin_strncmp(nm, "[anon: glibc", 12))
			continue;
		snprintf(id, sizeof(id), "%s:%s", dev, ino);
		if (pb == a && !__builtin_strcmp(pp, pr) && !__builtin_strcmp(pi, id)) {
			pb = b;
			continue;
		}
		if (pb)
			s->mlen += snprintf(s->m + s->mlen, sizeof(s->m) - (size_t)s->mlen, "%lx-%lx %s %s\n", pa, pb, pp, pi);
		pa = a; pb = b;
		__builtin_strcpy(pp, pr);
		__builtin_strcpy(pi, id);
	}
	if (pb)
		s->mlen += snprintf(s->m + s->mlen, sizeof(s->m) - (size_t)s->mlen, "%lx-%lx %s %s\n", pa, pb, pp, pi);
	for (int i = 0; i < 256; i++)
		s->fds[i] = fcntl(i, F_GETFD) >= 0;
	s->heap = heap_live;
	win = w;
}
static const char *snap_diff(const struct snap *a, const struct snap *b)
{
	static char r[400];
	if (a->mlen != b->mlen || memcmp(a->m, b->m, (size_t)a->mlen)) {
		/* first differing line of each */
		const char *x = a->m, *y = b->m;
		while (*x && *y) {
			const char *ex = __builtin_strchr(x, '\n'), *ey = __builtin_strchr(y, '\n');
			if (ex - x != ey - y || memcmp(x, y, (size_t)(ex - x)))
				break;
			x = ex + 1;
			y = ey + 1;
		}
		snprintf(r, sizeof(r), "mappings differ: before '%.60s' after '%.60s'", x, y);
		for (char *c = r; *c; c++)
			if (*c == '\n') *c = ' ';
		return r;
	}
	for (int i = 0; i < 256; i++)
		if (a->fds[i] != b->fds[i]) {
			snprintf(r, sizeof(r), "file descriptor %d is %s", i, b->fds[i] ? "left open" : "closed");
			return r;
		}
	if (a->heap != b->heap) {
		snprintf(r, sizeof(r), "%ld heap blocks %s", labs(b->heap - a->heap), b->heap > a->heap ? "left allocated" : "too many freed");
		return r;
	}
	return NULL;
}
#endif
