/* The page length the library sees. HPAGE=n in the environment presents a machine with
 * larger pages: sysconf/getpagesize answer n and new mappings start at multiples of n. */
#ifndef PAGELEN_H
#define PAGELEN_H
#include <dlfcn.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
static unsigned long hpage(void)
{
	static unsigned long v;
	const char *e;
	if (!v) {
		e = getenv("HPAGE");
		v = e ? strtoul(e, NULL, 0) : 4096;
	}
	return v;
}
#define PAGE hpage()
long sysconf(int name)
{
	static long (*real)(int);
	if (name == _SC_PAGESIZE)
		return (long)hpage();
	if (!real)
		*(void **)&real = dlsym(RTLD_NEXT, "sysconf");
	return real(name);
}
int getpagesize(void) { return (int)hpage(); }
#ifdef PAGELEN_MMAP
static void *pl_mmap(void *a, size_t l, int prot, int fl, int fd, off_t o)
{
	unsigned long pg = hpage();
	if (pg > 4096 && !a && !(fl & MAP_FIXED) && l >= pg && l < ~0UL - 2 * pg) {
		uintptr_t r = (uintptr_t)syscall(SYS_mmap, NULL, l + pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0L), b = (r + pg - 1) & ~(pg - 1), e = (b + l + 4095) & ~4095UL;
		if ((void *)r == MAP_FAILED)
			return MAP_FAILED;
		if (b > r)
			munmap((void *)r, b - r);
		if (r + l + pg > e)
			munmap((void *)e, r + ((l + pg + 4095) & ~4095UL) - e);
		a = (void *)b;
		fl |= MAP_FIXED;
	}
	return (void *)syscall(SYS_mmap, a, l, prot, fl, fd, (long)o);
}
void *mmap(void *a, size_t l, int prot, int fl, int fd, off_t o) { return pl_mmap(a, l, prot, fl, fd, o); }
void *mmap64(void *a, size_t l, int prot, int fl, int fd, off_t o) { return pl_mmap(a, l, prot, fl, fd, o); }
#endif
#endif
