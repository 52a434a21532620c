/* System layer for the monitor where no C library exists (x86-32 under a 64-bit kernel). */
#ifndef FREE_H
#define FREE_H
#include <string.h>
#include <signal.h>
#include <stdio.h>
static long sc(long n, long a, long b, long c, long d)
{
	long r;
	__asm__ volatile ("int $0x80" : "=a" (r) : "a" (n), "b" (a), "c" (b), "d" (c), "S" (d) : "memory");
	return r;
}
void *memcpy(void *d, const void *s, size_t n) { void *r = d; __asm__ volatile ("rep movsb" : "+D" (d), "+S" (s), "+c" (n) : : "memory"); return r; }
void *memset(void *d, int c, size_t n) { void *r = d; __asm__ volatile ("rep stosb" : "+D" (d), "+c" (n) : "a" (c) : "memory"); return r; }
int memcmp(const void *a, const void *b, size_t n)
{
	const unsigned *x = (const unsigned *) a, *y = (const unsigned *) b;
	while (n >= 4 && *x == *y) { x++; y++; n -= 4; }
	const unsigned char *p = (const unsigned char *) x, *q = (const unsigned char *) y;
	for (; n; n--, p++, q++) if (*p != *q) return *p - *q;
	return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (((const volatile char *) s)[n]) n++; return n; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*(volatile char *) d = *s)) { d++; s++; } return r; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char) *a - (unsigned char) *b; }

static char obuf[4096]; static size_t on;
static void o_flush(void) { size_t i = 0; while (i < on) { long r = sc(4, 1, (long) (obuf + i), (long) (on - i), 0); if (r <= 0) break; i += (size_t) r; } on = 0; }
static void o_str(const char *s) { for (; *s; s++) { if (on == sizeof(obuf)) o_flush(); obuf[on++] = *s; } }
static void sys_exit(int c) { o_flush(); for (;;) sc(252, c, 0, 0, 0); }
static void sys_altstack(void *p, size_t n) { stack_t s; memset(&s, 0, sizeof(s)); s.ss_sp = p; s.ss_size = n; sc(186, (long) &s, 0, 0, 0); }
static void sys_sigaction(int sig, void (*h)(int, siginfo_t *, void *))
{
	struct { void *h; unsigned long flags; void *restorer; unsigned long mask[2]; } sa;
	memset(&sa, 0, sizeof(sa));
	sa.h = (void *) h; sa.flags = SA_SIGINFO | SA_ONSTACK;
	if (sc(174, sig, (long) &sa, 0, 8)) sys_exit(97);
}
/* what the headers refer to */
FILE *stderr;
int fprintf(FILE *f, const char *fmt, ...) { (void) f; (void) fmt; return 0; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { (void) p; (void) s; (void) f; return n; }
void abort(void) { o_str("CRASH abort() called\n"); sys_exit(3); __builtin_unreachable(); }
static char tls[512] __attribute__((aligned(64)));
ptrdiff_t rseq_offset;
unsigned int rseq_size, rseq_flags;
static void free_init(void)
{
	struct { unsigned entry, base, limit, flags; } ud = { (unsigned) -1, (unsigned) tls, 0xfffff, 0x51 };
	*(void **) tls = tls;
	rseq_offset = 128; rseq_size = 28;
	if (sc(243, (long) &ud, 0, 0, 0)) sys_exit(96);
	__asm__ volatile ("movw %w0, %%gs" : : "r" (ud.entry * 8 + 3));
	memset(tls + 128, 0, 64);
	((unsigned *) (tls + 128))[1] = (unsigned) -1;
}
int step_main(int argc, char **argv);
void free_main(long *sp);
void free_main(long *sp)
{
	free_init();
	sys_exit(step_main((int) sp[0], (char **) (sp + 1)));
}
__asm__ (".globl _start\n_start:\n mov %esp, %eax\n and $-16, %esp\n sub $12, %esp\n push %eax\n call free_main\n");
#endif
