/* Tiny system layer so that the monitor also runs without a C library. */
#ifndef SYS_H
#define SYS_H
#ifndef FREESTANDING
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void o_str(const char *s) { fputs(s, stdout); }
static void o_flush(void) { fflush(stdout); }
static void sys_exit(int c) { fflush(stdout); _exit(c); }
static void sys_altstack(void *p, size_t n) { stack_t s; memset(&s, 0, sizeof(s)); s.ss_sp = p; s.ss_size = n; sigaltstack(&s, NULL); }
static void sys_sigaction(int sig, void (*h)(int, siginfo_t *, void *))
{
	struct sigaction sa;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = h; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(sig, &sa, NULL);
}
#else
#include "free.h"
#endif
static void o_hex(uint64_t x)
{
	char b[19]; int i = 18;
	b[i] = 0;
	do { b[--i] = "0123456789abcdef"[x & 15]; x >>= 4; } while (x);
	b[--i] = 'x'; b[--i] = '0';
	o_str(b + i);
}
static void o_dec(char *b, long x)
{
	char t[24]; int i = 23, neg = x < 0; unsigned long u = neg ? 0ul - (unsigned long) x : (unsigned long) x;
	t[i] = 0;
	do { t[--i] = (char) ('0' + u % 10); u /= 10; } while (u);
	if (neg) t[--i] = '-';
	strcpy(b, t + i);
}
static uint64_t o_atou(const char *s)
{
	uint64_t x = 0;
	if (s[0] == '0' && s[1] == 'x') { for (s += 2; *s; s++) x = x * 16 + (uint64_t) (*s <= '9' ? *s - '0' : (*s | 32) - 'a' + 10); return x; }
	for (; *s >= '0' && *s <= '9'; s++) x = x * 10 + (uint64_t) (*s - '0');
	return x;
}
static void o_stat(const char *k, unsigned long v)
{
	char b[24]; o_dec(b, (long) v);
	o_str("STAT "); o_str(k); o_str(" "); o_str(b); o_str("\n");
}
static void o_plan(char *out, const char *m1, int k1, const char *m2, int k2)
{
	char *p = out;
	strcpy(p, "plan="); p += 5; strcpy(p, m1); p += strlen(m1); *p++ = '@'; o_dec(p, k1); p += strlen(p);
	if (m2) { *p++ = ','; strcpy(p, m2); p += strlen(m2); *p++ = '@'; o_dec(p, k2); }
}
static int o_nsample;
static void o_sample(const char *w, int steps, int arm, int last)
{
	char b[24];
	if (o_nsample >= 6) return;
	o_nsample++;
	o_str("SAMPLE wrapper "); o_str(w); o_str(": "); o_dec(b, steps); o_str(b); o_str(" instructions, section armed at step ");
	o_dec(b, arm); o_str(b); o_str(", last inside at step "); o_dec(b, last); o_str(b); o_str("\n");
}
#endif
