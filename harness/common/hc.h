/* Shared by the hosted harnesses: random numbers, counters, verdict lines. */
#ifndef HC_H
#define HC_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>

static uint64_t hc_s;
static inline uint64_t hc_mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static inline uint64_t rnd(void) { hc_s += 0x9e3779b97f4a7c15ULL; return hc_mix(hc_s); }
static inline unsigned rn(unsigned n) { return n ? (unsigned)(rnd() % n) : 0; }
#define PICK(...) ({ __typeof__(PICK0(__VA_ARGS__)) _a[] = { __VA_ARGS__ }; _a[rn(sizeof(_a) / sizeof(_a[0]))]; })
#define PICK0(a, ...) a

/* counters */
#define HC_NST 256
static struct { const char *k; long n; } hc_st[HC_NST];
static int hc_nst;
static inline void stat_add(const char *k, long n)
{
	for (int i = 0; i < hc_nst; i++)
		if (hc_st[i].k == k || !strcmp(hc_st[i].k, k)) { hc_st[i].n += n; return; }
	if (hc_nst < HC_NST) { hc_st[hc_nst].k = k; hc_st[hc_nst++].n = n; }
}
/* distinct cases: open addressing set of hashes, printed so the driver can merge processes */
#define HC_DS (1 << 16)
static uint64_t hc_ds[HC_DS];
static int hc_nds;
static inline void distinct(uint64_t h)
{
	h = hc_mix(h) | 1;
	unsigned i = (unsigned)(h >> 20) & (HC_DS - 1);
	if (hc_nds >= HC_DS / 2)
		return;
	while (hc_ds[i]) {
		if (hc_ds[i] == h)
			return;
		i = (i + 1) & (HC_DS - 1);
	}
	hc_ds[i] = h;
	hc_nds++;
}
static inline uint64_t hmix2(uint64_t a, uint64_t b) { return hc_mix(a ^ (b * 0xff51afd7ed558ccdULL)); }
static int hc_viols;
static inline void viol(const char *props, const char *fmt, ...)
{
	char b[600];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	if (hc_viols++ < 30) {
		printf("VIOL %s %s\n", props, b);
		fflush(stdout);
	}
}
static int hc_nsmp;
static inline void sample(const char *fmt, ...)
{
	char b[600];
	va_list ap;
	if (hc_nsmp++ >= 3)
		return;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	printf("SAMPLE %s\n", b);
}
static inline void hc_report(void)
{
	for (int i = 0; i < hc_nst; i++)
		printf("STAT %s %ld\n", hc_st[i].k, hc_st[i].n);
	int n = 0;
	for (int i = 0; i < HC_DS; i++)
		if (hc_ds[i])
			printf(n++ % 16 ? " %llx" : "\nD %llx", (unsigned long long)hc_ds[i] >> 8);
	printf("\n");
	fflush(stdout);
}
static inline void harness_error(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	printf("HARNESS-ERROR ");
	vprintf(fmt, ap);
	printf("\n");
	va_end(ap);
	fflush(stdout);
	_exit(3);
}
#endif
