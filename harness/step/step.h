/* Shared between generated wrapper units and the stepping monitor. */
#ifndef STEP_H
#define STEP_H
#include <stdint.h>
#include <stddef.h>

#define NLIVE 8
enum { OP_CBNE_STORE, OP_POP, OP_ADD, OP_DEREF_ADD, OP_STORE_STORE, OP_CBNE2, OP_MEMCPY, OP_NR };

#define SF_NOSTEP	1u	/* wrapper itself writes to the world: plain runs only */
#define SF_RUNTIME	2u	/* memory order and mode taken from the arguments */
#define SF_PRE		4u	/* plain store to an input right before the operation */
#define SF_RETRY	8u	/* retries up to 3 times on abort */
#define SF_TWICE	16u	/* built with RSEQ_COMPARE_TWICE */

/* block used by wrappers which derive several operands from one base */
struct blk {
	unsigned char data[64];
	intptr_t v;
	intptr_t v2;
	intptr_t next[6];
};

struct sargs {
	intptr_t *v;
	intptr_t expect;
	intptr_t *v2;
	intptr_t expect2;
	intptr_t newv2;
	intptr_t newv;
	void *dst;
	void *src;
	size_t len;
	long off;
	intptr_t *load;
	intptr_t count;
	int cpu;
	int mo, mode;
	struct blk *blk;
	unsigned char pre, post;
	intptr_t prew, postw;
	unsigned long live[NLIVE];

	/* results */
	intptr_t *e_v;
	intptr_t e_expect;
	intptr_t *e_v2;
	intptr_t e_expect2;
	intptr_t e_newv2;
	intptr_t e_newv;
	void *e_dst;
	void *e_src;
	size_t e_len;
	long e_off;
	intptr_t *e_load;
	intptr_t e_count;
	int e_cpu;
	unsigned long e_live[NLIVE];
	intptr_t after;
	int tries, maxtries;
};

struct wdesc {
	const char *name;
	int (*fn)(struct sargs *);
	void (*preset)(struct sargs *);
	int op, mo, mode;
	unsigned flags;
	unsigned echo;		/* bit per argument echoed */
	int nlive;
	int has_after;
};

enum { E_V = 1, E_EXPECT = 2, E_V2 = 4, E_EXPECT2 = 8, E_NEWV2 = 16, E_NEWV = 32,
	E_DST = 64, E_SRC = 128, E_LEN = 256, E_OFF = 512, E_LOAD = 1024, E_COUNT = 2048, E_CPU = 4096 };
#endif
