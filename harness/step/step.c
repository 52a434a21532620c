/*
 * rseqstep: virtual-kernel monitor for rseq critical sections.
 *
 * The thread is not registered with the real kernel.  The harness owns the
 * published rseq area, executes every wrapper one instruction at a time
 * (trap flag), and plays the kernel: at chosen instruction boundaries it
 * lets "other threads" change memory, migrates the thread by rewriting the
 * index fields, and performs the ABI's abort fixup.  An online monitor
 * follows every store the operation makes.
 *
 * usage: step MODE SEED SCALE [FILTER] [SHARD NSHARD]
 *   MODE: plain | step | index | dispatch | tables | all
 */
#include <rseq/rseq.h>
#include <signal.h>
#include <ucontext.h>
#include "step.h"
#include "sys.h"

extern const struct wdesc *const all_tabs[];
extern const unsigned *const all_ntabs[];
extern void (*const all_unload[])(void);
extern void (*const all_clearcs[])(void);
extern const unsigned n_tabs;

typedef uintptr_t word;
#define WB ((int) sizeof(intptr_t))

#if defined(__x86_64__)
# define IP(uc)  (*(word *) &(uc)->uc_mcontext.gregs[REG_RIP])
#else
# define IP(uc)  (*(word *) &(uc)->uc_mcontext.gregs[REG_EIP])
#endif

#define NCELL 24
static struct world {
	unsigned char g0[64];
	intptr_t cells[NCELL];
	struct blk blk;
	unsigned char g1[32];
	unsigned char sbuf[160];
	unsigned char g2[32];
	unsigned char dbuf[160];
	unsigned char g3[64];
} world __attribute__((aligned(64)));
#define WS sizeof(struct world)

extern uint64_t __start___rseq_cs_ptr_array[] __attribute__((weak)), __stop___rseq_cs_ptr_array[] __attribute__((weak));
extern uint64_t __start___rseq_exit_point_array[] __attribute__((weak)), __stop___rseq_exit_point_array[] __attribute__((weak));
extern char __start___rseq_cs[] __attribute__((weak)), __stop___rseq_cs[] __attribute__((weak));

/* ---------------------------------------------------------------- rng */
static uint64_t rng_s;
static uint64_t rnd(void)
{
	rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17;
	return rng_s * 0x2545F4914F6CDD1DULL;
}
static unsigned rn(unsigned n) { return (unsigned) (((rnd() >> 32) * n) >> 32); }
static intptr_t rval(void)
{
	static const long long sp[] = { 0, 1, -1, 2, 0x7fffffffLL, 0x80000000LL, 0xffffffffLL, 0x100000000LL,
		-0x80000000LL, 0x7fffffffffffffffLL, (long long) 0x8000000000000000ULL, 0x5555555555555555LL, 255, 256, 0xffff };
	if (rn(3) == 0)
		return (intptr_t) sp[rn(sizeof(sp) / sizeof(sp[0]))];
	if (rn(4) == 0)
		return (intptr_t) (rnd() & 0xff);
	return (intptr_t) rnd();
}

/* ---------------------------------------------------------------- reporting */
static unsigned n_viol;
static const struct wdesc *cur_w;
static uint64_t cur_seed;
static char plan_desc[160];
static unsigned long st_plain, st_steprun, st_steps, st_interf, st_abort, st_commit, st_ne, st_mism, st_refused,
	st_exit_post, st_exit_abort, st_exit_listed, st_targets, st_precs, st_incs, st_index, st_descs, st_unload, st_live, st_retry,
	st_postcommit;
static int hash_n;
static uint32_t hset[1 << 20];
static unsigned long st_distinct;
static void distinct(uint64_t h)
{
	uint32_t k = (uint32_t) (h ^ (h >> 32)) | 1;
	uint32_t i = (k * 2654435761u) >> 12;
	int n = 0;
	if (hash_n > (1 << 20) * 3 / 4) return;
	while (hset[i] && hset[i] != k && n++ < 64) i = (i + 1) & ((1 << 20) - 1);
	if (hset[i] == k) return;
	hset[i] = k; hash_n++; st_distinct++;
}

static void viol(const char *props, const char *msg, long long x, long long y)
{
	o_str("VIOL "); o_str(props); o_str(" ");
	o_str(msg); o_str(" ["); o_hex((uint64_t) x); o_str(","); o_hex((uint64_t) y); o_str("] wrapper=");
	o_str(cur_w ? cur_w->name : "-"); o_str(" "); o_str(plan_desc);
	o_str(" seed="); o_hex(cur_seed); o_str("\n");
	if (++n_viol >= 12) { o_flush(); sys_exit(1); }
}

static int has(const char *hay, const char *needle)
{
	size_t n = strlen(needle), h = strlen(hay);
	for (size_t i = 0; i + n <= h; i++) if (!memcmp(hay + i, needle, n)) return 1;
	return 0;
}

/* ---------------------------------------------------------------- model */
struct eff { int ret; intptr_t *tgt; intptr_t newv; int commit; };

static intptr_t *mp(unsigned char *m, const void *p)
{
	word o = (word) p - (word) &world;
	if (o + sizeof(intptr_t) > WS) return NULL;
	return (intptr_t *) (m + o);
}
static intptr_t m_rd(unsigned char *m, const void *p, int *fault)
{
	intptr_t *q = mp(m, p), v;
	if (!q) { *fault = 1; return 0; }
	memcpy(&v, q, sizeof(v));
	return v;
}
static void m_wr(unsigned char *m, const void *p, intptr_t v)
{
	intptr_t *q = mp(m, p);
	if (q) memcpy(q, &v, sizeof(v));
}

/* Effect of the operation on memory image m with the index field equal to idx. */
static int model(unsigned char *m, const struct wdesc *w, const struct sargs *a, int32_t idx, struct eff *e, int apply)
{
	int fault = 0;
	intptr_t x, p, q;
	e->commit = 0; e->tgt = a->v; e->newv = 0;
	if (idx != a->cpu) { e->ret = -1; return 0; }
	x = m_rd(m, a->v, &fault);
	switch (w->op) {
	case OP_CBNE_STORE: case OP_STORE_STORE: case OP_MEMCPY:
		if (x != a->expect) { e->ret = 1; return 0; }
		break;
	case OP_CBNE2:
		if (x != a->expect || m_rd(m, a->v2, &fault) != a->expect2) { e->ret = 1; return 0; }
		break;
	case OP_POP:
		if (x == a->expect) { e->ret = 1; return 0; }
		break;
	}
	e->ret = 0; e->commit = 1;
	switch (w->op) {
	case OP_CBNE_STORE: case OP_CBNE2: e->newv = a->newv; break;
	case OP_ADD: e->newv = (intptr_t) ((word) x + (word) a->count); break;
	case OP_STORE_STORE:
		if (apply) m_wr(m, a->v2, a->newv2);
		e->newv = a->newv; break;
	case OP_MEMCPY:
		if (apply) {
			word so = (word) a->src - (word) &world, d = (word) a->dst - (word) &world;
			for (size_t i = 0; i < a->len; i++) m[d + i] = m[so + i];
		}
		e->newv = a->newv; break;
	case OP_POP:
		e->newv = m_rd(m, (void *) ((word) x + (word) a->off), &fault);
		if (apply) m_wr(m, a->load, x);
		break;
	case OP_DEREF_ADD:
		p = (intptr_t) ((word) x + (word) a->off);
		q = m_rd(m, (void *) p, &fault);
		e->tgt = (intptr_t *) q;
		e->newv = (intptr_t) ((word) m_rd(m, (void *) q, &fault) + (word) a->count);
		break;
	}
	if (fault) return -1;
	if (apply) m_wr(m, e->tgt, e->newv);
	return 0;
}

/* ---------------------------------------------------------------- index fields */
static struct rseq_abi *area;
static void set_fields(int32_t start, int32_t cpu, int32_t node, int32_t cid)
{
	area->cpu_id_start = (uint32_t) start; area->cpu_id = (uint32_t) cpu;
	area->node_id = (uint32_t) node; area->mm_cid = (uint32_t) cid;
}
static int32_t idx_of(int mode) { return mode == 0 ? (int32_t) area->cpu_id : (int32_t) area->mm_cid; }
static uint64_t get_cs(void) { uint64_t x; memcpy(&x, &area->rseq_cs, 8); return x; }
static void put_cs(uint64_t x) { memcpy(&area->rseq_cs, &x, 8); }

/* node value which makes the operation access loc: the offset may be any machine word */
static intptr_t node_at(const struct sargs *a, const void *loc) { return (intptr_t) ((word) loc - (word) a->off); }
static intptr_t *slot_of(const struct sargs *a, intptr_t node) { return (intptr_t *) ((word) node + (word) a->off); }

/* ---------------------------------------------------------------- set-up of one case */
static int setup(struct sargs *a, const struct wdesc *w, int want_match, int step)
{
	unsigned char *b = (unsigned char *) &world;
	unsigned i;
	int vi, tries = 0;
again:
	if (++tries > 200) return -1;
	for (i = 0; i < WS; i += 8) { uint64_t r = rnd(); memcpy(b + i, &r, 8); }
	memset(a, 0, sizeof(*a));
	a->blk = &world.blk;
	a->maxtries = 3;
	vi = rn(4);
	a->v = &world.cells[vi];
	a->v2 = &world.cells[4 + rn(3)];
	a->load = &world.cells[7];
	a->expect = rval(); a->expect2 = rval(); a->newv = rval(); a->newv2 = rval();
	a->count = rval();
	a->off = rn(3) ? ((long) rn(7) - 3) * WB : (long) rval();
	a->len = step ? rn(6) : (rn(8) ? rn(40) : rn(97));
	a->dst = world.dbuf + rn(16); a->src = world.sbuf + rn(16);
	a->mo = w->mo; a->mode = w->mode;
	a->pre = (unsigned char) rnd(); a->post = (unsigned char) ~a->pre;
	for (i = 0; i < NLIVE; i++) a->live[i] = (unsigned long) rnd();
	if (w->preset) w->preset(a);
	/* the memory state the arguments call for */
	switch (w->op) {
	case OP_CBNE_STORE: case OP_STORE_STORE: case OP_MEMCPY: case OP_CBNE2:
		*a->v = a->expect;
		if (w->op == OP_CBNE2) *a->v2 = a->expect2;
		if (!want_match) {
			intptr_t *t = (w->op == OP_CBNE2 && rn(2)) ? a->v2 : a->v;
			intptr_t old = *t;
			switch (rn(3)) {
			case 0: *t ^= (intptr_t) ((word) 1 << rn(8 * WB)); break;
			case 1: *t = rval(); break;
			default: *t = (intptr_t) ((word) *t + (rn(2) ? 1 : -1)); break;
			}
			if (*t == old) *t ^= 1;
		}
		break;
	case OP_POP: {
		intptr_t node = node_at(a, &world.cells[15]);
		world.cells[15] = rval();
		if (a->expect == node) goto again;
		*a->v = want_match ? node : a->expect;
		break;
	}
	case OP_DEREF_ADD: {
		intptr_t *q = &world.cells[18 + rn(4)];
		*a->v = node_at(a, &world.cells[12]);
		world.cells[12] = (intptr_t) q;
		*q = rval();
		break;
	}
	default:
		*a->v = rval();
	}
	if (w->flags & SF_PRE) {
		/* the wrapper stores the real value right before the call */
		switch (w->op) {
		case OP_CBNE_STORE: case OP_ADD: case OP_STORE_STORE:
			a->prew = *a->v; *a->v = rval(); break;
		case OP_CBNE2: a->prew = *a->v2; *a->v2 = rval(); break;
		case OP_POP:
			a->newv2 = node_at(a, &world.cells[15]);
			a->prew = world.cells[15];
			world.cells[15] = rval();
			break;
		case OP_DEREF_ADD:
			a->newv2 = *slot_of(a, *a->v);
			a->prew = *(intptr_t *) a->newv2; *(intptr_t *) a->newv2 = rval();
			break;
		case OP_MEMCPY: if (!a->len) a->len = 1; break;
		}
		a->postw = rval();
	}
	a->cpu = (int) (rn(2) ? rn(8) : rn(4096));
	if (step) {
		/* the commit must be visible */
		struct eff e;
		unsigned char img[WS];
		int f = 0;
		memcpy(img, &world, WS);
		if (model(img, w, a, a->cpu, &e, 0)) goto again;
		if (e.commit && m_rd(img, e.tgt, &f) == e.newv) goto again;
		if (w->op == OP_ADD && a->count == 0) goto again;
		if (w->op == OP_DEREF_ADD && a->count == 0) goto again;
		if ((w->op == OP_CBNE_STORE || w->op == OP_CBNE2 || w->op == OP_MEMCPY || w->op == OP_STORE_STORE) && a->newv == a->expect) goto again;
	}
	return 0;
}

/* ---------------------------------------------------------------- trampoline */
struct tregs { word ret, bx, bp, r12, r13, r14, r15, sp, flags; };
#if defined(__x86_64__)
static const word sent[6] = { 0xb0b0b0b0deadbe01, 0xb0b0b0b0deadbe02, 0xb0b0b0b0deadbe03, 0xb0b0b0b0deadbe04, 0xb0b0b0b0deadbe05, 0xb0b0b0b0deadbe06 };
#else
static const word sent[6] = { 0xdeadbe01, 0xdeadbe02, 0xdeadbe03, 0xdeadbe04, 0, 0 };
#endif
word tramp_sp;
extern char tramp[], tramp_end[];
int tramp_call(int (*fn)(struct sargs *), struct sargs *a, struct tregs *out, int tf);
#if defined(__x86_64__)
__asm__(
".text\n.globl tramp\n.globl tramp_call\n.globl tramp_end\n.balign 16\n"
"tramp:\ntramp_call:\n"
" push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n push %rdx\n"
" mov %rdi, %rax\n mov %rsi, %rdi\n"
" movabs $0xb0b0b0b0deadbe01, %rbx\n movabs $0xb0b0b0b0deadbe02, %rbp\n movabs $0xb0b0b0b0deadbe03, %r12\n"
" movabs $0xb0b0b0b0deadbe04, %r13\n movabs $0xb0b0b0b0deadbe05, %r14\n movabs $0xb0b0b0b0deadbe06, %r15\n"
" mov %rsp, tramp_sp(%rip)\n"
" mov $0x1111, %r8\n mov $0x2222, %r9\n mov $0x3333,%r10\n mov $0x4444,%r11\n mov $0x5555,%rdx\n"
" test %ecx, %ecx\n jz 1f\n"
" pushfq\n orl $0x100, (%rsp)\n popfq\n"
"1: call *%rax\n"
" pushfq\n andl $~0x100, (%rsp)\n popfq\n"
" mov (%rsp), %rdx\n"
" movslq %eax, %rax\n mov %rax, 0(%rdx)\n mov %rbx, 8(%rdx)\n mov %rbp, 16(%rdx)\n mov %r12, 24(%rdx)\n mov %r13, 32(%rdx)\n mov %r14, 40(%rdx)\n mov %r15, 48(%rdx)\n mov %rsp, 56(%rdx)\n"
" pushfq\n pop %rcx\n mov %rcx, 64(%rdx)\n cld\n"
" pop %rdx\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
"tramp_end:\n");
#else
__asm__(
".text\n.globl tramp\n.globl tramp_call\n.globl tramp_end\n.balign 16\n"
"tramp:\ntramp_call:\n"
" push %ebx\n push %ebp\n push %esi\n push %edi\n"
" mov 20(%esp), %eax\n mov 24(%esp), %ecx\n mov 32(%esp), %edx\n"
" sub $8, %esp\n push %ecx\n"
" mov $0xdeadbe01, %ebx\n mov $0xdeadbe02, %ebp\n mov $0xdeadbe03, %esi\n mov $0xdeadbe04, %edi\n"
" mov %esp, tramp_sp\n"
" test %edx, %edx\n jz 1f\n"
" pushfl\n orl $0x100, (%esp)\n popfl\n"
"1: call *%eax\n"
" pushfl\n andl $~0x100, (%esp)\n popfl\n"
" mov 40(%esp), %edx\n"
" mov %eax, 0(%edx)\n mov %ebx, 4(%edx)\n mov %ebp, 8(%edx)\n mov %esi, 12(%edx)\n mov %edi, 16(%edx)\n mov %esp, 28(%edx)\n"
" pushfl\n pop %ecx\n mov %ecx, 32(%edx)\n cld\n"
" add $12, %esp\n"
" pop %edi\n pop %esi\n pop %ebp\n pop %ebx\n ret\n"
"tramp_end:\n");
#endif

static void check_regs(const struct tregs *t)
{
	const word *r = &t->bx;
	int n = sizeof(word) == 8 ? 6 : 4;
	for (int i = 0; i < n; i++)
		if (r[i] != sent[i]) viol("C05", "callee-saved register of the caller changed", i, (long long) r[i]);
	if (t->sp != tramp_sp) viol("C05", "stack pointer not restored", (long long) t->sp, (long long) tramp_sp);
	if (t->flags & 0x400) viol("C05", "direction flag left set", (long long) t->flags, 0);
}
static void check_echo(const struct wdesc *w, const struct sargs *a)
{
#define CK(bit, f) if ((w->echo & (bit)) && a->e_##f != a->f) viol("C05", "argument variable " #f " changed by the operation", (long long) (intptr_t) a->f, (long long) (intptr_t) a->e_##f)
	CK(E_V, v); CK(E_EXPECT, expect); CK(E_V2, v2); CK(E_EXPECT2, expect2); CK(E_NEWV2, newv2); CK(E_NEWV, newv);
	CK(E_DST, dst); CK(E_SRC, src); CK(E_LEN, len); CK(E_OFF, off); CK(E_LOAD, load); CK(E_COUNT, count); CK(E_CPU, cpu);
	for (int i = 0; i < w->nlive; i++) {
		st_live++;
		if (a->e_live[i] != a->live[i]) viol("C05", "live local variable of the caller changed", (long long) a->live[i], (long long) a->e_live[i]);
	}
}

/* ---------------------------------------------------------------- descriptor checks (kernel's rules) */
static struct rseq_cs_img { uint32_t version, flags; uint64_t start, len, abort; } dummy_cs;
static int cs_load(uint64_t p, struct rseq_cs_img *c)
{
	if (p < (word) __start___rseq_cs || p + sizeof(*c) > (word) __stop___rseq_cs) return -1;
	memcpy(c, (void *) (word) p, sizeof(*c));
	return 0;
}
static int sig_ok(uint64_t abort_ip)
{
	uint32_t s;
	memcpy(&s, (void *) (word) (abort_ip - 4), 4);
	return s == RSEQ_SIG;
}
static int validate_cs(uint64_t p, struct rseq_cs_img *c)
{
	uint64_t *q;
	int n = 0;
	if (cs_load(p, c)) { viol("C06,C01", "armed descriptor lies outside the __rseq_cs section", (long long) p, 0); return -1; }
	if (p & 31) { viol("C06", "descriptor not aligned on 32 bytes", (long long) p, 0); return -1; }
	if (c->version || c->flags) { viol("C06,C01", "descriptor version or flags not zero", c->version, c->flags); return -1; }
	if (c->abort - c->start < c->len) { viol("C06,C01", "abort handler inside the critical section", (long long) c->abort, (long long) c->start); return -1; }
	if (!c->len || c->len > 4096) { viol("C06,C01", "implausible critical section length", (long long) c->len, 0); return -1; }
	if (!sig_ok(c->abort)) { viol("C06,C01", "abort handler not preceded by the signature", (long long) c->abort, 0); return -1; }
	for (q = __start___rseq_cs_ptr_array; q < __stop___rseq_cs_ptr_array; q++)
		if (*q == p) n++;
	if (!n) viol("C06", "descriptor missing from __rseq_cs_ptr_array", (long long) p, 0);
	return 0;
}
static int exit_listed(uint64_t start, uint64_t ip)
{
	uint64_t *q;
	for (q = __start___rseq_exit_point_array; q + 1 < __stop___rseq_exit_point_array; q += 2)
		if (q[0] == start && q[1] == ip) return 1;
	return 0;
}

/* ---------------------------------------------------------------- monitor */
enum { M_NONE, M_V, M_OTHER, M_FIX, M_MIG_CPU, M_MIG_CID, M_MIG_BOTH, M_BACK, M_MIG_V, M_NR };
static const char *const mname[] = { "preempt", "preempt+write-v", "preempt+write-data", "preempt+make-compare-pass", "migrate-cpu", "migrate-cid", "migrate-both", "migrate-back", "migrate+write-v" };
#define MAXPLAN 3
static struct { int step, kind; } plan[MAXPLAN];
static int nplan;

static struct mon {
	int on, steps, committed, ni, stop;
	const struct wdesc *w; struct sargs *a;
	unsigned char shadow[WS], slast[WS], init[WS];
	word prev_ip; uint64_t prev_cs; struct rseq_cs_img cs; int cs_ok;
	int first_in, last_in, left;
	unsigned char sleft[WS]; int32_t left_idx;
	uint64_t trace;
	int aborted, silent;
} mon;
#ifndef FREESTANDING
#include <setjmp.h>
static sigjmp_buf silent_env;
static unsigned long st_silent, st_silent_exit;
#endif

static void interfere(int kind)
{
	struct sargs *a = mon.a; const struct wdesc *w = mon.w;
	int32_t other = a->cpu == 3 ? 5 : 3;
	switch (kind) {
	case M_NONE: break;
	case M_V: case M_MIG_V:
		switch (w->op) {
		case OP_POP: *a->v = rn(2) ? node_at(a, &world.cells[16]) : a->expect; world.cells[16] = rval(); break;
		case OP_DEREF_ADD: {
			intptr_t *s = slot_of(a, *a->v), *q = (intptr_t *) *s;
			if (rn(2)) *q = (intptr_t) rnd();
			else { *s = (intptr_t) &world.cells[22]; world.cells[22] = (intptr_t) rnd(); }
			break;
		}
		default: { intptr_t o = *a->v; do *a->v = (intptr_t) rnd(); while (*a->v == o || *a->v == a->newv); }
		}
		if (kind == M_MIG_V) set_fields(other, other, 0, other);
		break;
	case M_OTHER:
		switch (w->op) {
		case OP_STORE_STORE: case OP_CBNE2: *a->v2 = (intptr_t) rnd(); break;
		case OP_MEMCPY: if (a->len) ((unsigned char *) a->dst)[rn((unsigned) a->len)] ^= 0x5a; break;
		case OP_POP: world.cells[15] = (intptr_t) rnd(); break;
		case OP_DEREF_ADD: world.cells[19] = (intptr_t) rnd(); break;
		default: *a->v = (intptr_t) rnd(); if (*a->v == a->newv) *a->v ^= 1;
		}
		break;
	case M_FIX:	/* other threads establish the state in which the comparison succeeds */
		switch (w->op) {
		case OP_CBNE_STORE: case OP_STORE_STORE: case OP_MEMCPY: *a->v = a->expect; break;
		case OP_CBNE2: *a->v = a->expect; *a->v2 = a->expect2; break;
		case OP_POP: *a->v = node_at(a, &world.cells[15]); if (world.cells[15] == *a->v) world.cells[15] = 5; break;
		case OP_DEREF_ADD:	/* or move the pointer itself */
			*a->v = node_at(a, &world.cells[13]);
			world.cells[13] = (intptr_t) &world.cells[23];
			world.cells[23] = (intptr_t) rnd();
			break;
		default: *a->v = (intptr_t) rnd();
		}
		break;
	case M_MIG_CPU: set_fields(other, other, 1, (int32_t) area->mm_cid); break;
	case M_MIG_CID: set_fields((int32_t) area->cpu_id_start, (int32_t) area->cpu_id, 0, other); break;
	case M_MIG_BOTH: set_fields(other, other, 2, other); break;
	case M_BACK: set_fields(a->cpu, a->cpu, 0, a->cpu); break;
	}
}

static int in_target(const struct wdesc *w, const struct sargs *a, const struct eff *e, unsigned off)
{
	word p = (word) &world + off;
#define IN(q, n) (p >= (word) (q) && p < (word) (q) + (n))
	if (IN(e->tgt, sizeof(intptr_t))) return 1;
	switch (w->op) {
	case OP_STORE_STORE: return IN(a->v2, sizeof(intptr_t)) ? 2 : 0;
	case OP_POP: return IN(a->load, sizeof(intptr_t)) ? 2 : 0;
	case OP_MEMCPY: return IN(a->dst, a->len) ? 2 : 0;
	}
	return 0;
}

static void on_trap(int sig, siginfo_t *si, void *ucv)
{
	ucontext_t *uc = (ucontext_t *) ucv;
	word ip = IP(uc);
	unsigned char *wb = (unsigned char *) &world;
	struct eff e;
	uint64_t cs;
	(void) sig; (void) si;

	if (!mon.on || (ip >= (word) tramp && ip < (word) tramp_end)) {
		if (!mon.on || !mon.steps) return;
		/* back in the trampoline: account for the last instruction below */
	}
	st_steps++;
	mon.trace = (mon.trace ^ ip) * 0x100000001b3ULL;
	if (++mon.steps > 200000) { viol("C01,C02,C05", "operation does not terminate", mon.steps, 0); o_flush(); sys_exit(1); }

	/* 1. what did the last instruction store? */
	if (mon.silent) memcpy(mon.shadow, wb, WS);
	else if (memcmp(wb, mon.shadow, WS)) {
		unsigned char img[WS];
		int cls = 0, v_changed = 0, d_changed = 0;
		memcpy(img, mon.slast, WS);
		if (model(img, mon.w, mon.a, idx_of(mon.w->mode), &e, 1)) { e.commit = 0; e.ret = -3; }
		for (unsigned i = 0; i < WS; i++) {
			if (wb[i] == mon.shadow[i]) continue;
			cls = in_target(mon.w, mon.a, &e, i);
			if (cls == 1) v_changed = 1;
			else if (cls == 2) d_changed = 1;
			else { viol("C05", "store outside the documented targets, world offset", i, wb[i]); break; }
		}
		st_targets++;
		if (mon.committed && (v_changed || d_changed))
			viol(mon.ni ? "C01,C04" : "C02,C04", "target written again after the commit", mon.steps, 0);
		if (!mon.committed && (v_changed || d_changed)) {
			int inside = mon.cs_ok && (uint64_t) mon.prev_ip - mon.cs.start < mon.cs.len;
			if (!inside)
				viol("C06,C01", "store executed while no armed critical section covers it", (long long) mon.prev_ip, (long long) mon.prev_cs);
			if (idx_of(mon.w->mode) != mon.a->cpu)
				viol(mon.ni ? "C01" : "C03", "store although the thread does not have the CPU / concurrency id", idx_of(mon.w->mode), mon.a->cpu);
			else if (!e.commit)
				viol(mon.ni ? "C01,C04" : "C04,C02", "store although the comparison fails", e.ret, 0);
		}
		if (v_changed && !mon.committed) {
			int f = 0;
			intptr_t nv = m_rd(wb, e.tgt, &f);
			mon.committed = 1;
			if (d_changed) viol("C04", "data and target written by the same instruction", 0, 0);
			if (e.commit) {
				if (nv != e.newv)
					viol(mon.ni ? "C01,C04" : "C02,C04", "target received a wrong or torn value", nv, e.newv);
				for (unsigned i = 0; i < WS; i++)
					if (in_target(mon.w, mon.a, &e, i) == 2 && wb[i] != img[i]) {
						viol(mon.ni ? "C04,C01" : "C04,C02", "target word changed before the data it publishes is complete, offset", i, wb[i]);
						break;
					}
			}
			st_commit++;
		}
		memcpy(mon.shadow, wb, WS);
	}

	/* 2. control flow out of the armed section */
	if (mon.cs_ok && (uint64_t) mon.prev_ip - mon.cs.start < mon.cs.len && !((uint64_t) ip - mon.cs.start < mon.cs.len)) {
		if ((uint64_t) ip != mon.cs.abort) {
			/* the outcome is decided: later preemptions cannot change it */
			mon.left = 1; memcpy(mon.sleft, mon.slast, WS); mon.left_idx = idx_of(mon.w->mode);
		}
		if ((uint64_t) ip == mon.cs.start + mon.cs.len) st_exit_post++;
		else if ((uint64_t) ip == mon.cs.abort) st_exit_abort++;
		else if (exit_listed(mon.cs.start, ip)) st_exit_listed++;
		else viol("C06", "critical section left at an address which is not a listed exit point", (long long) ip, (long long) mon.cs.start);
	}

#ifndef FREESTANDING
	if (mon.silent > 1 && mon.left) { st_silent_exit += (uint64_t) ip != mon.cs.start + mon.cs.len; siglongjmp(silent_env, 1); }
#endif
	/* 3. arming */
	cs = get_cs();
	if (cs != mon.prev_cs) {
		mon.cs_ok = 0;
		if (cs) {
			mon.cs_ok = !validate_cs(cs, &mon.cs);
		}
		mon.prev_cs = cs;
	}
	if (mon.cs_ok && (uint64_t) ip - mon.cs.start < mon.cs.len) { mon.last_in = mon.steps; if (mon.first_in < 0) mon.first_in = mon.steps; }

	/* 4. scheduled preemption */
	for (int i = 0; i < nplan; i++) {
		if (plan[i].step != mon.steps || (ip >= (word) tramp && ip < (word) tramp_end))
			continue;
		interfere(plan[i].kind);
		memcpy(mon.shadow, wb, WS);
		if (mon.silent) { memcpy(mon.slast, wb, WS); mon.silent = 2; continue; }
		if (mon.committed) st_postcommit++;
		memcpy(mon.slast, wb, WS);
		mon.ni++; st_interf++;
		/* kernel: rseq_ip_fixup() */
		cs = get_cs();
		if (cs) {
			struct rseq_cs_img c;
			if (cs_load(cs, &c) || c.version || c.flags) { viol("C06,C01", "kernel would kill the process: bad descriptor", (long long) cs, 0); }
			else if ((uint64_t) ip - c.start < c.len) {
				st_incs++;
				if (!sig_ok(c.abort)) viol("C06,C01", "kernel would kill the process: bad signature", (long long) c.abort, 0);
				if (mon.committed) viol("C01", "interruptible after the commit: a committed operation would report abort", (long long) ip, 0);
				put_cs(0);
				ip = (word) c.abort; IP(uc) = ip;
				mon.aborted++; st_abort++;
			} else {
				st_precs++;
				put_cs(0);
			}
		} else st_precs++;
		mon.prev_cs = get_cs();
		mon.cs_ok = 0;
		mon.trace = (mon.trace ^ 0xabcdef ^ plan[i].kind) * 0x100000001b3ULL;
	}
	mon.prev_ip = ip;
}

static void prep_index(const struct wdesc *w, const struct sargs *a, int match)
{
	int32_t o1 = a->cpu + 1 + (int32_t) rn(5), o2 = a->cpu + 7 + (int32_t) rn(5);
	if (match) {
		if (w->mode == 0) set_fields(rn(2) ? a->cpu : o1, a->cpu, (int32_t) rn(4), rn(2) ? o2 : a->cpu);
		else set_fields(rn(2) ? a->cpu : o1, rn(2) ? o1 : a->cpu, (int32_t) rn(4), a->cpu);
	} else {
		if (w->mode == 0) set_fields(a->cpu, o1, a->cpu, a->cpu);
		else set_fields(a->cpu, a->cpu, a->cpu, o2);
	}
}

static int run_stepped(const struct wdesc *w, struct sargs *a)
{
	struct tregs t;
	struct eff e;
	unsigned char img[WS];
	int ret;
	mon.w = w; mon.a = a; mon.steps = 0; mon.committed = 0; mon.ni = 0; mon.aborted = 0;
	mon.first_in = -1; mon.last_in = -1; mon.left = 0;
	mon.prev_ip = 0; mon.prev_cs = get_cs(); mon.cs_ok = mon.prev_cs && !cs_load(mon.prev_cs, &mon.cs); mon.trace = 0xcbf29ce484222325ULL ^ (word) w;
	memcpy(mon.shadow, &world, WS); memcpy(mon.slast, &world, WS);
	mon.on = 1;
	ret = tramp_call(w->fn, a, &t, 1);
	mon.on = 0;
	ret = (int) t.ret;
	st_steprun++;
	distinct(mon.trace);
	check_regs(&t); check_echo(w, a);
	memcpy(img, mon.slast, WS);
	model(img, w, a, idx_of(w->mode), &e, 1);
	if (mon.committed && ret != 0)
		viol(mon.ni ? "C01" : "C02", "operation committed but did not report success", ret, mon.ni);
	if (!mon.committed) {
		if (ret == 0) viol(mon.ni ? "C01" : "C02", "operation reported success but did not commit", ret, mon.ni);
		else if (ret == 1) {
			st_ne++;
			if (mon.left) { struct eff el; model(mon.sleft, w, a, mon.left_idx, &el, 0); e.ret = el.ret; }
			if (e.ret != 1) viol(mon.ni ? "C01" : "C02,C03", "operation reported a compare outcome which is not true", ret, e.ret);
		} else if (ret == -1) {
			st_mism++;
			if (!mon.ni && e.ret != -1) viol("C02", "undisturbed operation aborted", ret, e.ret);
		} else viol("C02", "undocumented return value", ret, 0);
		/* target word is exactly as the others left it */
		if (memcmp(mon.slast, &world, WS)) {
			/* only attempted data words may differ, and only on abort */
			struct eff e2;
			unsigned char im2[WS];
			memcpy(im2, mon.slast, WS);
			model(im2, w, a, a->cpu, &e2, 1);
			for (unsigned i = 0; i < WS; i++) {
				int c;
				if (((unsigned char *) &world)[i] == mon.slast[i]) continue;
				c = in_target(w, a, &e2, i);
				if (c == 1) { viol(mon.ni ? "C01" : "C02", "target word changed by an operation which did not succeed", i, 0); break; }
				if (ret == 1) { viol("C04", "data written although the comparison failed", i, 0); break; }
			}
		}
	}
	if (w->flags & SF_RETRY) st_retry += a->tries > 1;
	return ret;
}

static void do_step(const struct wdesc *w, int scale)
{
	struct sargs a, a0;
	unsigned char w0[WS];
	uint32_t f0[4];
	int match, k, lo, hi, idxmatch;

	if (w->flags & SF_NOSTEP) return;
	for (match = 1; match >= 0; match--) {
		uint64_t cs0;
		cur_seed = rng_s;
		if (setup(&a, w, match, 1)) continue;
		idxmatch = 1;
		prep_index(w, &a, idxmatch);
		if (rn(2)) put_cs(0);	/* else: stale descriptor of the previous operation */
		cs0 = get_cs();
		memcpy(w0, &world, WS); a0 = a;
		f0[0] = area->cpu_id_start; f0[1] = area->cpu_id; f0[2] = area->node_id; f0[3] = area->mm_cid;
		nplan = 0; strcpy(plan_desc, match ? "undisturbed" : "undisturbed-mismatch");
		run_stepped(w, &a);
		if (match) {
			o_sample(w->name, mon.steps, mon.first_in, mon.last_in);
		}
		if (mon.first_in < 0) { viol("C06,C01", "operation never armed a critical section", 0, 0); continue; }
		lo = mon.first_in - 3; hi = mon.last_in + 2;
		if (lo < 2) lo = 2;
		for (k = lo; k <= hi; k++) {
			for (int kind = 0; kind < M_NR; kind++) {
				if (scale < 2 && kind == M_BACK) continue;
				if (scale < 1 && rn(4)) continue;
				memcpy(&world, w0, WS); a = a0; put_cs(cs0);
				set_fields((int32_t) f0[0], (int32_t) f0[1], (int32_t) f0[2], (int32_t) f0[3]);
				nplan = 1; plan[0].step = k; plan[0].kind = kind;
				o_plan(plan_desc, mname[kind], k - mon.first_in, NULL, 0);
				run_stepped(w, &a);
			}
		}
		/* pairs: before and inside, inside and after retry, away and back */
		for (int n = 0; n < 3 + 5 * scale; n++) {
			int k1 = lo + (int) rn((unsigned) (hi - lo + 1)), k2 = k1 + 1 + (int) rn(30);
			memcpy(&world, w0, WS); a = a0; put_cs(cs0);
			set_fields((int32_t) f0[0], (int32_t) f0[1], (int32_t) f0[2], (int32_t) f0[3]);
			nplan = 2; plan[0].step = k1; plan[0].kind = (int) rn(M_NR); plan[1].step = k2; plan[1].kind = (int) rn(M_NR);
			o_plan(plan_desc, mname[plan[0].kind], k1, mname[plan[1].kind], k2);
			run_stepped(w, &a);
		}
		/* wrong index from the start */
		memcpy(&world, w0, WS); a = a0; put_cs(cs0);
		prep_index(w, &a, 0);
		nplan = 0; strcpy(plan_desc, "undisturbed-wrong-index");
		run_stepped(w, &a);
	}
	nplan = 0; plan_desc[0] = 0;
}

#ifndef FREESTANDING
/* RSEQ_COMPARE_TWICE builds: state changes behind the back of the section (what the second
 * comparison exists to find).  Only the way out of the section is judged. */
static void do_silent(const struct wdesc *w)
{
	static struct sargs a, a0;
	static unsigned char w0[WS];
	static volatile int k, kind, lo, hi;
	static const int kinds[] = { M_V, M_OTHER, M_MIG_BOTH };
	if (!(w->flags & SF_TWICE) || (w->flags & (SF_NOSTEP | SF_RETRY))) return;
	cur_seed = rng_s;
	if (setup(&a, w, 1, 1)) return;
	prep_index(w, &a, 1); put_cs(0);
	memcpy(w0, &world, WS); a0 = a;
	nplan = 0; strcpy(plan_desc, "undisturbed");
	run_stepped(w, &a);
	if (mon.first_in < 0) return;
	lo = mon.first_in; hi = mon.last_in;
	for (k = lo; k <= hi; k++)
		for (kind = 0; kind < 3; kind++) {
			memcpy(&world, w0, WS); a = a0; put_cs(0); prep_index(w, &a, 1);
			nplan = 1; plan[0].step = k; plan[0].kind = kinds[kind];
			o_plan(plan_desc, "second-compare:", k - lo, NULL, 0);
			mon.w = w; mon.a = &a; mon.steps = 0; mon.committed = 1; mon.ni = 0; mon.aborted = 0; mon.first_in = mon.last_in = -1; mon.left = 0;
			mon.prev_ip = 0; mon.prev_cs = 0; mon.cs_ok = 0; mon.silent = 1;
			memcpy(mon.shadow, &world, WS); memcpy(mon.slast, &world, WS);
			if (!sigsetjmp(silent_env, 1)) {
				struct tregs t;
				mon.on = 1;
				tramp_call(w->fn, &a, &t, 1);
			}
			mon.on = 0; mon.silent = 0; st_silent++;
		}
	put_cs(0); nplan = 0; plan_desc[0] = 0;
}
#endif

/* plain run: everything but the instruction-level monitor */
static void do_plain(const struct wdesc *w, int n)
{
	struct sargs a;
	struct tregs t;
	struct eff e;
	unsigned char img[WS];
	intptr_t after;
	strcpy(plan_desc, "plain");
	for (int i = 0; i < n; i++) {
		int imatch = rn(8) != 0, mo_ok = 1, mode_eff = w->mode, ret;
		intptr_t *tgt;
		cur_seed = rng_s;
		if (setup(&a, w, rn(3) != 0, 0)) continue;
		if (w->flags & SF_RUNTIME) {
			static const int mos[] = { 0, 1, 2, 3, 4, 5, 6, -1, 1000 }, mds[] = { 0, 1, 0, 1, 0, 1, 2, -1, 77 };
			a.mo = rn(2) ? 0 : mos[rn(9)]; a.mode = mds[rn(9)];
			mode_eff = a.mode;
			mo_ok = (a.mode == 0 || a.mode == 1) && (a.mo == 0 || (a.mo == 3 && (w->op == OP_STORE_STORE || w->op == OP_MEMCPY)));
		}
		{
			struct wdesc wi = *w;
			wi.mode = mode_eff == 1;
			prep_index(&wi, &a, imatch);
		}
		memcpy(img, &world, WS);
		if (w->flags & SF_PRE) {
			switch (w->op) {
			case OP_MEMCPY: img[(word) a.src - (word) &world] = a.pre; break;
			case OP_CBNE2: m_wr(img, a.v2, a.prew); break;
			case OP_POP: m_wr(img, (char *) a.newv2 + a.off, a.prew); break;
			case OP_DEREF_ADD: m_wr(img, (void *) a.newv2, a.prew); break;
			default: m_wr(img, a.v, a.prew);
			}
		}
		memset(&e, 0, sizeof(e));
		if (!mo_ok) { e.ret = -1; st_refused++; }
		else if (model(img, w, &a, idx_of(mode_eff == 1), &e, 1)) continue;
		{ int f = 0; tgt = w->op == OP_STORE_STORE ? a.v2 : w->op == OP_POP ? a.load : w->op == OP_DEREF_ADD ? (intptr_t *) a.newv2 : a.v; after = (w->flags & SF_PRE) ? m_rd(img, tgt, &f) : 0; }
		if (w->flags & SF_PRE) {
			switch (w->op) {
			case OP_MEMCPY: img[(word) a.src - (word) &world] = a.post; break;
			case OP_CBNE2: m_wr(img, a.v2, a.postw); break;
			case OP_POP: m_wr(img, (char *) a.newv2 + a.off, a.postw); break;
			case OP_DEREF_ADD: m_wr(img, (void *) a.newv2, a.postw); break;
			}
		}
		ret = tramp_call(w->fn, &a, &t, 0);
		ret = (int) t.ret;
		st_plain++;
		distinct(((uint64_t) (word) w << 20) ^ ((uint64_t) a.len << 12) ^ ((uint64_t) (a.mo & 15) << 8) ^ ((uint64_t) (a.mode & 15) << 4) ^ (uint64_t) (e.ret + 2) ^ ((uint64_t) imatch << 60));
		if (ret != e.ret) viol(e.ret == -1 && mo_ok ? "C03,C02" : "C02", "return value differs from the documented effect", ret, e.ret);
		if (memcmp(img, &world, WS)) {
			unsigned k;
			struct eff e3;
			unsigned char *wb = (unsigned char *) &world;
			unsigned char im3[WS];
			memcpy(im3, img, WS);
			for (k = 0; k < WS; k++) if (wb[k] != img[k]) break;
			memset(&e3, 0, sizeof(e3)); e3.tgt = e.commit ? e.tgt : a.v;
			if (e.ret == -1 && mo_ok) viol("C03,C02", "memory changed although the index does not match, offset", k, ret);
			else if (!in_target(w, &a, &e3, k)) viol("C05,C02", "memory outside the targets changed, offset", k, ret);
			else viol("C02", "memory differs from the documented effect, offset", k, ret);
		}
		if (w->has_after && a.after != after) viol("C05,C02", "caller does not see the memory effect of the operation", a.after, after);
		check_regs(&t); check_echo(w, &a);
		if (e.ret == 0) st_commit++; else if (e.ret == 1) st_ne++; else st_mism++;
	}
	plan_desc[0] = 0;
}

/* all combinations of index field values */
static void do_index(const struct wdesc *w, int scale)
{
	static const int32_t fv[] = { 0, 1, 2, 7, 63, 255, 256, 4095, 65536, 0x01000000, 0x7fffffff, -1, -2 };
	static const int cv[] = { 0, 1, 2, 7, 63, 255, 256, 4095, 65536, 0x01000000, 0x7fffffff };
	struct sargs a;
	struct tregs t;
	unsigned char img[WS];
	struct eff e;
	int ret;
	(void) scale;
	strcpy(plan_desc, "index");
	if (w->flags & (SF_PRE | SF_RUNTIME)) return;
	for (unsigned ci = 0; ci < sizeof(cv) / sizeof(cv[0]); ci++)
		for (unsigned fi = 0; fi < sizeof(fv) / sizeof(fv[0]); fi++)
			for (int rest = 0; rest < 3; rest++) {
				int32_t o = rest == 0 ? cv[ci] : rest == 1 ? (int32_t) rn(9000) : -1;
				cur_seed = rng_s;
				if (setup(&a, w, rn(4) != 0, 0)) continue;
				a.cpu = cv[ci];
				if (w->mode == 0) set_fields(o, fv[fi], o, o);
				else set_fields(o, o, o, fv[fi]);
				memcpy(img, &world, WS);
				if (model(img, w, &a, idx_of(w->mode), &e, 1)) continue;
				ret = tramp_call(w->fn, &a, &t, 0);
				ret = (int) t.ret;
				st_index++;
				distinct(((uint64_t) (word) w << 16) ^ (ci << 10) ^ (fi << 4) ^ (unsigned) rest);
				if (ret != e.ret) viol("C03", "operation outcome does not follow the index field of its mode", fv[fi], cv[ci]);
				else if (memcmp(img, &world, WS)) viol("C03", "memory changed on index mismatch", fv[fi], cv[ci]);
				check_regs(&t); check_echo(w, &a);
			}
	plan_desc[0] = 0;
}

#ifndef FREESTANDING
/* operands at the very edge of mapped memory, and lengths far beyond the small world */
#include <sys/mman.h>
static unsigned long st_wide, st_widebytes, st_foreign, st_huge;
#define PG 4096ul
struct arena { unsigned char *p; size_t n; };
static struct arena arena_new(size_t n)
{
	struct arena r;
	unsigned char *q = (unsigned char *) mmap(NULL, n + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (q == MAP_FAILED || mprotect(q + PG, n, PROT_READ | PROT_WRITE)) sys_exit(98);
	r.p = q + PG; r.n = n;
	return r;
}
/* first or last word of the arena */
static intptr_t *edge_word(struct arena *r) { return (intptr_t *) (rn(2) ? r->p : r->p + r->n - sizeof(intptr_t)); }
static unsigned char *edge_bytes(struct arena *r, size_t len) { return rn(2) ? r->p : r->p + r->n - len; }
static unsigned char pat(size_t i, unsigned salt) { return (unsigned char) ((i * 167 + (i >> 8) * 13 + salt) >> 1); }

static void do_wide(const struct wdesc *w, int scale)
{
	static struct arena A[5], S, D;
	static const size_t lens[] = { 0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000,
		4095, 4096, 4097, 5000, 65535, 65536, 65537, 70001, 131073, 1048575, 1048576, 1048577 };
	struct sargs a;
	struct tregs t;
	int ret;
	if (w->preset || (w->flags & (SF_PRE | SF_RUNTIME))) return;
	if (!S.p) {
		for (int i = 0; i < 5; i++) A[i] = arena_new(PG);
		S = arena_new(2 * 1048576); D = arena_new(2 * 1048576);
	}
	strcpy(plan_desc, "page-edge");
	for (unsigned k = 0; k < 40u + 40u * (unsigned) scale; k++) {
		int match = rn(4) != 0, imatch = rn(5) != 0, want;
		intptr_t *wp[5], before[5], now[5], node = 0, tv = 0;
		unsigned salt = (unsigned) rnd();
		cur_seed = rng_s;
		memset(&a, 0, sizeof(a));
		for (int i = 0; i < 5; i++) {
			for (size_t j = 0; j < PG; j++) A[i].p[j] = pat(j, 7u + (unsigned) i);
			wp[i] = edge_word(&A[i]);
		}
		a.maxtries = 3; a.v = wp[0]; a.v2 = wp[1]; a.load = wp[2];
		a.expect = rval(); a.expect2 = rval(); a.newv = rval(); a.newv2 = rval(); a.count = rval(); a.off = (long) rval();
		a.mo = w->mo; a.mode = w->mode; a.cpu = (int) rn(64);
		for (int i = 0; i < NLIVE; i++) a.live[i] = (unsigned long) rnd();
		if (w->op == OP_MEMCPY) {
			unsigned nl = sizeof(lens) / sizeof(lens[0]);
			a.len = k % 3 == 0 ? lens[rn(nl)] : k % 3 == 1 ? lens[rn(nl - 9)] : rn(3000);
			a.src = edge_bytes(&S, a.len); a.dst = edge_bytes(&D, a.len);
			for (size_t j = 0; j < a.len; j++) ((unsigned char *) a.src)[j] = pat(j, salt);
			for (size_t j = 0; j < a.len; j++) ((unsigned char *) a.dst)[j] = (unsigned char) ~pat(j, salt);
			for (size_t j = 0; j < 64; j++) {
				if ((unsigned char *) a.dst + a.len + j < D.p + D.n) ((unsigned char *) a.dst)[a.len + j] = 0xa5;
				if ((unsigned char *) a.dst > D.p + j) ((unsigned char *) a.dst)[-1 - (long) j] = 0xa5;
			}
		}
		*a.v = match ? a.expect : (intptr_t) (a.expect ^ (intptr_t) ((uintptr_t) 1 << rn(8 * WB)));
		if (w->op == OP_CBNE2) *a.v2 = rn(4) ? a.expect2 : rval();
		if (w->op == OP_POP) {
			node = node_at(&a, wp[3]);
			*a.v = match ? node : a.expect;
			if (!imatch) *a.v = node_at(&a, A[3].p - 64);	/* list of another CPU: entry may be gone */
			if (match && node == a.expect) continue;
		}
		if (w->op == OP_DEREF_ADD) {
			*a.v = node_at(&a, wp[3]);
			*wp[3] = (intptr_t) wp[4];
			if (!imatch) { if (rn(2)) *a.v = node_at(&a, A[3].p - 64); else *wp[3] = (intptr_t) (A[3].p + PG); }
		}
		prep_index(w, &a, imatch);
		for (int i = 0; i < 5; i++) before[i] = *wp[i];
		tv = *wp[3];
		tramp_call(w->fn, &a, &t, 0);
		ret = (int) t.ret;
		st_wide++; st_widebytes += a.len; st_foreign += !imatch;
		for (int i = 0; i < 5; i++) now[i] = before[i];
		want = 0;
		if (!imatch) want = -1;
		else switch (w->op) {
		case OP_CBNE_STORE: if (before[0] == a.expect) now[0] = a.newv; else want = 1; break;
		case OP_STORE_STORE: if (before[0] == a.expect) { now[0] = a.newv; now[1] = a.newv2; } else want = 1; break;
		case OP_CBNE2: if (before[0] == a.expect && before[1] == a.expect2) now[0] = a.newv; else want = 1; break;
		case OP_MEMCPY: if (before[0] == a.expect) now[0] = a.newv; else want = 1; break;
		case OP_ADD: now[0] = (intptr_t) ((uintptr_t) before[0] + (uintptr_t) a.count); break;
		case OP_POP: if (before[0] != a.expect) { now[0] = tv; now[2] = before[0]; } else want = 1; break;
		case OP_DEREF_ADD: now[4] = (intptr_t) ((uintptr_t) before[4] + (uintptr_t) a.count); break;
		}
		distinct(((uint64_t) (uintptr_t) w << 24) ^ ((uint64_t) a.len << 4) ^ (uint64_t) (want + 2));
		if (ret != want) viol(want == -1 ? "C03,C02" : "C02", "page edge: return value differs from the documented effect", ret, want);
		for (int i = 0; i < 5; i++) {
			if (*wp[i] != now[i]) viol(want == -1 ? "C03,C02" : before[i] == now[i] ? "C05,C02" : "C02", "page edge: word differs from the documented effect", i, *wp[i]);
			for (size_t j = 0; j < PG; j++)
				if ((A[i].p + j < (unsigned char *) wp[i] || A[i].p + j >= (unsigned char *) (wp[i] + 1)) && A[i].p[j] != pat(j, 7u + (unsigned) i)) { viol("C05,C02", "page edge: memory outside the targets changed", i, (long long) j); break; }
		}
		if (w->op == OP_MEMCPY) {
			unsigned char *d = (unsigned char *) a.dst, *s = (unsigned char *) a.src;
			for (size_t j = 0; j < a.len; j++) {
				if (s[j] != pat(j, salt)) { viol("C05,C02", "page edge: source buffer changed at", (long long) j, (long long) a.len); break; }
				if (d[j] != (want == 0 ? pat(j, salt) : (unsigned char) ~pat(j, salt))) { viol("C02", "page edge: destination differs from the documented effect at", (long long) j, (long long) a.len); break; }
			}
			for (size_t j = 0; j < 64; j++)
				if ((d + a.len + j < D.p + D.n && d[a.len + j] != 0xa5) || (d > D.p + j && d[-1 - (long) j] != 0xa5)) { viol("C05,C02", "page edge: bytes next to the destination changed", (long long) j, (long long) a.len); break; }
		}
		check_regs(&t); check_echo(w, &a);
		if (want == 0) st_commit++; else if (want == 1) st_ne++; else st_mism++;
	}
	plan_desc[0] = 0;
}

/* a copy longer than 4 GiB: both buffers alias one small file over and over */
static void do_huge(const struct wdesc *w)
{
	const size_t len = (1ul << 32) + 5, chunk = 8ul << 20, n = len / chunk + 1;
	unsigned char *b[2];
	struct sargs a;
	struct tregs t;
	if (w->op != OP_MEMCPY || sizeof(void *) < 8 || !has(w->name, ":plain") || !has(w->name, "gccO2:")) return;
	strcpy(plan_desc, "huge-copy");
	for (int i = 0; i < 2; i++) {
		int fd = memfd_create("x", 0);
		if (fd < 0 || ftruncate(fd, (off_t) chunk)) return;
		b[i] = (unsigned char *) mmap(NULL, n * chunk, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (b[i] == MAP_FAILED) return;
		for (size_t k = 0; k < n; k++)
			if (mmap(b[i] + k * chunk, chunk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return;
		close(fd);
	}
	for (size_t j = 0; j < chunk; j++) { b[0][j] = pat(j, 3); b[1][j] = 0; }
	memset(&a, 0, sizeof(a));
	a.v = &world.cells[1]; a.expect = *a.v = 77; a.newv = 99; a.src = b[0]; a.dst = b[1]; a.len = len; a.cpu = 2; a.maxtries = 3;
	prep_index(w, &a, 1);
	tramp_call(w->fn, &a, &t, 0);
	st_huge++;
	if ((int) t.ret != 0 || *a.v != 99) viol("C02", "huge copy: return value or target word wrong", (int) t.ret, *a.v);
	for (size_t j = 0; j < chunk; j++)
		if (b[1][j] != pat(j, 3)) { viol("C02", "huge copy: destination differs from the documented effect at", (long long) j, (long long) len); break; }
	check_regs(&t); check_echo(w, &a);
	munmap(b[0], n * chunk); munmap(b[1], n * chunk);
	plan_desc[0] = 0;
}
#endif

static void do_tables(void)
{
	uint64_t *q, n_ptr = 0, n_exit = 0;
	char *p;
	struct rseq_cs_img c;
	strcpy(plan_desc, "tables");
	for (q = __start___rseq_cs_ptr_array; q < __stop___rseq_cs_ptr_array; q++, n_ptr++) {
		st_descs++;
		distinct(*q);
		if (validate_cs(*q, &c)) continue;
	}
	for (p = __start___rseq_cs; p < __stop___rseq_cs; p += 32) {
		int n = 0;
		for (q = __start___rseq_cs_ptr_array; q < __stop___rseq_cs_ptr_array; q++) if (*q == (word) p) n++;
		if (n != 1) viol("C06", "descriptor not listed exactly once in __rseq_cs_ptr_array", (long long) (word) p, n);
	}
	for (q = __start___rseq_exit_point_array; q + 1 < __stop___rseq_exit_point_array; q += 2) {
		int n = 0;
		n_exit++;
		for (p = __start___rseq_cs; p < __stop___rseq_cs; p += 32) {
			memcpy(&c, p, sizeof(c));
			if (c.start == q[0]) {
				n++;
				if (q[1] - c.start < c.len) viol("C06", "listed exit point lies inside its critical section", (long long) q[1], (long long) c.start);
			}
		}
		if (n != 1) viol("C06", "exit point entry does not refer to a critical section", (long long) q[0], n);
	}
	if (((word) __stop___rseq_exit_point_array - (word) __start___rseq_exit_point_array) % 16) viol("C06", "exit point array has a partial entry", 0, 0);
	o_stat("descriptors", n_ptr); o_stat("exit_points", n_exit);
	/* preparing for unload */
	for (unsigned i = 0; i < n_tabs; i++) {
		put_cs((word) __start___rseq_cs);
		all_unload[i]();
		if (get_cs()) viol("C06", "rseq_cs still set after rseq_prepare_unload", (long long) get_cs(), i);
		put_cs((word) __start___rseq_cs);
		all_clearcs[i]();
		if (get_cs()) viol("C06", "rseq_cs still set after rseq_clear_rseq_cs", (long long) get_cs(), i);
		st_unload++;
	}
	plan_desc[0] = 0;
}

static char altstack[65536] __attribute__((aligned(64)));
static void on_crash(int sig, siginfo_t *si, void *ucv)
{
	ucontext_t *uc = (ucontext_t *) ucv;
	o_str("CRASH sig="); o_hex((uint64_t) sig); o_str(" ip="); o_hex(IP(uc)); o_str(" addr="); o_hex((uint64_t) (word) si->si_addr);
	o_str(" wrapper="); o_str(cur_w ? cur_w->name : "-"); o_str(" "); o_str(plan_desc); o_str(" seed="); o_hex(cur_seed); o_str("\n");
	o_flush();
	sys_exit(3);
}

int step_main(int argc, char **argv)
{
	const char *mode = argc > 1 ? argv[1] : "all", *filter = argc > 4 ? argv[4] : "";
	uint64_t seed = argc > 2 ? o_atou(argv[2]) : 1;
	int scale = argc > 3 ? (int) o_atou(argv[3]) : 1, all = !strcmp(mode, "all");
	unsigned shard = argc > 6 ? (unsigned) o_atou(argv[5]) : 0, nshard = argc > 6 ? (unsigned) o_atou(argv[6]) : 1, n = 0;
	static const int csigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT };

	area = rseq_get_abi();
	rng_s = seed * 0x9E3779B97F4A7C15ULL + shard * 7919 + 12345;
	for (int i = 0; i < 16; i++) rnd();
	sys_altstack(altstack, sizeof(altstack));
	sys_sigaction(SIGTRAP, on_trap);
	for (unsigned i = 0; i < sizeof(csigs) / sizeof(csigs[0]); i++) sys_sigaction(csigs[i], on_crash);
	(void) dummy_cs;

	if ((all || !strcmp(mode, "tables")) && shard == 0) do_tables();
	for (unsigned i = 0; i < n_tabs; i++)
		for (unsigned j = 0; j < *all_ntabs[i]; j++) {
			const struct wdesc *w = &all_tabs[i][j];
			if (n++ % nshard != shard) continue;
			if (*filter && !has(w->name, filter)) continue;
			cur_w = w;
			if (all || !strcmp(mode, "plain")) do_plain(w, 60 + 150 * scale);
#ifndef FREESTANDING
			if (all || !strcmp(mode, "wide")) { do_wide(w, scale); do_huge(w); }
#endif
			if (all || !strcmp(mode, "index")) do_index(w, scale);
			if (all || !strcmp(mode, "step")) {
				do_step(w, scale);
#ifndef FREESTANDING
				do_silent(w);
#endif
			}
			cur_w = NULL;
		}
	set_fields(0, -1, 0, 0);
	put_cs(0);
	o_stat("wrappers", n / nshard);
	o_stat("plain_runs", st_plain); o_stat("stepped_runs", st_steprun); o_stat("instructions_observed", st_steps);
	o_stat("preemptions", st_interf); o_stat("preemptions_inside_section", st_incs); o_stat("preemptions_outside_section", st_precs);
	o_stat("preemptions_after_commit", st_postcommit);
	o_stat("aborts_delivered", st_abort); o_stat("commits_observed", st_commit); o_stat("compare_failures", st_ne);
	o_stat("aborted_or_mismatch_results", st_mism); o_stat("refused_dispatches", st_refused);
	o_stat("exits_post_commit", st_exit_post); o_stat("exits_abort_branch", st_exit_abort); o_stat("exits_listed", st_exit_listed);
	o_stat("store_events", st_targets); o_stat("index_cases", st_index); o_stat("live_values_checked", st_live);
	o_stat("retried_operations", st_retry); o_stat("unload_checks", st_unload);
#ifndef FREESTANDING
	o_stat("second_compare_runs", st_silent); o_stat("second_compare_exits", st_silent_exit);
	o_stat("page_edge_runs", st_wide); o_stat("page_edge_bytes_copied", st_widebytes); o_stat("page_edge_foreign_index", st_foreign); o_stat("huge_copies", st_huge);
#endif
	o_stat("distinct", st_distinct);
	o_flush();
	return n_viol ? 1 : 0;
}
