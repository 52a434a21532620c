/* Boundary observers and value checks, shared by the 64-bit and the 32-bit monitor. */
static const char *const kname[] = { "store-release after a store", "store-release after a load", "load-acquire before a load", "load-acquire before a store", "full barrier between stores", "full barrier between loads",
	"full barrier store-load", "write barrier", "read barrier", "acquire after control dependency", "compiler barrier", "single write", "single read" };
static const struct probe *cp;
static volatile long bnd, at, bad, saw_mid;
static volatile int acted;
static int is(volatile void *p, const void *v) { return !memcmp((void *)p, v, cp->size); }
static void setv(volatile void *p, const void *v) { memcpy((void *)p, v, cp->size); }
static char zero[16];
static void observe(void)
{
	long k = bnd++;
	switch (cp->kind) {
	case P_REL_STORE: case P_MB_SS: case P_WMB: case P_BARRIER:
		if (is(cp->flag, cp->v_new) && !is(cp->data, cp->v_new) && !is(cp->data, cp->v_new2)) bad = 1;
		break;
	case P_REL_LOAD:	/* once the flag is out, the next owner changes the data */
		if (!acted && is(cp->flag, cp->v_new)) { setv(cp->data, cp->v_new); acted = 1; }
		break;
	case P_ACQ_LOAD: case P_MB_LL: case P_RMB: case P_CTRL:
		if (k == at) { setv(cp->data, cp->v_new); setv(cp->flag, cp->v_new); acted = 1; }
		break;
	case P_ACQ_STORE:
		if (!acted && is(cp->data, cp->v_new)) { setv(cp->flag, cp->v_new); acted = 1; }
		break;
	case P_MB_SL:	/* the other side: data changes before our flag store */
		if (k == at && is(cp->flag, cp->v_old)) { setv(cp->data, cp->v_new); acted = 1; }
		break;
	case P_ONCE_W:
		if (is(cp->data, cp->v_new)) saw_mid = 1;
		else if (!is(cp->data, cp->v_old) && !is(cp->data, cp->v_new2) && !is(cp->data, zero)) bad = 1;
		break;
	case P_ONCE_R:
		if (k == at) { setv(cp->data, cp->v_new); acted = 1; }
		break;
	}
}
static void onstep(int s, siginfo_t *si, void *u) { (void)s; (void)si; (void)u; observe(); }
__attribute__((noinline)) static void stepcall(void (*fn)(void))
{
#ifdef __i386__
	__asm__ volatile("pushfl; orl $0x100, (%%esp); popfl; call *%0; pushfl; andl $~0x100, (%%esp); popfl" :: "b"(fn) : "eax", "ecx", "edx", "memory", "cc");
#else
	__asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq; call *%0; pushfq; andq $~0x100, (%%rsp); popfq" :: "r"(fn) : "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "memory", "cc",
		"xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7");
#endif
}
static void once(void)
{
	setv(cp->data, cp->v_old);
	setv(cp->flag, cp->v_old);
	setv(cp->out1, cp->v_old);
	setv(cp->out2, cp->v_old);
	bnd = bad = acted = saw_mid = 0;
	stepcall(cp->fn);
	stat_add("stepped_probe_runs", 1);
	stat_add("boundaries_observed", bnd);
	distinct(hmix2((uint64_t)(uintptr_t)cp, hmix2((uint64_t)at, (uint64_t)bnd)));
}
static void run_probe(const struct probe *p)
{
	long n;
	cp = p;
	at = -1;
	once();
	n = bnd;
#define B(msg) viol("C25", "%s, type %s, compiled as %s: " msg, kname[p->kind], p->type, p->tu)
	switch (p->kind) {
	case P_REL_STORE: case P_MB_SS: case P_WMB: case P_BARRIER:
		if (bad) B("the second store is visible while the first is not");
		if (!is(p->flag, p->v_new) || !is(p->data, p->v_new2)) B("final values are wrong");
		return;
	case P_REL_LOAD:
		if (!acted) B("the release store was never seen");
		if (!is(p->out1, p->v_old)) B("a load made before the release returned data written after it");
		return;
	case P_ACQ_STORE:
		if (acted && is(p->out1, p->v_new)) B("a store made after the acquire was visible before the acquiring load");
		return;
	case P_ONCE_W:
		if (!saw_mid) B("the first of two writes never happened");
		if (bad) B("a torn value was visible");
		return;
	}
	for (at = 0; at < n; at++) {
		long a = at;
		once();
		switch (p->kind) {
		case P_ACQ_LOAD: case P_MB_LL: case P_RMB:
			if (is(p->out1, p->v_new) && !is(p->out2, p->v_new)) { viol("C25", "%s, type %s, compiled as %s: new flag with old data when both change at instruction boundary %ld", kname[p->kind], p->type, p->tu, a); return; }
			break;
		case P_CTRL:
			if (is(p->out1, p->v_new) && !is(p->out2, p->v_new)) { viol("C25", "%s, type %s, compiled as %s: new flag with old data when both change at instruction boundary %ld", kname[p->kind], p->type, p->tu, a); return; }
			break;
		case P_MB_SL:
			if (acted && !is(p->out1, p->v_new)) { viol("C25", "%s, type %s, compiled as %s: the load returned a value older than the store at boundary %ld", kname[p->kind], p->type, p->tu, a); return; }
			break;
		case P_ONCE_R:
			if (memcmp((void *)p->out1, (void *)p->out2, p->size)) { viol("C25", "%s, type %s, compiled as %s: one read gave two values at boundary %ld", kname[p->kind], p->type, p->tu, a); return; }
			break;
		}
	}
}
static void run_values(const struct vprobe *v)
{
	unsigned char pat[3][16], got[16], cell[48];
	if (v->n_types_ok != v->n_types)
		viol("C25", "type %s, compiled as %s: load-acquire does not have the type of the object", v->type, v->tu);
	for (int i = 0; i < 400; i++) {
		uint64_t x = i < 64 ? 1ull << i : i < 128 ? ~(1ull << (i - 64)) : i == 128 ? 0 : i == 129 ? ~0ull : rnd();
		int isb = !strcmp(v->type, "bool");
		for (int k = 0; k < 3; k++) { uint64_t y = k == 1 ? x : rnd(); if (isb) y &= 1; memcpy(pat[k], &y, 8); }
		for (int k = 0; k < 3; k++) memcpy((char *)v->cell + (size_t)k * v->size, pat[k == 1 ? 2 : k], v->size);
		v->st(pat[1]);
		memcpy(cell, (void *)v->cell, 3 * v->size);
		stat_add("values_passed", 1);
		if (memcmp(cell, pat[0], v->size) || memcmp(cell + 2 * v->size, pat[2], v->size))
			viol("C25", "type %s, compiled as %s: store-release changed a neighbour", v->type, v->tu);
		if (memcmp(cell + v->size, pat[1], v->size))
			viol("C25", "type %s, compiled as %s: store-release of %#llx stored something else", v->type, v->tu, (unsigned long long)x);
		v->ld(got);
		if (memcmp(got, pat[1], v->size))
			viol("C25", "type %s, compiled as %s: load-acquire of %#llx returned something else", v->type, v->tu, (unsigned long long)x);
		v->ldcv(got);
		if (memcmp(got, pat[1], v->size))
			viol("C25", "type %s, compiled as %s: load-acquire through a qualified pointer returned something else", v->type, v->tu);
		if (v->ldll() != v->pll())
			viol("C25", "type %s, compiled as %s: load-acquire of %#llx lost width or sign (%lld, %lld expected)", v->type, v->tu, (unsigned long long)x, v->ldll(), v->pll());
		if (hc_viols > 8) return;
	}
}
