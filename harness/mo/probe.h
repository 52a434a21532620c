#ifndef PROBE_H
#define PROBE_H
#ifdef __cplusplus
extern "C" {
#endif
#include <stddef.h>
enum pkind { P_REL_STORE, P_REL_LOAD, P_ACQ_LOAD, P_ACQ_STORE, P_MB_SS, P_MB_LL, P_MB_SL, P_WMB, P_RMB, P_CTRL, P_BARRIER, P_ONCE_W, P_ONCE_R, NPKIND };
struct probe {
	const char *tu, *type;
	int kind;
	unsigned size;
	volatile void *data, *flag, *out1, *out2;
	const void *v_old, *v_new, *v_new2;
	void (*fn)(void);
};
struct vprobe {		/* values through the primitives */
	const char *tu, *type;
	unsigned size;
	int is_signed;
	long n_types_ok, n_types;
	volatile void *cell;		/* [3], the middle one is used */
	void (*st)(const void *v);
	void (*ld)(void *v);
	void (*ldcv)(void *v);
	long long (*ldll)(void);
	long long (*pll)(void);
};
struct sb { const char *tu; void (*a)(volatile int *x, volatile int *y, int *r); long (*redzone)(long); };
struct mtab { const struct probe *p; unsigned np; const struct vprobe *v; unsigned nv; const struct sb *sb; };
#ifdef __cplusplus
}
#endif
#endif
