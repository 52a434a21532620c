"""usage: gen.py OUT TU LANG : probes for every scalar type, compiled as one translation unit"""
import sys
out, tu, lang = sys.argv[1:4]
w32 = len(sys.argv) > 4
T = [('char', 'char'), ('schar', 'signed char'), ('uchar', 'unsigned char'), ('short', 'short'), ('ushort', 'unsigned short'), ('int', 'int'), ('uint', 'unsigned int'),
     ('long', 'long'), ('ulong', 'unsigned long'), ('llong', 'long long'), ('ullong', 'unsigned long long'), ('voidp', 'voidp_t'), ('bool', 'bool')]
if w32:	# wider than a register: no single access exists
    T = [x for x in T if 'llong' not in x[0]]
s = '''#include <rseq/rseq.h>
#include <stdbool.h>
#include <string.h>
#include "probe.h"
typedef void *voidp_t;
#define NI __attribute__((noinline, noclone))
#ifdef __clang__
#undef NI
#define NI __attribute__((noinline))
#endif
'''
probes, vps = [], []
for n, t in T:
    def v(k):
        if t == 'bool':
            return ['false', 'true', 'true'][k]
        x = [0x1122334455667788, 0x8a9bacbdcedfe0f1, 0xf1e2d3c4b5a6315c][k]
        return '((%s)0x%xULL)' % (t, x) if t != 'voidp_t' else '((voidp_t)(uintptr_t)0x%xULL)' % x
    s += 'extern "C" {\n' if lang == 'c++' else ''
    s += '%s d_%s, f_%s, o1_%s, o2_%s, o3_%s; static const %s vo_%s = %s, vn_%s = %s, vm_%s = %s;\n' % (t, n, n, n, n, n, t, n, v(0), n, v(1), n, v(2))
    D, F, O1, O2, N, M = 'd_' + n, 'f_' + n, 'o1_' + n, 'o2_' + n, v(1), v(2)
    body = {
        'P_REL_STORE': '%s = %s; rseq_smp_store_release(&%s, %s); %s = %s;' % (D, N, F, N, D, M),
        'P_REL_LOAD': '%s x = %s; rseq_smp_store_release(&%s, %s); %s = x;' % (t, D, F, N, O1),
        'P_ACQ_LOAD': '%s a = %s; %s b = rseq_smp_load_acquire(&%s); %s c = %s; %s = b; %s = c; o3_%s = a;' % (t, D, t, F, t, D, O1, O2, n),
        'P_ACQ_STORE': '%s b = rseq_smp_load_acquire(&%s); %s = %s; %s = b;' % (t, F, D, N, O1),
        'P_MB_SS': '%s = %s; rseq_smp_mb(); %s = %s; %s = %s;' % (D, N, F, N, D, M),
        'P_MB_LL': '%s a = %s; %s b = %s; rseq_smp_mb(); %s c = %s; %s = b; %s = c; o3_%s = a;' % (t, D, t, F, t, D, O1, O2, n),
        'P_MB_SL': '%s a = %s; %s = %s; rseq_smp_mb(); %s c = %s; %s = c; %s = %s; o3_%s = a;' % (t, D, F, N, t, D, O1, F, M, n),
        'P_WMB': '%s = %s; rseq_smp_wmb(); %s = %s; %s = %s;' % (D, N, F, N, D, M),
        'P_RMB': '%s a = %s; %s b = %s; rseq_smp_rmb(); %s c = %s; %s = b; %s = c; o3_%s = a;' % (t, D, t, F, t, D, O1, O2, n),
        'P_CTRL': '%s a = %s; %s b = RSEQ_READ_ONCE(%s); if (b == %s) { rseq_smp_acquire__after_ctrl_dep(); %s = %s; } %s = b; o3_%s = a;' % (t, D, t, F, N, O2, D, O1, n),
        'P_BARRIER': '%s = %s; rseq_barrier(); %s = %s; %s = %s;' % (D, N, F, N, D, M),
        'P_ONCE_W': 'RSEQ_WRITE_ONCE(%s, %s); RSEQ_WRITE_ONCE(%s, %s);' % (D, N, D, M if t != 'bool' else 'false'),
        'P_ONCE_R': '%s a = RSEQ_READ_ONCE(%s); %s b = a; %s = a; rseq_barrier(); %s = b;' % (t, D, t, O1, O2),
    }
    for k, b in body.items():
        s += 'NI static void pf_%s_%s(void) { %s }\n' % (k, n, b)
        probes.append('{ TU, "%s", %s, sizeof(%s), &%s, &%s, &%s, &%s, &vo_%s, &vn_%s, &vm_%s, pf_%s_%s }' % (t, k, t, D, F, O1, O2, n, n, n, k, n))
    s += '%s c_%s[3];\n' % (t, n)
    s += 'NI static void st_%s(const void *v) { %s x; memcpy(&x, v, sizeof(x)); rseq_smp_store_release(&c_%s[1], x); }\n' % (n, t, n)
    s += 'NI static void ld_%s(void *v) { %s x = rseq_smp_load_acquire(&c_%s[1]); memcpy(v, &x, sizeof(x)); }\n' % (n, t, n)
    s += 'NI static void ldcv_%s(void *v) { const volatile %s *p = &c_%s[1]; %s x = rseq_smp_load_acquire(p); memcpy(v, &x, sizeof(x)); }\n' % (n, t, n, t)
    ll = '(long long)(intptr_t)' if t == 'voidp_t' else '(long long)'
    s += 'NI static long long ldll_%s(void) { return %srseq_smp_load_acquire(&c_%s[1]); }\n' % (n, ll, n)
    s += 'NI static long long pll_%s(void) { return %s*(volatile %s *)&c_%s[1]; }\n' % (n, ll, t, n)
    s += '}\n' if lang == 'c++' else ''
    if lang == 'c++':
        ok = 'std::is_same<std::remove_cv<std::remove_reference<decltype(tl_%s())>::type>::type, %s>::value' % (n, t)
        s += 'static inline rseq_unqual_scalar_typeof(c_%s[1]) tl_%s() { return rseq_smp_load_acquire(&c_%s[1]); }\n' % (n, n, n)
        s += 'static long okt_%s(void) { const volatile %s *p = &c_%s[1]; return (%s) + (sizeof(rseq_smp_load_acquire(p)) == sizeof(%s)); }\n' % (n, t, n, ok, t)
    else:
        s += 'static long okt_%s(void) { volatile %s *p = &c_%s[1]; return _Generic((rseq_smp_load_acquire(&c_%s[1])), %s: 1, default: 0) + (sizeof(rseq_smp_load_acquire(p)) == sizeof(%s)); }\n' % (n, t, n, n, t, t)
    vps.append('{ TU, "%s", sizeof(%s), 0, 0, 2, c_%s, st_%s, ld_%s, ldcv_%s, ldll_%s, pll_%s }' % (t, t, n, n, n, n, n, n))
s = s.replace('TU,', '"%s",' % tu)
s += 'extern "C" {\n' if lang == 'c++' else ''
s += 'NI static void sb_run(volatile int *x, volatile int *y, int *r) { *x = 1; rseq_smp_mb(); *r = *y; }\n'
# a leaf that keeps live values in the red zone around the barrier
s += '''NI static long rz(long s) {
	volatile long a[14]; long r = 0;
	for (int i = 0; i < 14; i++) a[i] = s * (i + 3);
	rseq_smp_mb();
	for (int i = 0; i < 14; i++) r += a[i] ^ (i * 7);
	rseq_smp_mb(); rseq_smp_rmb(); rseq_smp_wmb();
	for (int i = 0; i < 14; i++) r += a[i] * (i + 1);
	return r;
}
'''
s += 'static const struct probe P[] = {\n%s };\nstatic struct vprobe VP[] = {\n%s };\n' % (',\n'.join(probes), ',\n'.join(vps)) 
s = s.replace('{ TU,', '{ "%s",' % tu)
s += 'static const struct sb SB = { "%s", sb_run, rz };\n' % tu
s += 'struct mtab mtab_%s = { P, sizeof(P) / sizeof(P[0]), VP, sizeof(VP) / sizeof(VP[0]), &SB };\n' % tu
s += 'void minit_%s(void) { %s }\n' % (tu, ' '.join('VP[%d].n_types_ok = okt_%s(); VP[%d].is_signed = 0;' % (i, n, i) for i, (n, t) in enumerate(T)))
s += '}\n' if lang == 'c++' else ''
# per-TU names so that all units link together
import re
names = [p + n for n, _ in T for p in ('d_', 'f_', 'o1_', 'o2_', 'o3_', 'c_')]
pat = re.compile(r'\b(%s)\b' % '|'.join(names))
s = pat.sub(lambda m: m.group(1) + '__' + tu, s)
open(out, 'w').write(s)
