#!/usr/bin/env python3
"""Generate one translation unit of wrapper functions around the public
rseq helpers.  usage: wrap_gen.py OUT TUID PTRBITS"""
import sys
out, tu, bits = sys.argv[1], sys.argv[2], int(sys.argv[3])
W = bits // 8
OPS = {
 'CBNE_STORE': ('rseq_load_cbne_store__ptr', ['v','expect','newv'], ['RELAXED']),
 'POP': ('rseq_load_cbeq_store_add_load_store__ptr', ['v','expect','off','load'], ['RELAXED']),
 'ADD': ('rseq_load_add_store__ptr', ['v','count'], ['RELAXED']),
 'DEREF_ADD': ('rseq_load_add_load_load_add_store__ptr', ['v','off','count'], ['RELAXED']),
 'STORE_STORE': ('rseq_load_cbne_store_store__ptr', ['v','expect','v2','newv2','newv'], ['RELAXED','RELEASE']),
 'CBNE2': ('rseq_load_cbne_load_cbne_store__ptr', ['v','expect','v2','expect2','newv'], ['RELAXED']),
 'MEMCPY': ('rseq_load_cbne_memcpy_store__ptr', ['v','expect','dst','src','len','newv'], ['RELAXED','RELEASE']),
}
CT = dict(v='intptr_t *', expect='intptr_t ', v2='intptr_t *', expect2='intptr_t ', newv2='intptr_t ',
          newv='intptr_t ', dst='void *', src='void *', len='size_t ', off='long ', load='intptr_t *',
          count='intptr_t ', cpu='int ')
L, tab = [], []
big = '(intptr_t)0x123456789abcdefLL' if W == 8 else '(intptr_t)0x12345678L'
s31 = '(intptr_t)0x80000000LL'
imin = '(intptr_t)((uintptr_t)1 << %d)' % (bits-1)
# constant operand sets per op
CONSTS = {
 'CBNE_STORE': [dict(expect='0',newv='1'), dict(expect='-1',newv=big), dict(expect=s31,newv='0x7fffffff'), dict(expect=big,newv=imin)],
 'POP': [dict(expect='0',off='0'), dict(expect='0',off=str(W)), dict(off='-%d'%W), dict(expect='1',off='2*%d'%W), dict(off='(long)'+big), dict(expect='0',off='(long)'+s31)],
 'ADD': [dict(count='1'), dict(count='-1'), dict(count='0x7fffffff'), dict(count=s31), dict(count=big), dict(count=imin)],
 'DEREF_ADD': [dict(off=str(W),count='1'), dict(off='0',count='-1'), dict(off='-%d'%W,count=s31), dict(count=big), dict(off='(long)'+big,count='1'), dict(off='(long)'+s31)],
 'STORE_STORE': [dict(expect='0',newv='1',newv2='2'), dict(newv='-1',newv2=big), dict(expect=big,newv2='-5',newv=s31), dict(expect='7',newv2='7',newv='9')],
 'CBNE2': [dict(expect='0',expect2='0',newv='1'), dict(expect=s31,expect2=big,newv='-1'), dict(expect2='-1',newv='0x7fffffff')],
 'MEMCPY': [dict(len='0',newv='1'), dict(len='1',expect='0'), dict(len='16',newv='16',expect='0'), dict(len='33',newv=big), dict(len='8',newv='-8')],
}
# operand relations: (name, {arg: C expression over earlier locals b / others})
SHARE = {
 'CBNE_STORE': [('base',dict(v='&b->v',newv='(intptr_t)b')), ('selfptr',dict(v='&b->v',newv='(intptr_t)&b->v'))],
 'POP': [('base',dict(v='&b->v',load='&b->v2')), ('next',dict(v='&b->v',load='&b->next[0]',expect='(intptr_t)b'))],
 'ADD': [('base',dict(v='&b->v',count='(intptr_t)b'))],
 'DEREF_ADD': [('base',dict(v='&b->v',count='(intptr_t)b'))],
 'STORE_STORE': [('base',dict(v='&b->v',v2='&b->v2')), ('eqnew',dict(newv2='newv')), ('eqexp',dict(newv2='expect')),
                 ('ptr',dict(v='&b->v',v2='&b->v2',newv='(intptr_t)b',newv2='(intptr_t)&b->v'))],
 'CBNE2': [('base',dict(v='&b->v',v2='&b->v2')), ('eqexp',dict(expect2='expect')), ('ptr',dict(v='&b->v',v2='&b->v2',newv='(intptr_t)b'))],
 'MEMCPY': [('base',dict(v='&b->v',dst='(void *)b->data')), ('newlen',dict(newv='(intptr_t)len')),
            ('basenewlen',dict(v='&b->v',dst='(void *)b->data',newv='(intptr_t)len')),
            ('newsrc',dict(newv='(intptr_t)src')), ('newdst',dict(newv='(intptr_t)dst')),
            ('exlen',dict(expect='(intptr_t)len')), ('srcbase',dict(v='&b->v',src='(void *)b->data')),
            ('data2',dict(v='&b->v',dst='(void *)(b->data+16)'))],
}
LOCSUM = 'intptr_t'

def emit(op, mo, mode, shape, over=None, consts=None, nlive=0, flags=0, rt=False, retry=False, pre=False, share=False, local=False):
    fn, args, _ = OPS[op]
    if bits == 32:
        # x86-32 has too few registers for these operand forms: they do not compile
        if op == 'DEREF_ADD' or (op == 'POP' and not shape.startswith(('const', 'local'))): return
        if tu.startswith('clang') and op == 'MEMCPY' and 'retry' in shape: return
    n = len(tab)
    name = 'w%d' % n
    over = over or {}; consts = consts or {}
    o = ['static int %s(struct sargs *a)' % name, '{']
    if share: o.append('\tstruct blk *b = a->blk;')
    # order: plain args first, then those overridden
    for x in args + ['cpu']:
        if x in over or x in consts: continue
        o.append('\t%s%s = a->%s;' % (CT[x], x, x))
    for x in args:
        if x in over: o.append('\t%s%s = %s;' % (CT[x], x, over[x]))
    for i in range(nlive):
        o.append('\tunsigned long l%d = a->live[%d];' % (i, i))
    o.append('\tint r;')
    if pre:
        if op == 'MEMCPY': o.append('\t((unsigned char *) src)[0] = a->pre;')
        elif op == 'CBNE2': o.append('\t*v2 = a->prew;')
        elif op == 'POP': o.append('\t*(intptr_t *)((char *) a->newv2 + off) = a->prew;')   # newv2: node address
        elif op == 'DEREF_ADD': o.append('\t*(intptr_t *) a->newv2 = a->prew;')             # newv2: target word address
        elif op in ('CBNE_STORE','ADD','STORE_STORE'): o.append('\t*v = a->prew;')
    loc = [x for x in ('v', 'v2', 'load') if local and x in args]
    for x in loc: o.append('\tintptr_t loc_%s = *%s;' % (x, x))
    def val(x): return '(%s)' % consts[x] if x in consts else '&loc_' + x if x in loc else x
    mexp = '(enum rseq_mo) a->mo' if rt else 'RSEQ_MO_' + mo
    dexp = '(enum rseq_percpu_mode) a->mode' if rt else ('RSEQ_PERCPU_CPU_ID' if mode == 'CPU_ID' else 'RSEQ_PERCPU_MM_CID')
    call = '%s(%s, %s, %s, cpu)' % (fn, mexp, dexp, ', '.join(val(x) for x in args))
    if retry:
        o.append('\tint t = 0;')
        o.append('\tdo {\n\t\tr = %s;\n\t\tt++;\n\t} while (r == -1 && t < a->maxtries);' % call)
        o.append('\ta->tries = t;')
    else:
        o.append('\tr = %s;' % call)
    for x in loc: o.append('\t*%s = loc_%s;' % (x, x))
    after = {'CBNE_STORE':'*v','ADD':'*v','STORE_STORE':'*v2','POP':'*load','CBNE2':'*v','MEMCPY':'*v','DEREF_ADD':None}[op]
    has_after = 0
    if pre:
        if after: o.append('\ta->after = %s;' % after); has_after = 1
        if op == 'MEMCPY': o.append('\t((unsigned char *) src)[0] = a->post;')
        elif op == 'CBNE2': o.append('\t*v2 = a->postw;')
        elif op == 'POP': o.append('\t*(intptr_t *)((char *) a->newv2 + off) = a->postw;')
        elif op == 'DEREF_ADD':
            o.append('\ta->after = *(intptr_t *) a->newv2;\n\t*(intptr_t *) a->newv2 = a->postw;'); has_after = 1
    echo = []
    for x in args + ['cpu']:
        if x in consts: continue
        o.append('\ta->e_%s = %s;' % (x, x)); echo.append('E_' + x.upper())
    for i in range(nlive):
        o.append('\ta->e_live[%d] = l%d;' % (i, i))
    o.append('\treturn r;\n}')
    ps = 'NULL'
    if over or consts or share:
        ps = 'p%d' % n
        o.append('static void %s(struct sargs *a)\n{' % ps)
        if share: o.append('\tstruct blk *b = a->blk;')
        for x, c in consts.items(): o.append('\ta->%s = %s;' % (x, c))
        import re
        for x, c in over.items():
            c2 = re.sub(r'\b(len|src|dst|newv|expect)\b', r'a->\1', c)
            o.append('\ta->%s = %s;' % (x, c2))
        if share: o.append('\t(void) b;')
        o.append('}')
    fl = []
    if rt: fl.append('SF_RUNTIME')
    if pre: fl += ['SF_PRE', 'SF_NOSTEP']
    if local: fl.append('SF_NOSTEP')
    if retry: fl.append('SF_RETRY')
    fl.append('TWICE_FLAG')
    L.append(('DEREF', '\n'.join(o)) if op == 'DEREF_ADD' else ('', '\n'.join(o)))
    row = '\t{ "%s:%s_%s_%s:%s", %s, %s, OP_%s, RSEQ_MO_%s, %d, %s, %s, %d, %d },' % (
        tu, op, mo, mode, shape, name, ps, op, mo, 0 if mode == 'CPU_ID' else 1, '|'.join(fl) or '0', '|'.join(echo), nlive, has_after)
    tab.append(('DEREF' if op == 'DEREF_ADD' else '', row))

for op in OPS:
    for mo in OPS[op][2]:
        for mode in ('CPU_ID', 'MM_CID'):
            emit(op, mo, mode, 'plain')
            for nl in (2, 4, 6, 8):
                emit(op, mo, mode, 'live%d' % nl, nlive=nl)
            emit(op, mo, mode, 'retry', retry=True, nlive=3)
            emit(op, mo, mode, 'pre', pre=True, nlive=1)
            emit(op, mo, mode, 'local', local=True, nlive=5)
            for i, c in enumerate(CONSTS[op]):
                emit(op, mo, mode, 'const%d' % i, consts=c, nlive=i)
            for nm, ov in SHARE[op]:
                emit(op, mo, mode, 'share-' + nm, over=ov, share=any('b' in v and 'b->' in v or '(intptr_t)b' in v for v in ov.values()), nlive=2)
                emit(op, mo, mode, 'shareretry-' + nm, over=ov, share=any('b->' in v or '(intptr_t)b' in v for v in ov.values()), retry=True)
    emit(op, 'RELAXED', 'CPU_ID', 'runtime', rt=True, nlive=2)

with open(out, 'w') as f:
    f.write('/* generated */\n#include <rseq/rseq.h>\n#include "step.h"\n')
    f.write('#ifdef RSEQ_COMPARE_TWICE\n#define TWICE_FLAG SF_TWICE\n#else\n#define TWICE_FLAG 0\n#endif\n')
    f.write('#pragma GCC diagnostic ignored "-Wunused-parameter"\n')
    for c, t in L:
        if c: t = '#ifdef rseq_arch_has_load_add_load_load_add_store\n' + t + '\n#endif'
        f.write(t + '\n\n')
    f.write('#ifdef __cplusplus\nextern "C" {\n#endif\n')
    f.write('extern const struct wdesc wtab_%s[];\nextern const unsigned nwtab_%s;\n' % (tu, tu))
    f.write('const struct wdesc wtab_%s[] = {\n' % tu)
    for c, r in tab:
        if c: r = '#ifdef rseq_arch_has_load_add_load_load_add_store\n' + r + '\n#endif'
        f.write(r + '\n')
    f.write('};\nconst unsigned nwtab_%s = sizeof(wtab_%s) / sizeof(wtab_%s[0]);\n' % (tu, tu, tu))
    f.write('void unload_%s(void);\nvoid unload_%s(void) { rseq_prepare_unload(); }\n' % (tu, tu))
    f.write('void clearcs_%s(void);\nvoid clearcs_%s(void) { rseq_clear_rseq_cs(); }\n' % (tu, tu))
    f.write('#ifdef __cplusplus\n}\n#endif\n')
