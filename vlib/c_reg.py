"""C07-C10, C25: registration, queries, CPU discovery, ordering primitives."""
import os
from .core import Check, CheckError, build, sh, pmap, unit, compile_failures, REPO, HARN, LIBFLAGS, LIBLINK, lib_sources, MAXPAR
from .c_step import can32

INC = ['-I' + os.path.join(HARN, 'common')]
OWN = {'GLIBC_TUNABLES': 'glibc.pthread.rseq=0'}


def build_reg(cc='gcc', fl=('-O2',)):
    H = HARN + '/reg'

    def b(d):
        sh([cc, '-g', '-w', '-D_GNU_SOURCE', '-fPIC', '-shared', '-O1', H + '/fake.c', '-o', d + '/libfake.so'])
        sh([cc, '-g', '-w'] + list(fl) + LIBFLAGS + INC + [H + '/reg.c'] + lib_sources() + ['-o', d + '/reg', '-L' + d, '-lfake', '-Wl,-rpath,$ORIGIN'] + LIBLINK)
    return build('reg_' + cc, ['reg', 'common'], b, key=str((cc, fl))) + '/reg'


def build_one(name, sub, cc='gcc', fl=('-O2',)):
    def b(d):
        sh([cc, '-g', '-w'] + list(fl) + LIBFLAGS + INC + [HARN + '/%s/%s.c' % (sub, name)] + lib_sources() + ['-o', d + '/' + name] + LIBLINK)
    return build(name + '_' + cc, [sub, 'common'], b, key=str((name, cc, fl))) + '/' + name


def _reg_plan(c, pid):
    ex = pmap(lambda f: f(), [build_reg, lambda: build_reg('clang', ('-O1',)), lambda: build_one('regreal', 'reg')])
    s = 20 if c.quick else 240
    base = (int(pid[1:]) * 1009 + c.seed) * 1000
    cmds, envs = [], []
    for i in range(6):
        cmds.append([ex[i % 2], str(base + i), str(s)])
        envs.append(None)
    for e in (None, OWN):
        cmds.append([ex[2], str(base + 10), str(s)])
        envs.append(e)
    c.run_many(cmds, timeout=60 + 3 * s, envs=envs)


def _mk_reg(rule, evals):
    def chk(pid, tier, seed):
        c = Check(pid, tier, seed, 'fault_enumeration' if pid == 'C07' else 'exploration')
        c.rule, c.eval_keys = rule, evals
        c.assumptions = ['the emulated kernel and C library behave as the rseq system call and glibc document; the real kernel and glibc of this machine are run too']
        _reg_plan(c, pid)
        return c
    return chk


def c10(pid, tier, seed):
    c = Check(pid, tier, seed, 'fault_enumeration')
    c.rule = 'case = one sysfs tree, configured count and split/interrupt/failure plan, queried in a fresh process; distinct = distinct (list text, failure, configured count, directories)'
    c.eval_keys = ['lists']
    c.assumptions = ['the kernel lists possible CPUs in increasing order']
    ex = pmap(lambda a: build_one('smp', 'smp', *a), [('gcc', ('-O2',)), ('clang', ('-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'))])
    s = 20 if c.quick else 240
    c.run_many([[ex[i % 2], str(seed * 100 + i), str(s)] for i in range(8)], timeout=60 + 3 * s, envs=[{'ASAN_OPTIONS': 'detect_leaks=0'}] * 8)
    return c


MOTU = [('gccO0', 'gcc', 'c', ['-O0']), ('gccO1', 'gcc', 'c', ['-O1']), ('gccO2', 'gcc', 'c', ['-O2']), ('gccO3', 'gcc', 'c', ['-O3']), ('gccOs', 'gcc', 'c', ['-Os']),
        ('clO0', 'clang', 'c', ['-O0']), ('clO1', 'clang', 'c', ['-O1']), ('clO2', 'clang', 'c', ['-O2']), ('clO3', 'clang', 'c', ['-O3']),
        ('gxxO2', 'g++', 'c++', ['-O2']), ('gxxO0', 'g++', 'c++', ['-O0']), ('clxxO2', 'clang++', 'c++', ['-O2'])]


def build_mo():
    H = HARN + '/mo'

    def b(d):
        def tu(t):
            n, cc, lang, fl = t
            src = '%s/p_%s.%s' % (d, n, 'c' if lang == 'c' else 'cc')
            sh(['python3', H + '/gen.py', src, n, lang])
            return unit([cc, '-w', '-D_GNU_SOURCE', '-I' + REPO + '/include', '-I' + H, '-c', src, '-o', '%s/p_%s.o' % (d, n)] + fl, [cc, '-x', lang], fl, d, n)
        MOK = [t for t, ok in zip(MOTU, pmap(tu, MOTU)) if ok]
        with open(d + '/tab.c', 'w') as f:
            f.write('#include "probe.h"\n')
            for t in MOK:
                f.write('extern struct mtab mtab_%s; void minit_%s(void);\n' % (t[0], t[0]))
            f.write('struct mtab *const mtabs[] = { %s };\n' % ', '.join('&mtab_' + t[0] for t in MOK))
            f.write('void (*const minits[])(void) = { %s };\nconst unsigned n_mtabs = %d;\n' % (', '.join('minit_' + t[0] for t in MOK), len(MOK)))
        sh(['gcc', '-g', '-w', '-O1'] + LIBFLAGS + INC + ['-I' + H, H + '/mo.c', d + '/tab.c'] + ['%s/p_%s.o' % (d, t[0]) for t in MOK] + lib_sources() + ['-o', d + '/mo'] + LIBLINK)
    return build('mo', ['mo', 'common'], b, key=str(MOTU))


MO32 = [('g32O1', 'gcc', ['-O1', '-fno-pie']), ('g32O2', 'gcc', ['-O2', '-fno-pie']), ('g32O3', 'gcc', ['-O3', '-fno-pie']), ('g32pic', 'gcc', ['-O2', '-fPIC']), ('g32O0', 'gcc', ['-O0', '-fno-pie']),
        ('c32O2', 'clang', ['-O2', '-fno-pie']), ('c32O1', 'clang', ['-O1', '-fno-pie']), ('c32O0', 'clang', ['-O0', '-fno-pie'])]


def build_mo32():
    """The probes as x86-32 code without a C library; no executable if the header cannot be used that way here."""
    H = HARN + '/mo'

    def b(d):
        os.makedirs(d + '/inc/gnu')
        open(d + '/inc/gnu/stubs-32.h', 'w').close()
        F = ['-m32', '-U_FORTIFY_SOURCE', '-fno-stack-protector', '-ffreestanding', '-fomit-frame-pointer', '-I' + d + '/inc', '-idirafter', '/usr/include/x86_64-linux-gnu']

        def tu(t):
            n, cc, fl = t
            src = '%s/p_%s.c' % (d, n)
            sh(['python3', H + '/gen.py', src, n, 'c', '32'])
            try:
                return unit([cc, '-w', '-D_GNU_SOURCE', '-I' + REPO + '/include', '-I' + H, '-c', src, '-o', '%s/p_%s.o' % (d, n)] + F + fl, [cc], F + fl, d, n)
            except CheckError:
                return False
        ok = [t[0] for t, k in zip(MO32, pmap(tu, MO32)) if k]
        if not ok:
            return
        with open(d + '/tab.c', 'w') as f:
            f.write('#include "probe.h"\n')
            for t in ok:
                f.write('extern struct mtab mtab_%s; void minit_%s(void);\n' % (t, t))
            f.write('struct mtab *const mtabs[] = { %s };\n' % ', '.join('&mtab_' + t for t in ok))
            f.write('void (*const minits[])(void) = { %s };\nconst unsigned n_mtabs = %d;\n' % (', '.join('minit_' + t for t in ok), len(ok)))
        for n, src in (('tab', d + '/tab.c'), ('mo32', H + '/mo32.c')):
            sh(['gcc', '-O1', '-g', '-w', '-fno-pie', '-D_GNU_SOURCE', '-I' + H] + F + ['-c', src, '-o', d + '/%s.o' % n])
        sh(['ld', '-m', 'elf_i386', '-o', d + '/mo32', d + '/mo32.o', d + '/tab.o'] + ['%s/p_%s.o' % (d, t) for t in ok])
    return build('mo32', ['mo', 'step'], b, key=str(MO32))


def c25(pid, tier, seed):
    c = Check(pid, tier, seed)
    c.rule = 'case = one probe (primitive x scalar type x compiler/level) executed with every instruction boundary observed or changed, one value passed, or one round of a two-core litmus; distinct = distinct (probe, boundary)'
    c.eval_keys = ['stepped_probe_runs', 'values_passed', 'store_buffering_rounds', 'store_buffering_rounds_32bit']
    c.assumptions = ['x86: only the full barrier needs a processor fence; the other architectures\' primitives are not executed; x86-32 code is executed where the kernel runs it']
    d = build_mo()
    ex = d + '/mo'
    for n, e in compile_failures(d):
        c.violation('ordering primitives do not compile for all scalar types as %s' % n, e)
    s = 20 if c.quick else 240
    c.run_many([[ex, str(seed + i), str(s), str(i), '8'] for i in range(8)], timeout=240 + 3 * s)
    c.run_many([[ex, str(seed * 7 + i), str(s), '0', '0'] for i in range(2)], timeout=60 + 3 * s)
    d = build_mo32()
    for n, e in compile_failures(d):
        c.violation('ordering primitives do not compile for all scalar types as %s (x86-32)' % n, e)
    if os.path.exists(d + '/mo32') and can32(d + '/mo32'):
        c.run_many([[d + '/mo32', str(seed * 3 + i), '200000' if c.quick else '2000000'] for i in range(2)], timeout=60 if c.quick else 600)
    return c


CHECKS = {
    'C07': _mk_reg('case = one emulated world (C library symbols and size, kernel feature size, refusals, threads, early registration) run in its own process, or one call on the real kernel; distinct = distinct worlds', ['registrations', 'unregistrations', 'real_registrations', 'real_unregistrations']),
    'C08': _mk_reg('case = one emulated world or real one whose published size, flags, predicates and availability answers were compared with the model; distinct = distinct worlds', ['world_checks', 'real_worlds']),
    'C09': _mk_reg('case = one round of all queries in a known thread state (emulated or pinned on the real kernel); distinct = distinct worlds and (state, CPU)', ['query_rounds', 'real_query_rounds']),
    'C10': c10,
    'C25': c25,
}
