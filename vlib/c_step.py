"""C01-C06: restartable sequences under the virtual-kernel monitor and the real kernel."""
import os, subprocess
from .core import Check, CheckError, build, sh, pmap, unit, compile_failures, REPO, HARN, LIBFLAGS, LIBLINK, lib_sources, MAXPAR

# (id, compiler, flags)
PRIMARY = [
    ('gccO2', ['gcc'], ['-O2']),
    ('clangO2', ['clang'], ['-O2']),
    ('gxxO0', ['g++', '-x', 'c++'], ['-O0']),
    ('gccO2tw', ['gcc'], ['-O2', '-DRSEQ_COMPARE_TWICE']),
]
SECONDARY = [
    ('gccO0', ['gcc'], ['-O0']),
    ('gccO1', ['gcc'], ['-O1']),
    ('gccO3pic', ['gcc'], ['-O3', '-fPIC']),
    ('gccOs', ['gcc'], ['-Os']),
    ('gccO2fp', ['gcc'], ['-O2', '-fno-omit-frame-pointer', '-fstack-protector-all']),
    ('clangO0', ['clang'], ['-O0']),
    ('clangO1', ['clang'], ['-O1']),
    ('clangO3pic', ['clang'], ['-O3', '-fPIC']),
    ('gxxO2', ['g++', '-x', 'c++'], ['-O2']),
    ('clxxO2', ['clang++', '-x', 'c++'], ['-O2']),
    ('clxxO0', ['clang++', '-x', 'c++'], ['-O0']),
    ('clangO2tw', ['clang'], ['-O2', '-DRSEQ_COMPARE_TWICE']),
]


def _reg(tus):
    s = '#include "step.h"\n'
    for t in tus:
        s += 'extern const struct wdesc wtab_%s[]; extern const unsigned nwtab_%s; void unload_%s(void); void clearcs_%s(void);\n' % (t, t, t, t)
    j = lambda f: ', '.join(f % t for t in tus)
    s += 'const struct wdesc *const all_tabs[] = { %s };\n' % j('wtab_%s')
    s += 'const unsigned *const all_ntabs[] = { %s };\n' % j('&nwtab_%s')
    s += 'void (*const all_unload[])(void) = { %s };\n' % j('unload_%s')
    s += 'void (*const all_clearcs[])(void) = { %s };\n' % j('clearcs_%s')
    s += 'const unsigned n_tabs = %d;\n' % len(tus)
    return s


def build_step(which):
    tus = PRIMARY if which == 'A' else SECONDARY
    H = os.path.join(HARN, 'step')

    def b(d):
        def tu(t):
            tid, cc, fl = t
            src = os.path.join(d, 'w_%s.c' % tid)
            sh(['python3', H + '/wrap_gen.py', src, tid, '64'])
            return unit(cc + fl + ['-w', '-D_GNU_SOURCE', '-I' + REPO + '/include', '-I' + H, '-c', src, '-o', src[:-2] + '.o'], cc, fl, d, tid)
        tok = [t for t, ok in zip(tus, pmap(tu, tus)) if ok]
        with open(d + '/reg.c', 'w') as f:
            f.write(_reg([t[0] for t in tok]))
        sh(['gcc', '-O1', '-g', '-w'] + LIBFLAGS + ['-I' + H, H + '/step.c', H + '/main64.c', d + '/reg.c'] + lib_sources() +
           [os.path.join(d, 'w_%s.o' % t[0]) for t in tok] + ['-o', d + '/step'] + LIBLINK)
    return build('step' + which, ['step'], b, key=str(tus)) + '/step'


# x86-32: no C library here, so the monitor runs freestanding.  Frame pointers or -O0
# leave too few registers for the operations to compile, so those are not built.
X32 = [
    ('gccO2', ['gcc'], ['-O2', '-fno-pie']),
    ('gccO2pic', ['gcc'], ['-O2', '-fPIC']),
    ('clangO2', ['clang'], ['-O2', '-fno-pie']),
    ('gccO2tw', ['gcc'], ['-O2', '-fno-pie', '-DRSEQ_COMPARE_TWICE']),
    ('gccO1', ['gcc'], ['-O1', '-fno-pie']),
    ('gccO3', ['gcc'], ['-O3', '-fno-pie']),
    ('clangO1', ['clang'], ['-O1', '-fno-pie']),
    ('clangO2pic', ['clang'], ['-O2', '-fPIC']),
]


def build_step32():
    H = os.path.join(HARN, 'step')

    def b(d):
        os.makedirs(d + '/inc/gnu')
        open(d + '/inc/gnu/stubs-32.h', 'w').close()
        F = ['-m32', '-w', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-fno-stack-protector', '-ffreestanding', '-fomit-frame-pointer',
             '-I' + REPO + '/include', '-I' + H, '-I' + d + '/inc', '-idirafter', '/usr/include/x86_64-linux-gnu']

        def tu(t):
            tid, cc, fl = t
            src = os.path.join(d, 'w_%s.c' % tid)
            sh(['python3', H + '/wrap_gen.py', src, tid, '32'])
            try:
                sh(cc + F + fl + ['-c', src, '-o', src[:-2] + '.o'])
                return True
            except CheckError:
                return False	# register allocation is up to the compiler
        tok = [t for t, ok in zip(X32, pmap(tu, X32)) if ok]
        with open(d + '/reg.c', 'w') as f:
            f.write(_reg([t[0] for t in tok]))
        for n, src in (('reg', d + '/reg.c'), ('step', H + '/step.c')):
            sh(['gcc', '-O1', '-g', '-fno-pie'] + F + ['-DFREESTANDING', '-c', src, '-o', d + '/%s.o' % n])
        sh(['ld', '-m', 'elf_i386', '-o', d + '/step32', d + '/step.o', d + '/reg.o'] + [os.path.join(d, 'w_%s.o' % t[0]) for t in tok])
    return build('step32', ['step'], b, key=str(X32)) + '/step32'


def can32(exe):
    try:
        return subprocess.run([exe, 'none', '1', '1'], stdout=subprocess.DEVNULL, timeout=20).returncode == 0
    except OSError:
        return False


ASSUME = ['x86-64 and x86-32 builds are executed; the other architectures\' ports are not executed by this check',
          'virtual kernel follows the published rseq ABI: abort iff the armed descriptor covers the interrupted instruction, then clear rseq_cs']


def _shards(c, exe, mode, scale, n=None):
    n = n or MAXPAR
    return [[exe, mode, str(c.seed), str(scale), '', str(i), str(n)] for i in range(n)]


def _mk(modes, rule, evals):
    def chk(pid, tier, seed):
        c = Check(pid, tier, seed)
        c.rule, c.eval_keys, c.assumptions = rule, evals, ASSUME
        A, B = build_step('A'), build_step('B')
        for d in (os.path.dirname(A), os.path.dirname(B)):
            for n, e in compile_failures(d):
                c.violation('operations do not compile with all operand forms as %s' % n, e)
        cmds = []
        X = build_step32()
        x32 = can32(X)
        c.stat('x86_32_executed', int(x32))
        for m in modes:
            if m == 'tables':
                cmds += [[A, m, str(seed), '1'], [B, m, str(seed), '1']] + ([[X, m, str(seed), '1']] if x32 else [])
                continue
            big = 40 if pid == 'C02' and m == 'plain' else 1
            cmds += _shards(c, A, m, big if c.quick else big * 4)
            cmds += _shards(c, B, m, max(1, big // 4) if c.quick else big * 2)
            if x32 and m != 'wide':
                cmds += _shards(c, X, m, {'step': 0, 'index': 1}.get(m, max(1, big // 4)) if c.quick else big * 2)
        c.run_many(cmds, timeout=400 if c.quick else 1500)
        if pid in ('C01', 'C04'):
            from .c_reg import build_one, OWN
            s = 10 if c.quick else 120
            ex = pmap(lambda a: build_one('stress', 'reg', *a), [('gcc', ('-O2',)), ('clang', ('-O2',))])
            c.run_many([[ex[0], str(seed), str(s)], [ex[1], str(seed + 1), str(s)]], timeout=60 + 3 * s, envs=[None, OWN])
        if pid == 'C03':
            from .c_reg import build_one, OWN
            s = 6 if c.quick else 60
            c.run([build_one('regreal', 'reg'), str(seed), str(s), 'unreg'], timeout=60 + 3 * s, env=OWN)
        return c
    return chk


CHECKS = {
    'C01': _mk(['step'], 'case = one wrapper compiled by one compiler/optimisation, one operand set, one schedule of preemptions/migrations placed at instruction boundaries; distinct = distinct executed instruction traces with their preemption kinds', ['stepped_runs']),
    'C02': _mk(['plain', 'wide'], 'case = one wrapper, one random operand set (special values, lengths up to 1 MiB and one above 4 GiB, full-width offsets, operands at page edges, alignments, constants, shared registers), memory order and mode; distinct = distinct (wrapper, length, order, mode, outcome)', ['plain_runs', 'page_edge_runs']),
    'C03': _mk(['index', 'wide'], 'case = wrapper x index field value x requested index x content of the other fields', ['index_cases', 'page_edge_foreign_index']),
    'C04': _mk(['step'], 'case = stepped execution whose every store is classified against the model; distinct = distinct instruction traces', ['stepped_runs']),
    'C05': _mk(['plain', 'wide', 'step'], 'case = execution with guard zones, sentinel registers, echoed arguments and live locals; distinct as for C01/C02', ['plain_runs', 'page_edge_runs', 'stepped_runs']),
    'C06': _mk(['tables', 'step'], 'case = descriptor or stepped execution whose arming, signature and exits are validated; distinct = distinct descriptors and instruction traces', ['stepped_runs', 'unload_checks']),
}
