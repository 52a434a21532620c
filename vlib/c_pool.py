"""C11-C24: memory pools under model-based, fault-injecting, fork, page-map and thread monitors."""
import os
from .core import Check, build, sh, pmap, HARN, LIBFLAGS, LIBLINK, lib_sources, MAXPAR

H = os.path.join(HARN, 'pool')
INC = ['-I' + os.path.join(HARN, 'common'), '-I' + H]
ASAN = ['-O1', '-fsanitize=address,shift,bounds,integer-divide-by-zero,unreachable,bool', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
WRAP = ['-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock']
VAR = {
    # name: (source, compiler, flags)
    'hist_asan': ('hist.c', 'gcc', ASAN),
    'hist_O2': ('hist.c', 'gcc', ['-O2']),
    'hist_clang': ('hist.c', 'clang', ['-O3']),
    'big': ('big.c', 'gcc', ['-O2']),
    'misuse': ('misuse.c', 'gcc', ['-O2']),
    'misuse_clang': ('misuse.c', 'clang', ['-O1']),
    'faults': ('faults.c', 'gcc', ['-O2']),
    'forkm': ('forkm.c', 'gcc', ['-O2']),
    'cow': ('cow.c', 'gcc', ['-O2']),
    'cowrace': ('cowrace.c', 'gcc', ['-O2']),
    'numa': ('numa.c', 'gcc', ['-O2']),
    'numa_asan': ('numa.c', 'gcc', ASAN),
    'nonuma': ('nonuma.c', 'gcc', ['-O2']),
    'smp': ('../smp/smp.c', 'gcc', ['-O2']),
    'mt': ('mt.c', 'gcc', ['-O2'] + WRAP),
    'mt_tsan': ('mt.c', 'gcc', ['-O1', '-fsanitize=thread'] + WRAP),
    'mt_clang': ('mt.c', 'clang', ['-O2'] + WRAP),
}
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99', 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0',
       'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99'}


def exes(names):
    def one(n):
        src, cc, fl = VAR[n]
        lf = [x for x in LIBFLAGS if not (n == 'nonuma' and x == '-DHAVE_LIBNUMA=1')]
        ll = [x for x in LIBLINK if not (n == 'nonuma' and x == '-lnuma')]

        def b(d):
            sh([cc, '-g', '-w'] + fl + lf + INC + [H + '/' + src] + lib_sources() + ['-o', d + '/x'] + ll)
        return build('pool_' + n, ['pool', 'smp', 'common'], b, key=str((src, cc, fl)) + src) + '/x'
    return dict(zip(names, pmap(one, names)))


QUICK, THOROUGH = 3, 40	# factors on the base seconds


def _mk(plan, rule, evals, assume=()):
    """plan: list of (variant, extra args, shards, base seconds[, page length to present])"""
    def chk(pid, tier, seed):
        c = Check(pid, tier, seed, 'fault_enumeration' if pid in ('C15', 'C17', 'C24') else 'exploration')
        c.rule, c.eval_keys, c.assumptions = rule, evals, list(assume) or ['address space and memory are sufficient for the geometries generated']
        ex = exes(sorted({p[0] for p in plan}))
        cmds, envs = [], []
        base = (int(pid[1:]) * 1009 + seed) * 1000
        for v, args, n, secs, *page in plan:
            secs = secs * (QUICK if c.quick else THOROUGH)
            for i in range(n):
                cmds.append([ex[v], str(base + len(cmds)), str(secs)] + args)
                envs.append(dict(ENV, HPAGE=str(page[0])) if page else ENV)
        # interleave so that long and short ones share the cores
        c.run_many(cmds, timeout=60 + max(p[3] for p in plan) * (QUICK if c.quick else THOROUGH) * 3, envs=envs)
        return c
    return chk


HISTRULE = 'case = one allocation in a random history over random pool geometries (1-4 pools at once, all policies/attributes), checked against the reference model; distinct = distinct (item size, CPUs, stride, attributes, kind, live count, recycled, full)'
CHECKS = {
    'C11': _mk([('hist_asan', [], 3, 8), ('hist_O2', [], 3, 8), ('hist_clang', ['set'], 1, 8), ('mt', [], 1, 8), ('big', [], 1, 8), ('hist_O2', [], 1, 6, 65536)], HISTRULE, ['allocs', 'mt_allocs', 'big_probes']),
    'C12': _mk([('big', [], 2, 8), ('hist_asan', [], 2, 8), ('hist_O2', [], 3, 8), ('hist_O2', ['set'], 2, 8), ('mt', [], 1, 8), ('cowrace', [], 1, 2)], HISTRULE, ['allocs', 'set_allocs']),
    'C13': _mk([('hist_asan', [], 3, 8), ('hist_O2', [], 3, 8), ('forkm', [], 1, 8), ('mt', [], 1, 8), ('big', [], 1, 8)], HISTRULE + '; every live copy is compared byte for byte with its shadow', ['copies_verified', 'big_probes']),
    'C14': _mk([('hist_O2', [], 2, 8), ('hist_asan', [], 2, 8), ('hist_O2', ['params'], 1, 8), ('hist_O2', [], 1, 6, 16384), ('faults', [], 2, 8), ('mt', [], 1, 8), ('big', [], 1, 8)], HISTRULE + '; plus every acquiring call of an extension failed in turn', ['allocs', 'scenarios']),
    'C15': _mk([('misuse', [], 4, 9), ('misuse_clang', [], 2, 9), ('hist_O2', ['pool', 'none'], 2, 9), ('mt', [], 1, 9)], 'case = legal prefix history in a robust pool followed by one misuse (double free, leak, changed bit/byte/word of a freed item on some CPU, free-list damage) or none; distinct = distinct (misuse, geometry, target)', ['misuse_cases']),
    'C16': _mk([('hist_O2', [], 4, 8), ('hist_asan', [], 2, 8), ('hist_O2', ['set'], 1, 8), ('misuse', [], 1, 8), ('mt', [], 1, 8), ('big', [], 1, 8)], HISTRULE + '; every freed item of a poisoned pool is read back on every CPU', ['poisoned_frees_checked']),
    'C17': _mk([('faults', [], 7, 12), ('big', [], 1, 10)], 'case = one pool scenario with the k-th acquiring call (mmap, memfd, ftruncate, madvise, heap, callback, munmap) failed, for every k, compared with the kernel\'s mapping and descriptor lists and the heap ledger; distinct = distinct (phase, k, failing call, geometry class)', ['scenarios']),
    'C18': _mk([('forkm', [], 6, 12), ('faults', [], 2, 12)], 'case = one fork of a process with a used pool; child scribbles, maps over the hole, uses and destroys; distinct = distinct (policy, attributes, CPUs, ranges, item size, live items)', ['forks']),
    'C19': _mk([('hist_asan', ['set'], 3, 8), ('hist_O2', ['set'], 3, 8), ('mt', [], 1, 8), ('faults', [], 1, 8), ('big', [], 1, 8)], 'case = one set allocation or addition in a random history, pool identity learnt from the init callback; distinct = distinct (length, pools, expected pool, occupancy, kind)', ['set_allocs', 'big_set_allocs']),
    'C20': _mk([('hist_asan', ['params'], 4, 6), ('hist_O2', ['params'], 3, 6), ('hist_O2', ['params'], 1, 4, 16384), ('hist_O2', ['params'], 1, 4, 65536), ('big', [], 2, 6), ('smp', [], 1, 4)], 'case = one creation with valid or invalid parameters followed by use to capacity; distinct = distinct parameter tuples', ['param_cases']),
    'C21': _mk([('mt_tsan', [], 5, 14), ('mt', [], 3, 14)], 'case = one allocation by one of 2-8 threads with noise around every lock operation; distinct = distinct windows of 8 consecutive lock acquisitions by more than one thread', ['mt_allocs']),
    'C22': _mk([('cow', [], 8, 10)], 'case = one idle CPU area whose page map was read after a step of a random history; distinct = distinct (policy, attributes, item size, stride, live items, ranges)', ['idle_cpu_areas_checked'],
               ['page population is what /proc/self/pagemap reports']),
    'C23': _mk([('hist_asan', ['pool', 'cb'], 2, 8), ('hist_O2', ['pool', 'cb'], 4, 8), ('hist_O2', ['set', 'cb'], 1, 8), ('faults', [], 1, 8), ('mt', [], 1, 8), ('big', [], 1, 8)], 'case = one callback of the range initialiser observed in a random pool or set history (including failing ones); distinct = distinct (item size, stride, CPUs, cpu argument, range number, attributes)', ['init_callbacks', 'big_init_callbacks']),
    'C24': _mk([('numa', [], 4, 5), ('numa_asan', [], 3, 5), ('numa', [], 1, 3, 65536), ('nonuma', [], 1, 1)], 'case = one helper call against recording stand-ins for move_pages and numa_node_of_cpu; distinct = distinct (pages, flags, cpu, node, injected failure)', ['numa_calls'],
               ['libnuma and the kernel do what the requested move_pages call says']),
}
