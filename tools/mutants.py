#!/usr/bin/env python3
"""Self-test: apply small source mutations to a scratch copy and see which check reports them.
usage: mutants.py [name-prefix...]   (scratch copy under /tmp, removed at the end; results on stdout)"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MP, RS, SM = 'src/rseq-mempool.c', 'src/rseq.c', 'src/smp.c'
BI, X8, GC = 'include/rseq/arch/x86/bits.h', 'include/rseq/arch/x86.h', 'include/rseq/arch/generic/common.h'
RH = 'include/rseq/rseq.h'
PS, UT = 'include/rseq/mempool.h', 'src/rseq-utils.h'
M = []


def m(name, props, file, old, new, nth=0):
    M.append((name, props.split(), file, old, new, nth))


exec(open(os.path.join(V, 'tools', 'mutant_list.py')).read())


def run(mut, scratch):
    name, props, file, old, new, nth = mut
    for d in ('src', 'include'):
        shutil.rmtree(os.path.join(scratch, d), ignore_errors=True)
        shutil.copytree(os.path.join('/repo', d), os.path.join(scratch, d))
    p = os.path.join(scratch, file)
    s = open(p).read()
    for old, new in zip(old, new) if isinstance(old, list) else [(old, new)]:
        parts = s.split(old)
        if len(parts) < nth + 2:
            return '%-28s NOT-APPLICABLE (%d occurrences)' % (name, len(parts) - 1)
        if nth < 0:
            s = s.replace(old, new)
        else:
            s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(p, 'w').write(s)
    c = subprocess.run(['gcc', '-O2', '-w', '-D_GNU_SOURCE', '-DHAVE_LIBNUMA=1', '-I%s/include' % scratch, '-shared', '-fPIC', '-o', scratch + '/l.so'] +
                       [os.path.join(scratch, 'src', f) for f in os.listdir(scratch + '/src') if f.endswith('.c')], stderr=subprocess.PIPE, text=True)
    if c.returncode:
        return '%-28s DOES-NOT-BUILD %s' % (name, c.stderr.splitlines()[0])
    res = []
    for pr in props:
        r = subprocess.run(['python3', V + '/run.py', pr, 'quick'], env=dict(os.environ, VERIF_REPO=scratch, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        viol = 'VIOLATION property=%s' % pr in r.stdout
        first = next((l for l in r.stdout.splitlines() if l.startswith('violation:')), next((l for l in r.stdout.splitlines() if l.startswith(('ERROR', 'note'))), ''))
        if r.returncode not in (0, 1):
            first = ' | '.join(r.stdout.splitlines()[-3:])
        res.append('%s:%s' % (pr, 'CAUGHT' if viol and r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'RC%d' % r.returncode) + (' [%s]' % first[:250]))
    return '%-28s %s' % (name, '; '.join(res))


def main():
    sel = [x for x in M if not sys.argv[1:] or any(x[0].startswith(a) for a in sys.argv[1:])]
    n = int(os.environ.get('MUTPAR', '2'))
    q = queue.Queue()
    ds = [tempfile.mkdtemp(prefix='mut', dir='/tmp') for _ in range(n)]
    for d in ds:
        q.put(d)

    def one(x):
        d = q.get()
        try:
            print(run(x, d), flush=True)
        finally:
            q.put(d)
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(one, sel))
    for d in ds:
        shutil.rmtree(d, ignore_errors=True)


main()
