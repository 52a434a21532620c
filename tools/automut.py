#!/usr/bin/env python3
"""Self-test: mechanically generated mutations (statement deleted, operator or constant changed, condition
fixed) of one file, in scratch copies.  Mutants whose object code equals the original's are skipped.
usage: automut.py FILE [first [step]]     survivors and kills go to stdout;
FULL=1 also runs the quick checks on what survives a few seconds of each pool harness"""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = sys.argv[1]
FIRST = int(sys.argv[2]) if len(sys.argv) > 2 else 0
STEP = int(sys.argv[3]) if len(sys.argv) > 3 else 1
PAR = int(os.environ.get('MUTPAR', '3'))
POOL = FILE.endswith(('rseq-mempool.c', 'rseq-utils.h', 'list.h', 'mempool.h'))
PROPS = 'C11 C12 C14 C15 C17 C18 C19 C20 C22 C23 C24 C21'.split() if POOL else 'C10'.split() if 'smp' in FILE else 'C07 C08 C09'.split()


def code_lines(s):
    """indices of lines inside function bodies, outside comments"""
    out, depth, com = [], 0, False
    for i, l in enumerate(s):
        t = l
        if com:
            if '*/' in t:
                com = False
            continue
        t2 = re.sub(r'/\*.*?\*/', '', t)
        if '/*' in t2:
            com = True
            t2 = t2.split('/*')[0]
        if depth > 0 and t2.strip() and not t2.lstrip().startswith(('fprintf', 'perror', '__func__', '#', '"', 'assert')):
            out.append(i)
        depth += t2.count('{') - t2.count('}')
    return out


def muts(l):
    r = []
    t = l.strip()
    if re.match(r'^\t+[^{}]*;\s*$', l) and not re.match(r'(return|struct|int|size_t|void|char|bool|unsigned|long|uintptr_t|intptr_t|off_t|const|static|ssize_t|DIR|FILE|uint32_t)\b', t) and t.count('(') == t.count(')'):
        r.append(l[:len(l) - len(l.lstrip())] + ';\n')
    for a, bs in ((' < ', (' <= ',)), (' <= ', (' < ',)), (' > ', (' >= ',)), (' >= ', (' > ',)), (' == ', (' != ',)), (' != ', (' == ',)), (' && ', (' || ',)), (' || ', (' && ',)),
                  (' + ', (' - ',)), (' - ', (' + ',)), (' * ', (' + ',)), (' += ', (' -= ', ' = ')), (' -= ', (' += ',)), (' >> ', (' << ',)), (' << ', (' >> ',)), (' & ', (' | ',)), (' | ', (' & ',)), (' |= ', (' = ', ' &= ')), (' &= ', (' |= ', ' = ')),
                  ('++', ('--',)), ('(!', ('(',)), ('~', ('',)), ('true', ('false',)), ('false', ('true',)), ('EINVAL', ('ENOMEM',)), ('ENOMEM', ('EINVAL',))):
        for m in re.finditer(re.escape(a), l):
            for b in bs:
                r.append(l[:m.start()] + b + l[m.end():])
    for m in re.finditer(r'(?<![\w.x])(\d+)(?![\w.x])', l):
        v = int(m.group(1))
        for n in {v + 1, v - 1 if v else 1}:
            r.append(l[:m.start()] + str(n) + l[m.end():])
    m = re.match(r'^(\t+(?:\} else )?if \()(.*)(\)\s*\{?\s*)$', l)
    if m:
        r += [m.group(1) + '0 && (' + m.group(2) + ')' + m.group(3), m.group(1) + '1 || (' + m.group(2) + ')' + m.group(3)]
    m = re.match(r'^(\t+return )(.+);\s*$', l)
    if m:
        r += [m.group(1) + x + ';\n' for x in ('0', '-1', '1')]
    return [x for x in dict.fromkeys(r) if x != l]


def obj(d):
    o = b''
    for f in sorted(os.listdir(d + '/src')):
        if f.endswith('.c'):
            r = subprocess.run(['gcc', '-O2', '-w', '-D_GNU_SOURCE', '-DNDEBUG_', '-DHAVE_LIBNUMA=1', '-I%s/include' % d, '-S', '-o', '-', d + '/src/' + f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if r.returncode:
                return None
            o += re.sub(rb'\n\t\.(file|loc|ident)[^\n]*', b'', r.stdout)
    t = d + '/t.c'
    open(t, 'w').write('#include <rseq/mempool.h>\n#include <rseq/rseq.h>\n'
                       'void *a(char *p,int c){return rseq_percpu_ptr(p,c);} void *b(char *p,int c,size_t s){return rseq_percpu_ptr(p,c,s);} void e(char*p){rseq_mempool_percpu_free(p);}\n'
                       'int z(void){return rseq_current_cpu()+rseq_node_id_available()*2+rseq_mm_cid_available()*4;}\n')
    r = subprocess.run(['gcc', '-O2', '-w', '-D_GNU_SOURCE', '-I%s/include' % d, '-S', '-o', '-', t], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    if r.returncode:
        return None
    return o + r.stdout


FAST = {'hist': [['3'], ['3', 'set'], ['2', 'params'], ['3', 'pool', 'cb']], 'misuse': [['3']], 'faults': [['3']], 'forkm': [['3']], 'cow': [['3']], 'mt': [['3']], 'numa': [['2']]}


def fast(d):
    """a few seconds of each pool harness: True if something was reported"""
    def one(h):
        x = '%s/%s' % (d, h)
        r = subprocess.run(['gcc', '-g', '-w', '-O1' if h == 'hist' else '-O2'] + (['-fsanitize=address'] if h == 'hist' else []) + (['-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock'] if h == 'mt' else []) +
                           ['-D_GNU_SOURCE', '-DHAVE_LIBNUMA=1', '-I%s/include' % d, '-I%s/src' % d, '-I%s/harness/common' % V, '-I%s/harness/pool' % V, '%s/harness/pool/%s.c' % (V, h)] +
                           [os.path.join(d, 'src', f) for f in os.listdir(d + '/src') if f.endswith('.c')] + ['-o', x, '-lpthread', '-ldl', '-lnuma'], stderr=subprocess.PIPE, text=True)
        if r.returncode:
            return 'build of %s: %s' % (h, r.stderr[:200])
        for a in FAST[h]:
            try:
                r = subprocess.run(['timeout', '-k', '1', '40', x, '77'] + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=99'))
            except Exception as e:
                return str(e)
            vl = [y for y in r.stdout.splitlines() if y.startswith('VIOL')]
            if r.returncode or vl:
                return '%s rc=%d %s' % (h, r.returncode, vl[0][:150] if vl else '')
        return None
    for h in FAST:
        k = one(h)
        if k:
            return k
    return None


def run(job, d):
    n, i, old, new, s, ref = job
    for x in ('src', 'include'):
        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
        shutil.copytree(os.path.join('/repo', x), os.path.join(d, x))
    t = list(s)
    t[i] = new
    open(os.path.join(d, FILE), 'w').write(''.join(t))
    o = obj(d)
    tag = '%d:%d [%s] -> [%s]' % (n, i + 1, old.strip()[:90], new.strip()[:90])
    if o is None:
        return 'NOBUILD  ' + tag
    if o == ref:
        return 'SAMEOBJ  ' + tag
    if POOL:
        k = fast(d)
        if k:
            return 'KILLED   %s  {%s}' % (tag, k)
    if POOL and not os.environ.get('FULL'):
        return 'SURVIVED (first stage) ' + tag
    for p in PROPS:
        r = subprocess.run(['timeout', '-k', '1', '400', 'python3', V + '/run.py', p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'))
        if r.returncode:
            return 'KILLED   %s  {%s rc=%d}' % (tag, p, r.returncode)
    return 'SURVIVED ' + tag


def main():
    s = open(os.path.join('/repo', FILE)).readlines()
    jobs = []
    ds = [tempfile.mkdtemp(prefix='amut', dir='/tmp') for _ in range(PAR)]
    for x in ('src', 'include'):
        shutil.copytree(os.path.join('/repo', x), os.path.join(ds[0], x))
    ref = obj(ds[0])
    for i in code_lines(s):
        for new in muts(s[i]):
            jobs.append((len(jobs), i, s[i], new, s, ref))
    print('%d mutants' % len(jobs), flush=True)
    jobs = jobs[FIRST::STEP]
    if os.environ.get('LIST'):
        for j in jobs:
            print(j[0], j[1] + 1, j[2].strip(), '->', j[3].strip())
        return
    q = queue.Queue()
    for d in ds:
        q.put(d)

    def one(x):
        d = q.get()
        try:
            print(run(x, d), flush=True)
        finally:
            q.put(d)
    with cf.ThreadPoolExecutor(PAR) as ex:
        list(ex.map(one, jobs))
    for d in ds:
        shutil.rmtree(d, ignore_errors=True)


main()
