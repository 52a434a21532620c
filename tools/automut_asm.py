#!/usr/bin/env python3
"""Self-test: mechanical mutations of the x86 sequences (asm line deleted, jump inverted, operands
swapped, width changed, clobber dropped, ...) against a short run of the single-step monitor.
usage: automut_asm.py FILE [first [step]]     (BITS=32 for the x86-32 code)"""
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib.c_step import _reg
FILE = sys.argv[1]
FIRST = int(sys.argv[2]) if len(sys.argv) > 2 else 0
STEP = int(sys.argv[3]) if len(sys.argv) > 3 else 1
PAR = int(os.environ.get('MUTPAR', '2'))
B32 = os.environ.get('BITS') == '32'
H = V + '/harness/step'
TUS = [('gccO2', ['gcc', '-O2', '-fno-pie'])] if B32 else [('gccO2', ['gcc', '-O2']), ('clangO2', ['clang', '-O2']), ('gxxO0', ['g++', '-x', 'c++', '-O0'])]


def muts(l):
    r = []
    ind = l[:len(l) - len(l.lstrip())]
    t = l.strip()
    cont = '\\\n' if t.endswith('\\') else '\n'
    if t.startswith('"') and ':' not in t.split('\\n')[0]:
        r.append(ind + '""' + cont)
    if re.match(r'(RSEQ_ASM|__RSEQ_ASM|RSEQ_INJECT)', t):
        r.append(ind + '""' + cont if 'DEFINE' in t or 'CMP' in t or 'STORE' in t else ind + cont)
    sub = [('jnz', 'jz'), ('jz', 'jnz'), ('je ', 'jne '), ('jne ', 'je '), ('movq', 'movl'), ('cmpq', 'cmpl'), ('addq', 'addl'), ('addq', 'subq'), ('decq', 'decl'), ('movb', 'movw'), ('incq', 'decq'),
           ('movl', 'movw'), ('cmpl', 'cmpw'), ('addl', 'addw'), ('addl', 'subl'), ('"memory", ', ''), ('"cc", ', ''), (', "rax"', ''), (', "rbx"', ''), (', "rcx"', ''), (', "eax"', ''), (', "cc"', ''), ('"er"', '"ir"'), ('"er"', '"r"'), ('"m"', '"r"'),
           ('expect]', 'newv]'), ('newv]', 'expect]'), ('v2]', 'v]'), ('newv2]', 'newv]'), ('[v]', '[v2]'), ('expect2]', 'expect]'), ('dst]', 'src]'), ('src]', 'dst]'),
           ('1f', '2f'), ('2f', '3f'), ('4f', '5f'), ('1, 2, 3', '1, 3, 2'), ('cmpfail', 'abort'), ('ne]', 'eq]'), ('RSEQ_CPU_ID_OFFSET', 'RSEQ_MM_CID_OFFSET'), ('cpu_id', 'node_id'), ('cpu_id', 'cpu_id_start'), ('return 0;', 'return 1;'), ('return 0;', 'return -1;'),
           ('return 1;', 'return 0;'), ('return 1;', 'return -1;'), ('return -1;', 'return 1;'), ('return -1;', 'return 0;'), ('RELAXED', 'RELEASE'), ('MM_CID', 'CPU_ID'), ('CPU_ID', 'MM_CID'), ('release', 'relaxed'),
           ('0x0', '0x1'), ('.quad', '.long'), ('start_ip', 'post_commit_offset'), ('abort_ip', 'start_ip'), ('aw', 'a'), ('"a"', '"ax"'), (', %%', ', %'), ('- ', '+ '), ('expectnot', 'voffp'), ('voffp', 'expectnot'), ('newv', 'newv2'), ('offset', 'offset_x')]
    for a, b in sub:
        for m in re.finditer(re.escape(a), l):
            r.append(l[:m.start()] + b + l[m.end():])
    m = re.match(r'^(.*"\w+ )(%[^,]+(?:\([^)]*\))?|\$?\w+), (%.+?)(\\n.*)$', l, re.S)
    if m:
        r.append(m.group(1) + m.group(3) + ', ' + m.group(2) + m.group(4))
    for m in re.finditer(r'(?<![\w.x])(\d+)(?![\w.x])', l):
        v = int(m.group(1))
        for n in {v + 1, v - 1 if v else 1}:
            r.append(l[:m.start()] + str(n) + l[m.end():])
    return [x for x in dict.fromkeys(r) if x != l]


def build(d, w):
    for x in os.listdir(w):
        if x.endswith(('.o', '.s')) or x == 'step':
            os.remove(w + '/' + x)
    o = b''
    F = ['-m32', '-U_FORTIFY_SOURCE', '-fno-stack-protector', '-ffreestanding', '-fomit-frame-pointer', '-I' + w + '/inc', '-idirafter', '/usr/include/x86_64-linux-gnu'] if B32 else []
    for tid, cc in TUS:
        src = '%s/w_%s.c' % (w, tid)
        subprocess.run(['python3', H + '/wrap_gen.py', src, tid, '32' if B32 else '64'], check=True)
        if subprocess.run(cc + F + ['-w', '-D_GNU_SOURCE', '-I' + d + '/include', '-I' + H, '-c', src, '-o', src[:-2] + '.o'], stderr=subprocess.DEVNULL).returncode:
            return None
        o += open(src[:-2] + '.o', 'rb').read()
    return o


def link(d, w):
    open(w + '/reg.c', 'w').write(_reg([t[0] for t in TUS]))
    if B32:
        F = ['-m32', '-w', '-D_GNU_SOURCE', '-U_FORTIFY_SOURCE', '-fno-stack-protector', '-ffreestanding', '-fomit-frame-pointer', '-I' + d + '/include', '-I' + H, '-I' + w + '/inc', '-idirafter', '/usr/include/x86_64-linux-gnu']
        for n, src in (('reg', w + '/reg.c'), ('stepm', H + '/step.c')):
            if subprocess.run(['gcc', '-O1', '-g', '-fno-pie'] + F + ['-DFREESTANDING', '-c', src, '-o', w + '/%s.o' % n], stderr=subprocess.DEVNULL).returncode:
                return False
        return not subprocess.run(['ld', '-m', 'elf_i386', '-o', w + '/step', w + '/stepm.o', w + '/reg.o'] + ['%s/w_%s.o' % (w, t[0]) for t in TUS], stderr=subprocess.DEVNULL).returncode
    return not subprocess.run(['gcc', '-O1', '-g', '-w', '-D_GNU_SOURCE', '-DHAVE_LIBNUMA=1', '-I' + d + '/include', '-I' + d + '/src', '-I' + V + '/harness/common', '-I' + H, H + '/step.c', H + '/main64.c', w + '/reg.c'] +
                              [os.path.join(d, 'src', f) for f in os.listdir(d + '/src') if f.endswith('.c')] + ['%s/w_%s.o' % (w, t[0]) for t in TUS] + ['-o', w + '/step', '-lpthread', '-ldl', '-lnuma'], stderr=subprocess.DEVNULL).returncode


def labels(d, w):
    lab, first = set(), ''
    cmds = [['tables', '1', '1'], ['index', '1', '1'], ['plain', '1', '8']] + [['step', '1', '0' if B32 else '1', '', str(i), '24'] for i in (0, 7, 13, 19)]
    if not B32:
        cmds.append(['wide', '1', '1', '', '0', '2'])

    def one(c):
        return subprocess.run(['timeout', '-k', '1', '60', w + '/step'] + c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    with cf.ThreadPoolExecutor(4) as ex:
        for c, r in zip(cmds, ex.map(one, cmds)):
            for y in r.stdout.splitlines():
                if y.startswith('VIOL'):
                    lab |= set(y.split()[1].split(','))
                    first = first or y
            if r.returncode not in (0, 1):
                lab.add('%s:rc%d' % (c[0], r.returncode))
    return lab, first


def run(job, d, ref, s):
    n, i, old, new = job
    t = list(s)
    t[i] = new
    open(os.path.join(d, FILE), 'w').write(''.join(t))
    w = d + '/w'
    o = build(d, w)
    tag = '%d:%d [%s] -> [%s]' % (n, i + 1, old.strip()[:90], new.strip()[:90])
    if o is None or (o != ref and not link(d, w)):
        return 'NOBUILD  ' + tag
    if o == ref:
        return 'SAMEOBJ  ' + tag
    lab, first = labels(d, w)
    return ('KILLED   %s  {%s}' % (tag, ' '.join(sorted(lab))) if lab else 'SURVIVED ' + tag)


def main():
    s = open(os.path.join('/repo', FILE)).readlines()
    com, jobs = False, []
    for i, l in enumerate(s):
        if com or l.lstrip().startswith(('*', '/*', '//')):
            com = '*/' not in l and (com or '/*' in l)
            continue
        if l.startswith('#') and '\\' not in l and '"' not in l:
            continue
        for new in muts(l):
            jobs.append((len(jobs), i, l, new))
    print('%d mutants' % len(jobs), flush=True)
    jobs = jobs[FIRST::STEP]
    ds = [tempfile.mkdtemp(prefix='asmut', dir='/tmp') for _ in range(PAR)]
    for d in ds:
        for x in ('src', 'include'):
            shutil.copytree(os.path.join('/repo', x), os.path.join(d, x))
        os.makedirs(d + '/w/inc/gnu')
        open(d + '/w/inc/gnu/stubs-32.h', 'w').close()
    refs = {d: build(d, d + '/w') for d in ds}
    q = queue.Queue()
    for d in ds:
        q.put(d)

    def one(x):
        d = q.get()
        try:
            print(run(x, d, refs[d], s), flush=True)
        finally:
            q.put(d)
    with cf.ThreadPoolExecutor(PAR) as ex:
        list(ex.map(one, jobs))
    for d in ds:
        shutil.rmtree(d, ignore_errors=True)


main()
