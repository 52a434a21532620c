"""Driver core: content-addressed builds from the repository's working tree,
harness execution, oracle verdict collection, evidence."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
HARN = os.path.join(VERIF, 'harness')
NCPU = os.cpu_count() or 4
MAXPAR = max(2, min(8, NCPU))


class CheckError(Exception):
    """The check itself could not be carried out (no verdict)."""


def _files(d, exts=None):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if exts is None or f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


_repo_hash = None


def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        h = hashlib.sha256()
        for d in ('include', 'src'):
            for f in _files(os.path.join(REPO, d), ('.h', '.c', '.hpp')):
                h.update(os.path.relpath(f, REPO).encode() + b'\0')
                with open(f, 'rb') as fh:
                    h.update(fh.read())
        _repo_hash = h.hexdigest()
    return _repo_hash


def harness_hash(sub):
    h = hashlib.sha256()
    for d in sub:
        p = os.path.join(HARN, d)
        for f in ([p] if os.path.isfile(p) else _files(p)):
            if f.endswith('.pyc'):
                continue
            h.update(os.path.relpath(f, HARN).encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


def lib_sources():
    return sorted(os.path.join(REPO, 'src', f) for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.c'))


LIBFLAGS = ['-D_GNU_SOURCE', '-DHAVE_LIBNUMA=1', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')]
LIBLINK = ['-lpthread', '-ldl', '-lnuma']


def sh(cmd, cwd=None, timeout=300, env=None):
    p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise CheckError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def build(name, subs, builder, key=''):
    """Directory holding the artefacts made by builder(tmpdir); reused only
    when repository sources, harness sources and key are identical."""
    h = hashlib.sha256(('%s|%s|%s|%s' % (name, repo_hash(), harness_hash(subs), key)).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, '%s-%s' % (name, h))
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock-' + name), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(d, '.done')):
            os.utime(d)
            return d
        # drop older builds of the same name
        old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith(name + '-') and len(x) == len(name) + 21), key=os.path.getmtime)
        for x in old[:-(12 if 'VERIF_REPO' in os.environ else 3)]:
            shutil.rmtree(x, ignore_errors=True)
        tmp = d + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            builder(tmp)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        open(os.path.join(tmp, '.done'), 'w').close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        return d
    finally:
        lock.close()


def unit(cmd, cc, cmd_flags, d, name):
    """Compile one generated translation unit of public-API uses.  If it does not
    compile although a unit that only includes the header does, the failure is
    noted for the check to report and the unit is left out."""
    try:
        sh(cmd)
        return True
    except CheckError as e:
        t = os.path.join(d, 'probe_%s.c' % name)
        with open(t, 'w') as f:
            f.write('#include <rseq/rseq.h>\nint x_%s;\n' % name)
        sh(cc + cmd_flags + ['-w', '-D_GNU_SOURCE', '-I' + REPO + '/include', '-c', t, '-o', t + '.o'])
        with open(os.path.join(d, 'compile_%s.txt' % name), 'w') as f:
            f.write(str(e))
        return False


def compile_failures(d):
    out = []
    for f in sorted(os.listdir(d)):
        if f.startswith('compile_'):
            out.append((f[8:-4], open(os.path.join(d, f)).read()))
    return out


def pmap(fn, items, n=None):
    with cf.ThreadPoolExecutor(n or MAXPAR) as ex:
        return list(ex.map(fn, items))


class Result:
    def __init__(self):
        self.rc = None
        self.out = ''
        self.timeout = False
        self.wall = 0.0
        self.cmd = []
        self.env = {}


def run(cmd, timeout=240, env=None, cwd=None, stdin=None):
    r = Result()
    r.cmd = cmd
    r.env = env or {}
    e = dict(os.environ)
    e.pop('LD_PRELOAD', None)
    e.update(env or {})
    t0 = time.time()
    with tempfile.TemporaryFile() as fo:
        p = subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.DEVNULL, stdout=fo, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        fo.seek(0)
        r.out = fo.read().decode(errors='replace')
    r.rc = p.returncode
    r.wall = time.time() - t0
    return r


class Check:
    def __init__(self, pid, tier, seed, level='exploration'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == 'quick'
        self.stats, self.samples, self.notes = {}, [], []
        self.viols = []          # (message, replay text)
        self.other = []
        self.t0 = time.time()
        self.rule = ''
        self.assumptions = []
        self.eval_keys = []
        self.distinct_keys = ['distinct']
        self.runs = 0
        self.known = load_known(pid)
        self.dset = set()
        self.known_hit = {}

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def violation(self, msg, replay=''):
        for k in self.known:
            if k.get('match') and re.search(k['match'], msg):
                self.known_hit[k['id']] = self.known_hit.get(k['id'], 0) + 1
                return
        self.viols.append((msg, replay))

    def absorb(self, r, crash='violation', rc_ok=(0, 1), label=''):
        """Collect the oracle lines of one harness run."""
        self.runs += 1
        rep = 'cmd: %s\nenv: %s\nrc: %s\n' % (' '.join(map(str, r.cmd)), json.dumps(r.env), r.rc)
        n = 0
        for line in r.out.splitlines():
            if line.startswith('STAT '):
                _, k, v = line.split()
                self.stat(k, int(v))
            elif line.startswith('D '):
                self.dset.update(line[2:].split())
            elif line.startswith('SAMPLE '):
                self.sample(line[7:])
            elif line.startswith('VIOL '):
                _, props, msg = line.split(' ', 2)
                n += 1
                if self.pid in props.split(','):
                    self.violation(msg, rep + line + '\n')
                else:
                    self.other.append(line)
            elif line.startswith('CRASH '):
                n += 1
                self.violation('process crashed in a legal history: ' + line, rep + r.out[-6000:])
            elif line.startswith('HARNESS-ERROR'):
                raise CheckError(line + '\n' + rep)
        if r.timeout:
            self.violation('execution did not finish within its time limit (%s)' % label, rep + r.out[-6000:])
        elif (r.rc not in rc_ok or (r.rc and 'Sanitizer' in r.out) or (r.rc == 1 and not n)) and not n:
            if crash == 'violation':
                self.violation('harness process ended abnormally (rc=%s) in a legal history: %s' % (r.rc, _tail(r.out)), rep + r.out[-8000:])
            else:
                raise CheckError('harness failed: rc=%s %s\n%s' % (r.rc, r.cmd, r.out[-3000:]))
        return r

    def run(self, cmd, timeout=240, env=None, label='', retry_timeout=True, **kw):
        r = run(cmd, timeout, env)
        if r.timeout and retry_timeout:
            r = run(cmd, timeout, env)
        return self.absorb(r, label=label or os.path.basename(cmd[0]), **kw)

    def run_many(self, cmds, timeout=240, envs=None, par=None, **kw):
        envs = envs or [None] * len(cmds)

        def one(ce):
            r = run(ce[0], timeout, ce[1])
            if r.timeout:
                r = run(ce[0], timeout, ce[1])
            return r
        rs = pmap(one, list(zip(cmds, envs)), par)
        for r in rs:
            self.absorb(r, label=os.path.basename(r.cmd[0]), **kw)
        return rs

    def finish(self):
        ev = sum(self.stats.get(k, 0) for k in self.eval_keys)
        di = sum(self.stats.get(k, 0) for k in self.distinct_keys) + len(self.dset)
        cov = {'evaluations': ev, 'distinct_nontrivial': min(di, ev) if ev else di, 'rule': self.rule, 'samples': self.samples[:12] or ['none'],
               'observed': dict(sorted(self.stats.items())), 'harness_processes': self.runs}
        if self.known:
            cov['known_findings'] = {k['id']: {'what': k['what'], 'reproduced_this_run': self.known_hit.get(k['id'], 0)} for k in self.known}
        if self.other:
            cov['other_property_reports'] = self.other[:10]
        doc = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
               'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viols)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s (seen %d times in this run)' % (self.pid, k['what'], self.known_hit.get(k['id'], 0)))
        if self.other:
            print('note: %d report(s) concern other properties, first: %s' % (len(self.other), self.other[0]))
        if self.viols:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%s-%d.txt' % (self.pid, self.tier, self.seed))
            with open(p, 'w') as f:
                f.write('property %s, tier %s, seed %d\nre-run: VERIF_SEED=%d python3 %s/run.py %s %s\n\n' % (self.pid, self.tier, self.seed, self.seed, VERIF, self.pid, self.tier))
                for m, t in self.viols[:20]:
                    f.write('== %s\n%s\n' % (m, t))
            for m, _ in self.viols[:5]:
                print('violation: ' + m)
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        if not ev or not di:
            raise CheckError('%s: the monitors observed nothing' % self.pid)
        print('OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs' % (self.pid, self.tier, ev, di, time.time() - self.t0))
        return 0


def _tail(s):
    t = [x for x in s.strip().splitlines() if x.strip() and not x.startswith(('STAT', 'SAMPLE'))]
    for x in t:
        if 'ERROR: AddressSanitizer' in x or 'runtime error' in x or 'WARNING: ThreadSanitizer' in x or 'detected' in x:
            return x[:300]
    return ' | '.join(t[-2:])[:300]


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid]
