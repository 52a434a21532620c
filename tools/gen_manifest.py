#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
STEP = 'single-step monitor with a virtual rseq kernel over the compiled operations'
HIST = 'model-based history monitor (reference allocator, byte shadows) under ASan/UBSan'
T = {
 'C01': (STEP + '; conservation oracle on the real kernel under preemption stress', 'exploration'),
 'C02': ('differential execution of every compiled operation against the documented pseudo-code, guard zones', 'exploration'),
 'C03': ('execution over all index-field combinations with memory comparison; unregistered threads on the real kernel', 'exploration'),
 'C04': (STEP + ', every store classified online; publication oracle on the real kernel', 'exploration'),
 'C05': ('sentinel registers, live locals, echoed arguments and guard zones around monitored executions', 'exploration'),
 'C06': (STEP + ', descriptor/exit tables validated against every observed section entry and exit', 'exploration'),
 'C07': ('online monitor of registration calls in emulated kernel/libc worlds with refusals and threads, plus real kernel', 'fault_enumeration'),
 'C08': ('published state compared with a model over emulated kernel/libc worlds, plus real kernel', 'exploration'),
 'C09': ('query oracle with known placement (emulated migrations; pinned threads on the real kernel)', 'exploration'),
 'C10': ('fault-injecting execution over generated sysfs trees against a reference parser, ASan/UBSan', 'fault_enumeration'),
 'C11': (HIST + ', threads', 'exploration'),
 'C12': (HIST + ', threads, copy-on-write race', 'exploration'),
 'C13': (HIST + ', fork', 'exploration'),
 'C14': (HIST + ', injected shortages, threads', 'exploration'),
 'C15': ('injected misuse in robust pools, death oracle, and misuse-free controls', 'fault_enumeration'),
 'C16': (HIST + ', freed items read back on every CPU', 'exploration'),
 'C17': ('failure of every acquiring call in turn, ledger of mappings, descriptors and heap', 'fault_enumeration'),
 'C18': ('fork monitor: child mutation, remapping and destruction observed from the parent', 'exploration'),
 'C19': (HIST + ' for pool sets, pool identity learnt from init callbacks', 'exploration'),
 'C20': ('generated creation parameters against a reference validator, ASan/UBSan', 'exploration'),
 'C21': ('ThreadSanitizer and ownership/limit oracles under lock-point noise', 'exploration'),
 'C22': ('page-map monitor over random histories', 'exploration'),
 'C23': ('callback trace monitor over random histories with failing callbacks', 'exploration'),
 'C24': ('recorded page-move requests checked for exact cover, injected refusals', 'fault_enumeration'),
 'C25': ('single-step observation of every instruction boundary of ordering probes, two-core litmus', 'exploration'),
}
N = {
 'C01': 'x86 as compiled by gcc/clang at several levels; preemption at every instruction of every operation (single), random pairs and triples; not the other architectures. Trusts the rseq ABI model of the virtual kernel, cross-checked by the real-kernel stress.',
 'C12': 'Known finding F1 (copy-on-write race) is reported, everything else must hold. Sampled histories.',
 'C03': 'Known finding F2 (mm_cid 0 on an unregistered thread) is reported, everything else must hold.',
}
D = 'Property held on all executions generated; sampled, not exhaustive. Trusts the oracle in harness/, the compilers and the running kernel. See DESIGN.md.'
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [
    {'property': k, 'quick_cmd': 'python3 run.py %s quick' % k, 'thorough_cmd': 'python3 run.py %s thorough' % k, 'evidence_file': 'evidence/%s.json' % k,
     'technique': 'runtime monitoring: ' + t, 'level': l, 'level_note': N.get(k, D)} for k, (t, l) in sorted(T.items())],
    'not_applicable': [], 'notes': 'No hooks in /repo: the checks compile /repo\'s sources and headers into their own harnesses and interpose libc calls. Known and fixed findings: known_findings.json.'}
json.dump(M, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
