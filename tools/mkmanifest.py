#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and the check modules present"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    'C33': 'the order and search-path correctness of B-tree nodes after arbitrary histories is an invariant over unbounded run-time key sequences; no sound static argument in reach bounds it (counter and locking parts are claimed as C26, C27, C02-C05)',
    'C34': 'non-overlap of live allocations quantifies over run-time addresses and sizes of all past allocations in linked free lists; needs a shape and arithmetic proof outside this family (range checks on free, size symmetry and atomic bitmap updates are claimed as C22, C23, C16)',
    'C35': 'end-to-end exactly-once FIFO delivery depends on the run-time interleaving of index values modulo the queue size; the local rules it rests on are claimed as C09-C13',
    'C36': 'clock monotonicity and accuracy are numeric properties of run-time clock readings',
    'C37': 'liveness under every schedule; no static termination argument in reach covers futex and semaphore waits',
    'C38': 'durability across crashes quantifies over run-time histories and kernel behaviour; the static part (shared fixed-address mapping, no private pointers) is claimed as C19 and C25',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'not claimed yet: its analysis is not built'})
        continue
    m = __import__('checks.' + i.lower(), fromlist=['x'])
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                   'technique': getattr(m, 'TECHNIQUE', 'static analysis: typestate and dataflow over LLVM IR'),
                   'level': getattr(m, 'LEVEL', 'other'), 'level_note': m.EXPLANATION})
json.dump({'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks compile /repo/src to LLVM IR (clang 18, gcc-style flags of the repository, whole library in about 0.3 s), inline every function that is not '
                    'part of the confirmed function list, promote to SSA and decide their rules on the result; nothing of the library is executed.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
