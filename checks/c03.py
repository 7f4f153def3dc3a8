"""C03: locking forms touch the object only while holding its lock in the right mode."""
import os
from sa import common
from sa.access import Access, origins
from sa.locks import Held, LOCK, UNLOCK, READ, WRITE

LEVEL = 'other'
TECHNIQUE = 'static analysis: lock-set dataflow (guarded-by) on LLVM IR with interprocedural access summaries'
EXPLANATION = ('For every operation that has to lock its object, a path-sensitive lock-set analysis decides which object locks are held, and in which mode, at each '
               'instruction; every load, store, atomic and library or C call that reaches the object (by access paths from the handle, through summaries of the '
               'callees) needs the lock: exclusive for changes, at least shared for reads.')
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tables', 'lock.txt')
OPAQUE = {'SASLock', 'SASUnlock', 'SASFindHeader', 'SOMSASCheckBlockSig', 'SOMSASCheckBlockSigAndType', 'SOMSASCheckBlockSigAndTypeAndSubtype',
          'SASBlockAlloc', 'SASBlockAllocNoLock', 'SASSeize', 'SASRelease', 'sas_printf'}
# header words that never change while the object lives
FIXED = ('baseBlock', 'blockSig1', 'blockSig2', 'blockType', 'blockSize')


def table():
    out = {}
    for l in open(TABLE):
        l = l.split('#')[0].split()
        if not l:
            continue
        root = parse(l[1])
        d = out.setdefault(l[0], {'objs': {}, 'on': None, 'not': set()})
        d['objs'][(root, int(l[2]))] = l[3]
        for x in l[4:]:
            if x.startswith('on='):
                d['on'] = int(x[3:])
            if x.startswith('not='):
                d['not'].add(x[4:])        # works on storage guarded by the caller's lock
    return out


def parse(t):
    if t.startswith('hdr:'):
        return ('hdr', parse(t[4:]))
    if t.startswith('a'):
        return ('arg', int(t[1:]))
    return ('global', t[1:])


def show(root, k):
    t = 'argument %d' % root[1] if root[0] == 'arg' else root[1] if root[0] == 'global' else 'the header of ' + show(root[1], 0)
    return t if k == 0 else 'what %s leads to' % t


def stopper(T):
    def stop(fn, root, k, call):
        d = T.get(fn)
        if not d:
            return False
        if d['on'] is not None:
            o = call.ops[d['on']] if d['on'] < len(call.ops) else None
            if o is not None and o.k == 'const' and o.c == 0:
                return False
        return any(r == root and kk <= k for r, kk in d['objs'])
    return stop


def scan(M, fn, d, A):
    """yields (inst, kind, root, k, best mode held or None)"""
    f = M.fns[fn]
    env0 = None
    if d['on'] is not None and d['on'] < len(f.args):
        env0 = {f.args[d['on']].id: ('!', frozenset((0,)))}
    h = Held(f, env0=env0)
    org = {}

    def modes(t):
        o = org.get(t[0])
        if o is None:
            o = set()
            for v in h.values(t[0]):
                o |= origins(v)
            org[t[0]] = o
        return o
    for i in f.insts():
        tss = h.before.get(i.id)
        if not tss or i.op == 'call' and i.callee in d['not']:
            continue
        for kind, root, k in A.at(i):
            if not any(r == root and kk <= k for r, kk in d['objs']):
                continue
            worst = 9
            for ts in tss:
                best = -1
                for t in ts:
                    if any(r == root and kk <= k for r, kk in modes(t)):
                        best = max(best, 1 if t[1] is None else t[1])
                worst = min(worst, best)
            yield i, kind, root, k, worst


def run(r):
    r.rule('guarded', 'every access to the object of a locking operation happens while its lock is held in a sufficient mode', 300)
    r.rule('locks', 'every operation of the table still takes the locks it is documented to take', 60)
    M = common.lib(headers=True, cse=True)
    T = table()
    A = Access(M, OPAQUE, stop=stopper(T), fields=FIXED)
    for fn, d in sorted(T.items()):
        if fn not in M.fns:
            continue
        f = M.fns[fn]
        n = 0
        for i, kind, root, k, worst in scan(M, fn, d, A):
            what = i.callee or '?' if i.op == 'call' else {'load': 'read', 'store': 'write'}.get(i.op, 'atomic update')
            need = WRITE if kind == 'W' else READ
            inst = '%s %s of %s by %s' % (fn, 'change' if kind == 'W' else 'read', show(root, k), what)
            n += 1
            r.ok('guarded', inst)
            if worst < need:
                r.bad('guarded', inst, '%s %s %s (%s) %s' % (fn, 'changes' if kind == 'W' else 'reads', show(root, k), what,
                      'without holding its lock' if worst < 0 else 'while holding its lock only in shared mode'), i)
        for (root, k), mode in d['objs'].items():
            took = any((root, k) in origins(c.ops[0]) for c in f.calls(LOCK))
            deleg = any(c.callee in T and A.stop(c.callee, rr, kk, c) for c in f.insts() if c.op == 'call' and c.callee in T for rr, kk in T[c.callee]['objs'])
            r.check(took or deleg, 'locks', '%s lock of %s' % (fn, show(root, k)), '%s no longer takes the lock of %s' % (fn, show(root, k)), f.name)
    r.assume.append('an operation running outside any lock sees handles whose identity words (signature, type, size, base link) do not change while the object lives')
    r.assume.append('functions with a lock choice parameter are analysed with the choice on; with it off they are unlocked forms (C04)')
