"""C02: every object lock taken is released exactly once on every path."""
from sa import common, effects
from sa.locks import Held, LOCK, UNLOCK, pretty

EXPLANATION = ('Path-sensitive typestate over the LLVM IR of every function that calls SASLock or SASUnlock: the multiset of held object locks, named by the '
               'access path of the locked address, is tracked through branches whose outcomes are correlated; locks taken in counted loops over an expansion list '
               'are tracked as index ranges whose start and end must equal those of the releasing loop.')
TECHNIQUE = 'static analysis: path-sensitive lock typestate (property simulation) on LLVM IR with symbolic list ranges'


def run(r):
    r.rule('balanced', 'no object lock is still held at a return of the operation that took it', 60)
    r.rule('release-held', 'SASUnlock is only called for an object lock the same operation holds at that point', 60)
    r.rule('sweep-range', 'locks taken over the elements of an expansion list are released over exactly the same elements', 0)
    M = common.lib(headers=True, cse=True)
    fw = effects.field_writes(M)
    n = 0
    for name, f in sorted(M.fns.items()):
        cs = list(f.calls(LOCK, UNLOCK))
        if not cs:
            continue
        n += 1
        h = Held(f, fw=fw)
        for c in cs:
            if c.callee == UNLOCK:
                r.ok('release-held', '%s unlock of %s' % (name, pretty(h.canon(Kk(c)))))
        seen = set()
        for kind, i, k in h.errors:
            kk = pretty(h.canon(k))
            if kk in seen:
                continue
            seen.add(kk)
            r.bad('release-held', '%s unlock of %s' % (name, kk), '%s releases the lock of %s on a path where it does not hold it' % (name, kk), i)
        for ret, ts, env in h.exits():
            r.ok('balanced', name)
            for t in ts:
                kk = pretty(h.canon(t[0]))
                r.bad('balanced', '%s lock of %s' % (name, kk), '%s can return still holding the lock of %s' % (name, kk), ret)
        for _ in range(h.ranges):
            r.ok('sweep-range', name)
        for i, k, msg in h.range_errors:
            r.bad('sweep-range', '%s list %s' % (name, pretty(k)), '%s: %s' % (name, msg), i)
        for k, msg in h.start_errors():
            r.bad('sweep-range', '%s list %s start' % (name, pretty(k)), '%s: %s' % (name, msg), cs[0])
    r.assume.append('SASLock and SASUnlock themselves take and release exactly the lock of the address they are given (C08)')


def Kk(c):
    from sa.flow import key
    return key(c.ops[0])
