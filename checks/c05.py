"""C05: object locks are only waited for from the base object outwards to its parts."""
from sa import common
from sa.order import lock_summaries, mapped, outward
from sa.access import origins
from sa.locks import Held, LOCK, UNLOCK, READ, WRITE, pretty
from sa.flow import key
from checks.c04 import Locks

LEVEL = 'other'
TECHNIQUE = 'static analysis: lock-order analysis (held-while-acquiring pairs over the call graph with access-path naming) on LLVM IR'
EXPLANATION = ('At every SASLock call and every call that may reach one (with the lock choice it is given), the set of object locks held on each path is compared with '
               'the locks that may be waited for, both named by access paths from the handle: a lock reached through a base link, or nearer to the handle, must not be '
               'waited for while a part is held, and a lock held in shared mode is not requested again.')


def run(r):
    r.rule('order', 'no lock of a base object is waited for while the lock of one of its parts is held (and not the base itself)', 40)
    r.rule('no-reentry', 'a lock held in shared mode is not requested again by the same operation', 10)
    r.rule('not-in-region', 'no object lock is waited for while the region semaphore is held', 10)
    M = common.lib(headers=True, cse=True)
    L = Locks(M)
    L.locks()
    S = lock_summaries(M, L)
    # contexts that operations without a lock choice reach
    reach = set((n, None) for n in M.fns if n not in L.on)
    work = list(reach)
    while work:
        x = work.pop()
        for i, cc in L.calls(*x):
            y = (i.callee, cc)
            if i.callee in M.fns and y not in reach:
                reach.add(y)
                work.append(y)
    for n, c in sorted(reach, key=repr):
        f = M.fns[n]
        if not any(True for _ in f.calls(LOCK)) or c == 0:
            continue
        env0 = {f.args[L.on[n]].id: ('!', frozenset((0,)))} if c == 1 else None
        h = Held(f, env0=env0)
        for i, cc in L.calls(n, c):
            if i.callee == UNLOCK:
                continue
            if i.callee == LOCK:
                acq = {x + (outward(i.ops[0]), i.ops[1].c if i.ops[1].k == 'const' else WRITE) for x in origins(i.ops[0])}
                what = 'the lock of %s' % pretty(h.canon(key(i.ops[0])))
            else:
                acq = mapped(S[(i.callee, cc)], i)
                what = i.callee
            if not acq:
                continue
            for ts in h.before.get(i.id, ()):
                held = set()
                for t in ts:
                    for v in h.values(t[0]):
                        held |= {x + (outward(v), t[1], pretty(h.canon(t[0]))) for x in origins(v)}
                have = {x[:2] for x in held}
                for root, k, ow, m in acq:
                    inst = '%s: %s' % (n, what)
                    r.ok('order', inst)
                    for hr, hk, ho, hm, name in held:
                        if hr != root:
                            continue
                        if hm == READ and hk == k and ho == ow and not (k and k >= 4):
                            r.ok('no-reentry', inst)
                            if (root, k) != (root, 0) and k > 1:
                                continue
                            r.bad('no-reentry', inst + ' while sharing ' + name, '%s requests the lock it holds in shared mode (%s) again through %s' % (n, name, what), i)
                        if (root, k) in have and not ow:
                            continue            # the same operation holds it already
                        if ow > ho and hk >= k - 1 or not ow and not ho and k < hk:
                            r.bad('order', inst + ' while holding ' + name, '%s waits for the lock of the base object (%s) while it holds the lock of its part %s' % (n, what, name), i)
        r.ok('no-reentry', n)
    # region semaphore
    region(r, M, L)
    r.assume.append('an object lock is recursive for its exclusive holder, so re-locking an object already held exclusively does not wait')


def region(r, M, L):
    from sa.flow import Flow
    may = {x for x in L.why}
    for n, f in sorted(M.fns.items()):
        if not any(True for _ in f.calls('SASSeize')):
            continue
        r.ok('not-in-region', n)
        bad = {}

        def tr(i, ts, env):
            if i.op == 'call':
                if i.callee == 'SASSeize':
                    return True
                if i.callee == 'SASRelease':
                    return False
                if ts and (i.callee == LOCK or (i.callee, None) in may or (i.callee, 1) in may):
                    bad[i.id] = i
            return ts
        Flow(f, False, tr)
        for i in bad.values():
            r.bad('not-in-region', '%s calls %s' % (n, i.callee), '%s waits for an object lock (%s) while it holds the region semaphore' % (n, i.callee), i)
