"""C01: region bookkeeping is only touched under the region semaphore."""
from sa import common
from sa.flow import Flow, fieldof, addr, const_of, reach_from
from sa.access import origins

TECHNIQUE = 'static analysis: path-sensitive typestate of the region semaphore plus field- and call-effect rules on LLVM IR'
LEVEL = 'other'
EXPLANATION = ('Every load, store, tree operation or free-list operation on the region bookkeeping (the five tree roots of the anchor and the anchor heap) in the whole library '
               'is found by structure field in the LLVM IR and must happen in the state "semaphore owned" of a path-sensitive typestate; ownership is only entered '
               'when sem_wait returned 0 (or failed with something other than EINTR) and must be given back exactly once on every path. Functions that run before the region '
               'is shared, in the fault handler, or with all users gone are listed with the reason.')

ROOTS = {'free', 'used', 'region', 'allocated', 'uncommitted'}
# not operations that hand out, take back or list blocks: reason why they cannot or need not own the semaphore
UNLOCKED = {
    'SASJoinRegionByName': 'initialises the anchor it has just created, before the semaphore exists',
    'SASAttachAllocatedAddr': 'runs inside the SIGSEGV handler, where waiting for the semaphore the thread may own would never end',
    'SASAttachAllocatedSegs': 'attach at join time',
    'SASDetachAllocatedSegs': 'detach at clean-up',
    'SASRemoveAllocatedSegs': 'removal of the whole region',
}
CALLER_OWNS = {'SASBlockAllocNoLock'}
WAITS = {'sem_wait': True, 'sem_trywait': False, 'sem_timedwait': False, 'sem_clockwait': False}
SEIZE, RELEASE = 'SASSeize', 'SASRelease'


def semfield(v):
    f = fieldof(v)
    return f is not None and f[1] == 'SASSem'


def touches(i):
    """description of the bookkeeping access made by this instruction, or None"""
    p = i.ops[0] if i.op in ('load', 'cmpxchg', 'atomicrmw') else i.ops[1] if i.op == 'store' else None
    if p is not None:
        f = fieldof(p)
        if f and f[0].startswith('SASAnchor') and f[1] in ROOTS:
            return '%s of %s' % (i.op, f[1])
        return None
    if i.op == 'call' and i.callee:
        if i.callee.startswith('uLongTreeNode::'):
            return i.callee
        if i.callee.startswith('freeNode_') or i.callee in ('SASNearAlloc', 'SASNearDealloc'):
            if any(o.w == 64 and any(x == (('global', 'memLow'), 1) or x[0] == ('global', 'anchorBlock') or x[0] == ('global', 'memLow') for x in origins(o)) for o in i.ops):
                return i.callee
        if i.callee in CALLER_OWNS:
            return i.callee
    return None


def is_errno(v):
    while v.k == 'inst' and v.op in ('zext', 'sext', 'freeze'):
        v = v.ops[0]
    if v.k == 'inst' and v.op == 'load':
        r, off = addr(v.ops[0])
        return r.k == 'inst' and r.op == 'call' and r.callee == '__errno_location'
    return False


def run(r):
    r.rule('owned', 'an access to the region bookkeeping (tree roots, tree nodes, anchor heap) only happens while the semaphore is owned', 20)
    r.rule('balance', 'an operation neither takes the semaphore it owns, nor gives back one it does not own, nor returns owning it', 6)
    r.rule('acquired', 'SASSeize only returns when sem_wait succeeded; an interrupted wait is repeated', 1)
    r.rule('released', 'SASRelease posts the semaphore exactly once on every path', 1)
    r.rule('no-reinit', 'the semaphore is never initialised or destroyed while the same operation owns it', 3)
    r.rule('init', 'the semaphore is created process-shared with value 1', 1)
    r.rule('created', 'a join that creates the region initialises its semaphore before it returns success', 1)
    M = common.lib()
    # functions that may initialise or destroy the semaphore, through callees
    reinit = set()
    for n, f in M.fns.items():
        if any(i.callee in ('sem_init', 'sem_destroy') and i.ops and semfield(i.ops[0]) for i in f.calls('sem_init', 'sem_destroy')):
            reinit.add(n)
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            if n not in reinit and any(i.op == 'call' and i.callee in reinit for i in f.insts()):
                reinit.add(n); ch = True
    nfn = 0
    for n, f in sorted(M.fns.items()):
        if n.startswith('uLongTreeNode::') or n.startswith('SasUserLock::') or n.startswith('freeNode_'):
            continue
        if n in ('SASNearAlloc', 'SASNearDealloc'):
            continue
        acc = [(i, touches(i)) for i in f.insts()]
        acc = [(i, t) for i, t in acc if t]
        sem = [i for i in f.insts() if i.op == 'call' and (i.callee in (SEIZE, RELEASE) or (i.callee in WAITS or i.callee == 'sem_post') and i.ops and semfield(i.ops[0]))]
        if not acc and not sem:
            continue
        if n in UNLOCKED and not sem:
            r.assume.append('%s works without the semaphore: %s' % (n, UNLOCKED[n]))
            continue
        if n in CALLER_OWNS and not sem:
            continue
        nfn += 1
        start = 'owned' if n == RELEASE else 'free'
        if n in CALLER_OWNS:
            start = 'owned'
        bads = set()
        good = set()
        accd = dict((i.id, t) for i, t in acc)
        waits = {}

        def learn(v, rel, c, ts, env):
            if ts not in ('waiting', 'failed'):
                return ts
            if v.id in waits or v.k == 'inst' and v.op == 'call' and v.callee in WAITS:
                if rel == '=' and c == 0:
                    return 'owned'
                if ts == 'waiting' and (rel == '!' and c == 0 or rel == '=' and c != 0):
                    return 'failed'
            if ts == 'failed' and is_errno(v):
                if rel == '!' and c == 4 or rel == '=' and c != 4:
                    return 'owned'      # a semaphore that cannot be waited for at all: there is nothing to wait for
            return ts

        def tr(i, ts, env):
            if i.op != 'call':
                if i.id in accd:
                    (good if ts == 'owned' else bads).add((i, 'owned', accd[i.id], ts))
                return ts
            if i.callee == SEIZE and n != SEIZE:
                if ts != 'free':
                    bads.add((i, 'balance', 'seize', ts))
                return 'owned'
            if i.callee == RELEASE and n != RELEASE:
                if ts != 'owned':
                    bads.add((i, 'balance', 'release', ts))
                return 'free'
            if i.callee in WAITS and i.ops and semfield(i.ops[0]):
                if ts == 'owned':
                    bads.add((i, 'balance', 'seize', ts))
                return 'waiting'
            if i.callee == 'sem_post' and i.ops and semfield(i.ops[0]):
                if ts != 'owned':
                    bads.add((i, 'balance', 'release', ts))
                return 'free'
            if i.callee in ('sem_init', 'sem_destroy') and i.ops and semfield(i.ops[0]) or i.callee in reinit:
                (bads if ts == 'owned' else good).add((i, 'no-reinit', i.callee, ts))
            if i.id in accd:
                (good if ts == 'owned' else bads).add((i, 'owned', accd[i.id], ts))
            return ts
        fl = Flow(f, start, tr, learn)
        want = 'owned' if n == SEIZE or n in CALLER_OWNS else 'free'
        rule = 'acquired' if n == SEIZE else 'released' if n == RELEASE else 'balance'
        r.ok(rule, n)
        r.ok('no-reinit', n)
        for i, ru, t, ts in good:
            r.ok(ru, '%s %s' % (n, t))
        seen = set()
        for i, ru, t, ts in sorted(bads, key=lambda x: (x[1], x[2], x[0].id)):
            if (ru, t) in seen:
                continue
            seen.add((ru, t))
            msg = {'owned': '%s reaches %s of the region bookkeeping without owning the region semaphore',
                   'balance': '%s can %s the region semaphore in the wrong state',
                   'no-reinit': '%s calls %s on the region semaphore while it owns it'}[ru] % (n, t)
            r.bad(ru if ru != 'balance' or n not in (SEIZE, RELEASE) else rule, '%s %s' % (n, t), msg + ' (state here: %s)' % ts, i)
        for ret, ts, env in fl.exits:
            if ts != want:
                r.bad(rule, n, {'acquired': '%s can return without owning the semaphore (last state: %s)', 'released': '%s can return without having posted the semaphore (state %s)',
                                'balance': '%s can return with the region semaphore in state "%s"'}[rule] % (n, ts), ret)
    # initialisation
    for n, f in sorted(M.fns.items()):
        for i in f.calls('sem_init'):
            if semfield(i.ops[0]):
                a, b = const_of(i.ops[1], {}), const_of(i.ops[2], {})
                r.check(a not in (None, 0) and b == 1, 'init', '%s sem_init' % n,
                        '%s initialises the region semaphore with pshared=%s value=%s instead of process-shared with value 1' % (n, a, b), i)
    f = M.fns.get('SASJoinRegionByName')
    if f:
        mk = list(f.calls('SASCreateAnchorSeg'))

        def tr2(i, ts, env):
            if i.op == 'call' and i.callee == 'SASCreateAnchorSeg':
                return 'asked'
            if i.op == 'call' and (i.callee == 'sem_init' and semfield(i.ops[0]) or i.callee == 'SASResetSem'):
                return 'ok' if ts in ('made', 'asked') else ts
            return ts

        def learn2(v, rel, c, ts, env):
            if ts == 'asked' and v.k == 'inst' and v.op == 'call' and v.callee == 'SASCreateAnchorSeg':
                return 'made' if rel == '=' and c == 0 else 'refused' if rel == '!' and c == 0 or rel == '=' else ts
            return ts
        if mk:
            r.ok('created', f.name)
            for ret, ts, env in Flow(f, 'start', tr2, learn2).exits:
                if ts in ('made', 'asked') and not (ret.ops and const_of(ret.ops[0], env) not in (None, 0)):
                    r.bad('created', f.name, 'a created region can be returned without an initialised semaphore', ret)
    r.assume.append('SASBlockAllocNoLock is internal: every call of it inside the library is checked to own the semaphore')
