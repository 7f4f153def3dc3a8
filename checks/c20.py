"""C20: system calls of the storage layer: a reported success means they succeeded, failures leave nothing behind."""
from sa import common
from sa.sym import Sym, canon, atom, con, plusc, scale, eq0, ne0, ge0, single, walk
from sa.flow import fieldof, strip, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: typestate of descriptors, files, segments and call results along every feasible path, on LLVM IR'
EXPLANATION = ('On every feasible path of the functions that call the operating system (helpers inlined) the branches taken must imply, at each exit that may report success and at each store that records an attached segment, '
               'that the calls it stands for succeeded; descriptors, files and segment addresses obtained on a path that reports failure must have been given back on it.')
# calls that answer -1 on failure / nonzero on failure
NEG = {'open', 'mmap', 'shmget', 'shmat', 'ftok', 'SASAllocateShmID', 'SASAllocateShmID_clear', 'SASAllocateShmName', 'SASAllocateShmNameProj', 'SASAllocateShm'}
STAT = {'SASSegStoreCreateByName', 'SASSegStoreCreate', 'SASSegStoreRemoveByName', 'SASSegStoreRemove', 'SASAttachSegByName', 'SASDetachSegByAddr',
        'SASRemoveSegByAddr', 'SASCreateSegByAddr', 'SASAttachSegByAddr', 'SASAttachAnchorSeg', 'SASCreateAnchorSeg', 'SASJoinRegionByName', 'SASJoinRegion', 'SASLockInit'}
ZERO_SYS = {'ftruncate', 'munmap', 'remove', 'unlink', 'fallocate', 'posix_fallocate', 'shmdt'}
ALT = [{'SASAttachAnchorSeg', 'SASCreateAnchorSeg'}]
ATTACH = {'mmap', 'SASAttachSegByName'}
CREATE = {'SASSegStoreCreateByName', 'SASSegStoreCreate'}
REMOVE = {'SASSegStoreRemoveByName', 'SASSegStoreRemove', 'remove', 'unlink'}
P2 = {'p2Alloc', 'p2AddUsed', 'p2AddUsedCompact', 'p2Dealloc', 'p2RemUsed'}
# what has to happen on a path that reports success
DOES = {'SASAttachSegByName': {'mmap'}, 'SASDetachSegByAddr': {'munmap'}, 'SASRemoveSegByAddr': {'SASDetachSegByAddr', 'munmap'}}
CALLS = NEG | STAT | ZERO_SYS


def succeeded(F, kind, i):
    a = atom(('call', i))
    if kind in NEG:
        return ne0(F, plusc(a, 1))
    if kind in ZERO_SYS:
        return eq0(F, a) or ne0(F, plusc(a, 1))
    return eq0(F, a)


def failed(F, kind, i):
    a = atom(('call', i))
    if kind in NEG or kind in ZERO_SYS:
        if eq0(F, plusc(a, 1)) or ge0(F, plusc(scale(a, -1), -1)):
            return True
        return kind not in NEG and ne0(F, a)
    return ne0(F, a)


def owner(name):
    for g in ALT:
        if name in g:
            return g
    return {name}


def run(r):
    r.rule('success', 'an operation of the storage layer reports success only on paths on which every call it made to the operating system or to a lower operation was seen to succeed (an attempt repeated by another one aside)', 8)
    r.rule('descriptor', 'every descriptor opened is closed exactly once on every path on which opening succeeded', 3)
    r.rule('recorded', 'a segment is recorded as attached (mem_IDs, the allocated tree, the region bounds) only after the attach was seen to succeed, as detached only after the unmapping was', 4)
    r.rule('left-behind', 'an operation that created a store file and then fails removes it again; a segment address taken from the region is recorded as allocated or given back', 3)
    r.rule('armed', 'the segment fault handler is installed only on paths on which joining is known to have succeeded', 1)
    M = common.lib(extra_keep={'SASEnableSigSegv'} | P2)
    for n, f in sorted(M.fns.items()):
        if f.blocks and any(i.op == 'call' and i.callee in CALLS | {'close'} for i in f.insts()) or n in ('SASBlockAllocNoLock',):
            function(r, M, n, f)


def anon(i):
    """an anonymous mapping"""
    return len(i.ops) > 4 and i.ops[4].k == 'const' and i.ops[4].c in (-1, (1 << 32) - 1)


def gname(v):
    v = strip(v)
    return v.name if v.k == 'global' else None


def function(r, M, n, f):
    calls = {i.id: i for i in f.insts() if i.op == 'call'}
    has = lambda names: any(i.callee in names for i in calls.values())

    def prove(sym, st, rule, what, i, only=None):
        for u in sorted(st.user, key=str):
            if u[0] != 'call' or only and u[2] not in only:
                continue
            good = succeeded(st.facts, u[2], u[1])
            r.check(good, rule, '%s: %s' % (n, u[2]), '%s %s on a path on which %s was not seen to succeed' % (n, what, u[2]), i)

    def step(sym, i, st, env):
        us = st.user
        if i.op == 'call' and i.callee:
            c = i.callee
            if c == 'close' and i.ops:
                a = single(sym.lin(i.ops[0], env, st))
                k = a and a[0] == 'call' and next((u for u in us if u[0] in ('fd', 'shut') and u[1] == a[1]), None)
                if k:
                    r.check(k[0] == 'fd', 'descriptor', '%s: closed once' % n, '%s closes a descriptor twice' % n, i)
                    us = us - {k} | {('shut', a[1])}
            if c in ('SASEnableSigSegv', 'sigaction') and has(STAT):
                prove(sym, st, 'armed', 'installs the handler', i)
            if c in REMOVE:
                us = frozenset(u for u in us if u[0] != 'file' or u[2] == 'shmget')
            if c in ('shmctl', 'SASRemoveShmID'):
                us = frozenset(u for u in us if u[0] != 'file' or u[2] != 'shmget')
            if c == 'p2Alloc' and i.ops and names_field(sym, i.ops[0], env, st, 'region') and has({'SASCreateSegByAddr'}):
                us = us | {('seg', i.id)}
            if c in ('p2AddUsed', 'p2AddUsedCompact', 'p2Dealloc') and len(i.ops) > 2:
                a = single(sym.lin(i.ops[2], env, st))
                if c != 'p2Dealloc' and names_field(sym, i.ops[0], env, st, 'allocated'):
                    prove(sym, st, 'recorded', 'records a segment as allocated', i)
                    us = us - {('seg', a[1])} if a and a[0] == 'call' else us
                if c == 'p2Dealloc' and a and a[0] == 'call' and names_field(sym, i.ops[0], env, st, 'region'):
                    us = us - {('seg', a[1])}
            if c in CALLS and not (c == 'mmap' and anon(i)):
                us = frozenset(u for u in us if not (u[0] == 'call' and u[2] in owner(c)))
                us = us | {('call', i.id, c)}
                if c == 'open':
                    r.ok('descriptor', '%s: opened' % n)
                    if ('fd', i.id) in us and not failed(st.facts, c, i.id):
                        r.bad('descriptor', '%s: lost' % n, '%s opens again without closing' % n, i)
                    us = us - {('shut', i.id)} | {('fd', i.id)}
                    if i.ops[1].k == 'const' and i.ops[1].c & CREAT:
                        us = us | {('file', i.id, c)}
                if c == 'shmget':
                    us = us | {('file', i.id, c)} if not any(u[0] == 'call' and u[2] == c for u in st.user) else frozenset(u for u in us if not (u[0] == 'file' and u[2] == c))
                if c in CREATE:
                    us = us | {('file', i.id, c)}
        if i.op == 'store':
            v = sym.lin(i.ops[0], env, st)
            at = recorded(sym, i, env, st)
            if at == 'memIDs' and has(ATTACH | {'munmap'}):
                if v == con(0) and has({'munmap'}):
                    if any(u[0] == 'call' and u[2] in ('munmap', 'mmap') for u in us):
                        prove(sym, st, 'recorded', 'records a segment as detached', i, {'munmap'})
                    elif has({'munmap'}) and not has(STAT):
                        r.check(False, 'recorded', '%s: munmap' % n, '%s records a segment as detached before unmapping it' % n, i)
                elif v != con(0):
                    r.check(any(u[0] == 'call' and u[2] in ATTACH for u in us), 'recorded', '%s: attached' % n, '%s records a segment as attached before attaching it' % n, i)
                    prove(sym, st, 'recorded', 'records a segment as attached', i)
            if at in ('memLow', 'memHigh') and has({'SASAttachSegByName'}):
                prove(sym, st, 'recorded', 'sets the region bounds', i)
        return us
    tracked = {k for k, i in calls.items() if i.callee in CALLS | {'p2Alloc', 'close'}}
    want = lambda sym, q: q[0] != 'b' and any(x[0] == 'call' and x[1] in tracked for x in walk(q))
    try:
        sym = Sym(f, want=want, step=step, user=frozenset(), limit=20000)
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    for t, st, env in sym.exits:
        F = st.facts
        for u in sorted(st.user, key=str):
            if u[0] == 'fd':
                if n not in STAT and t.ops and single(sym.lin(t.ops[0], env, st)) == ('call', u[1]):
                    continue
                r.check(failed(F, 'open', u[1]), 'descriptor', '%s: exit' % n, '%s leaves a descriptor open' % n, t)
            if u[0] == 'seg':
                r.check(eq0(F, atom(('call', u[1]))), 'left-behind', '%s: segment address' % n, '%s loses a segment address taken from the region' % n, t)
        if not t.ops or n not in STAT | NEG:
            continue
        v = sym.lin(t.ops[0], env, st)
        F2 = F
        if n in STAT:
            fails = ne0(F, v) or (v[1] and single(v) and single(v)[0] == 'call' and failed(F, calls[single(v)[1]].callee, single(v)[1]))
            if v[1]:
                F2 = F | {('eq', canon(v))}
        else:
            fails = eq0(F, plusc(v, 1)) or not v[1] and v[0] in (-1, (1 << 32) - 1, (1 << 64) - 1)
            if v[1]:
                F2 = F | {('ne', canon(plusc(v, 1)))}
        for u in sorted(st.user, key=str):
            if u[0] == 'file' and (fails or v[1]):
                a = single(v)
                own = failed(F, u[2], u[1]) or a == ('call', u[1]) or eq0(F, v)
                r.check(own, 'left-behind', '%s: file' % n, '%s fails and leaves the %s it created' % (n, 'shared memory' if u[2] == 'shmget' else 'store file'), t)
        if fails:
            continue
        r.ok('success', '%s: exit' % n)
        need = does(n)
        r.check(not need or any(u[0] == 'call' and u[2] in need for u in st.user), 'success', '%s: done' % n, '%s reports success without having done anything' % n, t)
        for u in sorted(st.user, key=str):
            if u[0] == 'call':
                r.check(succeeded(F2, u[2], u[1]), 'success', '%s: %s' % (n, u[2]), '%s reports success on a path on which %s was not seen to succeed' % (n, u[2]), t)


CREAT = 0o100


def does(n):
    """the calls of which a path that reports success has to make one"""
    if n in DOES:
        return DOES[n]
    if n == 'SASJoinRegionByName' or n.startswith(('SASAttachSeg', 'SASAttachAnchor', 'SASCreateSeg', 'SASCreateAnchor')):
        return ATTACH | {'SASAttachSegByAddr', 'SASCreateAnchorSeg', 'SASAttachAnchorSeg'}
    if n.startswith('SASSegStoreRemove'):
        return REMOVE
    if n.startswith('SASSegStoreCreate'):
        return {'open', 'SASSegStoreCreateByName'}
    if n.startswith('SASAllocateShm') or n == 'SASLockInit':
        return {'shmget', 'SASAllocateShmID', 'SASAllocateShmNameProj', 'SASAllocateShmName'}
    return set()


def names_field(sym, v, env, st, field):
    """is v the address of this member of the anchor"""
    g = fieldof(sym.res(v, env, st))
    return bool(g) and g[1] == field


def recorded(sym, i, env, st):
    p = sym.res(i.ops[1], env, st)
    if p.k == 'global' and p.name in ('memLow', 'memHigh'):
        return p.name
    b = p
    while b.k in ('inst', 'cexpr') and b.op == 'gep':
        b = strip(b.ops[0])
    if b.k == 'inst' and b.op == 'load' and gname(b.ops[0]) == 'mem_IDs':
        return 'memIDs'
    return None
