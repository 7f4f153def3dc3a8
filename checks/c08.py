"""C08: an object lock excludes every other holder of the same address."""
from sa import common
from sa.flow import Flow, TooBig, fieldof, addr, const_of, excl, key, strip
from sa.sym import Sym, S, sub, addl, scale, plusc, atom, con, single, walk, eq0, ne0, ge0
from sa.access import origins

TECHNIQUE = 'static analysis: path-sensitive typestate of the lock-manager state (grant and release automata) on LLVM IR'
LEVEL = 'other'
EXPLANATION = ('The grant and release rules of the lock object are checked on every path of read_lock, write_lock and unlock: which facts about status, counts and owner were established '
               'in the same internally locked section when a grant, a release or a re-use of the lock object is recorded. The lock list and the lock table are checked for handing every '
               'request for an address to the lock bound to it, under the list lock, which is handed over exactly once.')
UL = 'SasUserLock::'
FIELDS = {'status', 'total_readers_count', 'readers_waiting', 'writers_waiting', 'writer_task_id', 'writer_thread_id', 'writer_thread_lock_count', 'readers', 'address'}
WAITS = {'sem_wait', 'sched_yield', 'usleep', 'nanosleep', 'sleep'}


def run(r):
    r.rule('guarded', 'the state of a lock is read and written only while its internal spin lock is owned', 3)
    r.rule('section', 'the internal spin lock is released exactly once on every path, and never owned while sleeping', 3)
    r.rule('grant', 'a request returns only with a grant that was due: own exclusive again, own shared again, shared without exclusive, exclusive alone', 2)
    r.rule('release', 'a release takes back only what its thread holds, and frees the lock only when nothing is left', 1)
    r.rule('binding', 'the lock keeps the address it was requested for from before the list is unlocked until nobody holds or waits for it', 2)
    r.rule('list', 'a request locks the entry bound to the address, or, after searching the whole list, a free or new one, and hands the list lock over exactly once', 1)
    r.rule('list-release', 'a release unlocks only the entry bound to the address, under the list lock', 1)
    r.rule('table', 'requests and releases for an address use the same slot, inside the table, with the address and mode of the caller', 2)
    M = common.lib(headers=True, cse=True, extra_inline=(UL + 'thread_sleep', UL + 'thread_wakeup'))
    no, ex = statuses(M)
    r.check(no is not None and ex is not None and no != ex, 'grant', 'status values', 'the exclusive and the free state of a lock are not told apart', None)
    for n in ('read_lock', 'write_lock', 'unlock'):
        user(r, M, n, no, ex)
    lock_node(r, M)
    unlock_node(r, M)
    equality(r, M)
    table(r, M)


def statuses(M):
    no = ex = None
    for n, f in M.fns.items():
        if not n.startswith(UL):
            continue
        for i in f.insts():
            if i.op == 'store' and fieldof(i.ops[1]) == ('SasUserLock', 'status') and i.ops[0].k == 'const':
                if n == UL + 'SasUserLock':
                    no = i.ops[0].c
                elif n == UL + 'write_lock':
                    ex = i.ops[0].c
    return no, ex


TID = ('sphdeGetTID', 'gettid', 'sphFastGetTID')
PID = ('getpid', 'sphdeGetPID')
ARG0 = atom(('arg', 0))
LOCK = {'spin_lock', 'sas_spin_lock', 'sas_spin_lock_with_yield'}
UNLOCK = {'spin_unlock', 'sas_spin_unlock'}


def isself(v, which):
    """is v the identity of the calling thread / task (sphdeGetTID() / getpid())"""
    v = strip(v)
    while v.k == 'inst' and v.op in ('sext', 'zext', 'trunc'):
        v = v.ops[0]
    if v.k == 'inst' and v.op == 'phi':
        return all(isself(o, which) for o in v.ops)
    return v.k == 'inst' and v.op == 'call' and v.callee in which


def user(r, M, n, no, ex):
    f = M.fn(UL + n)
    name = f.name
    bads = {}
    vals = {i.id: i for i in f.insts()}
    lay = M.structs['SasUserLock']
    ent = M.structs['reader_id_t']
    esize = max(ent) + 4
    base = next(o for o, m in lay.items() if m == 'readers')
    end = min(o for o in lay if o > base)

    def bad(rule, what, i, msg):
        bads.setdefault((rule, what), (i, '%s: %s' % (name, msg)))

    def place(A, p):
        """(field, entry) of an address in the lock object, or None"""
        d = sub(A, ARG0)
        if not d[1]:
            if base <= d[0] < end:
                o = (d[0] - base) % esize
                return (ent[o], con(d[0] - o)) if o in ent else None
            m = lay.get(d[0])
            return (m, None) if m in FIELDS else None
        if not any(x == ('arg', 0) for x, k in d[1]) and all(k % esize == 0 for x, k in d[1]):
            o = (d[0] - base) % esize
            return (ent[o], plusc(d, -o)) if o in ent else None
        g = fieldof(p)
        if g and g[0] == 'reader_id_t' or {x for x, k in origins(p)} == {('arg', 0)} and len(A[1]) == 1:
            o = A[0] % esize
            return (ent[o], plusc(A, -o)) if o in ent else None
        return None

    def isother(v, env, st, k):
        v = sym_.res(v, env, st)
        return v.k == 'arg' and v.idx == k

    sym_ = None

    # user: owned, current value of each member in this section, value first seen in it, tokens
    class U:
        def __init__(s, st):
            s.st = st
            s.owned, cur, orig, s.tok = st.user
            s.cur = dict(cur); s.orig = dict(orig)

        def pack(s):
            return (s.owned, frozenset(s.cur.items()), frozenset(s.orig.items()), frozenset(s.tok))

        def eq(s, fld, c=0, slot=None):
            F = s.cur.get((fld, slot))
            return F is not None and eq0(s.st.facts, plusc(F, -c))

        def ne(s, fld, c=0, slot=None):
            F = s.cur.get((fld, slot))
            return F is not None and ne0(s.st.facts, plusc(F, -c))

        def none(s, fld, slot=None):
            """the count is not above 0"""
            F = s.cur.get((fld, slot))
            return F is not None and (eq0(s.st.facts, F) or ge0(s.st.facts, scale(F, -1)))

        def some(s, fld):
            F = s.cur.get((fld, None))
            return F is not None and (ne0(s.st.facts, F) or ge0(s.st.facts, plusc(F, -1)))

        def me(s, fld, which, slot=None):
            F = s.orig.get((fld, slot))
            if F is None:
                return False
            for g in s.st.facts:
                if g[0] == 'eq':
                    for d in (sub(g[1], F), addl(g[1], F)):
                        x = single(d) or single(scale(d, -1))
                        if x is not None and x[0] in ('call', 'i') and x[1] in vals and isself(vals[x[1]], which):
                            return True
            return False

        free = property(lambda s: s.ne('status', ex) or s.eq('status', no))
        excl = property(lambda s: s.eq('status', ex) or s.ne('status', no))
        wmine = property(lambda s: s.me('writer_thread_id', TID) and s.me('writer_task_id', PID))
        gone = property(lambda s: 'wdec' in s.tok and s.none('writer_thread_lock_count'))

        def rmine(s, slot):
            return s.me('reader_thread_id', TID, slot) and s.me('reader_task_id', PID, slot)

        def drained(s, slot):
            return ('rdec', slot) in s.tok and s.none('reader_thread_lock_count', slot)

    def leave(u, slot, at):
        if n == 'unlock':
            if u.rmine(slot) and ('rdec', slot) not in u.tok:
                bad('release', 'reader kept', at, 'leaves the entry of the releasing reader as it was')
            if u.drained(slot) and not {('ridclr', slot), ('rtkclr', slot)} <= u.tok:
                bad('release', 'reader entry kept', at, 'leaves the identity of a reader in an entry whose count is 0')

    def step(sym, i, st, env):
        nonlocal sym_
        sym_ = sym
        if i.op == 'call':
            c = i.callee or ''
            here = i.ops and sub(sym.lin(i.ops[0], env, st), ARG0) if c in LOCK | UNLOCK | {name, UL + 'unlock'} else None
            if c in LOCK and here and not here[1]:
                u = U(st)
                if u.owned:
                    bad('section', 'twice', i, 'takes its spin lock while it already owns it')
                fs = frozenset(g for g in st.facts if not any(x[0] == 'ld' for x in walk(g)))
                return S(fs, frozenset(), frozenset(), (True, frozenset(), frozenset(), frozenset(t for t in u.tok if not isinstance(t, tuple))))
            if c in UNLOCK and here and not here[1]:
                u = U(st)
                if not u.owned:
                    bad('section', 'unowned', i, 'releases the spin lock it does not own')
                for slot in {k[1] for k in u.cur if k[1] is not None}:
                    leave(u, slot, i)
                if 'wcnt' in u.tok and not {'wid', 'wtk'} <= u.tok:
                    bad('grant', 'anonymous', i, 'grants the exclusive lock without recording its holder in the section that saw the last reader leave')
                if n == 'unlock' and u.gone and not {'stfree', 'widfree', 'wtkfree'} <= u.tok:
                    bad('release', 'not freed', i, 'the last release of the exclusive owner leaves its identity or the exclusive status behind')
                fs = frozenset(g for g in st.facts if not any(x[0] == 'ld' for x in walk(g)))
                return S(fs, frozenset(), frozenset(), (False, frozenset(), frozenset(), frozenset(t for t in u.tok if not isinstance(t, tuple)) - {'wid', 'wtk', 'wcnt'}))
            if c in WAITS and st.user[0]:
                bad('section', 'sleep', i, 'sleeps while it owns the spin lock of the lock object')
            if c == name and here and not here[1]:
                bad('section', 'recursion', i, 'calls itself')
            if c == UL + 'unlock' and n != 'unlock' and isother(i.ops[0], env, st, 1):
                u = U(st)
                if 'handed' in u.tok:
                    bad('binding', 'handed twice', i, 'unlocks the list lock twice')
                if 'bound' not in u.tok:
                    bad('binding', 'handed early', i, 'unlocks the list before the lock is bound to the address, so that another request can miss or take it')
                if not u.owned:
                    bad('binding', 'handed unowned', i, 'unlocks the list before it owns the lock object')
                u.tok = u.tok | {'handed'}
                return u.pack()
            return st.user
        if i.op in ('load', 'store', 'atomicrmw', 'cmpxchg'):
            ptr = i.ops[1] if i.op == 'store' else i.ops[0]
            A = sym.lin(ptr, env, st)
            p = place(A, ptr)
            if p is None:
                return st.user
            u = U(st)
            if not u.owned and not (i.op == 'load' and p[0] in ('readers_waiting', 'writers_waiting')):
                bad('guarded', p[0], i, 'accesses %s without owning the spin lock of the lock object' % p[0])
            if i.op == 'store':
                store(sym, i, p, u, env)
                u.cur[p] = sym.lin(i.ops[0], env, st)
                return u.pack()
            if i.op != 'load':
                bad('guarded', 'atomic ' + p[0], i, 'changes %s in a way this rule does not know' % p[0])
            elif u.owned:
                # the members do not change while the spin lock is owned
                L = sym.lin(i, env, st)
                u.cur.setdefault(p, L)
                u.orig.setdefault(p, L)
                if not any(a == A for a, _ in st.mem):
                    sym.vals[i.id] = i
                    return st._replace(mem=st.mem | {(A, i.id)}, user=u.pack())
                return u.pack()
        return st.user

    def store(sym, i, p, u, env):
        fld, slot = p
        v = i.ops[0]
        L = sym.lin(v, env, u.st)
        c = L[0] if not L[1] else None
        was = u.cur.get(p)
        by = None                           # changed by
        if was is not None:
            d = sub(L, was)
            by = d[0] if not d[1] else next((k for k in (1, -1) if eq0(u.st.facts, plusc(d, -k))), None)
            if by is None and c is not None and eq0(u.st.facts, plusc(was, -0)):
                by = c
        if fld == 'address':
            if n == 'unlock':
                if c != 0:
                    bad('binding', 'rebound', i, 'a release binds the lock to an address')
                elif not (u.none('readers_waiting') and u.none('writers_waiting') and (u.gone or 'rtot' in u.tok and u.none('total_readers_count') and u.free)):
                    bad('binding', 'unbound', i, 'makes the lock object available for other addresses while somebody may still hold or wait for it')
                u.tok = u.tok | {'unbound'}
            elif not isother(v, env, u.st, 2):
                bad('binding', 'wrong', i, 'binds the lock to something else than the requested address')
                u.tok = u.tok - {'bound'}
            else:
                u.tok = u.tok | {'bound'}
        elif fld == 'status':
            if c == ex and n == 'write_lock':
                if not u.free:
                    bad('grant', 'status taken', i, 'claims the exclusive status without having seen, in the same section, that nobody has it')
                u.tok = u.tok | {'claim'}
            elif c == no and n == 'unlock':
                if not u.gone:
                    bad('release', 'status', i, 'gives up the exclusive status before the count of its owner reached 0')
                u.tok = u.tok | {'stfree'}
            else:
                bad('grant', 'status', i, 'changes the status of the lock where it has no reason to')
        elif fld in ('writer_thread_id', 'writer_task_id'):
            w = 'wid' if fld == 'writer_thread_id' else 'wtk'
            if n == 'unlock':
                if c != 0:
                    bad('release', 'owner', i, 'a release records an owner')
                elif not u.gone:
                    bad('release', 'owner gone', i, 'forgets the owner before its count reached 0')
                u.tok = u.tok | {w + 'free'}
            elif n != 'write_lock':
                bad('grant', 'owner', i, 'records an exclusive owner in a shared request')
            elif not isself(v, TID if w == 'wid' else PID):
                bad('grant', 'owner identity', i, 'records somebody else than the caller as owner')
            else:
                if not u.none('total_readers_count') or 'claim' not in u.tok:
                    bad('grant', 'owner early', i, 'records the exclusive owner without having seen, in the same section, that no reader is left')
                u.tok = u.tok | {w}
        elif fld == 'writer_thread_lock_count':
            if n == 'unlock':
                if by != -1:
                    bad('release', 'count', i, 'does not count the release of the exclusive lock by one')
                elif not (u.excl and u.none('total_readers_count') or u.wmine):
                    bad('release', 'count of others', i, 'releases an exclusive lock that is not held')
                u.tok = u.tok | {'wdec'}
            elif by == 1 and u.wmine:
                if 'got' in u.tok:
                    bad('grant', 'again', i, 'grants the lock again although the caller was not found to be its exclusive owner')
                u.tok = u.tok | {'got', 'again'}
            elif c == 1 and n == 'write_lock':
                if not u.none('total_readers_count') or 'claim' not in u.tok:
                    bad('grant', 'count early', i, 'counts the exclusive owner without having seen that no reader is left')
                u.tok = u.tok | {'wcnt', 'got'}
            elif by == 1:
                bad('grant', 'again', i, 'grants the lock again although the caller was not found to be its exclusive owner')
                u.tok = u.tok | {'got'}
            else:
                bad('grant', 'count', i, 'changes the count of the exclusive owner where it has no reason to')
        elif fld == 'total_readers_count':
            if n == 'unlock':
                if by != -1 or 'rtot' in u.tok:
                    bad('release', 'total', i, 'does not count the release of a shared lock by one')
                elif not u.some(fld):
                    bad('release', 'total zero', i, 'takes back a shared lock without having seen that there is one')
                u.tok = u.tok | {'rtot'}
            elif n == 'read_lock' and by == 1 and 'rtot' not in u.tok:
                u.tok = u.tok | {'rtot'}
            else:
                bad('grant', 'total', i, 'changes the number of readers where it has no reason to')
        elif fld in ('reader_thread_id', 'reader_task_id'):
            w = 'rid' if fld == 'reader_thread_id' else 'rtk'
            if n == 'read_lock':
                if not isself(v, TID if w == 'rid' else PID):
                    bad('grant', 'reader identity', i, 'records somebody else than the caller as reader')
                if not u.none('reader_thread_lock_count', slot) and ('took', slot) not in u.tok:
                    bad('grant', 'reader slot', i, 'records the reader in an entry that may be in use')
                if not u.free:
                    bad('grant', 'reader status', i, 'grants the shared lock without having seen, in the same section, that nobody has it exclusively')
                u.tok = u.tok | {w}
            elif n == 'unlock':
                if c != 0:
                    bad('release', 'reader', i, 'a release records a reader')
                elif not u.drained(slot):
                    bad('release', 'reader gone', i, 'forgets a reader before its count reached 0')
                u.tok = u.tok | {(w + 'clr', slot)}
            else:
                bad('grant', 'reader entry', i, 'changes the reader entries')
        elif fld == 'reader_thread_lock_count':
            if n == 'unlock':
                if by != -1:
                    bad('release', 'reader count', i, 'does not count the release of a shared lock by one')
                elif not u.rmine(slot):
                    bad('release', 'reader count of others', i, 'takes back a shared lock of another thread')
                u.tok = u.tok | {('rdec', slot), 'rdec'}
            elif n == 'read_lock' and c == 1:
                if not u.none(fld, slot):
                    bad('grant', 'reader slot', i, 'counts the reader in an entry that may be in use')
                if not u.free:
                    bad('grant', 'reader status', i, 'grants the shared lock without having seen, in the same section, that nobody has it exclusively')
                u.tok = u.tok | {'got', 'rnew', ('took', slot)}
            elif n == 'read_lock' and by == 1:
                if not u.rmine(slot):
                    bad('grant', 'reader again', i, 'grants the shared lock again although the caller was not found to hold it')
                u.tok = u.tok | {'got', 'ragain'}
            else:
                bad('grant', 'reader count', i, 'changes the count of a reader where it has no reason to')

    def edge(b, su, st, env):
        """the entries of the round that ends"""
        if su.rpo > b.rpo or not st.user[1]:
            return st
        u = U(st)
        gone = {k[1] for k in u.cur if k[1] is not None}
        for s in gone:
            leave(u, s, b.term)
        u.cur = {k: v for k, v in u.cur.items() if k[1] is None}
        u.orig = {k: v for k, v in u.orig.items() if k[1] is None}
        u.tok = frozenset(t for t in u.tok if not isinstance(t, tuple))
        fs = frozenset(g for g in st.facts if not any(x[0] == 'ld' and entry(x[1]) for x in walk(g)))
        return st._replace(facts=fs, mem=frozenset(m for m in st.mem if not entry(m[0])), user=u.pack())

    def entry(A):
        d = sub(A, ARG0)
        return bool(d[1]) or base <= d[0] < end

    def want(s, g):
        if g[0] == 'b':
            return False
        return any(x[0] == 'ld' or x == ('arg', 1) for x in walk(g[1]))
    try:
        fl = Sym(f, want=want, step=step, user=(False, frozenset(), frozenset(), frozenset()), pure=lambda c: True, edge=edge, limit=20000)
    except TooBig:
        r.fail('%s: too many paths' % name)
        return
    r.ok('guarded', name)
    r.ok('section', name)
    r.ok('release' if n == 'unlock' else 'grant', name)
    r.ok('binding', name)
    for ret, st, env in fl.exits:
        owned, _, _, tok = st.user
        if owned:
            bad('section', 'kept', ret, 'can return with its spin lock owned')
        if n == 'unlock':
            continue
        if 'handed' not in tok and not eq0(st.facts, atom(('arg', 1))):
            bad('binding', 'list kept', ret, 'can return without unlocking the list')
        if 'got' not in tok:
            bad('grant', 'none', ret, 'can return without a recorded grant')
        if 'bound' not in tok:
            bad('binding', 'not bound', ret, 'can grant the lock without binding it to the address')
        if ('ragain' in tok or 'rnew' in tok) and 'rtot' not in tok:
            bad('grant', 'uncounted', ret, 'grants a shared lock without counting it')
        if 'rnew' in tok and not {'rid', 'rtk'} <= tok:
            bad('grant', 'anonymous reader', ret, 'grants a shared lock without recording its holder')
        if n == 'write_lock' and 'again' not in tok and not {'claim', 'got'} <= tok:
            bad('grant', 'anonymous', ret, 'grants the exclusive lock without recording its holder in the section that saw the last reader leave')
    for (rule, what), (i, msg) in sorted(bads.items(), key=lambda x: (x[0][0], str(x[0][1]))):
        r.bad(rule, '%s %s' % (name, what), msg, i)


# ---------------------------------------------------------------- the list of locks of one slot
EQ = UL + 'operator=='


class ListSym(Sym):
    """the members of the list do not change while the list is locked: every load of one address has one value"""
    def lin(s, v, env, st, d=0):
        L = super().lin(v, env, st, d)
        x = single(L)
        return atom(('ld', x[1], 0)) if x is not None and x[0] == 'ld' and x[2] else L


class Walk:
    """what was found out about the entries of a list

    user: (list held, tokens); tokens: ('cmp', call, entry, with) compared, ('match' | 'no' | 'free', entry) outcome of the comparison,
    ('made' | 'new', entry) created, linked in;  entries and addresses are forms"""
    def __init__(s, r, M, rule, n):
        s.r = r; s.M = M; s.rule = rule
        s.f = M.fn('SasLockList::' + n)
        s.name = s.f.name
        s.bads = {}
        node = {m: o for o, m in M.structs.get('SasLockListNode', {0: 'item', 8: 'next'}).items()}
        s.item, s.next = node.get('item', 0), node.get('next', 8)
        s.head = next((o for o, m in M.structs['SasLockList'].items() if m == 'headPtr'), 0)
        s.lockoff = next(o for o, m in M.structs['SasLockList'].items() if m == 'lock')
        s.iters = {('ld', plusc(ARG0, s.head), 0)}      # forms of the position in the list

    def bad(s, what, i, msg):
        s.bads.setdefault(what, (i, '%s: %s' % (s.name, msg)))

    def listlock(s, L):
        return single(L) == ('ld', plusc(ARG0, s.lockoff), 0)

    def pos(s, x):
        return x in s.iters

    def isnext(s, L):
        """the position behind a position"""
        x = single(L)
        if x is None or x[0] != 'ld':
            return None
        y = single(plusc(x[1], -s.next))
        return y if y is not None and s.pos(y) else None

    def settle(s, st):
        """comparisons whose outcome is known on this path"""
        held, tok = st.user
        out = set()
        for t in tok:
            if t[0] != 'cmp':
                out.add(t)
                continue
            c = atom(('call', t[1]))
            if ne0(st.facts, c):
                out.add(('match' if t[3] == 'addr' else 'free', t[2]))
            elif eq0(st.facts, c):
                if t[3] == 'addr':
                    out.add(('no', t[2]))
            else:
                out.add(t)
        return st if out == tok else st._replace(user=(held, frozenset(out)))

    def edge(s, b, su, st, env):
        if s.nomode(env):
            return None                 # not a lock mode
        st = s.settle(st)
        ph = {p.id: p for p in su.insts if p.op == 'phi'}
        if not ph:
            return st
        held, tok = st.user
        inc = {}
        for p in ph.values():
            v = next((x for x, bb in p.inc if bb is b), None)
            if v is None:
                continue
            L = s.sym.lin(v, env, st)
            inc[('i', p.id)] = L
            x = single(L)
            if x in s.iters or s.isnext(L) is not None:
                s.iters.add(('i', p.id))
        if su.rpo > b.rpo:
            return st
        for p, L in inc.items():
            y = s.isnext(L)
            if y is not None and p in s.iters and held:
                if ('no', atom(('ld', plusc(atom(y), s.item), 0))) not in tok:
                    s.bad('skipped', b.term, 'goes on to the next entry without having compared the address of this one')
        out = set()
        for t in tok:
            F = next((x for x in t[1:] if isinstance(x, tuple)), None)
            if F is None or not any(('i', n) in set(walk(F)) for n in ph):
                out.add(t)
            if F is not None and t[0] in ('free', 'match', 'made', 'new'):
                out |= {(t[0], atom(p)) for p, L in inc.items() if L == F}
        return st._replace(user=(held, frozenset(out)))

    def run(s, step):
        s.sym = None

        def st_(sym, i, st, env):
            s.sym = sym
            return step(sym, i, st, env)

        def edge(b, su, st, env):
            if s.sym is None:
                s.sym = box[0]
            return s.edge(b, su, st, env)

        box = []

        class T(ListSym):
            def __init__(t, *a, **k):
                box.append(t)
                super().__init__(*a, **k)
        return T(s.f, want=lambda t, g: g[0] in ('eq', 'ne'), step=st_, edge=edge, user=(False, frozenset()), pure=lambda c: True, stable=lambda f: True)

    def nomode(s, env):
        m = len(s.f.args) > 2 and env.get(s.f.args[2].id)
        return m and (m[0] == '=' and m[1] not in (0, 1) or m[0] == '!' and {0, 1} <= set(m[1]))

    def ended(s, st):
        """the end of the list was reached"""
        return any(g[0] == 'eq' and g[1][0] == 0 and single(scale(g[1], -1)) in s.iters or g[0] == 'eq' and single(g[1]) in s.iters for g in st.facts)

    def compare(s, sym, i, st, env):
        held, tok = st.user
        k, w = sym.lin(i.ops[0], env, st), sym.lin(i.ops[1], env, st)
        tok = frozenset(t for t in tok if not (t[0] == 'cmp' and t[1] == i.id))
        if w == atom(('arg', 1)):
            return held, tok | {('cmp', i.id, k, 'addr')}
        if w == con(0):
            return held, tok | {('cmp', i.id, k, 'null')}
        return held, tok

    def unguarded(s, sym, i, st, env):
        d = sub(sym.lin(i.ops[0], env, st), ARG0)
        return not d[1] and d[0] != s.lockoff

    def done(s):
        for what, (i, msg) in sorted(s.bads.items()):
            s.r.bad(s.rule, '%s %s' % (s.name, what), msg, i)


def lock_node(r, M):
    w = Walk(r, M, 'list', 'lockNode')
    f = w.f
    bad = w.bad

    def step(sym, i, st, env):
        held, tok = st.user
        if i.op == 'load' and not held and ('granted',) not in tok and w.unguarded(sym, i, st, env):
            bad('unguarded', i, 'reads the list without owning its lock')
        if i.op != 'call':
            return st.user
        c = i.callee or ''
        if c == EQ:
            return w.compare(sym, i, st, env)
        if c in (UL + 'write_lock', UL + 'read_lock', UL + 'unlock'):
            k = sym.lin(i.ops[0], env, st)
            if w.listlock(k):
                if c.endswith('unlock'):
                    if not held:
                        bad('unowned', i, 'unlocks the list it has not locked')
                    return (False, tok)
                if held:
                    bad('twice', i, 'locks the list twice')
                if c.endswith('read_lock'):
                    bad('shared', i, 'searches and changes the list under a shared lock only')
                return (True, frozenset())
            if c.endswith('unlock'):
                bad('unlocks', i, 'unlocks an entry')
                return st.user
            if not held:
                bad('lock unowned', i, 'locks an entry without owning the list')
            if not w.listlock(sym.lin(i.ops[1], env, st)):
                bad('list lock', i, 'does not hand the list lock to the request for the entry')
            if sym.lin(i.ops[2], env, st) != atom(('arg', 1)):
                bad('address', i, 'requests the entry for another address')
            mode = env.get(f.args[2].id)
            want = 1 if c.endswith('write_lock') else 0
            if mode is None or mode != ('=', want):
                if not (mode and mode[0] == '!' and (1 - want) in mode[1]):
                    bad('mode', i, 'locks the entry in another mode than requested')
            tok = w.settle(st).user[1]
            if ('match', k) not in tok:
                if not w.ended(st):
                    bad('early', i, 'takes an entry that is not bound to the address before the whole list was searched')
                elif not {('free', k), ('new', k), ('made', k)} & tok:
                    bad('not free', i, 'takes an entry that was not found free')
            if ('made', k) in tok and ('new', k) not in tok:
                bad('not listed', i, 'uses a new entry that is not in the list')
            return (False, tok | {('granted',)})
        if c == 'SasLockList::add':
            if not held:
                bad('add unowned', i, 'adds an entry without owning the list')
            return (held, tok | {('new', sym.lin(i.ops[1], env, st))})
        if c == 'SASNearAlloc':
            return (held, tok | {('made', atom(('call', i.id)))})
        return st.user
    fl = w.run(step)
    r.ok('list', f.name)
    for ret, st, env in fl.exits:
        held, tok = st.user
        m = env.get(f.args[2].id)
        valid = m is not None and m[0] == '=' and m[1] in (0, 1)
        granted = ('granted',) in tok
        if not w.nomode(env) and not granted:
            bad('no grant', ret, 'can return without having locked an entry')
        if held and (valid or granted):
            bad('list kept', ret, 'can return with the list locked')
    w.done()
    # the entry is linked in before what follows
    g = M.fns.get('SasLockList::add')
    if g is None:
        r.bad('list', 'SasLockList::add', 'new entries are never linked into the list', list(f.insts())[0])
        return
    heads = [i for i in g.insts() if i.op == 'store' and (fieldof(i.ops[1]) or ('', ''))[1] in ('headPtr',) or
             i.op == 'store' and addr(i.ops[1])[0].k == 'arg' and addr(i.ops[1])[0].idx == 0 and addr(i.ops[1])[1] == w.head]
    r.check(bool(heads), 'list', 'SasLockList::add', 'a new entry is not linked into the list', list(g.insts())[0])


def unlock_node(r, M):
    w = Walk(r, M, 'list-release', 'unlockNode')
    f = w.f
    bad = w.bad

    def step(sym, i, st, env):
        held, tok = st.user
        if i.op == 'load' and not held and w.unguarded(sym, i, st, env):
            bad('unguarded', i, 'reads the list without owning its lock')
        if i.op != 'call':
            return st.user
        c = i.callee or ''
        if c == EQ:
            return w.compare(sym, i, st, env)
        if c in (UL + 'write_lock', UL + 'read_lock', UL + 'unlock'):
            k = sym.lin(i.ops[0], env, st)
            if w.listlock(k):
                if c.endswith('unlock'):
                    if not held:
                        bad('unowned', i, 'unlocks the list it has not locked')
                    return (False, tok)
                return (True, frozenset())
            if not c.endswith('unlock'):
                bad('locks', i, 'locks an entry')
                return st.user
            if not held:
                bad('entry unowned', i, 'unlocks an entry without owning the list')
            tok = w.settle(st).user[1]
            if ('match', k) not in tok:
                bad('other', i, 'unlocks an entry that is not bound to the address')
            if ('gone',) in tok:
                bad('twice', i, 'unlocks two entries')
            return (held, frozenset(t for t in tok if t != ('match', k)) | {('gone',)})
        return st.user
    fl = w.run(step)
    r.ok('list-release', f.name)
    for ret, st, env in fl.exits:
        held, tok = st.user
        if held:
            bad('list kept', ret, 'can return with the list locked')
        if ('gone',) not in tok:
            if any(t[0] == 'match' for t in tok):
                bad('not released', ret, 'found the entry bound to the address and does not unlock it')
            elif not w.ended(st):
                bad('not searched', ret, 'can return without having searched the whole list')
    w.done()


def equality(r, M):
    f = M.fn(EQ)
    fl = Flow(f, frozenset(), lambda i, ts, env: ts,
              lambda v, rel, c, ts, env: ts | {('eq', 1 if c else 0)} if v.k == 'inst' and v.op == 'icmp' and rel == '=' and addr_cmp(v) and v.pred == 'eq'
              else ts | {('eq', 0 if c else 1)} if v.k == 'inst' and v.op == 'icmp' and rel == '=' and addr_cmp(v) and v.pred == 'ne' else ts)
    r.ok('list', EQ)
    for ret, ts, env in fl.exits:
        c = const_of(ret.ops[0], env)
        if c is None:
            v = ret.ops[0]
            while v.k == 'inst' and v.op in ('zext', 'sext', 'trunc'):
                v = v.ops[0]
            if not (v.k == 'inst' and v.op == 'icmp' and v.pred == 'eq' and addr_cmp(v)):
                if not (v.k == 'inst' and v.op in ('phi', 'select')):
                    r.bad('list', EQ, 'the comparison of a lock with an address does not tell whether it is bound to it', ret)
        elif ('eq', 1 if c else 0) not in ts:
            r.bad('list', EQ, 'the comparison of a lock with an address does not tell whether it is bound to it', ret)


def addr_cmp(v):
    ks = set()
    for o in v.ops:
        o = strip(o)
        if o.k == 'inst' and o.op == 'load' and fieldof(o.ops[0]) == ('SasUserLock', 'address'):
            ks.add('f')
        if o.k == 'arg' and o.idx == 1:
            ks.add('a')
    return ks == {'f', 'a'}


# ---------------------------------------------------------------- the table
def table(r, M):
    idx = {}
    for n, callee in (('lock', 'SasLockList::lockNode'), ('unlock', 'SasLockList::unlockNode')):
        f = M.fn('SasMasterLock::' + n)
        r.ok('table', f.name)
        fl = Flow(f, 0, lambda i, ts, env: ts + 1 if i.op == 'call' and i.callee == callee else ts)
        for ret, ts, env in fl.exits:
            if ts != 1:
                r.bad('table', f.name + ' calls', '%s reaches the lock of the address %d times on a path' % (f.name, ts), ret)
        for i in f.insts():
            if i.op != 'call' or i.callee != callee:
                continue
            if not isarg(f, i.ops[1], 1):
                r.bad('table', f.name + ' address', '%s does not use the address of the caller' % f.name, i)
            if n == 'lock' and not isarg(f, i.ops[2], 2):
                r.bad('table', f.name + ' mode', '%s does not use the mode of the caller' % f.name, i)
            v = strip(i.ops[0])
            g = strip(v.ops[0]) if v.k == 'inst' and v.op == 'load' else None
            if g is None or g.k != 'inst' or g.op != 'gep':
                r.bad('table', f.name + ' slot', '%s does not take the lock list from the table' % f.name, i)
                continue
            x = next(o for o in reversed(g.ops[1:]))
            top = bound(x)
            idx[n] = (canon(f, x), i)
            if top is None or top > 255:
                r.bad('table', f.name + ' range', '%s can use a slot outside the table' % f.name, i)
    if len(idx) == 2:
        r.check(idx['lock'][0] == idx['unlock'][0], 'table', 'same slot', 'requests and releases compute different slots for one address', idx['unlock'][1])
    for n in ('SASLock', 'SASUnlock'):
        f = M.fn(n)
        c = 'SasMasterLock::lock' if n == 'SASLock' else 'SasMasterLock::unlock'
        fl = Flow(f, 0, lambda i, ts, env: ts + 1 if i.op == 'call' and i.callee == c else ts)
        r.ok('table', n)
        for ret, ts, env in fl.exits:
            if ts > 1:
                r.bad('table', n + ' twice', '%s uses the lock table more than once on a path' % n, ret)
            elif ts == 0 and not noml(f, env):
                r.bad('table', n + ' skipped', '%s can return without reaching the lock table' % n, ret)
        for i in f.insts():
            if i.op == 'call' and i.callee == c:
                if not isarg(f, i.ops[1], 0) or n == 'SASLock' and not isarg(f, i.ops[2], 1):
                    r.bad('table', n + ' arguments', '%s does not pass on the address and mode of its caller' % n, i)
            if i.op == 'call' and i.callee in ('SasMasterLock::lock', 'SasMasterLock::unlock') and i.callee != c:
                r.bad('table', n + ' other', '%s does the opposite' % n, i)


def noml(f, env):
    """the lock table is absent on this path"""
    for i in f.insts():
        if i.op == 'load' and i.ops[0].k == 'global' and const_of(i, env) == 0:
            return True
    return False


def isarg(f, v, n):
    v = strip(v)
    while v.k == 'inst' and v.op in ('zext', 'sext', 'trunc'):
        v = strip(v.ops[0])
    if v.k == 'arg':
        return v.idx == n
    if v.k == 'inst' and v.op == 'load':
        a = strip(v.ops[0])
        if a.k == 'inst' and a.op == 'alloca':
            st = [i for i in f.insts() if i.op == 'store' and strip(i.ops[1]) is a]
            return bool(st) and all(isarg(f, i.ops[0], n) for i in st)
    if v.k == 'inst' and v.op == 'phi':
        return all(isarg(f, o, n) for o in v.ops)
    return False


def bound(v):
    v = strip(v)
    if v.k == 'const':
        return v.c if v.c >= 0 else None
    if v.k == 'inst':
        if v.op in ('zext', 'sext', 'trunc'):
            b = bound(v.ops[0])
            if b is not None and (v.w is None or b < 1 << (v.w - 1)):
                return b
            if v.op == 'zext' and v.ops[0].w and v.ops[0].w <= 8:
                return (1 << v.ops[0].w) - 1
            return None
        if v.op == 'and':
            bs = [b for b in map(bound, v.ops) if b is not None]
            return min(bs) if bs else None
        if v.op == 'urem' and v.ops[1].k == 'const':
            return v.ops[1].c - 1
        if v.op == 'lshr' and v.ops[1].k == 'const':
            return (1 << (v.w - v.ops[1].c)) - 1
    return None


def canon(f, v):
    """structural description with locals and calls named by what they hold"""
    v = strip(v)
    if v.k == 'arg':
        return 'a%d' % v.idx
    if v.k == 'const':
        return v.c
    if v.k == 'inst':
        if v.op in ('zext', 'sext', 'trunc'):
            return canon(f, v.ops[0])
        if v.op == 'alloca':
            st = [i for i in f.insts() if i.op == 'store' and strip(i.ops[1]) is v]
            return ('&',) + tuple(sorted({repr(canon(f, i.ops[0])) for i in st}))
        if v.op == 'load' and strip(v.ops[0]).k == 'inst' and strip(v.ops[0]).op == 'alloca':
            return canon(f, strip(v.ops[0]))[1:]
        if v.op == 'call':
            return (v.callee,) + tuple(canon(f, o) for o in v.ops)
        if v.op == 'phi':
            return 'phi'
        return (v.op,) + tuple(canon(f, o) for o in v.ops)
    return v.k
