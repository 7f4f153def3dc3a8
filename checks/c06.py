"""C06: handle validated (live signature + exact type) before any access; failure value otherwise."""
import os
from sa import common, gate, flow, ir
from sa.flow import Flow, addr, const_of, key

LEVEL = 'other'
EXPLANATION = ('Typestate propagation (property simulation) over the LLVM IR of every typed public operation: each direct access to, or call '
               'passing, a handle must be dominated by the successful outcome of the signature-and-type test for the type that operation serves; '
               'paths on which a test failed must change nothing and return the documented failure constant; the test primitives and the creators are '
               'checked against the same constants.')
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tables', 'gate.txt')
CHK = {'SOMSASCheckBlockSig': 'G', 'SOMSASCheckBlockSigAndType': 'T', 'SOMSASCheckBlockSigAndTypeAndSubtype': 'S'}
# calls that may receive an unvalidated handle: they do not look at the storage behind it
OPAQUE = {'SASLock', 'SASUnlock', 'printf', 'sas_printf', 'fprintf', 'puts', 'SASFindHeader', 'putchar', 'fputs', 'fwrite'}
# what a refused operation may still call
QUIET = {'SASLock', 'SASUnlock', 'printf', 'sas_printf', 'fprintf', 'puts', 'fwrite', 'SASFindHeader', 'putchar', 'fputs'} | set(CHK)


def canon(fn, ty):
    k = CHK[fn]
    if k == 'G':
        return ('G', 0)
    if ty is None:
        return (k, None)
    return ('T', ty & 0x00ff0000) if k == 'T' else ('S', ty & 0xffffff00)


def implies(got, want):
    """does a successful test `got` imply a successful test `want`?"""
    if want[0] == 'G':
        return True
    if got[0] == 'G' or got[1] is None:
        return False
    if want[0] == 'T':
        return (got[1] & 0x00ff0000) == want[1] and (got[0] == 'T' or not got[1] & 0x80000000)
    return got == want


class G:
    """typestate: set of (root, off, canonical type) passed, plus ('fail', root) once a test failed"""

    def __init__(s, fn, paths=False):
        s.fn = fn
        s.acc = {}
        s.chk = {}
        s.failcalls = {}
        for i in fn.insts():
            if i.op == 'call' and i.callee in CHK and i.ops:
                t = i.ops[1].u if len(i.ops) > 1 and i.ops[1].k == 'const' else None
                s.chk[i.id] = (i, canon(i.callee, t))
        s.flow = Flow(fn, frozenset(), s._tr, learn=s._learn,
                      edge=(lambda b, su, ts, env: ts | {('path', b.id, su.id, 0)}) if paths else None)

    def _learn(s, v, rel, c, ts, env):
        if v.k == 'inst' and v.op == 'call' and v.callee == 'SASFindHeader' and rel == '!' and c == 0:
            # the header search only returns tested blocks (rule 'primitive')
            return ts | {('ok', v.id, 0, ('G', 0))}
        if v.k == 'inst' and v.id in s.chk:
            i, ty = s.chk[v.id]
            r, off = addr(i.ops[0], env)
            if (rel == '=' and c != 0) or (rel == '!' and c == 0):
                return ts | {('ok', r.id, off, ty)}
            if rel == '=' and c == 0:
                return ts | {('fail', r.id, off, ty)}
        return ts

    def _tr(s, i, ts, env):
        if i.id in s.chk:
            # a new test of the same thing forgets the old outcome
            r, off = addr(i.ops[0], env)
            return frozenset(t for t in ts if not (t[1] == r.id and t[3] == s.chk[i.id][1] and t[0] == 'fail'))
        ptrs = ()
        if i.op == 'load':
            ptrs = ((i.ops[0], 'read'),)
        elif i.op == 'store':
            ptrs = ((i.ops[1], 'write'),)
        elif i.op in ('atomicrmw', 'cmpxchg'):
            ptrs = ((i.ops[0], 'write'),)
        elif i.op == 'call':
            if i.callee in CHK or (i.callee or '').startswith('llvm.dbg') or (i.callee or '').startswith('llvm.lifetime'):
                return ts
            ptrs = tuple((o, 'call') for o in i.ops if o.w == 64 or o.ty == 'ptr')
        for p, kind in ptrs:
            r, off = addr(p, env)
            if r.k not in ('arg', 'inst') or (r.k == 'inst' and r.op == 'alloca'):
                continue
            tys = frozenset(t[3] for t in ts if t[0] == 'ok' and t[1] == r.id)
            k = (i.id, kind, r.id)
            e = s.acc.get(k)
            if e is None:
                s.acc[k] = [i, kind, r, off, tys]
            else:
                e[4] = e[4] & tys
        return ts


def table():
    out = {}
    for l in open(TABLE):
        l = l.split('#')[0].split()
        if not l:
            continue
        fn, idx, k, ty, fails = l
        out[(fn, int(idx))] = ((k, int(ty, 16)), None if fails == '*' else set(fails.split(',')))
    return out


def fails_of(g, root):
    """return constants on paths where the test of root failed and no test of it succeeded"""
    out = {}
    for ret, ts, env in g.flow.exits:
        f = any(t[0] == 'fail' and t[1] == root.id for t in ts)
        o = any(t[0] == 'ok' and t[1] == root.id for t in ts)
        if f and not o:
            if not ret.ops:
                out.setdefault('void', ret)
            else:
                c = const_of(ret.ops[0], env)
                out.setdefault('var' if c is None else str(c), ret)
    return out


FAMILY = ('SASSimpleHeap', 'SASSimpleStack', 'SASSimpleSpace', 'SASCompoundHeap', 'SASStringBTree', 'SASIndex', 'SPHContext', 'SPHSinglePCQueue',
          'SPHMPMCQ', 'SPHLFLogger', 'SPHLogPortal', 'SPHLockFreeHeap', 'SPHCompoundPCQ', 'SPHLFPortal')


def run(r):
    r.rule('gate', 'every access to a handle, and every call passing it on, follows the successful test for the type the operation serves', 200)
    r.rule('failure-value', 'every path on which the test failed returns the documented failure constant', 150)
    r.rule('refused-is-quiet', 'no store and no changing call on a path where the test failed', 150)
    r.rule('derived-header', 'block headers located from an interior address are tested before use', 10)
    r.rule('derived-type', 'operations on an interior address change the block found only after its type was tested', 10)
    r.rule('finder', 'operations that look up the object of an interior address return only objects of their type', 1)
    r.rule('primitive', 'each test primitive succeeds only if both signature words and the masked type match the stamped values', 3)
    r.rule('stamp', 'creators stamp the signature words the tests look for and the type their operations test', 8)
    M = common.lib(headers=True)
    T = table()
    allt = {}
    for (fn, idx), v in T.items():
        allt.setdefault(fn, {})[idx] = v
    for fn, wants in sorted(allt.items()):
        f = M.fns.get(fn)
        if f is None:
            continue
        g = G(f)
        for idx, (want, fails) in sorted(wants.items()):
            if idx >= len(f.args):
                continue
            a = f.args[idx]
            n = 0
            for i, kind, root, off, tys in g.acc.values():
                if root is not a:
                    continue
                if kind == 'call':
                    if i.callee in OPAQUE or (i.callee or '').startswith('freeNode_') and False:
                        continue
                    # delegation to a callee that tests the same handle for the same type
                    dele = [x for x in range(len(i.ops)) if addr(i.ops[x])[0] is a and addr(i.ops[x])[1] == 0]
                    if dele and all((i.callee, x) in T and implies(T[(i.callee, x)][0], want) or implies2(T, i.callee, x, want) for x in dele):
                        n += 1
                        r.ok('gate', '%s(arg %d) -> %s' % (fn, idx, i.callee))
                        continue
                n += 1
                r.check(any(implies(t, want) for t in tys), 'gate', '%s(arg %d)' % (fn, idx),
                        '%s uses %s before it is known to be a live object of type %#x (known: %s)' % (
                            fn, 'the handle in a call to ' + str(i.callee) if kind == 'call' else '%s of the handle' % kind, want[1],
                            ','.join('%#x' % (t[1] or 0) for t in tys) or 'nothing'), i)
            if n == 0:
                r.ok('gate', '%s(arg %d) not used' % (fn, idx))
            # failure value
            if fails is not None:
                got = fails_of(g, a)
                if got:
                    for c, ret in got.items():
                        r.check(c in fails, 'failure-value', '%s(arg %d)' % (fn, idx),
                                'a refused handle makes %s return %s, documented failure is %s' % (fn, c, '/'.join(sorted(fails))), ret)
            # quiet
            quiet(r, g, a, fn, idx)
        for i, kind, root, off, tys in g.acc.values():
            pass
    derived(r, M)
    primitives(r, M)
    stamps(r, M)


def implies2(T, callee, x, want):
    return False


def quiet(r, g, a, fn, idx):
    f = g.fn
    bad = []

    def tr(i, ts, env):
        if i.id in g.chk:
            return g._tr(i, ts, env)
        failed = any(t[0] == 'fail' and t[1] == a.id for t in ts) and not any(t[0] == 'ok' and t[1] == a.id for t in ts)
        if failed:
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                p = i.ops[1] if i.op == 'store' else i.ops[0]
                rt, _ = addr(p, env)
                if rt is a:
                    bad.append((i, 'a store to the object'))
            elif i.op == 'call' and i.callee and not i.callee.startswith('llvm.') and i.callee not in QUIET:
                if any(addr(o, env)[0] is a for o in i.ops):
                    bad.append((i, 'a call to ' + i.callee))
        return ts
    Flow(f, frozenset(), tr, learn=g._learn)
    r.ok('refused-is-quiet', '%s(arg %d)' % (fn, idx))
    for i, w in bad[:1]:
        r.bad('refused-is-quiet', '%s(arg %d)' % (fn, idx), '%s reaches %s although the handle was refused' % (fn, w), i)


def derived(r, M):
    """results of the header search must be tested before they are used"""
    for n, f in sorted(M.fns.items()):
        hs = [i for i in f.insts() if i.op == 'call' and i.callee == 'SASFindHeader']
        if not hs or n in NOTEST:
            continue
        g = G(f)
        ids = {h.id for h in hs}
        used = 0
        for i, kind, root, off, tys in g.acc.values():
            if root.id in ids:
                if kind == 'call':
                    if i.callee in OPAQUE:
                        continue
                    x = [x for x in range(len(i.ops)) if addr(i.ops[x])[0] is root]
                    if all((i.callee, y) in TT(r) for y in x):
                        continue
                used += 1
                r.check(bool(tys), 'derived-header', '%s header of interior address' % n,
                        '%s uses the header found for an interior address before testing it (%s)' % (n, kind if kind != 'call' else i.callee), i)
        if not used:
            r.ok('derived-header', '%s only passes the header to testing operations' % n)


    for n, (how, want) in sorted(DERIVED.items()):
        f = M.fns.get(n)
        if f is None:
            continue
        g = G(f)
        for i, kind, root, off, tys in g.acc.values():
            if root.k != 'inst':
                continue
            if how == 'phi' and root.op not in ('phi', 'select'):
                continue
            if how == 'call' and not (root.op == 'call' and root.callee == 'SASFindHeader'):
                continue
            if kind == 'call' and not (i.callee or '').startswith('freeNode_'):
                xs = [x for x in range(len(i.ops)) if addr(i.ops[x])[0] is root]
                if i.callee in OPAQUE or all((i.callee, x) in TT(r) for x in xs) or how == 'phi':
                    continue
            r.check(any(implies(t, want) for t in tys), 'derived-type', n, '%s works on the block found for an interior address before its type %#x was tested' % (n, want[1]), i)
    for n, want in FINDERS.items():
        f = M.fns.get(n)
        if f is None:
            continue
        g = G(f)
        for ret, ts, env in g.flow.exits:
            v = ret.ops[0]
            if const_of(v, env) == 0:
                continue
            ok = any(t[0] == 'ok' and implies(t[3], want) for t in ts)
            r.check(ok, 'finder', n, '%s can return a block that is not of type %#x' % (n, want[1]), ret)


DERIVED = {}
for _p in ('SASCompoundHeapNear', 'SPHCompoundPCQNear', 'SASIndexNear', 'SASStringBTreeNear'):
    for _s in ('Alloc', 'AllocNoLock', 'Dealloc', 'DeallocNoLock'):
        DERIVED[_p + _s] = ('phi', ('T', 0x110000))
for _p in ('SASIndexSpillAlloc', 'SASStringBTreeSpillAlloc'):
    DERIVED[_p] = ('phi', ('T', 0x110000))
for _p in ('SASSimpleHeapNearAllocNoLock', 'SASSimpleHeapNearDeallocNoLock', 'SASIndexNodeNearDealloc', 'SASStringBTreeNodeNearDealloc'):
    DERIVED[_p] = ('call', ('T', 0x100000))
for _p in ('SASSimpleStackNearAlloc', 'SASSimpleStackNearAllocNoLock'):
    DERIVED[_p] = ('call', ('T', 0x200000))
DERIVED['SPHLockFreeHeapNearAllocNoLock'] = ('call', ('T', 0x400000))
FINDERS = {'SASSimpleHeapNearFind': ('T', 0x100000), 'SPHLockFreeHeapNearFind': ('T', 0x400000)}

# functions that use the found header without a signature test, with the reason
NOTEST = {
    'SASNearAlloc': 'documented raw primitive: caller guarantees the address lies in a live block',
    'SASNearDealloc': 'documented raw primitive',
}
_tt = None


def TT(r):
    global _tt
    if _tt is None:
        _tt = table()
    return _tt


def primitives(r, M):
    s1, s2 = (x & ((1 << 64) - 1) for x in common.consts('block__Signature_1', 'block__Signature_2'))
    masks = {'SOMSASCheckBlockSigAndType': common.consts('SAS_TYPE_CHECK_MASK', 'SAS_TYPE_MASK'),
             'SOMSASCheckBlockSigAndTypeAndSubtype': common.consts('SAS_SUBTYPE_CHECK_MASK', 'SAS_SUBTYPE_CHECK_MASK')}
    for n in CHK:
        f = M.fns.get(n)
        if f is None:
            raise ir.Broken('%s is not emitted' % n)
        fl = Flow(f, (), lambda i, ts, env: ts, edge=lambda b, su, ts, env: ts + ((b.id, su.id),) if len(ts) < 60 else ts)
        okx = 0
        for ret, ts, env in fl.exits:
            c = const_of(ret.ops[0], env)
            if c == 0:
                continue
            e = dict(env)
            ln = []
            flow.set_ne(ret.ops[0], 0, e, ln)
            facts = set()
            for i in f.insts():
                if i.op == 'icmp' and i.pred in ('eq', 'ne'):
                    t = flow.eval_cond(i, e)
                    if t is not None and t == (i.pred == 'eq'):
                        facts.add(frozenset(map(repr, (key(i.ops[0]), key(i.ops[1])))))
            M64 = (1 << 64) - 1

            def has(off, val):
                for fct in facts:
                    for v in (val, val - (1 << 64)):
                        if fct == frozenset((repr(('ld', flow.mkoff('a0', off))), repr(v))):
                            return True
                return False
            r.check(has(8, s1) and has(24, s2), 'primitive', n + ' signature', '%s can succeed without both signature words matching' % n, ret)
            if n in masks:
                m1, m2 = masks[n]
                want = typefact(facts, m1, m2)
                r.check(want, 'primitive', n + ' type', '%s can succeed without the masked type matching' % n, ret)
            okx += 1
        r.check(okx > 0, 'primitive', n + ' can succeed', '%s never succeeds' % n)
    f = M.fns.get('SASFindHeader')
    if f is None:
        raise ir.Broken('SASFindHeader is gone')
    g = G(f, paths=True)
    for ret, ts, env in g.flow.exits:
        v = ret.ops[0]
        if const_of(v, env) == 0:
            continue
        rt, off = addr(v, env)
        r.check(any(t[0] == 'ok' and t[1] == rt.id for t in ts), 'primitive', 'SASFindHeader result',
                'SASFindHeader can return a block whose signature was not found', ret)


def typefact(facts, m1, m2):
    def n32(x):
        return x & 0xffffffff
    for f in facts:
        f = list(f)
        if len(f) != 2:
            continue
        a, b = (eval(x) for x in f)
        for x, y in ((a, b), (b, a)):
            # ('and', mask, ld type) == ('and', mask, a1)   in any operand order; xor forms ((t^a1)&m)==0 too
            if isinstance(x, tuple) and x[0] == 'and' and isinstance(y, tuple) and y[0] == 'and':
                xc = [n32(c) for c in x[1:] if isinstance(c, int)]
                yc = [n32(c) for c in y[1:] if isinstance(c, int)]
                xv = [c for c in x[1:] if not isinstance(c, int)]
                yv = [c for c in y[1:] if not isinstance(c, int)]
                if xv == [('ld', ('+', 'a0', 16))] and yv == ['a1'] and xc == [m1] and yc == [m2]:
                    return True
            if y == 0 and isinstance(x, tuple) and x[0] == 'and' and m1 == m2:
                xc = [n32(c) for c in x[1:] if isinstance(c, int)]
                xv = [c for c in x[1:] if not isinstance(c, int)]
                if xc == [m1] and len(xv) == 1 and isinstance(xv[0], tuple) and xv[0][0] == 'xor' and set(map(repr, xv[0][1:])) == {
                        repr(('ld', ('+', 'a0', 16))), repr('a1')}:
                    return True
    return False


STAMP = {  # creator -> type its operations test (header constant)
    'SASSimpleHeapCreate': 'SAS_RUNTIME_SIMPLEHEAP', 'SASSimpleStackCreate': 'SAS_RUNTIME_SIMPLESTACK', 'SASSimpleSpaceCreate': 'SAS_RUNTIME_SIMPLESPACE',
    'SASCompoundHeapCreate': 'SAS_RUNTIME_COMPOUNDHEAP', 'SASStringBTreeCreate': 'SAS_RUNTIME_STRINGBTREE', 'SASIndexCreate': 'SAS_RUNTIME_INDEX',
    'SPHSinglePCQueueCreateWithStride': 'SAS_RUNTIME_PCQUEUE', 'SPHMPMCQCreateWithStride': 'SAS_RUNTIME_PCQUEUE_TM',
    'SPHLFLoggerCreate': 'SAS_RUNTIME_LOCKFREELOGGER', 'SPHLogPortalCreate': 'SAS_RUNTIME_LOGPORTAL', 'SPHLockFreeHeapCreate': 'SAS_RUNTIME_LOCKFREEHEAP',
    'SPHContextCreate': 'SAS_RUNTIME_CONTEXT',
}


def stamps(r, M):
    s1, s2 = common.consts('block__Signature_1', 'block__Signature_2')
    f = M.fns.get('initSOMSASBlock')
    if f is None:
        raise ir.Broken('initSOMSASBlock is gone')
    st = {}
    for i in f.insts():
        if i.op == 'store':
            rt, off = addr(i.ops[1])
            if rt.k == 'arg' and rt.idx == 0 and off is not None:
                st[off] = i
    m = (1 << 64) - 1
    s1 &= m; s2 &= m
    r.check(8 in st and (st[8].ops[0].c or 0) & m == s1, 'stamp', 'initSOMSASBlock first signature', 'first signature word is not what the tests look for', st.get(8) or f)
    r.check(24 in st and (st[24].ops[0].c or 0) & m == s2, 'stamp', 'initSOMSASBlock second signature', 'second signature word is not what the tests look for', st.get(24) or f)
    r.check(16 in st and strip_arg(st[16].ops[0]) == 1, 'stamp', 'initSOMSASBlock type', 'the block type stamped is not the type asked for', st.get(16) or f)
    for n, macro in STAMP.items():
        f = M.fns.get(n)
        if f is None:
            continue
        want = common.consts(macro)[0] & 0xffffffff
        got = set()
        walk(M, f, {}, got, 0)
        if not got:
            continue
        r.check(want in got or any(g & 0xffffff00 == want & 0xffffff00 for g in got), 'stamp', n,
                '%s stamps %s, its operations test for %#x' % (n, ','.join('%#x' % x for x in sorted(got)), want), f)


def strip_arg(v):
    v = flow.strip(v)
    while v.k == 'inst' and v.op in ('zext', 'sext', 'trunc'):
        v = flow.strip(v.ops[0])
    return v.idx if v.k == 'arg' else None


def walk(M, f, bind, got, d):
    """type constants that reach initSOMSASBlock from f for the first (object) block"""
    if d > 6:
        return
    for i in f.insts():
        if i.op != 'call' or not i.callee:
            continue
        if i.callee == 'initSOMSASBlock':
            v = i.ops[1]
            c = v.c if v.k == 'const' else bind.get(strip_arg(v))
            if c is not None:
                got.add(c & 0xffffffff)
        elif i.callee in M.fns and d < 6 and ('Init' in i.callee or 'Create' in i.callee):
            b = {}
            for x, o in enumerate(i.ops):
                if o.k == 'const':
                    b[x] = o.c
                else:
                    y = strip_arg(o)
                    if y is not None and y in bind:
                        b[x] = bind[y]
            walk(M, M.fns[i.callee], b, got, d + 1)
