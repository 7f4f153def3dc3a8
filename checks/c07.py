"""C07: destroying an object makes its handle invalid before its storage is reused."""
import re
from sa import common
from sa.flow import Flow, fieldof, addr, const_of, key, strip
from sa.access import origins, Access
from sa.locks import natural_loops, LoopInfo, mentions
from checks.c01 import SEIZE, RELEASE

TECHNIQUE = 'static analysis: destroy typestate (valid, destroyed) with interprocedural access summaries on LLVM IR'
LEVEL = 'other'
EXPLANATION = ('A path-sensitive typestate follows every block given to SASBlockDealloc (directly or through a destroying callee): given back exactly once on every path on which '
               'the handle was found valid, never on a refused path, never touched afterwards, with every block of the expansion list given back. Inside SASBlockDealloc the block must be '
               'taken off the used list and its header cleared before the block can be seen as free by anyone else.')
DEALLOC = 'SASBlockDealloc'
CHECK = re.compile(r'^SOMSASCheckBlockSig')
HARMLESS = {'SASLock', 'SASUnlock', DEALLOC, 'sas_printf', 'SASCheckBlockSigAndType'}
# objects that are not blocks of the region
NOBLOCK = {'SASIndexEnumDestroy', 'SASStringBTreeEnumDestroy'}
LISTED = {'SASCompoundHeapDestroyNoLock', 'SASIndexDestroy', 'SASIndexDestroyNoLock', 'SASStringBTreeDestroy', 'SASStringBTreeDestroyNoLock'}


def destroyers(M):
    """function -> set of argument indexes whose block it gives back to the region"""
    D = {DEALLOC: {0}}
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            if n == DEALLOC or not re.search(r'Destroy|Delete', n):
                continue
            for i in f.insts():
                if i.op == 'call' and i.callee in D:
                    for a in D[i.callee]:
                        if a < len(i.ops):
                            v, off = addr(i.ops[a])
                            if v.k == 'arg' and off == 0 and v.idx not in D.setdefault(n, set()):
                                D[n].add(v.idx)
                                ch = True
        for n in [n for n in D if not D[n]]:
            del D[n]
    return D


def run(r):
    r.rule('once', 'a block is given back at most once on every path, and not on a path where its handle was refused', 10)
    r.rule('destroys', 'a destroy operation whose handle check succeeded gives the block back on every path', 10)
    r.rule('dead', 'after a block was given back nothing in it is read or written by the operation that destroyed it', 10)
    r.rule('all-blocks', 'the blocks of the expansion list are all given back (from the first expansion to the count) before the base block', 3)
    r.rule('cleared', 'SASBlockDealloc clears the header of the block, under the semaphore, before the block can be allocated again', 1)
    r.rule('unused-first', 'SASBlockDealloc takes the block off the used list and puts it on the free list, each exactly in one locked section', 1)
    M = common.lib()
    D = destroyers(M)
    A = Access(M, opaque=HARMLESS)
    for n, f in sorted(M.fns.items()):
        if n == DEALLOC or n.startswith('SASSOM') and n != 'SASSOMDestroy':
            continue
        if not any(i.op == 'call' and i.callee in D for i in f.insts()):
            if re.search(r'(SAS|SPH|SPF)\w*Destroy(NoLock|_nolock)?$', n) and n not in NOBLOCK:
                r.check(False, 'destroys', n, '%s never gives the block of its handle back to the region' % n, list(f.insts())[0])
            continue
        destroy(r, M, D, A, n, f)
    block_dealloc(r, M)


def destroy(r, M, D, A, n, f):
    loops = natural_loops(f)
    loop_of = {}
    for h, body in loops.items():
        for b in body:
            loop_of.setdefault(b, []).append(h)
    sweeps = {}         # loop header -> list of (dealloc call, index value)
    for i in f.insts():
        if i.op == 'call' and i.callee in D:
            for h in loop_of.get(i.bb, ()):
                ph = {('phi', p.id) for p in h.insts if p.op == 'phi'}
                if mentions(key(i.ops[0]), lambda x: x in ph):
                    sweeps.setdefault(h, []).append(i)
    bads = {}
    mine = D.get(n, ())

    def norm(v, env):
        return key(v, env)

    def tr(i, ts, env):
        valid, dead, swept = ts
        if i.op == 'call' and i.callee in D:
            for a in D[i.callee]:
                if a >= len(i.ops):
                    continue
                if any(i in s for s in sweeps.values()):
                    continue
                k = norm(i.ops[a], env)
                if k in dead:
                    bads.setdefault(('once', str(k)), (i, '%s gives the same block back twice' % n))
                if valid == 'no' and k == 'a0':
                    bads.setdefault(('once', 'refused'), (i, '%s gives back the block of a handle it has refused' % n))
                if dead and 'a0' in dead and isinstance(k, tuple):
                    v = addr(i.ops[a])[0]
                    if any(x[0] == ('arg', 0) and kk >= 2 for x, kk in origins(i.ops[a])):
                        pass
                dead = dead | {k}
            return (valid, dead, swept)
        if dead:
            hit = touched(A, i, dead, env)
            if hit:
                bads.setdefault(('dead', hit), (i, '%s touches the block (%s) after giving it back' % (n, hit)))
        return ts

    def learn(v, rel, c, ts, env):
        valid, dead, swept = ts
        if v.k == 'inst' and v.op == 'call' and v.callee and CHECK.match(v.callee) and key(v.ops[0]) == 'a0' and not dead:
            t = rel == '=' and c != 0 or rel == '!' and c == 0
            fz = rel == '=' and c == 0
            if t and valid != 'no':
                valid = 'yes'
            elif fz:
                valid = 'no'
        if v.k == 'inst' and v.op == 'load' and rel == '=' and c == 0:
            x = fieldof(v.ops[0])
            if x and x[1] == 'expandList':
                swept = True
        if rel == '=' and c in (0, 1) and is_count(v):
            swept = True
        return (valid, dead, swept)

    def edge(b, su, ts, env):
        for h in sweeps:
            if b in loops[h] and su not in loops[h]:
                return (ts[0], ts[1], True)
        return ts
    fl = Flow(f, ('?', frozenset(), False), tr, learn, edge)
    isd = bool(mine)
    r.ok('once', n)
    r.ok('dead', n)
    for (ru, k), (i, msg) in sorted(bads.items(), key=lambda x: x[0]):
        r.bad(ru, '%s %s' % (n, k), msg, i)
    if isd and re.search(r'Destroy(NoLock|_nolock)?$', n) and any(CHECK.match(i.callee or '') for i in f.insts() if i.op == 'call'):
        r.ok('destroys', n)
        for ret, (valid, dead, swept), env in fl.exits:
            if valid == 'yes' and 'a0' not in dead:
                r.bad('destroys', n, '%s can return without giving the block back although the handle was valid' % n, ret)
            if 'a0' in dead and ret.ops and ret.ops[0].w and const_of(ret.ops[0], env) not in (None, 0):
                r.bad('destroys', n + ' result', '%s destroys the object and still reports failure' % n, ret)
            if valid == 'no' and ret.ops and ret.ops[0].w and const_of(ret.ops[0], env) == 0 and int_ret(f):
                r.bad('destroys', n + ' refused', '%s refuses the handle and still reports success' % n, ret)
    if n in LISTED:
        r.ok('all-blocks', n)
        for ret, (valid, dead, swept), env in fl.exits:
            if 'a0' in dead and not swept:
                r.bad('all-blocks', n, '%s gives back the base block on a path that does not give back the blocks of its expansion list' % n, ret)
    for h, cs in sweeps.items():
        for c in cs:
            li = LoopInfo(h, loops[h])
            g = strip(c.ops[0])
            if li.phi is None or not li.ends:
                continue
            r.ok('all-blocks', '%s sweep' % n)
            if li.start not in (0, 1):
                r.bad('all-blocks', '%s sweep start' % n, '%s gives back its expansion blocks starting at element %s' % (n, li.start), c)
            for b, su, bound, incl in li.ends:
                x = bound
                while x.k == 'inst' and x.op in ('zext', 'sext', 'trunc'):
                    x = x.ops[0]
                if not is_count(x) or incl:
                    r.bad('all-blocks', '%s sweep end' % n, '%s does not give back its expansion blocks up to the list count' % n, c)
            # the list lives in the base block or the expansion space: those go last
            v = strip(c.ops[0])
    if sweeps:
        for i in f.insts():
            if i.op == 'call' and i.callee in D and not any(i in s for s in sweeps.values()) and key(i.ops[0]) == 'a0':
                from sa.flow import reach_from
                later = set(x.id for x in reach_from(i))
                for cs in sweeps.values():
                    for c in cs:
                        if c.id in later:
                            r.bad('all-blocks', '%s order' % n, '%s gives back the base block before the blocks listed in it' % n, i)


def is_count(v):
    """a load of the count member of an expansion list"""
    if v.k != 'inst' or v.op != 'load':
        return False
    fo = fieldof(v.ops[0])
    if fo and fo[1] == 'count':
        return True
    a, off = addr(v.ops[0])
    fo = fieldof(a.ops[0]) if a.k == 'inst' and a.op == 'load' else None
    return off == 0 and fo is not None and fo[1] == 'expandList'


def int_ret(f):
    return any(b.term.op == 'ret' and b.term.ops and b.term.ops[0].w in (32, 8, 1) for b in f.blocks)


def touched(A, i, dead, env):
    """key of a dead block this instruction reads or writes"""
    ptrs = []
    if i.op == 'load':
        ptrs = [i.ops[0]]
    elif i.op == 'store':
        ptrs = [i.ops[1]]
    elif i.op in ('atomicrmw', 'cmpxchg'):
        ptrs = [i.ops[0]]
    elif i.op == 'call':
        if i.callee in HARMLESS:
            return None
        for kind, x in A.direct(i):
            if x[0][0] == 'arg' and x[1] == 0 and 'a%d' % x[0][1] in dead:
                return 'a%d' % x[0][1]
        if i.callee in A.sum:
            for kind, root, k in A.sum[i.callee]:
                base = root[1] if root[0] == 'hdr' else root
                if base[0] == 'arg' and base[1] < len(i.ops) and k <= 1:
                    v, off = addr(i.ops[base[1]], env)
                    kk = key(v, env)
                    if kk in dead:
                        return pk(kk)
        return None
    for p in ptrs:
        v, off = addr(p, env)
        kk = key(v, env)
        if kk in dead:
            return pk(kk)
        if v.k == 'inst' and v.op == 'load':
            fo = fieldof(v.ops[0])
            if fo and fo[1] == 'expandList' and key(addr(v.ops[0], env)[0], env) in dead:
                return 'expandList'
    return None


def pk(k):
    return re.sub(r'\d{4,}', '', str(k))


def block_dealloc(r, M):
    f = M.fn(DEALLOC)
    hdr = common.consts('sizeof(SASBlockHeader)')[0]
    bads = {}
    # ts: (owned, off used list, on free list, cleared, the call that took a node off with nothing put back since)

    def covers(i, env):
        if i.callee and i.callee.split('.')[:2] == ['llvm', 'memset'] or i.callee in ('memset', 'bzero'):
            v, off = addr(i.ops[0])
            if v.k == 'arg' and v.idx == 0:
                z = i.callee == 'bzero' or const_of(i.ops[1], env) == 0
                ln = i.ops[1] if i.callee == 'bzero' else i.ops[2]
                return z, off, ln
        return None

    def whole(ln, env):
        c = const_of(ln, env)
        if c is not None:
            return c >= 64
        x = strip(ln)
        if x.k == 'arg' and x.idx == 1:
            return True
        if x.k == 'inst' and x.op in ('select', 'phi'):
            return all(whole(o, env) for o in (x.ops[1:] if x.op == 'select' else x.ops))
        if x.k == 'inst' and x.op == 'call' and x.callee and x.callee.startswith('llvm.umin'):
            return all(whole(o, env) for o in x.ops)
        return False

    def tr(i, ts, env):
        owned, off, on, clr, gone = ts
        if i.op == 'call':
            if i.callee == SEIZE:
                return (True, off, on, clr, gone)
            if i.callee == RELEASE:
                if on and not clr:
                    bads.setdefault('cleared', (i, 'the semaphore is released with the block on the free list and its header not cleared'))
                if on and not off:
                    bads.setdefault('unused-first', (i, 'the block is on the free list while still on the used list'))
                return (False, off, on, clr, gone)
            if i.callee == 'uLongTreeNode::removeNode' and off and not on:
                e = dict(env)
                e[i.id] = ('!', frozenset((0,)))        # called with a node to take off, which it returns
                return [((owned, off, on, clr, i.id), e)]
            if i.callee == 'uLongTreeNode::insertNode':
                return (owned, off, on, clr, None)
            m = covers(i, env)
            if m:
                if on and not owned:
                    bads.setdefault('cleared late', (i, 'the block is cleared after it was made available to other processes'))
                z, o, ln = m
                if z and o == 0 and whole(ln, env):
                    return (owned, off, on, True, gone)
        if i.op == 'store':
            v, o = addr(i.ops[1])
            if v.k == 'arg' and v.idx == 0:
                if on and not owned:
                    bads.setdefault('cleared late', (i, 'the block is written after it was made available to other processes'))
        if i.op == 'load':
            x = fieldof(i.ops[0])
            if x and x[0].startswith('SASAnchor'):
                if x[1] == 'used' and owned:
                    return (owned, True, on, clr, gone)
                if x[1] == 'free' and owned:
                    return (owned, off, True, clr, gone)
        return ts
    fl = Flow(f, (False, False, False, False, None), tr)
    r.ok('cleared', f.name)
    r.ok('unused-first', f.name)
    for k, (i, msg) in sorted(bads.items()):
        r.bad(k.split()[0], '%s %s' % (f.name, k), msg, i)
    for ret, (owned, off, on, clr, gone), env in fl.exits:
        if on and not clr:
            r.bad('cleared', f.name + ' exit', 'a block can be given back without clearing its header', ret)
        if on and not off:
            r.bad('unused-first', f.name + ' exit', 'a block can become free without leaving the used list', ret)
        if gone is not None and not on:
            r.bad('unused-first', f.name + ' lost', 'a block can leave the used list without becoming free', ret)
