"""C23: storage goes back with the size it was taken with."""
import re
from sa import common
from sa.flow import addr
from sa.sym import Sym
from checks.c24 import origins, FIRST, INIT

LEVEL = 'other'
TECHNIQUE = 'static analysis: matching of size expressions at allocation and deallocation sites over the call graph (LLVM IR)'
EXPLANATION = ('Functions that take and give back storage of a size that is a parameter of theirs are derived from the block, near and free-list '
               'primitives.  At every other site the size expression is brought to a normal form and must be: the one the storage was taken with in '
               'the same function, the size recorded in the block header, the page size of the heap that owns the list, the length of the very text '
               'or key that is given back, or the constant size its class is made with.  The sizes recorded in headers and taken for texts are '
               'checked at the allocation sites.')
TAKE = {('SASBlockAlloc', 0), ('SASNearAlloc', 1), ('freeNode_allocSpace', 2)}
GIVE = {('SASBlockDealloc', 0, 1), ('SASNearDealloc', 0, 1), ('freeNode_deallocSpace', 0, 2)}
CASTS = ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze')


def norm(v, d=0):
    """normal form of an expression; loads by their address, sums flattened"""
    if d > 12:
        return ('?', v.id)
    while v.k in ('inst', 'cexpr') and v.op in CASTS:
        v = v.ops[0]
    if v.k == 'const':
        return ('c', v.c)
    if v.k == 'null':
        return ('c', 0)
    if v.k == 'arg':
        return ('arg', v.idx)
    if v.k in ('global', 'func'):
        return ('g', v.name)
    if v.k not in ('inst', 'cexpr'):
        return ('?', v.id)
    if v.op == 'load':
        r, o = addr(v.ops[0])
        return ('ld', norm(r, d + 1), o if o is not None else norm(v.ops[0], d + 1))
    if v.op == 'gep':
        if v.off is not None:
            return plus(norm(v.ops[0], d + 1), ('c', v.off))
        return ('gep',) + tuple(norm(o, d + 1) for o in v.ops)
    if v.op in ('add', 'sub'):
        a, b = norm(v.ops[0], d + 1), norm(v.ops[1], d + 1)
        if b[0] == 'c':
            return plus(a, ('c', b[1] if v.op == 'add' else -b[1]))
        if a[0] == 'c' and v.op == 'add':
            return plus(b, a)
    if v.op == 'shl' and v.ops[1].k == 'const':
        return ('mul',) + tuple(sorted([norm(v.ops[0], d + 1), ('c', 1 << v.ops[1].c)], key=str))
    if v.op in ('mul', 'and', 'or', 'add'):
        return (v.op,) + tuple(sorted((norm(o, d + 1) for o in v.ops), key=str))
    if v.op == 'call':
        if v.callee and FIRST.match(v.callee):
            return norm(v.args[0], d + 1)
        if v.callee == 'strlen':
            return ('strlen', norm(v.args[0], d + 1))
        return ('call', v.id)
    if v.op == 'phi':
        s = {norm(o, d + 4) for o in v.ops} if len(v.ops) < 4 else set()
        if len(s) == 1:
            return s.pop()
        return ('phi', v.id)
    return (v.op,) + tuple(norm(o, d + 1) for o in v.ops)


def plus(a, c):
    if c[1] == 0:
        return a
    if a[0] == 'c':
        return ('c', a[1] + c[1])
    if a[0] == '+':
        return plus(a[1], ('c', a[2] + c[1]))
    return ('+', a, c[1])


def inside(x, y):
    return x == y or isinstance(x, tuple) and any(inside(z, y) for z in x if isinstance(z, tuple))


def base(x):
    """the parameter or call an address is reached from"""
    while isinstance(x, tuple) and x[0] in ('ld', '+', 'gep'):
        x = x[1]
    return x


def argof(v):
    r = addr(v)[0]
    while r.k == 'inst' and r.op in CASTS:
        r = addr(r.ops[0])[0]
    return r.idx if r.k == 'arg' and (r is v or addr(v)[1] == 0 or v.op in CASTS) else None


def derive(M):
    take, give = set(TAKE), set(GIVE)
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            R = [r for b in f.blocks if b.insts[-1].op == 'ret' and b.insts[-1].ops for r in origins(b.insts[-1].ops[0])]
            for i in f.insts():
                if i.op != 'call':
                    continue
                for c, k in list(take):
                    if i.callee == c and k < len(i.args) and any(r is i for r in R):
                        a = norm(i.args[k])
                        if a[0] == 'arg' and (n, a[1]) not in take:
                            take.add((n, a[1]))
                            ch = True
                for c, p, k in list(give):
                    if i.callee == c:
                        a, z = norm(i.args[p]), norm(i.args[k])
                        if a[0] == 'arg' and z[0] == 'arg' and (n, a[1], z[1]) not in give:
                            give.add((n, a[1], z[1]))
                            ch = True
    return take, give


def run(r):
    r.rule('given', 'storage is given back with the size it was taken with', 0)
    r.rule('taken', 'the size a text, a key or a block is taken with is the one it will be given back with', 0)
    r.rule('rounded', 'the free list rounds sizes the same way when taking and when giving back', 0)
    r.assume.append('a text, a key or a size field is not overwritten while the storage it measures is in use')
    M = common.lib(cse=True)
    take, give = derive(M)
    Tk = {}
    for c, k in take:
        Tk.setdefault(c, k)
    BS = common.consts('offsetof(SASBlockHeader,blockSize)')[0]
    FS = common.consts('offsetof(SASBlockHeader,blockFreeSpace)')[0]
    fam = lambda n: n.split('::')[0] if '::' in n else None
    made, paged, grown, steps = {}, {}, {}, {}       # by class or file: sizes taken, page size fields, block size fields, size tables
    for n, f in M.fns.items():
        for i in f.insts():
            if i.op == 'call' and i.callee:
                if i.callee.endswith('::operator new') and i.args:
                    made.setdefault(fam(i.callee), set()).add(norm(i.args[0]))
                elif i.callee in Tk and Tk[i.callee] < len(i.args):
                    Z = norm(i.args[Tk[i.callee]])
                    made.setdefault(fam(n) or i.file, set()).add(Z)
                    if i.callee == 'freeNode_allocSpace' and Z[0] == 'ld' and isinstance(Z[2], int):
                        L = norm(i.args[1])
                        if L[0] == '+' and L[2] == FS and base(L[1]) == base(Z[1]):
                            paged.setdefault(i.file, set()).add(Z[2])
                    if i.callee == 'SASBlockAlloc' and Z[0] == 'ld':
                        grown.setdefault(i.file, set()).add(Z[2])
                    if Z[0] == 'phi':
                        steps.setdefault(i.file, []).append(table(f, i, i.args[Tk[i.callee]]))
    back = {}                                        # class or file -> sizes it gives back
    for n, f in M.fns.items():
        for i in f.insts():
            for c, p, k in give:
                if i.op == 'call' and i.callee == c:
                    back.setdefault(fam(n) or i.file, set()).add(norm(i.args[k]))
    inits = {INIT: {2}}
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            for i in f.insts():
                for k in inits.get(i.callee, ()) if i.op == 'call' else ():
                    a = norm(i.args[k])
                    if a[0] == 'arg' and a[1] not in inits.get(n, ()):
                        inits.setdefault(n, set()).add(a[1])
                        ch = True
    for n, f in sorted(M.fns.items()):
        copies = [(set(origins(i.args[0])), norm(i.args[1]), i) for i in f.insts() if i.op == 'call' and i.callee and
                  (FIRST.match(i.callee) and 'set' not in i.callee or i.callee == 'SASIndexKeyCopy' or i.callee.startswith(('llvm.memcpy', 'llvm.memmove')))]
        for i in f.insts():
            if i.op != 'call' or not i.callee:
                continue
            for c, p, k in give:
                if i.callee != c:
                    continue
                P, Z = norm(i.args[p]), norm(i.args[k])
                if P[0] == 'arg' and Z[0] == 'arg':
                    continue
                own = [x for x in origins(i.args[p])]
                got = []
                for x in own:
                    while x.k == 'inst' and x.op == 'call' and x.callee and FIRST.match(x.callee):
                        x = addr(x.args[0])[0]
                    if x.k == 'inst' and x.op == 'call' and x.callee in Tk and Tk[x.callee] < len(x.args):
                        got.append(norm(x.args[Tk[x.callee]]))
                L = norm(i.args[1]) if c == 'freeNode_deallocSpace' else None
                H = None
                if L is not None:
                    H = L[1] if L[0] == '+' and L[2] == FS else None
                ok = bool(got) and all(g == Z for g in got)
                if not ok and not (got and len(got) == len(own)):
                    ok = Z == ('+', ('strlen', P), 1) or Z == ('ld', P, 0 if c != 'SASBlockDealloc' else BS) or \
                        Z[0] == 'ld' and Z[2] == BS and Z[2] in grown.get(i.file, ()) and base(Z[1]) == base(P) and P[0] == 'ld' or \
                        H is not None and Z[0] == 'ld' and base(Z[1]) == base(H) and Z[2] in paged.get(i.file, ()) or \
                        Z in made.get(fam(n) or i.file, ()) and Z[0] in ('c', 'mul')
                    if not ok and Z[0] == 'phi':
                        t = table(f, i, i.args[k])
                        ok = t is not None and t in steps.get(i.file, ())
                r.check(ok, 'given', '%s: %s' % (n, i.callee), '%s gives storage back with a size that is not shown to be the one it was taken with' % n, i)
            if i.callee in Tk and Tk[i.callee] < len(i.args):
                Z = norm(i.args[Tk[i.callee]])
                B = back.get(fam(n) or i.file, ())
                if Z[0] in ('c', 'mul') and i.callee in ('SASNearAlloc', 'freeNode_allocSpace') and any(b[0] in ('c', 'mul') for b in B):
                    r.check(Z in B, 'taken', '%s: %s' % (n, i.callee), '%s takes storage of a size that its class never gives back' % n, i)
                if inside_op(Z, 'strlen'):
                    ok = Z[0] == '+' and Z[2] == 1 and Z[1][0] == 'strlen' and any(i in d and s == Z[1][1] for d, s, _ in copies)
                    r.check(ok, 'taken', '%s: %s' % (n, i.callee), '%s takes storage for a text that is not the length of the text it copies there' % n, i)
                elif any(i in d and keyed(j, s) for d, s, j in copies):
                    ok = all(Z == ('ld', s, 0) for d, s, j in copies if i in d)
                    r.check(ok, 'taken', '%s: %s' % (n, i.callee), '%s takes storage for a key that is not the size of the key it copies there' % n, i)
            if i.callee in inits:
                x = addr(i.args[0])[0]
                if x.k == 'inst' and x.op == 'call' and x.callee == 'SASBlockAlloc':
                    Z = norm(x.args[0])
                    for k in inits[i.callee]:
                        if k < len(i.args):
                            r.check(norm(i.args[k]) == Z, 'taken', '%s: %s' % (n, i.callee), '%s records another size in the block than the one it was taken with' % n, i)
    classes(r)
    fr = []
    for n, k in (('freeNode_allocSpace', 2), ('freeNode_deallocSpace', 2)):
        f = M.fns.get(n)
        if f is None:
            continue
        fr.append((n, f, rounding(f, k)))
    if len(fr) == 2 and all(x[2] for x in fr):
        r.check(fr[0][2] == fr[1][2], 'rounded', 'freeNode', 'freeNode_allocSpace and freeNode_deallocSpace do not use the size in the same rounded form', fr[1][1].blocks[0].insts[0])


def keyed(j, s):
    """a copy of a key: its length is kept at its start"""
    return j.callee == 'SASIndexKeyCopy' or j.callee.startswith(('llvm.memcpy', 'llvm.memmove')) and norm(j.args[2]) == ('ld', s, 0)


SIZED = ('SizeToLog2', 'SASBlockAllocNoLock', 'p2Alloc', 'p2AddUsed', 'p2AddUsedCompact', 'p2RemUsed', 'p2Dealloc', 'p2Use', 'p2FindCont', 'p2split')


def classes(r):
    """the size class of a block is always worked out from the size the caller gives"""
    M = common.lib(cse=True, extra_keep=SIZED)
    par = {'SizeToLog2': {0}}
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            for i in f.insts():
                if i.op == 'call' and i.callee in par and (n == 'SASBlockAlloc' or n == 'SASBlockDealloc' or n in SIZED):
                    for k in par[i.callee]:
                        for a in leaves(norm(i.args[k])):
                            if a not in par.get(n, ()):
                                par.setdefault(n, set()).add(a)
                                ch = True
    for n in ('SASBlockAlloc', 'SASBlockDealloc') + SIZED[1:]:
        f = M.fns.get(n)
        for i in f.insts() if f else ():
            if i.op == 'call' and i.callee in par:
                for k in par[i.callee]:
                    Z = norm(i.args[k])
                    r.check(Z[0] in ('arg', 'c', 'g') or Z[0] == 'ld' and Z[1][0] == 'g', 'rounded', '%s: %s' % (n, i.callee),
                            '%s works out the size class of a block from something else than its size' % n, i)


def leaves(x):
    if isinstance(x, tuple):
        if x[0] == 'arg':
            yield x[1]
        elif x[0] != 'ld':
            for z in x[1:]:
                yield from leaves(z)


def inside_op(x, op):
    return isinstance(x, tuple) and (x[0] == op or any(inside_op(z, op) for z in x[1:]))


def table(f, i, v):
    """the value v has at i as a step function of the parameter it depends on: [(upper bound, constant or 'x' for the parameter itself)]"""
    phis, todo, arg = set(), [v], None
    while todo:
        x = todo.pop()
        while x.k == 'inst' and x.op in CASTS:
            x = x.ops[0]
        if x.k == 'inst' and x.op in ('phi', 'select') and x.id not in phis:
            phis.add(x.id)
            todo += x.ops if x.op == 'phi' else x.ops[1:]
        elif x.k == 'arg':
            arg = x
        elif x.k != 'const' and x.id not in phis:
            return None
    if arg is None or not phis:
        return None
    out, seen, todo = set(), set(), [(f.blocks[0], None, 0, (1 << 63) - 1, ())]

    def val(x, env):
        while x.k == 'inst' and x.op in CASTS:
            x = x.ops[0]
        return x.c if x.k == 'const' else 'x' if x is arg else dict(env).get(x.id)

    def split(c, lo, hi):
        if c.k == 'inst' and c.op == 'icmp':
            p, x, y = c.pred, c.ops[0], c.ops[1]
            while x.k == 'inst' and x.op in CASTS:
                x = x.ops[0]
            if x is arg and y.k == 'const':
                k = y.c
                if p in ('slt', 'ult'):
                    return (lo, min(hi, k - 1)), (max(lo, k), hi)
                if p in ('sle', 'ule'):
                    return (lo, min(hi, k)), (max(lo, k + 1), hi)
                if p in ('sgt', 'ugt'):
                    return (max(lo, k + 1), hi), (lo, min(hi, k))
                if p in ('sge', 'uge'):
                    return (max(lo, k), hi), (lo, min(hi, k - 1))
                if p == 'eq':
                    return (max(lo, k), min(hi, k)), (lo, hi)
        return (lo, hi), (lo, hi)
    while todo:
        b, pre, lo, hi, env = todo.pop()
        if lo > hi or (b, pre, lo, hi, env) in seen:
            continue
        seen.add((b, pre, lo, hi, env))
        states = [(lo, hi, env)]
        for j in b.insts:
            if j.op == 'phi' and j.id in phis and pre is not None:
                states = [(l, h, tuple(sorted({**dict(e), j.id: val({x: y for y, x in j.inc}[pre], e)}.items(), key=str))) for l, h, e in states]
            elif j.op == 'select' and j.id in phis:
                n = []
                for l, h, e in states:
                    for (l2, h2), o in zip(split(j.ops[0], l, h), j.ops[1:]):
                        if l2 <= h2:
                            n.append((l2, h2, tuple(sorted({**dict(e), j.id: val(o, e)}.items(), key=str))))
                states = n
            if j is i:
                for l, h, e in states:
                    out.add((l, h, val(v, e)))
        t = b.insts[-1]
        for l, h, e in states:
            if t.op == 'br' and len(b.succ) == 2 and t.ops:
                for (l2, h2), s in zip(split(t.ops[0], l, h), b.succ):
                    todo.append((s, b, l2, h2, e))
            else:
                for s in b.succ:
                    todo.append((s, b, l, h, e))
        if len(seen) > 20000:
            return None
    return step(out)


def step(out):
    """a set of (low, high, value) pieces as a sorted list of steps, None where two pieces disagree"""
    cuts = sorted({l for l, h, x in out} | {h + 1 for l, h, x in out})
    res = []
    for c, d in zip(cuts, cuts[1:]):
        vs = {x for l, h, x in out if l <= c and d - 1 <= h}
        if len(vs) != 1:
            return None
        x = vs.pop()
        x = c if x == 'x' and d == c + 1 else x
        if res and res[-1][1] == x:
            res[-1] = (d, x)
        else:
            res.append((d, x))
    return res


def rounding(f, k):
    """bit patterns of everything that is compared or added and depends on the size only"""
    sy = Sym(f)
    dep = {}

    def only(v, d=0):
        if v.k == 'arg':
            return v.idx == k
        if v.k == 'const':
            return None
        if v.k == 'inst' and v.op in ('add', 'sub', 'mul', 'udiv', 'shl', 'lshr', 'and', 'or', 'zext', 'sext', 'trunc') and d < 10:
            t = [only(o, d + 1) for o in v.ops]
            return False if False in t else True if True in t else None
        return False
    out = set()
    for i in f.insts():
        for o in i.ops:
            if i.op != 'icmp' and only(o) and not (i.op in ('add', 'sub', 'mul', 'udiv', 'shl', 'lshr', 'and', 'or', 'zext', 'sext', 'trunc') and only(i)):
                out.add(str(sy.bits(o, {}, None)))
    return out
