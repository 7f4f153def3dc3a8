"""C24: storage that could not be obtained is not used, storage of unfinished objects goes back."""
import re
from sa import common
from sa.sym import Sym, atom, ne0, eq0, walk, single, ZERO
from sa.flow import addr, const_of, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: interprocedural null-use and ownership dataflow over allocation results on LLVM IR'
EXPLANATION = ('Functions that can return storage or nothing are derived from the allocators (malloc, blocks, near and heap '
               'allocation) over the call graph; parameters that a function goes through without a null test are derived the same way. '
               'In every function that calls such an allocator all paths are followed with the null tests of the results: a use (load, '
               'store, copy, or passing to a parameter that is used untested) must come after a test. In every function that takes a '
               'block or C storage, a path that returns failure must have given the storage back, stored it, or handed it over.')
ROOT = {'malloc', 'calloc', 'realloc', 'strdup', 'SASBlockAlloc', 'SASNearAlloc', 'freeNode_allocSpace', 'SASSOMAlloc', 'SASLocalAlloc'}
RAW = {'malloc', 'calloc', 'SASBlockAlloc', 'SASBlockAllocNoLock', 'SASNearAlloc', 'freeNode_allocSpace', 'strdup', 'realloc'}
USE = re.compile(r'^(llvm\.mem(set|cpy|move)\b.*|mem(set|cpy|move|cmp)|str(n?cpy|len|n?cmp|cat|chr|rchr|dup))')
FIRST = re.compile(r'(mem(set|cpy|move)|str(n?cpy|n?cat))$')
INIT = 'initSOMSASBlock'
MAKER = re.compile(r'Alloc|Create|Init$|operator new')


def uses(i, der):
    """pointers an instruction goes through"""
    if i.op == 'load':
        return [i.ops[0]]
    if i.op == 'store':
        return [i.ops[1]]
    if i.op in ('cmpxchg', 'atomicrmw'):
        return [i.ops[0]]
    if i.op == 'call' and i.callee:
        if USE.match(i.callee):
            return list(i.args[:1] if 'memset' in i.callee or 'len' in i.callee or 'dup' in i.callee else i.args[:2])
        return [a for k, a in enumerate(i.args) if (i.callee, k) in der]
    return []


def origins(v, seen=None):
    """what a value may be: phis and selects taken apart"""
    seen = set() if seen is None else seen
    r = addr(v)[0]
    if r.id in seen:
        return
    seen.add(r.id)
    if r.k == 'inst' and r.op in ('phi', 'select'):
        for o in (r.ops if r.op == 'phi' else r.ops[1:]):
            yield from origins(o, seen)
    else:
        yield r


def returned(f):
    for b in f.blocks:
        t = b.insts[-1]
        if t.op == 'ret' and t.ops:
            yield t.ops[0]


def allocators(M):
    maybe = set(ROOT)
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            if n in maybe or not any(i.op == 'call' and i.callee in maybe for i in f.insts()):
                continue
            R = [x for v in returned(f) if v.k != 'const' and v.w in (None, 0, 64) for x in origins(v)]
            if any(x.k == 'inst' and x.op == 'call' and x.callee in maybe for x in R) or \
               any(x.k == 'null' for x in R) and MAKER.search(n) and 'Dealloc' not in n:
                maybe.add(n)
                ch = True
    return maybe


def dominators(f):
    D = {b: set(f.blocks) for b in f.blocks}
    D[f.blocks[0]] = {f.blocks[0]}
    ch = True
    while ch:
        ch = False
        for b in f.blocks[1:]:
            ps = [D[p] for p in b.pred if p in D]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != D[b]:
                D[b] = n
                ch = True
    return D


def tested(f):
    """root value id -> blocks entered only when it is not null"""
    out = {}
    for b in f.blocks:
        t = b.insts[-1]
        if t.op != 'br' or not t.ops:
            continue
        c, pol = t.ops[0], True
        while c.k == 'inst' and c.op == 'xor' and c.w == 1:
            c = c.ops[0]
            pol = not pol
        if c.k == 'inst' and c.op == 'icmp' and c.pred in ('eq', 'ne') and c.ops[1].k in ('null', 'const') and c.ops[1].c == 0:
            su = t.succ[0] if (c.pred == 'ne') == pol else t.succ[1]
            if len(su.pred) == 1:
                out.setdefault(addr(c.ops[0])[0].id, set()).add(su)
    return out


def untested(M):
    """(function, k): the function goes through parameter k without a test"""
    der, T, D = {}, {}, {}
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            for b in f.blocks:
                for i in b.insts:
                    for p in uses(i, der):
                        r = addr(p)[0]
                        if r.k != 'arg' or (n, r.idx) in der:
                            continue
                        if n not in T:
                            T[n] = tested(f)
                            D[n] = dominators(f)
                        if not D[n][b] & T[n].get(r.id, set()):
                            der[n, r.idx] = i
                            ch = True
    return der


def keepers(M):
    """(function, k) -> where parameter k may be kept: the parameters into whose storage it is stored, None when it is given back,
    handed on or stored elsewhere.  Functions that only look at or fill the storage are not in here."""
    keep = {(n, 0): {None} for n in GIVE}
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            for i in f.insts():
                for v, d in kept(M, i, keep):
                    ds = [None] if d is None else [x.idx if x.k == 'arg' else None for x in origins(d)]
                    for r in origins(v):
                        if r.k == 'arg':
                            for j in ds:
                                if j != r.idx and j not in keep.get((n, r.idx), ()):
                                    keep.setdefault((n, r.idx), set()).add(j)
                                    ch = True
    return keep


def kept(M, i, keep):
    """(value, where to) pairs an instruction keeps"""
    if i.op == 'store':
        yield i.ops[0], i.ops[1]
    elif i.op in ('cmpxchg', 'atomicrmw'):
        for v in i.ops[1:]:
            yield v, i.ops[0]
    elif i.op == 'call':
        if i.callee is None:
            for v in i.ops:
                yield v, None
        elif i.callee in M.fns:
            for k, a in enumerate(i.args):
                for j in keep.get((i.callee, k), ()):
                    yield a, None if j is None else i.args[j]
        elif not (USE.match(i.callee) or i.callee.startswith('llvm.') or i.callee in NOKEEP):
            for v in i.args:
                yield v, None


SURE = set()


def passes(M):
    """function -> k: all it returns is its parameter k, or nothing"""
    out = {}
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            if n in out:
                continue
            R, sure = [], True
            for v in returned(f):
                for r in origins(v):
                    while r.k == 'inst' and r.op == 'call' and r.callee in out:
                        r = addr(r.args[out[r.callee]])[0]
                    if r.k in ('inst', 'arg', 'global'):
                        R.append(r)
                    else:
                        sure = False
            if R and all(r.k == 'arg' for r in R) and len({r.idx for r in R}) == 1:
                out[n] = R[0].idx
                if sure:
                    SURE.add(n)
                ch = True
    return out


def replace(M, same):
    """the result of a function that returns its argument is that argument"""
    for f in M.fns.values():
        sub = {i.id: i.args[same[i.callee]] for i in f.insts() if i.op == 'call' and i.callee in SURE and i.callee in M.fns}
        if not sub:
            continue

        def to(v):
            while v.k == 'inst' and v.id in sub:
                v = sub[v.id]
            return v
        for i in f.insts():
            i.ops = [to(o) for o in i.ops]
            if i.op == 'phi':
                i.inc = [(to(o), b) for o, b in i.inc]


GIVE = ('free', 'SASBlockDealloc', 'SASBlockDeallocNoLock', 'SASNearDealloc', 'SASSOMDealloc', 'freeNode_deallocSpace')
NOKEEP = {'printf', 'fprintf', 'puts', 'sas_printf', 'snprintf', 'sprintf', 'perror'}


class Null:
    def __init__(s, M):
        s.M = M
        s.maybe = allocators(M)
        s.der = untested(M)
        s.keep = keepers(M)
        s.same = passes(M)
        replace(M, s.same)
        s.newcall = {}
        s.done = {}
        s.callers = {}
        s.inits = {INIT: {2}}
        ch = True
        while ch:
            ch = False
            for n, f in M.fns.items():
                for i in f.insts():
                    if i.op == 'call' and i.callee in s.inits:
                        for k in s.inits[i.callee]:
                            a = addr(i.args[k])[0] if k < len(i.args) else None
                            if a is not None and a.k == 'arg' and a.idx not in s.inits.get(n, ()):
                                s.inits.setdefault(n, set()).add(a.idx)
                                ch = True
        for n, f in M.fns.items():
            for i in f.insts():
                if i.op == 'call' and i.callee in M.fns:
                    s.callers.setdefault(i.callee, set()).add(n)

    def made(s, n, busy=()):
        """every caller of n has just made the block it works in"""
        cs = s.callers.get(n)
        if not cs or n in busy or n in s.named or len(busy) > 5:
            return False
        for c in cs:
            if not s.made(c, busy + (n,)):
                if c not in s.done:
                    try:
                        s.done[c] = s.scan(s.M.fns[c])
                    except TooBig:
                        return False
                if not s.newcall.get((c, n)):
                    return False
        return True

    def scan(s, f):
        """uses of missing storage, storage lost on failure"""
        callee = {i.id: i for i in f.insts() if i.op == 'call' and i.callee in s.maybe}
        for b in f.blocks:                           # either of two results, when the path does not say which
            for i in b.insts:
                if i.op in ('phi', 'select') and i.w in (None, 0, 64):
                    cs = [x for x in origins(i) if x.k == 'inst' and x.id in callee and x.op == 'call']
                    if cs:
                        callee[i.id] = cs[0]
        rel = lambda x: any(a[0] in ('call', 'i') and a[1] in callee for a in walk(x))
        found, lost, half = {}, {}, {}

        def want(sy, x):
            return x[0] != 'b' and rel(x[1])
        own = {}

        def follow(x, al):
            """atoms of a value; a function that returns its argument stands for it"""
            al = dict(al)
            for a in x if isinstance(x, list) else walk(x):
                while a is not None:
                    yield a
                    a = al.get(a[1]) if a[0] == 'call' else None

        def maynull(sym, v, st, env):
            may = st.user[2]
            return [a for a, c in sym.lin(v, env, st)[1] if c == 1 and (a[0] == 'call' and a[1] in callee or a[0] == 'i' and a[1] in may) and
                    not ne0(st.facts, atom(a))]

        def edge(b, su, st, env):
            live, new, may, put, al = st.user
            for i in su.insts:
                if i.op != 'phi':
                    break
                if i.id in callee:
                    v = next((x for x, bb in i.inc if bb is b), None)
                    if live and v is not None and any(p.rpo >= su.rpo for p in su.pred):      # collected over the rounds of a loop
                        live = live - {a[1] for a, c in own['s'].lin(v, env, st)[1] if a[0] == 'call'}
                    may = may | {i.id} if v is not None and maynull(own['s'], v, st, env) else may - {i.id}
            us = (live, new, may, put, al)
            return st._replace(user=us) if us != st.user else st

        def step(sym, i, st, env):
            own['s'] = sym
            live, new, may, put, al = st.user
            for p in uses(i, s.der):
                for a in maynull(sym, p, st, env):
                    if not new:
                        found.setdefault((callee[a[1]].callee, i.callee if i.op == 'call' else i.op), i)
            if i.op == 'call' and i.callee in s.same:
                al = frozenset(x for x in al if x[0] != i.id) | {(i.id, single(sym.lin(i.args[s.same[i.callee]], env, st)))}
            if i.op == 'call' and i.callee in s.M.fns:
                s.newcall[f.name, i.callee] = s.newcall.get((f.name, i.callee), True) and new
            if i.op == 'call' and i.callee in s.inits and any(k < len(i.args) and const_of(i.args[k], env) is not None for k in s.inits[i.callee]):
                new = True                           # a block of a given size that was just made holds what its maker puts in
            if i.op == 'store':
                put = put | {a[1] for a, c in sym.lin(i.ops[0], env, st)[1] if c == 1 and a[0] == 'call' and a[1] in callee}
            if i.op == 'call' and i.callee in RAW:
                live = live | {i.id}
            elif live and i.op in ('store', 'call', 'cmpxchg', 'atomicrmw'):
                for v, d in kept(s.M, i, s.keep):
                    w = addr(v)[0]
                    while w.k == 'inst' and w.op == 'call' and w.callee and FIRST.match(w.callee):
                        v = w.args[0]                # returns its first argument
                        w = addr(v)[0]
                    into = set() if d is None else set(follow([a for a, c in sym.lin(d, env, st)[1]], al))
                    live = live - {a[1] for x, c in sym.lin(v, env, st)[1] for a in follow([x], al) if a[0] == 'call' and a not in into}
            if i.op == 'select' and i.id in callee:
                may = may | {i.id} if any(maynull(sym, o, st, env) for o in i.ops[1:]) else may - {i.id}
            us = (live, new, may, put, al)
            if i.op == 'store':
                if not rel(sym.lin(i.ops[0], env, st)):
                    A = sym.lin(i.ops[1], env, st)
                    if any(x[0] == A for x in st.mem):
                        st = st._replace(mem=frozenset(x for x in st.mem if x[0] != A))
                    return st._replace(user=us) if us != st.user else st
            return us if us != st.user else st.user
        sy = Sym(f, step=step, want=want, edge=edge, user=(frozenset(), False, frozenset(), frozenset(), frozenset()), limit=12000)
        for t, st, env in sy.exits:
            if not t.ops:
                rv = None
            else:
                rv = sy.lin(t.ops[0], env, st)
            for a in st.user[3]:
                if rv is not None and rv != ZERO and f.name in s.maybe and not ne0(st.facts, atom(('call', a))) and not eq0(st.facts, atom(('call', a))) and \
                        not any(x[0] == 'call' and x[1] == a for x in follow(rv, st.user[4])):
                    half.setdefault(callee[a].callee, callee[a])
            for a in st.user[0]:
                if eq0(st.facts, atom(('call', a))) or rv is not None and any(x[0] == 'call' and x[1] == a for x in follow(rv, st.user[4])):
                    continue
                lost.setdefault(callee[a].callee, (callee[a], t))
        return found, lost, half


def run(r):
    r.rule('missing', 'a result of an allocation is used only after a test that it is there', 0)
    r.rule('half', 'an object is handed out only after the parts allocated for it are seen to be there', 0)
    r.rule('lost', 'storage taken by an operation is returned, stored, handed over or given back on every path', 0)
    M = common.lib(cse=True)
    N = Null(M)
    N.named = {n for n, f in M.fns.items() if not re.search('::', n)}
    for n in sorted(M.fns):
        f = M.fns[n]
        sites = [i for i in f.insts() if i.op == 'call' and i.callee in N.maybe]
        if not sites:
            continue
        try:
            found, lost, half = N.done[n] = N.scan(f) if n not in N.done else N.done[n]
            if found and N.made(n):
                found = {}
        except TooBig:
            r.assume.append('%s: too many paths, not decided' % n)
            continue
        for i in sites:
            r.ok('missing', '%s: %s' % (n, i.callee))
            if i.callee in RAW:
                r.ok('lost', '%s: %s' % (n, i.callee))
        for c in sorted({c for c, u in found}):
            us = sorted(((u, i) for (c2, u), i in found.items() if c2 == c), key=lambda x: x[0])
            r.bad('missing', '%s: %s' % (n, c), '%s uses the result of %s without having seen that it is there (%s)' % (n, c, ', '.join(u for u, _ in us)), us[0][1])
        for c, i in sorted((c, i) for c, i in half.items() if c not in {c2 for c2, u in found}):
            r.bad('half', '%s: %s' % (n, c), '%s hands out an object that holds the result of %s without having seen that it is there' % (n, c), i)
        for c, (i, t) in sorted(lost.items()):
            r.bad('lost', '%s: %s' % (n, c), '%s on some path loses what %s gave it' % (n, c), i)
