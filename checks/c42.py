"""C42: objects made over recycled storage have every field set that operations read."""
import re
from sa import common
from sa.sym import Sym, atom, eq0, walk
from sa.flow import fieldpath, strip, CASTS, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: definite-initialisation dataflow (byte ranges of fresh storage, through helper summaries) over every creation path, on LLVM IR'
EXPLANATION = ('For every place that turns fresh storage into an object, the bytes stored on each path that keeps the object are compared with the fixed members of its structures '
               'that any function of the library reads; a member that is read but not stored on some path is reported.')
RAWS = re.compile(r'^(SASBlockAlloc(NoLock)?|malloc|freeNode_allocSpace|SASNearAlloc|SAS(Index|StringBTree|SimpleHeap)NearAlloc(NoLock)?|SAS(Index|StringBTree)NodeNearAlloc|SAS(Index|StringBTree)Spill\w*)$')
FREE = re.compile(r'(Dealloc|Destroy|^free$|^munmap$)')
EXPAND = re.compile(r'Expand(Create|Init)$')
# members only ever reached through the base block of a tree
BASEONLY = {'root'}


def chain(p):
    """(outermost structure, byte offset, base pointer) of an address"""
    off = 0; T = None; v = p; first = True
    while v.k in ('inst', 'cexpr'):
        if v.op in CASTS:
            v = v.ops[0]; continue
        if v.op == 'gep':
            off = None if v.off is None or off is None else off + v.off
            fs = v.gepf or ()
            if fs and fs[0][0] != '[]':
                T = fs[0][0]
                first = not (v.lin and v.lin[0][0] is None and v.lin[0][1] == 0) if v.lin else False
                first = v.ops[1].k == 'null' or (v.ops[1].k == 'const' and v.ops[1].c == 0)
            elif fs:
                T = None
            v = v.ops[0]; continue
        break
    return (T if first else None), off, v


def readers(M):
    R = {}
    for n, f in sorted(M.fns.items()):
        for i in f.insts():
            if i.op in ('load', 'cmpxchg', 'atomicrmw'):
                T, o, b = chain(i.ops[0])
                if T and o is not None:
                    fp = fieldpath(i.ops[0])
                    R.setdefault(T, {}).setdefault((o, (i.w or 64) // 8), ('.'.join(x[1] for x in fp), set()))[1].add(n)
    return R


class Init:
    def __init__(s, M):
        s.M = M; s.memo = {}

    def must(s, name, k):
        """byte ranges a function stores through its argument k on every path that returns"""
        f = s.M.fns.get(name)
        if f is None:
            return frozenset()
        if (name, k) in s.memo:
            return s.memo[name, k]
        s.memo[name, k] = frozenset()
        out = None
        try:
            for ret, st, env in s.walk(f, {('arg', k)}).exits:
                if ('arg', k) and eq0(st.facts, atom(('arg', k))):
                    continue
                w = {(o, n) for a, o, n in st.user if a == ('arg', k) and o is not None}
                if not w:           # arguments refused
                    continue
                out = w if out is None else {x for x in out if covers(w, *x)} | {x for x in w if covers(out, *x)}
        except TooBig:
            out = None
        s.memo[name, k] = frozenset(out or ())
        return s.memo[name, k]

    def walk(s, f, roots, types=None):
        def ro(L):
            if len(L[1]) == 1:
                (a, c), = L[1]
                if c == 1 and a in roots:
                    return a, L[0]

        def step(sym, i, st, env):
            u = st.user
            if i.op == 'store':
                x = ro(sym.lin(i.ops[1], env, st))
                if x:
                    if types is not None:
                        T, o, b = chain(i.ops[1])
                        if T and o == x[1]:
                            types.setdefault(x[0], set()).add(T)
                    return u | {(x[0], x[1], (i.ops[0].w or 64) // 8)}
            elif i.op == 'call' and i.callee:
                if ('call', i.id) in roots:
                    u = frozenset(y for y in u if y[0] != ('call', i.id))
                for k, a in enumerate(i.args):
                    L = sym.lin(a, env, st)
                    x = ro(L)
                    if not x:
                        continue
                    if re.match(r'(llvm\.)?mem(set|cpy|move)', i.callee):
                        n = sym.lin(i.args[2], env, st)
                        if k == 0:
                            u = u | {(x[0], x[1], 1 << 16 if n[1] else n[0])}
                    elif FREE.search(i.callee):
                        u = u | {(x[0], None, None)}
                    elif not i.callee.startswith('llvm.'):
                        u = u | {(x[0], x[1] + o, n) for o, n in s.must(i.callee, k)}
                return u
            return u
        want = lambda sym, fact: fact[0] in ('eq', 'ne') and any(x in roots for x in walk(fact[1]))
        return Sym(f, step=step, want=want, user=frozenset())


def covers(have, o, n):
    """is [o, o+n) inside the union of ranges?"""
    for a, k in sorted((a, k) for a, k in have if a is not None):
        if a <= o < a + k:
            n -= a + k - o
            o = a + k
    return n <= 0


def run(r):
    r.rule('complete', 'on every path that keeps a new object, each member of it that some function of the library reads has been stored', 1)
    M = common.lib(raw=True, extra_inline={n for n in common.names() if re.search(r'Init(Internal|WithStride)?$', n)} - {'initSOMSASBlock'})
    R = readers(M)
    I = Init(M)
    n_paths = 0
    for n, f in sorted(M.fns.items()):
        calls = {('call', i.id): i for i in f.insts() if i.op == 'call' and i.callee and RAWS.match(i.callee)}
        if not calls:
            continue
        types = {}
        try:
            S = I.walk(f, set(calls), types)
        except TooBig:
            r.assume.append('%s is too branched to follow; its new objects are not checked' % n)
            continue
        seen = {}
        for ret, st, env in S.exits:
            if ret is not None and eq0(st.facts, S.lin(ret, env, st)):
                continue
            for root, c in calls.items():
                w = [(o, k) for a, o, k in st.user if a == root]
                if not w or any(o is None for o, k in w) or any(eq0(st.facts, atom(x)) for x in calls):
                    continue
                n_paths += 1
                for T in types.get(root, ()):
                    for (o, k), (fp, who) in R.get(T, {}).items():
                        if EXPAND.search(n) and fp in BASEONLY:
                            continue
                        inst = '%s %s.%s' % (n, T, fp)
                        ok = covers(w, o, k)
                        x = seen.setdefault(inst, [True, c, fp, T, who])
                        x[0] = x[0] and ok
        for inst, (ok, c, fp, T, who) in sorted(seen.items()):
            r.check(ok, 'complete', inst, '%s makes a %s over storage from %s without setting %s, which %s reads' % (n, T, c.callee, fp, ', '.join(sorted(who)[:3])), c)
    r.assume.append('a helper that stores nothing on some path has refused its arguments there, and its caller passed good ones')
    r.assume.append('the fixed-size parts carved from a new header page fit into it, so those allocations succeed')
