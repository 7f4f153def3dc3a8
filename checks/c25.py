"""C25: nothing that exists only in one process is referred to from the region."""
import glob, os, re
from sa import common, ir
from sa.flow import addr
from checks.c24 import origins

LEVEL = 'other'
TECHNIQUE = 'static analysis: interprocedural address-origin (escape) analysis on LLVM IR'
EXPLANATION = ('The origin of every stored value and of every place stored to is derived (stack, static data, functions, private heap, getenv; '
               'parameters; loaded addresses), parameters that end up in storage that is not known to be private are propagated over the call '
               'graph. A private address must not reach such storage, at any store or call site; strings and keys that a caller hands in must '
               'not reach it either (they are copied).')
HEAP = {'malloc', 'calloc', 'realloc', 'strdup', '_Znwm', '_Znam', 'getenv', 'strerror', 'tmpnam', 'mkdtemp', 'fopen', 'fopen64', 'setlocale',
        'ctime', 'localtime', 'aligned_alloc', 'memalign', 'getcwd', 'realpath', 'secure_getenv', 'alloca'}
NEAR = 'SASNearAlloc'
FIRST = re.compile(r'(mem(set|cpy|move)|str(n?cpy|n?cat))$')
# enumerations are handles in private memory of the process that made them
HANDLE = re.compile(r'Enum(Next|Destroy|Create\w*)(_nolock)?$')
GIVE = re.compile(r'[Dd]ealloc|Free(NoLock)?$')     # what may be given back is decided by C18
TEXT = re.compile(r'(\bchar|\bSASIndexKey_t)\s*\*(?!\s*\*)')


def params():
    """prototypes of the installed headers: name -> parameter texts"""
    out = {}
    for h in sorted(glob.glob(os.path.join(ir.SRC, '*.h'))):
        t = open(h, errors='replace').read()
        t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
        t = re.sub(r'//.*', '', t)
        t = re.sub(r'^\s*#.*', '', t, flags=re.M)
        for m in re.finditer(r'\b(\w+)\s*\(([^(){};]*)\)\s*(?:;|\{)', t):
            out.setdefault(m.group(1), [p.strip() for p in m.group(2).split(',')])
    return out


class Origin:
    def __init__(s, M):
        s.M = M
        s.heap = set(HEAP)
        s.held = {}
        s.sink = {}
        s.puts = {}
        ch = True
        while ch:                                    # functions that return private storage, globals that hold its address
            ch = False
            for n, f in M.fns.items():
                if n not in s.heap and n != NEAR:
                    C = set()
                    for b in f.blocks:
                        t = b.insts[-1]
                        if t.op == 'ret' and t.ops and t.ops[0].w in (None, 0, 64):
                            C |= s.cls(t.ops[0])
                    if any(c[0] in PRIV for c in C):
                        s.heap.add(n)
                        ch = True
                for i in f.insts():
                    if i.op == 'store':
                        for d in origins(i.ops[1]):
                            if d.k == 'global' and addr(i.ops[1])[0] is d and d.name not in s.held:
                                v = s.cls(i.ops[0])
                                if any(c[0] in ('heap', 'stack') for c in v):
                                    s.held[d.name] = 1
                                    ch = True

    def cls(s, v, d=0):
        """kinds of thing a value may be the address of"""
        out = set()
        if d > 8:
            return {('other', '')}
        for r in origins(v):
            if r.k == 'inst' and r.op == 'call' and r.callee and FIRST.match(r.callee):
                out |= s.cls(r.args[0], d + 1)       # returns its first argument
            elif r.k == 'inst' and r.op == 'alloca':
                out.add(('stack', ''))
            elif r.k == 'inst' and r.op == 'call':
                if (r.callee or '').startswith('llvm.threadlocal'):
                    out.add(('static', 'thread-local data'))
                elif r.callee == NEAR:               # storage near a private address is private
                    out.add(('heap', NEAR) if any(c[0] in PRIV for c in s.cls(r.args[0], d + 1)) else ('call', NEAR))
                elif r.callee in s.heap:
                    out.add(('heap', r.callee))
                else:
                    out.add(('call', r.callee or ''))
            elif r.k in ('global', 'func'):
                out.add(('static', r.name))
            elif r.k == 'cexpr':
                for o in r.ops:
                    out |= s.cls(o, d + 1)
            elif r.k == 'arg':
                out.add(('arg', r.idx))
            elif r.k == 'inst' and r.op == 'load':
                g = addr(r.ops[0])[0]
                if g.k == 'global' and g.name in s.held:
                    out.add(('heap', 'held in ' + g.name))
                else:
                    out.add(('load', ''))
                    if g.k == 'inst' and g.op == 'alloca':          # what was put into this local variable
                        for v2 in s.put(g, addr(r.ops[0])[1]):
                            out |= s.cls(v2, d + 1)
            elif r.k == 'null':
                out.add(('null', ''))
            else:
                out.add((r.k if r.k != 'inst' else 'other', ''))
        return out


    def put(s, a, off):
        """values that are stored in a local variable at an offset, here or by a function that gets its address"""
        f = a.fn
        if f.name not in s.puts:
            L = s.puts[f.name] = {}
            for i in f.insts():
                if i.op == 'store':
                    x, o = addr(i.ops[1])
                    L.setdefault(x.id, []).append((o, i.ops[0]))
                elif i.op == 'call' and i.callee in s.M.fns:
                    for k, v in enumerate(i.args):
                        for j, o in s.sink.get((i.callee, k), ()):
                            if j is not None:
                                x, o2 = addr(i.args[j])
                                L.setdefault(x.id, []).append((plus(o, o2), v))
        return [v for o, v in s.puts[f.name].get(a.id, ()) if o is None or off is None or o == off]


def plus(a, b):
    return None if a is None or b is None else a + b


PRIV = ('stack', 'heap', 'static')


def places(C, n):
    """where a store goes, without the places that are private: parameter numbers and None for storage reached otherwise"""
    out = set()
    for c in C:
        if c[0] == 'arg':
            if not (c[1] == 0 and HANDLE.search(n)):
                out.add(c[1])
        elif c[0] not in PRIV and c[0] not in ('null', 'undef'):
            out.add(None)
    return out


def run(r):
    r.rule('private', 'no address of stack, static or heap data of the process is stored outside of it', 0)
    r.rule('input', 'strings and keys that are handed in are copied, not referred to', 0)
    M = common.lib(cse=True, headers=True)
    O = Origin(M)
    r.assume.append('integers are not followed: an address that was converted, changed and converted back is not recognised')
    sink = O.sink
    via = {}

    def flows(f):
        """(value, where, what) of everything an instruction lets escape"""
        for i in f.insts():
            if i.op == 'store':
                yield i, i.ops[0], O.cls(i.ops[1]), addr(i.ops[1])[1]
            elif i.op in ('cmpxchg', 'atomicrmw'):
                for v in i.ops[1:]:
                    yield i, v, O.cls(i.ops[0]), addr(i.ops[0])[1]
            elif i.op == 'call' and i.callee in M.fns and not GIVE.search(i.callee):
                for k, a in enumerate(i.args):
                    for j, o in sink.get((i.callee, k), ()):
                        yield i, a, {('load', '')} if j is None else O.cls(i.args[j]), None if j is None else plus(o, addr(i.args[j])[1])
    ch = True
    while ch:
        ch = False
        O.puts = {}
        for n, f in M.fns.items():
            for i, v, C, o in flows(f):
                D = None
                for c in O.cls(v):
                    if c[0] == 'arg':
                        D = places(C, n) if D is None else D
                        for j in D - {c[1]}:
                            S = sink.setdefault((n, c[1]), set())
                            e = (j, None if j is None or len(S) > 40 else o)
                            if e not in S:
                                S.add(e)
                                via.setdefault((n, c[1]), i)
                                ch = True
    bad = {}
    for n, f in sorted(M.fns.items()):
        for i, v, C, o in flows(f):
            if v.k == 'const' or v.w not in (None, 0, 64):
                continue
            r.ok('private', n)
            P = sorted(c for c in O.cls(v) if c[0] in PRIV and c != ('static', ''))
            if P and places(C, n):
                bad.setdefault((n, P[0], i.callee if i.op == 'call' else i.op), i)
    for (n, c, w), i in sorted(bad.items(), key=lambda x: x[0]):
        r.bad('private', '%s: %s' % (n, ' '.join(c).strip()), '%s puts the address of %s data (%s) where another process may follow it (%s)' % (n, c[0], c[1] or 'local', w), i)
    for n, ps in sorted(params().items()):
        f = M.fns.get(n)
        if f is None or len(f.args) != len(ps):
            continue
        for k, p in enumerate(ps):
            if not TEXT.search(p):
                continue
            D = sink.get((n, k), set())
            r.check(not D, 'input', '%s: parameter %d' % (n, k), '%s keeps the address of its parameter "%s" instead of a copy' % (n, p),
                    via.get((n, k)))
