"""C21: names, paths and keys are copied into buffers that hold them."""
import re
from sa import common
from sa.sym import Sym, atom, con, sub, addl, plusc, scale, single, eq0, ne0, ge0, ge1, walk
from sa.flow import strip, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: symbolic buffer-size analysis (capacity of the receiving object against the length written) at every string copy, formatting and read'
EXPLANATION = ('At every call that copies or formats a string, reads a file or asks for a path, the size of the receiving object (variable, or allocation by its symbolic size) is compared with the symbolic number of '
               'bytes written, under the comparisons made on the path; formatting into a caller\'s buffer puts the obligation on every call site.')
COPY = {'strcpy', 'stpcpy', '__strcpy_chk'}
BAN = {'strcat', 'gets', 'vsprintf', 'strncat', 'scanf', 'sscanf', 'fscanf', 'wcscpy'}
SIZED = {'snprintf': (0, 1), 'vsnprintf': (0, 1), 'getcwd': (0, 1), 'read': (1, 2), 'fgets': (0, 1), 'readlink': (1, 2), 'strncpy': (0, 2), 'recv': (1, 2), 'pread': (1, 2), 'realpath': None}
ALLOC = {'malloc': 0, 'calloc': 1, 'SASNearAlloc': 1, 'freeNode_allocSpace': 2}
STORE = 'SASJoinRegionByName'


def alloc_size_op(callee):
    if callee in ALLOC:
        return ALLOC[callee]
    if re.search('Alloc', callee) and re.match('(SAS|SPH|freeNode)', callee):
        return 1
    return None


def run(r):
    r.rule('copy', 'a string is copied only into storage at least its length and the final zero long', 3)
    r.rule('format', 'formatting, reading a file and asking for a path are bounded by the size of the buffer that receives the result', 3)
    r.rule('caller-buffer', 'every caller of an operation that fills a buffer of the caller hands in one of the size that operation assumes', 3)
    r.rule('block-copy', 'a key or name copied as a block goes into storage of at least that size', 1)
    r.rule('index', 'bytes stored at a position computed from a length lie inside the buffer', 1)
    r.rule('store-path', 'a store path is taken over only if the name of every segment file in it fits the name buffers', 1)
    r.rule('unbounded', 'no call that cannot be bounded (gets, strcat, vsprintf, ...) is made', 0)
    STORE_MAX, = common.consts('STORE_NAME_SIZE')
    M = common.lib()
    obl = {}
    names = COPY | BAN | set(SIZED) | {'sprintf', '__sprintf_chk'}
    for n, f in sorted(M.fns.items()):
        if f.blocks and any(i.op == 'call' and i.callee and (i.callee in names or i.callee.startswith(('llvm.memcpy', 'llvm.memmove'))) for i in f.insts()):
            function(r, M, n, f, obl, STORE_MAX)
    for (fn, k), (need, at) in sorted(obl.items()):
        for n, f in sorted(M.fns.items()):
            if f.blocks and any(i.op == 'call' and i.callee == fn for i in f.insts()):
                caller(r, M, n, f, fn, k, need)


class Buf:
    """capacity of objects inside one function"""

    def __init__(s, M, f):
        s.M = M
        s.inst = {i.id: i for i in f.insts()}

    def cap(s, sym, L, env, st, d=0):
        """(capacity form, offset form, base) of an address form, or None"""
        for x, c in sorted(L[1], key=repr):
            if c != 1:
                continue
            off = (L[0], frozenset(y for y in L[1] if y != (x, c)))
            if x[0] == 'i' and x[1] in s.inst and s.inst[x[1]].op == 'alloca':
                return con(s.inst[x[1]].size), off, x
            if x[0] == 'g' and x[1] in s.M.globals and getattr(s.M.globals[x[1]], 'size', None):
                return con(s.M.globals[x[1]].size), off, x
            if x[0] == 'call':
                i = s.inst.get(x[1])
                if i is not None and i.callee in COPY | {'memcpy', 'strncpy'} and d < 4:      # they return their destination
                    b = s.cap(sym, sym.lin(i.ops[0], env, st), env, st, d + 1)
                    return b and (b[0], addl(b[1], off), b[2])
                k = i is not None and i.callee and alloc_size_op(i.callee)
                if k is not None and k is not False and len(i.ops) > k:
                    return sym.lin(i.ops[k], env, st), off, x
        return None


    def caps(s, sym, L, env, st, d=0):
        """the capacities of everything the address may stand for (null left out)"""
        if L == con(0):
            return []
        c = s.cap(sym, L, env, st)
        a = single(L)
        if c is None and a and a[0] == 'i' and d < 4:
            i = s.inst.get(a[1])
            if i is not None and i.op in ('phi', 'select'):
                vs = [v for v, _ in i.inc] if i.op == 'phi' else i.ops[1:]
                return [x for v in vs for x in (s.caps(sym, sym.lin(v, {}, None), {}, st, d + 1) if strip(v) is not i else [])]
        return [c]


def untag(L):
    """the form with its loads not told apart by when they were made (the size in a key does not change while it is copied)"""
    out = con(L[0])
    for x, c in L[1]:
        out = addl(out, scale(atom(('ld', x[1], 0) if x[0] == 'ld' else x), c))
    return out


def low(L):
    """a form that is at most L: rounding by a mask takes away at most the masked bits"""
    out = con(L[0])
    for x, c in L[1]:
        t = scale(atom(x), c)
        if c > 0 and x[0] == 'op' and x[1] == 'and':
            for y in x[2]:
                z = y[0] - (1 << 64) if y[0] >= 1 << 63 else y[0]
                if not y[1] and z < 0 and (-z) & (-z - 1) == 0:
                    o = [w for w in x[2] if w != y]
                    if o:
                        t = scale(plusc(low(o[0]), z + 1), c)
        out = addl(out, t)
    return out


def function(r, M, n, f, obl, STORE_MAX):
    B = Buf(M, f)
    fits = lambda F, L: ge1(F, L) or ge1(F, low(L))

    def step(sym, i, st, env):
        us = st.user
        F = st.facts
        L = lambda k: sym.lin(i.ops[k], env, st)

        def length(k):
            """forms of the length of a string operand"""
            v = strip(sym.res(i.ops[k], env, st))
            if v.k == 'global' and v.name in M.strings:
                return [con(len(M.strings[v.name]))]
            x = L(k)
            return [atom(('call', u[1])) for u in us if u[0] == 'len' and u[2] == x]
        if i.op == 'store':
            A = L(1)
            g = strip(i.ops[1])
            if g.k == 'global' and g.name == 'sasStorePath':
                src = sym.res(i.ops[0], env, st)
                if src.k != 'null':
                    limit = any(q[0] == 'ge' and any(c == -1 and x[0] == 'call' and any(u[:2] == ('len', x[1]) for u in us) for x, c in q[1][1]) and
                                len(q[1][1]) == 1 and q[1][0] <= STORE_MAX - len('/SAS.DAT') - 16 - 1 for q in F)
                    r.check(limit, 'store-path', '%s: length' % n, '%s takes over a store path whose segment names may not fit the name buffers' % n, i)
            if i.ops[0].w == 8:
                b = B.cap(sym, A, env, st)
                if b:
                    cap, off, base = b
                    if off[1]:
                        top = fits(F, plusc(sub(cap, off), -1))
                        if not top and not cap[1]:
                            # a result of read() is at most the size asked for
                            for x, c in off[1]:
                                u = c == 1 and x[0] == 'call' and next((u for u in us if u[:2] == ('got', x[1])), None)
                                if u:
                                    room = sub(cap, addl(u[2], plusc(off, 0)))
                                    room = addl(room, atom(x))      # cap - (limit + const part)
                                    top = ge0(F, plusc(room, -1)) or ge0(F, room) and (ne0(F, sub(atom(x), u[2])))
                        known = fits(F, off) or off[0] >= 0 and all(c > 0 and (x[0] == 'call') and any(u[:2] == ('len', x[1]) for u in us) for x, c in off[1])
                        known = known or off[0] >= -1 and any(c == 1 and x[0] == 'call' and any(u[:2] == ('len', x[1]) for u in us) and ne0(F, atom(x)) for x, c in off[1])
                        # length - 1 of a string seen not to be empty
                        seen = any(q[0] == 'ne' and single(q[1]) and single(q[1])[0] == 'ld' and
                                   (single(q[1])[1] in (sub(A, off), ) or any(u[0] == 'len' and single(q[1])[1] == u[2] for u in us)) for q in F)
                        r.check(top, 'index', '%s: end' % n, '%s stores behind the end of a buffer' % n, i)
                        r.check(known or seen and off[0] >= -1, 'index', '%s: start' % n, '%s stores in front of a buffer (length zero)' % n, i)
            return us
        if i.op != 'call' or not i.callee:
            return us
        c = i.callee
        if c == 'strlen':
            us = frozenset(u for u in us if u[:2] != ('len', i.id)) | {('len', i.id, L(0))}
        elif c in BAN:
            r.check(False, 'unbounded', '%s: %s' % (n, c), '%s calls %s, which cannot be bounded' % (n, c), i)
        elif c in COPY:
            bs = B.caps(sym, L(0), env, st)
            ls = length(1)
            # missing storage (null) is the matter of C24
            ok = all(b is not None and any(fits(F, plusc(sub(sub(b[0], b[1]), l), -1)) for l in ls) for b in bs)
            r.check(ok, 'copy', '%s: %s' % (n, c), '%s copies a string into storage not known to hold it' % n, i)
        elif c in ('sprintf', '__sprintf_chk'):
            b = B.cap(sym, L(0), env, st)
            fmt = M.strings.get(strip(i.ops[1 if c == 'sprintf' else 3]).name)
            m = maxlen(fmt) if fmt is not None else None
            r.check(bool(b) and m is not None and fits(F, plusc(sub(b[0], b[1]), -m - 1)), 'format', '%s: sprintf' % n, '%s formats into a buffer not known to hold the result' % n, i)
        elif c in SIZED and SIZED[c]:
            d, k = SIZED[c]
            b = B.cap(sym, L(d), env, st)
            a = single(L(d))
            if b:
                r.check(fits(F, sub(sub(b[0], b[1]), L(k))), 'format', '%s: %s' % (n, c), '%s lets %s write more than the buffer holds' % (n, c), i)
            elif a and a[0] == 'arg' and not L(k)[1]:
                r.ok('format', '%s: %s (buffer of the caller)' % (n, c))
                o = obl.get((n, a[1]))
                if o is None or o[0] < L(k)[0]:
                    obl[(n, a[1])] = (L(k)[0], i)
            elif a and a[0] == 'arg' and single(L(k)) and single(L(k))[0] == 'arg':
                r.ok('format', '%s: %s (buffer and size of the caller)' % (n, c))
            else:
                r.check(False, 'format', '%s: %s' % (n, c), '%s lets %s write into a buffer of unknown size' % (n, c), i)
            if c in ('read', 'pread', 'recv', 'readlink'):
                us = frozenset(u for u in us if u[:2] != ('got', i.id)) | {('got', i.id, L(k))}
        elif c.startswith(('llvm.memcpy', 'llvm.memmove')):
            b = B.cap(sym, L(0), env, st)
            if b and (L(2)[1] or b[0][1] or b[1][1]):
                cap, off = b[0], b[1]
                r.check(fits(F, sub(sub(cap, off), L(2))) or ge0(F, sub(sub(untag(cap), off), untag(L(2)))) or moved(F, us, cap, off, L(2)), 'block-copy', '%s: memcpy' % n, '%s copies a block into storage not known to hold it' % n, i)
            elif b:
                r.check(ge0(F, sub(sub(b[0], b[1]), L(2))), 'block-copy', '%s: memcpy' % n, '%s copies a block into storage not known to hold it' % n, i)
        return us
    stable = lambda q: q[1] == 'copy_size'
    tracked = {i.id for i in f.insts() if i.op == 'call' and i.callee in ('strlen', 'read', 'pread', 'recv', 'readlink') or i.op == 'load' and i.w == 8}
    try:
        sym = Sym(f, stable=stable, step=step, user=frozenset(), limit=20000, pure=lambda c: c not in M.fns,
                  want=lambda s, q: q[0] != 'b' and any(x[0] == 'call' and x[1] in tracked or x[0] == 'ld' and x[2] in tracked for x in walk(q)))
    except TooBig:
        r.fail('%s: too many paths' % n)


def moved(F, us, cap, off, n):
    """moving the rest of what read() delivered inside the buffer"""
    return any(u[0] == 'got' and ge0(F, sub(sub(cap, off), u[2])) and any(x == ('call', u[1]) or x[0] == 'i' for x in walk(n)) for u in us)


def maxlen(fmt):
    """longest result of a format with bounded conversions, None when unbounded"""
    n = 0
    pos = 0
    for m in re.finditer(r'%([-0 #+]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t)?([a-zA-Z%])', fmt):
        n += m.start() - pos
        pos = m.end()
        if m.group(5) == '%':
            n += 1
        elif m.group(5) in 'diouxXpc' and m.group(2) != '*' and m.group(3) != '*':
            n += max(24, int(m.group(2) or 0), int(m.group(3) or 0))
        else:
            return None
    return n + len(fmt) - pos


def caller(r, M, n, f, fn, k, need):
    B = Buf(M, f)

    def step(sym, i, st, env):
        if i.op == 'call' and i.callee == fn:
            b = B.cap(sym, sym.lin(i.ops[k], env, st), env, st)
            r.check(bool(b) and ge0(st.facts, plusc(sub(b[0], b[1]), -need)), 'caller-buffer', '%s: %s' % (n, fn), '%s hands %s a buffer smaller than the %d bytes it may fill' % (n, fn, need), i)
        return st.user
    try:
        Sym(f, step=step, want=lambda s, q: False, limit=20000)
    except TooBig:
        r.fail('%s: too many paths' % n)
