"""C40: the block header behind a near operation is looked up at every boundary a block can start at."""
from sa import common
from sa.sym import Sym, sub, atom, con, ge0, single, plusc, addl

LEVEL = 'other'
TECHNIQUE = 'static analysis: abstract interpretation of the header lookup (address masked by known bits), following the all-misses path and every hit'
EXPLANATION = ('The lookup is interpreted abstractly with a symbolic address; values are constants or the address with known bits cleared. Along the path on which no signature matches the sequence of examined '
               'boundaries is compared with the block sizes the region hands out; the value returned for a hit must be the boundary that was examined, and nothing without one.')
M64 = (1 << 64) - 1
SIG = {'SOMSASCheckBlockSig': 0, 'SOMSASCheckBlockSigAndType': 0}


class Path:
    def __init__(s, env, seq):
        s.env = env
        s.seq = seq


def val(v, env):
    """('c', n) constant, ('m', mask) address & mask, None unknown"""
    if v.k == 'const':
        return ('c', (v.u if v.u is not None else v.c) & M64)
    if v.k == 'null':
        return ('c', 0)
    if v.k == 'arg':
        return ('m', M64)
    return env.get(v)


def step(i, env):
    a = [val(o, env) for o in i.ops[:2]]
    if i.op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
        return a[0]
    if i.op in ('zext', 'sext', 'trunc'):
        if a[0] and a[0][0] == 'c':
            n = a[0][1]
            if i.op == 'sext' and i.ops[0].w < 64 and n >> (i.ops[0].w - 1) & 1:
                n |= M64 << i.ops[0].w & M64
            return ('c', n & ((1 << i.w) - 1) if i.w else n)
        return None
    if len(a) < 2 or a[0] is None or a[1] is None:
        return None
    (k, x), (l, y) = a
    w = i.w or 64
    m = (1 << w) - 1
    if k == l == 'c':
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y if y < w else 0, 'lshr': lambda: x >> y if y < w else 0}.get(i.op)
        if f:
            return ('c', f() & m)
        if i.op == 'ashr':
            sx = x - (1 << w) if x >> (w - 1) & 1 else x
            return ('c', sx >> y & m)
        if i.op == 'icmp':
            sg = lambda n: n - (1 << 64) if n >> 63 else n
            p = i.pred
            if p[0] == 's':
                x, y = sg(x), sg(y)
            q = p if p in ('eq', 'ne') else p[1:]
            return ('c', int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[q]))
        return None
    if i.op == 'and':
        if {k, l} == {'c', 'm'}:
            return ('m', x & y)
        if k == l == 'm':
            return ('m', x & y)
    if i.op == 'sub' and k == 'm' and l == 'm' and y | x == x:       # address minus its low bits
        return ('m', x & ~y & M64)
    if i.op == 'xor' and k == 'm' and l == 'm' and y | x == x:
        return ('m', x & ~y & M64)
    if k == 'm' and l == 'c' and i.op in ('lshr', 'shl') and y < 64:
        return None if i.op == 'shl' else ('s', (x >> y << y, y))
    if k == 's' and l == 'c' and i.op == 'shl' and x[1] == y:
        return ('m', x[0])
    return None


def explore(f, hit, limit=4000):
    """every path (unknown comparisons go both ways; the n-th signature check answers yes when n == hit): [(checked masks, returned value)]"""
    out = []
    work = [(f.blocks[0], None, {}, ())]
    n = 0
    while work:
        b, prev, env, seq = work.pop()
        n += 1
        if n > limit:
            return None
        env = dict(env)
        ph = {}
        for i in b.insts:
            if i.op == 'phi':
                for o, p in i.inc:
                    if p is prev:
                        ph[i] = val(o, env)
        env.update(ph)
        for i in b.insts:
            if i.op == 'phi':
                continue
            if i.op == 'call' and i.callee in SIG:
                seq = seq + (val(i.ops[0], env),)
                env[i] = ('c', 1 if len(seq) - 1 == hit else 0)
            elif i.op == 'select':
                c = val(i.ops[0], env)
                if c and c[0] == 'c':
                    env[i] = val(i.ops[1] if c[1] else i.ops[2], env)
                else:
                    x, y = val(i.ops[1], env), val(i.ops[2], env)
                    env[i] = x if x == y else None
            elif i.op == 'ret':
                out.append((seq, val(i.ops[0], env) if i.ops else None))
            elif i.op in ('br', 'switch'):
                c = val(i.ops[0], env) if len(b.succ) > 1 and i.ops else None
                if len(b.succ) == 2 and c and c[0] == 'c' and i.op == 'br':
                    work.append((b.succ[0] if c[1] else b.succ[1], b, env, seq))
                else:
                    for s in b.succ:
                        work.append((s, b, env, seq))
            elif i.op not in ('store', 'load', 'unreachable'):
                r = step(i, env)
                if r is not None:
                    env[i] = r
                else:
                    env.pop(i, None)
    return out


def run(r):
    r.rule('boundaries', 'the lookup examines every power-of-two boundary from the smallest to the largest block at or below the address, nearest first, when no live header is met', 0)
    r.rule('hit', 'the header returned is the boundary at which the live-object signature was just seen', 0)
    r.rule('outside', 'memory is examined only for an address seen to lie in the region (or in the area for temporary blocks)', 0)
    r.rule('miss', 'nothing is returned when no boundary carries a live header or the address is outside the region', 0)
    lo, hi = common.consts('block__align512', 'block__max')
    M = common.lib(cse=True)
    f = M.fns.get('SASFindHeader')
    if f is None:
        r.fail('SASFindHeader not found')
        return
    outside(r, f)
    want = []
    z = lo
    while z <= hi:
        want.append(('m', M64 & ~(z - 1)))
        z <<= 1
    res = explore(f, -1)
    if res is None:
        r.fail('SASFindHeader: too many paths')
        return
    seqs = [x for x in res if x[0]]
    if not seqs:
        r.bad('boundaries', 'SASFindHeader', 'no boundary is examined at all', f.name)
    for seq, ret in seqs:
        got = [m for n, m in enumerate(seq) if m not in seq[:n]]
        for w in want:
            r.check(w in got, 'boundaries', 'SASFindHeader: %#x' % (M64 + 1 - w[1]), 'a block that starts at a multiple of %#x is not found: no header is looked for at that boundary' % (M64 + 1 - w[1]), f.blocks[0].insts[0])
        for m in got:
            if m is None:
                r.bad('boundaries', 'SASFindHeader: other', 'a header is looked for at a place that is no boundary below the address', f.blocks[0].insts[0])
        o = [m[1] for m in got if m and m[0] == 'm']
        r.check(o == sorted(o, reverse=True), 'boundaries', 'SASFindHeader: order', 'a farther boundary is examined before a nearer one', f.blocks[0].insts[0])
    for seq, ret in res:
        r.check(ret == ('c', 0), 'miss', 'SASFindHeader: %s' % ('outside' if not seq else 'no header'), 'something is returned although no live header was seen', f.blocks[0].insts[0])
    top = max([len(s) for s, _ in seqs], default=0)
    for k in range(top):
        for seq, ret in explore(f, k) or ():
            if len(seq) > k:
                r.check(ret is not None and ret == seq[k], 'hit', 'SASFindHeader: %s' % (hex(M64 + 1 - seq[k][1]) if seq[k] and seq[k][0] == 'm' and seq[k][1] else k),
                        'the header returned is not the one whose signature matched', f.blocks[0].insts[0])


def outside(r, f):
    tlo, thi = common.consts('__SAS_TEMP_ADDRESS', '__SAS_TEMP_FREE')
    seen = set()

    def glob(x):
        g = single(x[1]) if x[0] == 'ld' and isinstance(x[1], tuple) else None
        return g[1] if g is not None and g[0] == 'g' else None

    def bounds(F, A):
        lo, hi = [], []
        if ge0(F, sub(A, con(tlo))):
            lo.append('temp')
        if ge0(F, sub(con(thi - 1), A)):
            hi.append('temp')
        for x in F:
            if x[0] != 'ge':
                continue
            for w, l in ((lo, sub(A, x[1])), (hi, sub(plusc(addl(x[1], A), 1), con(0)))):
                # x = A - L - c  or  H - A - 1 - c with c >= 0
                for a, k in l[1]:
                    n = glob(a)
                    if n == 'memLow' and w is lo and l[1] == frozenset({(a, 1)}) and l[0] >= 0:
                        w.append('region')
                    if n == 'memHigh' and w is hi and l[1] == frozenset({(a, 1)}) and l[0] <= 0:
                        w.append('region')
        return lo, hi

    def step(sym, i, st, env):
        if i.op == 'call' and i.callee in SIG:
            A = atom(('arg', 0))
            lo, hi = bounds(st.facts, A)
            seen.add((i, bool(set(lo) & set(hi)) or 'both' in st.user))
        return st.user

    def edge(b, su, st, env):
        """address - start < end - start says both at once (unsigned)"""
        t = b.insts[-1]
        c = t.ops[0] if t.op == 'br' and len(b.succ) == 2 and t.ops else None
        if c is None or c.k != 'inst' or c.op != 'icmp' or c.pred not in ('ult', 'uge', 'ugt', 'ule'):
            return st
        x, y = c.ops[0], c.ops[1]
        if c.pred in ('ugt', 'ule'):
            x, y = y, x
        if (su is b.succ[0]) != (c.pred in ('ult', 'ugt')):
            return st
        name = lambda v: v.op == 'load' and v.ops[0].k == 'global' and v.ops[0].name
        if not all(v.k == 'inst' and v.op == 'sub' for v in (x, y)) and not (x.k == 'inst' and x.op == 'sub' and y.k == 'const'):
            return st
        A = x.ops[0]
        while A.k == 'inst' and A.op in ('ptrtoint', 'bitcast', 'inttoptr'):
            A = A.ops[0]
        if A.k != 'arg':
            return st
        z = x.ops[1]
        if y.k == 'inst':
            if all(v.k == 'inst' for v in (z, y.ops[0], y.ops[1])) and name(z) == name(y.ops[1]) == 'memLow' and name(y.ops[0]) == 'memHigh':
                return st._replace(user=st.user | {'both'})
        elif z.k == 'const' and z.c == tlo and y.c <= thi - tlo:
            return st._replace(user=st.user | {'both'})
        return st
    Sym(f, step=step, want=lambda s, x: x[0] == 'ge', user=frozenset(), edge=edge)
    for i, ok in sorted(seen, key=lambda x: (x[0].id, x[1])):
        r.check(ok, 'outside', f.name, '%s examines memory for an address not seen to lie in the region' % f.name, i)
