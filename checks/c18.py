"""C18: addresses, offsets and sizes of the region keep their full width."""
from sa import common
from sa.sym import Sym, sub, con, ge0
import re
from sa.flow import TooBig, fieldof, key, strip

LEVEL = 'other'
TECHNIQUE = 'static analysis: narrowing-conversion analysis (taint from addresses, region offsets and sizes; value-range discharge) over every integer operation of the library on LLVM IR'
EXPLANATION = ('Every integer narrowing, every bit-field insertion and every 32-bit shift or product that is widened again is located in the library; where the narrowed value comes from an address, '
               'an offset, a size or a pointer-sized field, its range (constants, masks, shifts and the comparisons on the path) must fit the narrower width.')


def ub(v, d=0, seen=()):
    """unsigned upper bound from constants, masks and shifts; None when unknown"""
    if v.k == 'const':
        return v.u if v.u is not None else v.c if v.c >= 0 else None
    if v.k == 'null':
        return 0
    if v.k != 'inst' or d > 14 or v in seen:
        return None
    s2 = seen + (v,)
    U = lambda x: ub(x, d + 1, s2)
    top = (1 << v.w) - 1 if v.w else None
    op = v.op
    r = None
    if op == 'and':
        a = [x for x in map(U, v.ops) if x is not None]
        r = min(a) if a else None
    elif op == 'lshr' and v.ops[1].k == 'const':
        a = U(v.ops[0])
        r = (top if a is None else a) >> v.ops[1].c
    elif op == 'udiv' and v.ops[1].k == 'const' and v.ops[1].c > 0:
        a = U(v.ops[0])
        r = (top if a is None else a) // v.ops[1].c
    elif op == 'urem' and v.ops[1].k == 'const':
        r = v.ops[1].c - 1
    elif op in ('zext', 'sext', 'freeze'):
        a = U(v.ops[0])
        if op == 'zext':
            r = a if a is not None else (1 << v.ops[0].w) - 1
        else:
            r = a if a is not None and (op == 'freeze' or a < 1 << (v.ops[0].w - 1)) else None
    elif op in ('phi', 'select'):
        a = [U(x) for x in (v.ops[1:] if op == 'select' else v.ops) if x is not v]
        r = None if None in a or not a else max(a)
    elif op in ('add', 'mul', 'or', 'xor'):
        a = [U(x) for x in v.ops]
        if None not in a:
            r = a[0] * a[1] if op == 'mul' else a[0] + a[1]
    elif op == 'shl' and v.ops[1].k == 'const':
        a = U(v.ops[0])
        r = None if a is None else a << v.ops[1].c
    elif op == 'trunc':
        a = U(v.ops[0])
        r = a if a is not None and a <= top else top
    elif op == 'load' and v.w and v.w < 64:
        r = top
    elif op == 'icmp':
        r = 1
    if r is not None and top is not None and r > top:
        return None
    return r


def quantity(M, v, w=32, d=0, seen=None):
    """where a region quantity enters v: the source, or None"""
    seen = set() if seen is None else seen
    if v in seen or d > 20:
        return None
    seen.add(v)
    if v.k == 'arg':
        return 'parameter %d' % v.idx if v.w == 64 or not v.w else None
    if v.k == 'global':
        return v.name
    if v.k == 'cexpr':
        return 'address of ' + str(v)
    if v.k != 'inst':
        return None
    if v.op == 'ptrtoint':
        return 'an address'
    if v.op == 'load':
        fl = fieldof(v.ops[0])
        if fl and re.search('count|Count|cnt', str(fl[1])):
            return None
        return 'a %d-bit field' % v.w if v.w == 64 else None
    if v.op == 'call':
        if v.callee in M.fns and 'Count' not in v.callee:      # element counts are no offsets
            return 'the result of ' + v.callee
        return None
    if v.op in ('urem', 'srem') or v.op in ('udiv', 'sdiv') and w >= 32:
        return None                                   # a number of pieces, not an offset
    if w >= 32 and v.op in ('lshr', 'ashr') and (v.ops[1].k != 'const' or v.ops[1].c >= 12):
        return None                                   # shifting by a unit size is a division
    if v.op in ('shl', 'lshr', 'ashr'):
        return quantity(M, v.ops[0], w, d + 1, seen)     # the amount is a small number
    if v.op in ('trunc', 'zext', 'sext') and v.ops[0].w and v.ops[0].w <= 32:
        return None                                   # judged where it was narrowed
    for o in v.ops[1:] if v.op == 'select' else v.ops:
        t = quantity(M, o, w, d + 1, seen)
        if t:
            return t
    return None


def sinks(v, seen=None):
    """what a narrowed value is used for: amount (of a shift), result, mask:<bits> or value"""
    seen = set() if seen is None else seen
    out = set()
    if v in seen:
        return out
    seen.add(v)
    for u in v.users:
        if u.op in ('shl', 'lshr', 'ashr') and len(u.ops) > 1 and u.ops[1] is v and u.ops[0] is not v:
            out.add('amount')
        elif u.op == 'ret':
            out.add('result')
        elif u.op in ('phi', 'select'):
            out |= sinks(u, seen)
        elif u.op in ('zext', 'sext', 'trunc') and (sinks(u, set(seen)) or {'x'}) <= {'amount'}:
            out.add('amount')
        elif u.op == 'and' and any(o.k == 'const' and 0 <= o.c < (1 << (v.w - 1)) for o in u.ops):
            out.add('bits')
        else:
            out.add('value')
    return out


def widened(v, d=0, seen=None):
    seen = set() if seen is None else seen
    if v in seen or d > 8:
        return None
    seen.add(v)
    for u in v.users:
        if u.op in ('zext', 'sext') and u.w == 64:
            return u
        if u.op in ('add', 'sub', 'phi', 'select', 'or', 'and', 'mul', 'shl', 'xor'):
            r = widened(u, d + 1, seen)
            if r is not None:
                return r
    return None


def proven(f, i):
    """the value narrowed by i fits by the comparisons made on every path to it"""
    seen = []

    def want(sym, fact):
        return fact[0] in ('ge', 'eq')

    def step(sym, x, S, env):
        if x is i:
            L = sym.lin(i.ops[0], env, S)
            m = (1 << i.w) - 1
            seen.append(ge0(S.facts, sub(con(m), L)))
        return S.user
    try:
        Sym(f, stable=lambda fl: True, want=want, step=step)
    except TooBig:
        return False
    return bool(seen) and all(seen)


def entry_length(i):
    """the value only becomes a 16-bit length in the handle of a queue or log entry (bounds decided by C12 and C14)"""
    return all(u.op == 'store' and u.ops[0] is i and re.search('Handle', str((fieldof(u.ops[1]) or ('',))[0])) for u in i.users) and bool(i.users)


def where(v):
    """short stable description of a value"""
    return re.sub(r"\b\d{3,}\b", '#', str(key(v)))[:90]


def run(r):
    r.rule('narrowing', 'a 64-bit value that comes from an address, offset or size is converted to a narrower integer only when it provably fits (or only its low bits, or its use as a shift amount, matter)', 1)
    r.rule('packing', 'an offset packed into a bit field keeps every bit a region offset can have', 0)
    r.rule('32-bit', 'a shift by a variable amount or a product is computed at full width when it takes part in address or size arithmetic', 0)
    RS, = common.consts('RegionSize')
    M = common.lib(cse=True)
    nb = (RS - 1).bit_length()
    for n in sorted(M.fns):
        f = M.fns[n]
        if f.file.split('/')[-1] in ('sphtimer.c', 'sphgettime.c', 'sphgtod.c', 'sphthread.c'):
            continue
        for i in f.insts():
            src = i.ops[0] if i.ops else None
            if i.op == 'trunc' and i.w in (8, 16, 32) and src.w == 64:
                q = quantity(M, src, i.w)
                if q is None:
                    continue
                b = ub(src)
                k = sinks(i)
                good = b is not None and b < 1 << i.w or k <= {'amount', 'bits'} or (k <= {'result', 'amount', 'bits'} and f.file == i.file)
                good = good or entry_length(i) or proven(f, i)
                r.check(good, 'narrowing', '%s: %s' % (n, where(src)),
                        'a value that comes from %s is cut to %d bits in %s' % (q, i.w, n), i)
            elif i.op == 'and' and i.w == 64:
                c = [o for o in i.ops if o.k == 'const']
                o = [o for o in i.ops if o.k != 'const']
                if len(c) == 1 and len(o) == 1:
                    m = c[0].u if c[0].u is not None else c[0].c & ((1 << 64) - 1)
                    if m & (m + 1) == 0 and 28 < m.bit_length() < 64:
                        x, sh = o[0], 0
                        while x.k == 'inst' and x.op == 'lshr' and x.ops[1].k == 'const':
                            sh += x.ops[1].c
                            x = x.ops[0]
                        if quantity(M, x):
                            r.check(m.bit_length() + sh >= nb, 'packing', '%s: %s' % (n, where(x)),
                                    'only %d bits of a value shifted by %d are kept in %s: region offsets have %d' % (m.bit_length(), sh, n, nb), i)
            elif i.op in ('shl', 'mul') and i.w in (16, 32):
                if i.op == 'shl' and i.ops[1].k == 'const':
                    continue
                if i.op == 'mul' and any(o.k == 'const' for o in i.ops):
                    continue
                w = widened(i)
                if w is None:
                    continue
                b = ub(i)
                r.check(b is not None and b < 1 << 31, '32-bit', '%s: %s' % (n, i.op),
                        'a 32-bit %s in %s is widened to 64 bits afterwards: it loses the bits above 31' % ('shift' if i.op == 'shl' else 'product', n), i)
    r.assume.append('an object that indexes pieces (divides an offset by a piece size) has fewer than 2^31 pieces; counts of elements, name lengths and clock values are not region quantities')

