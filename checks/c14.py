"""C14: entry field accessors stay inside the entry."""
from sa import common
from sa.sym import Sym, sub, addl, atom, con, ge0, eq0, ne0, single, plusc, scale, walk, bit_known, ZERO
from sa.flow import fieldof, fieldpath, TooBig, strip, CASTS
from checks.c09 import bitno

LEVEL = 'other'
TECHNIQUE = 'static analysis: symbolic dataflow (linear forms of the handle fields) over every accessor of the interface headers on LLVM IR'
EXPLANATION = ('Every inline accessor that reads the position of an entry handle is analysed on every feasible path: the bytes it touches or hands out must lie between the handle\'s next free byte and '
               'the end of the remaining space by the comparisons made on that path, position and remaining space must move together by exactly the field, and a path that refuses must have seen '
               'that the field does not fit and must change nothing. Optional header fields are read only under the marks that say they exist.')
COPY = ('strcpy', 'memcpy', 'llvm.memcpy.p0.p0.i64', '__memcpy_chk', '__strcpy_chk', 'memmove', 'llvm.memmove.p0.p0.i64')
HND = ('SPHLFEntryHandle_t', 'SPHLFLoggerHandle_t')
HDRS = ('SPHLFEntryHeader_t', 'SPHLFLogHeader_t')


def variants(F, L):
    """forms equal to L by the equalities of the path"""
    out = [L]
    for f in F:
        if f[0] == 'eq':
            out += [addl(L, f[1]), sub(L, f[1])]
    return out


def known(F, L):
    return any(ge0(F, x) for x in variants(F, L))


def same(F, a, b):
    return any(x == ZERO for x in variants(F, sub(a, b)))


def mask_of(x):
    """A when x is the form of -A (a mask that clears the low bits), as a form"""
    if not x[1] and x[0] < 0 and (-x[0]) & (-x[0] - 1) == 0:
        return con(-x[0])
    a = single(x)
    if a is not None and a[0] == 'op' and a[1] == 'xor':
        for y in a[2]:
            if y == con(-1):
                z = [q for q in a[2] if q != y]
                if z:
                    return plusc(z[0], 1)
    if not x[0] and len(x[1]) == 1:
        (b, c), = x[1]
        if c == -1:
            return atom(b)
    return None


def align_up(P, nxt):
    """the alignment A when P is nxt rounded up to A"""
    d = sub(P, nxt)
    if d == ZERO:
        return con(1)
    for a, c in P[1]:
        if c == 1 and a[0] == 'op' and a[1] == 'and' and sub(P, atom(a)) == ZERO:
            fs = list(a[2])
            for i in range(len(fs)):
                A = mask_of(fs[i])
                if A is not None:
                    o = fs[1 - i] if len(fs) == 2 else fs[0]
                    if sub(o, nxt) == plusc(A, -1):
                        return A
    if len(d[1]) == 1 and d[0] == 0:
        (a, c), = d[1]
        if c == 1 and a[0] == 'op' and a[1] == 'and':
            for x in a[2]:
                if not x[1] and x[0] >= 0 and x[0] & (x[0] + 1) == 0:
                    if any(not addl(y, nxt)[1] and addl(y, nxt)[0] == 0 for y in a[2]):
                        return con(x[0] + 1)
    return None


def run(r):
    r.rule('inside', 'an access at the position of a handle, or a pointer handed out for it, is made only after seeing that padding and field fit in the remaining space', 30)
    r.rule('padding', 'the position is the next free byte rounded up to the alignment of the field; padding beyond the unit entries are made of is tested against the remaining space', 30)
    r.rule('together', 'position and remaining space are moved together by exactly padding and field', 30)
    r.rule('refuse', 'an accessor that refuses has seen that the field does not fit, changes nothing and returns its failure value', 30)
    r.rule('value', 'adding stores the given value, reading returns the value at the position, in the full width of the field', 20)
    r.rule('string', 'the length of a string is kept in full width and a string is looked for only inside the remaining space', 3)
    r.rule('marks', 'time stamp, process and thread are read only from an entry marked complete and time-stamped, category and subcategory only from a complete one', 8)
    UNIT = 2 * common.consts('sizeof(void*)')[0]
    M = common.lib(headers=True)
    N = ['detail.valid', 'detail.timestamped']
    BQ = common.bitmasks('sphLFEntry_t', 'idUnit', N)
    BL = common.bitmasks('sphLogEntry_t', 'idUnit', N)
    for n in sorted(M.fns):
        f = M.fns[n]
        H = None
        for i in f.insts():
            if i.op == 'load':
                g = fieldof(i.ops[0])
                if g and g[0] in HND and g[1] == 'next':
                    H = g[0]
        if H and f.args:
            accessor(r, M, f, n, H, UNIT)
        marks(r, M, f, n, BQ, BL)


def accessor(r, M, f, n, H, UNIT):
    off = {}
    for i in f.insts():
        if i.op in ('load', 'store'):
            g = fieldof(i.ops[0] if i.op == 'load' else i.ops[1])
            if g and g[0] == H:
                off[g[1]] = i.ops[0] if i.op == 'load' else i.ops[1]
    if 'remaining' not in off:
        return          # hands out the position only

    def step(sym, i, st, env):
        if i.op == 'store':
            g = fieldof(i.ops[1])
            A = sym.lin(i.ops[1], env, st)
            return st.user | {('st', g[1] if g and g[0] == H else None, A, sym.lin(i.ops[0], env, st), i.ops[0].w // 8, i)}
        if i.op == 'load':
            A = sym.lin(i.ops[0], env, st)
            g = fieldof(i.ops[0])
            if not (g and g[0] == H) and A[1] != frozenset(((('arg', 0), 1),)):
                return st.user | {('ld', None, A, sym.lin(i, env, st), i.w // 8, i)}
        if i.op == 'call' and i.callee and not i.callee.startswith('llvm.dbg'):
            a = tuple(sym.lin(o, env, st) for o in i.ops if o.k not in ('func',))
            return st.user | {('call', i.callee, a, ('call', i.id), 0, i)}
        return st.user
    try:
        sym = Sym(f, stable=lambda g: g[0] == H, want=lambda s, x: x[0] in ('ge', 'eq', 'ne'), step=step, user=frozenset())
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    fl = {}
    for t, st, env in sym.exits:
        for k in ('next', 'remaining'):
            if k in off:
                A = sym.lin(off[k], env, st)
                fl[k] = atom(('ld', A, 0))
    nxt, rem = fl['next'], fl['remaining']
    used = []          # what the successful paths use: (pad, width)
    fails = []
    for t, st, env in sym.exits:
        F = st.facts
        rv = sym.lin(t.ops[0], env, st) if t.ops else ZERO
        hs = {e[1]: e for e in st.user if e[0] == 'st' and e[1]}
        sts = [e for e in st.user if e[0] == 'st' and not e[1]]
        lds = [e for e in st.user if e[0] == 'ld' and sub(e[2], nxt)[1] != e[2][1]]
        lds = [e for e in lds if any(nx in e[2][1] or any(('ld',) == x[:1] and atom(x) == nxt for x in walk(e[2])) for nx in nxt[1])]
        calls = [e for e in st.user if e[0] == 'call']
        if not hs and not sts:
            fails.append((t, st, env, rv, calls, lds))
            continue
        for k in ('next', 'remaining'):
            if k not in hs:
                r.bad('together', n, '%s does not move %s' % (n, 'the position' if k == 'next' else 'the remaining space'), t)
        if len(hs) < 2 or any(k not in hs for k in ('next', 'remaining')):
            continue
        N2, R2 = hs['next'][3], hs['remaining'][3]
        r.check(same(F, addl(N2, R2), addl(nxt, rem)), 'together', n, '%s moves position and remaining space by different amounts' % n, hs['remaining'][5])
        # ---- where is the field and how wide
        P = w = None
        byname = {e[1]: e for e in calls}
        acc = [e for e in sts + lds if not any(x[0] == 'call' for x in walk(e[2]))]
        cp = next((e for e in calls if e[1] in COPY + ('strncpy', 'stpcpy')), None)
        sl = next((e for e in calls if e[1] in ('strlen', 'strnlen')), None)
        mc = next((e for e in calls if e[1] in ('memchr',)), None)
        ofpos = lambda L: any(atom(x) == nxt for x in walk(L))
        if cp is not None and not ofpos(cp[2][0]) and ofpos(cp[2][1]):
            P, w = cp[2][1], cp[2][2]          # read by copying out
        elif cp is not None:
            P = cp[2][0]
            if cp[1] in ('strcpy', 'stpcpy'):
                w = next((plusc(atom(e[3]), 1) for e in calls if e[1] == 'strlen' and e[2][0] == cp[2][1]), None)
            else:
                w = cp[2][2]
            r.check(w is not None, 'string', n, '%s copies a string whose length it has not taken' % n, cp[5])
            if w is None:
                continue
            r.check(cp[2][1] == atom(('arg', 1)) or not w[1], 'value', n, '%s does not copy the given string' % n, cp[5])
        elif mc is not None and sl is None:
            P = mc[2][0]
            r.check(sub(mc[2][2], rem) == ZERO or known(F, sub(rem, mc[2][2])), 'string', n, '%s looks for the end of a string outside the remaining space' % n, mc[5])
            r.check(ne0(F, atom(mc[3])), 'string', n + ': found', '%s takes a string whose end it has not found' % n, mc[5])
            w = plusc(sub(atom(mc[3]), P), 1)
        elif sl is not None:
            P = sl[2][0]
            ok = sl[1] == 'strnlen' and (sub(sl[2][1], rem) == ZERO or known(F, sub(rem, sl[2][1])))
            r.check(ok, 'string', n, '%s looks for the end of a string outside the remaining space' % n, sl[5])
            w = plusc(atom(sl[3]), 1)
        elif acc:
            P = acc[0][2]
            w = con(acc[0][4])
            for e in acc:
                r.check(e[2] == P and e[4] == w[0], 'inside', n + ': one field', '%s touches more than one place' % n, e[5])
        else:
            P = rv
            w = atom(('arg', 1))
        A = align_up(P, nxt)
        pad = sub(P, nxt)
        odd = len(pad[1]) == 1 and next(iter(pad[1]))[0][:2] == ('op', 'urem')
        if A is None and not odd:
            r.bad('padding', n, '%s uses a position that is not the next free byte rounded up' % n, t)
            continue
        if A is not None and not A[1]:
            r.check(A[0] <= UNIT and (not acc or A[0] >= min(w[0], UNIT) or A[0] == 1 and w[0] == 1), 'padding', n, '%s does not align its field' % n, t)
        elif A is not None:
            r.check(A == atom(('arg', 2)), 'padding', n, '%s does not align to the given alignment' % n, t)
            r.check(known(F, sub(rem, pad)) or known(F, sub(rem, w)), 'padding', n + ': large', '%s does not test the padding against the remaining space' % n, t)
        left = sub(sub(rem, pad), w)
        if mc is None or sl is not None:
            r.check(known(F, left), 'inside', n, '%s touches or hands out bytes without having seen that they are inside the entry' % n, t)
        r.check(same(F, R2, left), 'together', n + ': amount', '%s does not move by exactly the field' % n, hs['remaining'][5])
        used.append((pad, w, mc))
        # ---- values
        if sts:
            r.check(sts[0][3] == atom(('arg', 1)) and argw(f, 1) == sts[0][4], 'value', n, '%s does not store the given value in full' % n, sts[0][5])
            r.check(rv == ZERO, 'value', n + ': result', '%s reports failure after adding the field' % n, t)
        elif cp is not None:
            r.check(not ofpos(cp[2][0]) or rv == ZERO, 'value', n + ': result', '%s reports failure after adding the field' % n, t)
        elif acc:
            r.check(rv == acc[0][3], 'value', n, '%s does not return the value it read' % n, t)
        else:
            r.check(rv == P, 'value', n, '%s does not return the position of the field' % n, t)
    # narrow lengths
    for i in f.insts():
        if i.op == 'trunc':
            o = i.ops[0]
            x = o
            for _ in range(4):
                if x.k == 'inst' and x.op in ('add', 'sub') and x.ops:
                    x = x.ops[0]
            if x.k == 'inst' and x.op == 'call' and x.callee in ('strlen',):
                # narrowing the stored remaining space after the test is fine: it is bounded then
                st_only = all(u.op == 'store' for u in users(f, i))
                r.check(st_only, 'string', n + ': width', '%s narrows the length of a string' % n, i)
    add = any(e[0] == 'st' and not e[1] or e[0] == 'call' and e[1] in COPY and any(atom(x) == nxt for x in walk(e[2][0])) for _, st, _ in sym.exits for e in st.user)
    for t, st, env, rv, calls, lds in fails:
        F = st.facts
        r.check(not any(e[1] in COPY for e in calls) and not lds, 'refuse', n, '%s touches the entry although it refuses' % n, t)
        r.check((rv != ZERO) if add else (rv == ZERO), 'refuse', n + ': result', '%s reports success without a field' % n, t)
        why = False
        for pad, w, mc in used:
            nofit = plusc(scale(sub(sub(rem, pad), w), -1), -1)
            why |= known(F, nofit) or known(F, plusc(sub(pad, rem), -1)) or known(F, plusc(sub(w, rem), -1))
            if mc is not None:
                why |= eq0(F, atom(mc[3]))
        r.check(why or not used, 'refuse', n + ': reason', '%s refuses a field it has not seen not to fit' % n, t)


def argw(f, k):
    return f.args[k].w // 8 if len(f.args) > k else 0


def users(f, v):
    return [i for i in f.insts() if any(o is v for o in i.ops)]


def marks(r, M, f, n, BQ, BL):
    need = {}
    for i in f.insts():
        if i.op == 'load':
            for g in fieldpath(i.ops[0]):
                if g[0] in HDRS and g[1] in ('timeStamp', 'PID', 'TID'):
                    need[i.id] = (g[0], i)
    if need:
        def step(sym, i, st, env):
            if i.op == 'load':
                if i.id in need:
                    return st.user | {(i.id, st.facts)}
            return st.user
        H = next(iter(need.values()))[0]
        sym = Sym(f, want=lambda s, x: x[0] == 'b', step=step, user=frozenset())
        B = BQ if H == 'SPHLFEntryHeader_t' else BL
        b = [bitno(B[k]) for k in ('valid', 'timestamped')]
        for t, st, env in sym.exits:
            for e in st.user:
                i = need[e[0]][1]
                base = sym.lin(i.ops[0], env, st)
                ok = all(any(x[0] == 'b' and x[2] == k and x[3] == 1 for x in e[1]) for k in b)
                r.check(ok, 'marks', n, '%s reads %s of an entry it has not seen to be complete and time-stamped' % (n, fieldof(i.ops[0])), i)
    elif ('Category' in n or 'Subcat' in n) and 'Direct' not in n and n.startswith('SPHLF'):
        B = BQ if 'Log' not in n and 'log' not in n else BL
        sym = Sym(f, want=lambda s, x: x[0] == 'b')
        for t, st, env in sym.exits:
            rv = sym.lin(t.ops[0], env, st)
            ok = any(x[0] == 'b' and x[2] == bitno(B['valid']) and x[3] == 1 for x in st.facts)
            r.check(ok or rv == con(-1) or rv[0] in (0xffffffff,) and not rv[1], 'marks', n, '%s reports a category of an entry that is not complete' % n, t)
