"""C15: a log portal never reads or fills past its list of loggers."""
import re
from sa import common
from sa.sym import Sym, sub, addl, atom, con, ge0, eq0, ne0, single, plusc, scale, walk, ZERO
from sa.flow import fieldof, fieldpath, TooBig, strip, CASTS
from checks.c17 import upper
from checks.c14 import known

LEVEL = 'other'
TECHNIQUE = 'static analysis: symbolic dataflow over every list access and every change of a portal position on LLVM IR'
EXPLANATION = ('Every access to the logger list of a portal is resolved to its position and compared with the count of loggers (or the list size, for a free slot) by the tests made on that path; '
               'the count moves only by a compare-and-swap after the counted slot was filled, the current position only from a full logger to one that exists.')
Q = 'SASLogPortalHeader'
POS = ('next_free', 'current_logger')
SHAPE = ('list_size', 'log_buff_list')


def target(i):
    return i.ops[1] if i.op == 'store' else i.ops[0]


def run(r):
    r.rule('area', 'the list lies behind the header and inside the block, its size fits the field that holds it, all its slots start free', 1)
    r.rule('refuse', 'initialisation refuses a missing buffer and one too small for a slot, before storing anything; creation passes the size it allocated', 2)
    r.rule('index', 'a list access uses a position below the count of loggers, or below the list size when it fills a slot', 6)
    r.rule('atomic', 'count, current position and slots change only by compare-and-swap, size and place of the list not at all, except by initialisation', 6)
    r.rule('count', 'the count grows by one, from a value below the list size, after the slot of that position was filled or seen filled', 1)
    r.rule('added', 'adding returns the logger exactly when its own compare-and-swap filled a slot, otherwise null and nothing of it is stored', 1)
    r.rule('advance', 'the current position moves one forward, only when its logger was seen full and the next position is below the count', 1)
    r.rule('uses', 'an allocation from a portal comes from the logger at the current position, or from the next one after moving there', 3)
    r.rule('report', 'the number of loggers and the capacity are reported as they are', 2)
    PTR, = common.consts('sizeof(void*)')
    M = common.lib(headers=True)
    fns = {}
    for n, f in M.fns.items():
        for i in f.insts():
            if i.op in ('load', 'store', 'cmpxchg', 'atomicrmw'):
                for g in fieldpath(target(i)):
                    if g[0] == Q:
                        fns.setdefault(n, set()).add((i.op, g[1]))
    inits = {n for n, s in fns.items() if ('store', 'log_buff_list') in s and 'Init' in n}
    for n, s in sorted(fns.items()):
        f = M.fns[n]
        for i in f.insts():
            if i.op in ('store', 'cmpxchg', 'atomicrmw'):
                g = fieldof(target(i))
                if g and g[0] == Q and g[1] in POS + SHAPE:
                    ok = n in inits or i.op == 'cmpxchg' and g[1] in POS
                    r.check(ok, 'atomic', n + ': ' + g[1], '%s changes %s of a portal other than by compare-and-swap' % (n, g[1]), i)
    for n in sorted(inits):
        init(r, M, M.fns[n], n, PTR)
    for n in sorted(fns):
        if n not in inits:
            index(r, M, M.fns[n], n, PTR)
            changes(r, M, M.fns[n], n, PTR)
    for n, fld in (('SPHLogPortalEntries', 'next_free'), ('SPHLogPortalCapacity', 'list_size')):
        if n in M.fns:
            report(r, M, M.fns[n], n, fld)
    # creation
    for n, f in sorted(M.fns.items()):
        if not any(i.op == 'call' and (i.callee in inits or i.callee == 'SPHLogPortalInit') for i in f.insts()):
            continue
        pub = inits | {'SPHLogPortalInit'}

        def step(sym, i, st, env):
            if i.op == 'call' and i.callee == 'SASBlockAlloc':
                return st.user | {('alloc', i.id, sym.lin(i.ops[0], env, st))}
            if i.op == 'call' and i.callee in pub:
                k = next((x.idx for x in M.fns[i.callee].args if x.w == 64 and x.idx > 0), None)
                return st.user | {('init', sym.lin(i.ops[0], env, st), sym.lin(i.ops[k], env, st), i)}
            return st.user
        sym = Sym(f, step=step, want=lambda s, x: False, user=frozenset())
        for t, st, env in sym.exits:
            for e in st.user:
                if e[0] == 'init':
                    al = [x for x in st.user if x[0] == 'alloc' and atom(('call', x[1])) == e[1]]
                    for a in al:
                        d = sub(a[2], e[2])
                        r.check(not d[1] and d[0] >= 0, 'refuse', n + ': size', '%s initialises a portal with more than the size it allocated' % n, e[3])


def init(r, M, f, n, PTR):
    def step(sym, i, st, env):
        if i.op == 'store':
            g = fieldof(i.ops[1])
            return st.user | {('st', g[1] if g and g[0] == Q else None, sym.lin(i.ops[1], env, st), sym.lin(i.ops[0], env, st), i)}
        if i.op == 'call' and i.callee and (i.callee.startswith('initSOMSASBlock') or 'memset' in i.callee):
            return st.user | {('init' if 'init' in i.callee else 'set', None, sym.lin(i.ops[0], env, st), tuple(sym.lin(o, env, st) for o in i.ops[1:3]), i)}
        return st.user
    sym = Sym(f, want=lambda s, x: x[0] in ('ge', 'eq', 'ne'), step=step, user=frozenset(), stable=lambda g: g[0] == Q)
    for t, st, env in sym.exits:
        rv = sym.lin(t.ops[0], env, st)
        F = st.facts
        if rv == ZERO:
            r.check(not st.user, 'refuse', n, '%s returns null after storing into the buffer' % n, t)
            continue
        d = {e[1]: e for e in st.user if e[0] == 'st' and e[1]}
        b = next((e for e in st.user if e[0] == 'init'), None)
        if b is None or any(k not in d for k in POS + SHAPE):
            r.bad('area', n, '%s finishes without setting up the list' % n, t)
            continue
        base, size = b[2], b[3][1]
        LB, LS = d['log_buff_list'][3], d['list_size'][3]
        off = sub(LB, base)
        hs = max(x[0] for x in (sub(e[2], base) for e in st.user if e[0] == 'st' and e[1]) if not x[1]) + 8
        r.check(not off[1] and off[0] >= hs and off[0] % PTR == 0, 'area', n + ': start', '%s puts the list inside the header' % n, d['log_buff_list'][4])
        r.check(ne0(F, base), 'refuse', n + ': missing', '%s initialises a missing buffer' % n, t)
        # list_size * PTR + off <= size, from LS = x / c with c >= PTR or LS below such a quotient
        ok = False
        cand = [LS] + [addl(LS, f[1]) for f in F if f[0] == 'ge'] + [sub(LS, f[1]) for f in F if f[0] == 'ge']
        for c in cand:
            a = single(plusc(c, -c[0])) if c[1] else None
            if a is not None and a[0] == 'op' and a[1] in ('udiv', 'lshr') and len(a) == 4 and not a[3][1]:
                k = a[3][0] if a[1] == 'udiv' else 1 << a[3][0]
                if k >= PTR and (c == LS or ge0(F, sub(atom(a), LS))) and sub(size, plusc(a[2], off[0]))[1] == frozenset() and sub(size, plusc(a[2], off[0]))[0] >= 0:
                    ok = True
        r.check(ok, 'area', n + ': end', '%s lets the list reach behind the end of the block' % n, d['list_size'][4])
        w = d['list_size'][4].ops[0].w
        r.check(w >= 64 or ge0(F, sub(con((1 << w) - 1), LS)), 'area', n + ': size field', '%s stores a list size that does not fit its field' % n, d['list_size'][4])
        r.check(any(ge0(F, sub(size, con(off[0] + PTR))) for _ in (1,)) or any(f[0] == 'ge' and sub(f[1], size)[1] == frozenset() and -sub(f[1], size)[0] >= off[0] + PTR for f in F),
                'refuse', n + ': small', '%s accepts a buffer too small for one logger' % n, t)
        z = [e for e in st.user if e[0] == 'set' and e[2] == LB and e[3][0] == ZERO and (e[3][1] == scale(LS, PTR) or ge0(F, sub(e[3][1], scale(LS, PTR))))]
        z += [e for e in st.user if e[0] == 'st' and e[1] is None and e[2] == LB and e[3] == ZERO]
        r.check(z or eq0(F, LS), 'area', n + ': free', '%s leaves the slots as the block had them' % n, t)
        for k in POS:
            r.check(d[k][3] == ZERO, 'area', n + ': ' + k, '%s does not start with an empty list' % n, d[k][4])


def index(r, M, f, n, PTR):
    acc = {}

    def step(sym, i, st, env):
        if i.op in ('load', 'store', 'cmpxchg', 'atomicrmw'):
            A = sym.lin(target(i), env, st)
            for a, c in A[1]:
                if c == 1 and a[0] == 'ld' and (sym.fields.get(a[1]) or ('', ''))[1] == 'log_buff_list':
                    d = sub(A, atom(a))
                    p = (d[0] // PTR, frozenset((x, k // PTR) for x, k in d[1])) if d[0] % PTR == 0 and all(k % PTR == 0 for _, k in d[1]) else None
                    return st.user | {(i.id, p, st.facts, i, frozenset(x for x in st.user if x[0] == 'filled'))} | ({('filled', p)} if i.op == 'cmpxchg' else frozenset())
        if i.op in ('store', 'cmpxchg'):
            g = fieldof(target(i))
            if g and g[1] == 'current' and 'terator' in g[0]:
                v = sym.lin(i.ops[0], env, st)
                return st.user | {('cur', v, st.facts, i, frozenset())}
        return st.user
    try:
        sym = Sym(f, stable=lambda g: g[0] == Q, want=lambda s, x: x[0] in ('ge', 'eq', 'ne'), step=step, user=frozenset())
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    NF = [atom(('ld', A, 0)) for A, g in sym.fields.items() if g == (Q, 'next_free')]
    LS = [atom(('ld', A, 0)) for A, g in sym.fields.items() if g == (Q, 'list_size')]
    seen = set()
    for t, st, env in sym.exits:
        for e in st.user:
            if e[0] == 'filled' or e in seen:
                continue
            seen.add(e)
            k, p, F, i, fl = e
            if p is None:
                r.bad('index', n, '%s accesses the list between two positions' % n, i)
                continue
            lim = LS if i.op == 'cmpxchg' else NF
            it = single(p)
            own = it is not None and it[0] == 'ld' and (sym.fields.get(it[1]) or ('', ''))[1] == 'current'
            if k == 'cur':
                r.check(p == ZERO or any(known(F, plusc(sub(x, p), -1)) for x in NF), 'index', n + ': iterator', '%s moves an iterator to a position not below the count' % n, i)
                continue
            ok = p == ZERO or own or any(known(F, plusc(sub(x, p), -1)) for x in lim)
            low = True
            if i.op == 'load' and not ok:
                # the position before one that is being filled
                q = plusc(p, 1)
                ok = any(x[1] == q for x in fl)
            if p[0] < 0:
                low = known(F, p) or ne0(F, plusc(p, -p[0])) and p[0] == -1
            r.check(ok, 'index', n, '%s accesses the list at a position it has not compared with the count' % n, i)
            r.check(low, 'index', n + ': low', '%s accesses the list below its start' % n, i)
            for a, c in p[1]:
                if a[0] == 'arg':
                    for j in f.insts():
                        if j.op == 'icmp' and j.pred[0] == 's' and any(strip(o) is f.args[a[1]] for o in j.ops) and not any(o.k == 'const' for o in j.ops):
                            r.check(known(F, p), 'index', n + ': sign', '%s compares a given position as signed without testing its sign' % n, j)


def changes(r, M, f, n, PTR):
    if not any(i.op == 'cmpxchg' for i in f.insts()) and not any(i.op == 'call' and re.match(r'SPHLFLogger\w*Alloc', i.callee or '') for i in f.insts()):
        return
    ext = {}
    for i in f.insts():
        if i.op == 'extractvalue':
            ext.setdefault(strip(i.ops[0]).id, []).append((i.id, i.w))

    def pos(sym, A):
        for a, c in A[1]:
            if c == 1 and a[0] == 'ld' and (sym.fields.get(a[1]) or ('', ''))[1] == 'log_buff_list':
                d = sub(A, atom(a))
                return (d[0] // PTR, frozenset((x, k // PTR) for x, k in d[1]))
        return None

    def step(sym, i, st, env):
        u = frozenset(x for x in st.user if x[1] != i.id)
        if i.op == 'cmpxchg':
            g = fieldof(i.ops[0])
            A = sym.lin(i.ops[0], env, st)
            k = g[1] if g and g[0] == Q else 'slot' if pos(sym, A) is not None else None
            if k:
                return u | {(k, i.id, pos(sym, A), sym.lin(i.ops[1], env, st), sym.lin(i.ops[2], env, st), st.facts, frozenset(x[:5] for x in u), i)}
        if i.op == 'store':
            return u | {('st', i.id, fieldof(i.ops[1]), sym.lin(i.ops[0], env, st), None, st.facts, frozenset(x[:5] for x in u), i)}
        if i.op == 'call' and i.callee and i.callee.startswith('SPHLFLogger'):
            return u | {(i.callee, i.id, sym.lin(i.ops[0], env, st), None, None, st.facts, frozenset(x[:5] for x in u), i)}
        return u if u != st.user else st.user
    try:
        sym = Sym(f, stable=lambda g: g[0] == Q and g[1] in SHAPE, want=lambda s, x: x[0] in ('ge', 'eq', 'ne'), step=step, user=frozenset())
    except TooBig:
        r.fail('%s: too many paths' % n)
        return

    def isld(L, name):
        a = single(L)
        return a is not None and a[0] == 'ld' and sym.fields.get(a[1]) == (Q, name)

    def won(F, e):
        """the flag of the compare-and-swap was seen set, or the value it found is the one it expected"""
        return any(eq0(F, plusc(atom(('i', x)), -1)) or ne0(F, atom(('i', x))) if w == 1 else eq0(F, sub(atom(('i', x)), e[3])) for x, w in ext.get(e[1], ()))
    NFA = [A for A, g in sym.fields.items() if g == (Q, 'next_free')]

    def below(F, L, fldname):
        for q in F:
            if q[0] == 'ge':
                d = addl(q[1], L)
                # fact: x - L - 1 - k >= 0
                a = single(plusc(d, -d[0]))
                if a is not None and a[0] == 'ld' and sym.fields.get(a[1]) == (Q, fldname) and d[0] <= -1:
                    return True
        return False

    def element(L):
        """the list position a logger value was read from"""
        a = single(L)
        return pos(sym, a[1]) if a is not None and a[0] == 'ld' else None
    adder = any(e[0] == 'slot' for _, st, _ in sym.exits for e in st.user)
    seen = set()
    for t, st, env in sym.exits:
        F = st.facts
        for e in st.user:
            if e[0] == 'next_free' and e not in seen:
                seen.add(e)
                r.check(e[4] == plusc(e[3], 1) and isld(e[3], 'next_free'), 'count', n, '%s does not count one logger more than it read' % n, e[7])
                r.check(below(e[5], e[3], 'list_size'), 'count', n + ': full', '%s counts a logger without having seen room for it' % n, e[7])
                sl = [x for x in e[6] if x[0] == 'slot' and x[2] == e[3]]
                r.check(sl, 'count', n + ': filled', '%s counts a logger before its slot is filled' % n, e[7])
            if e[0] == 'slot' and e not in seen:
                seen.add(e)
                r.check(e[3] == ZERO and single(e[4]) is not None and single(e[4])[0] == 'arg', 'count', n + ': slot', '%s fills a slot that was not free, or with something else than the given logger' % n, e[7])
                r.check(below(e[5], e[2], 'list_size'), 'count', n + ': room', '%s fills a slot without having seen room' % n, e[7])
            if e[0] == 'current_logger' and e not in seen:
                seen.add(e)
                r.check(e[4] == plusc(e[3], 1) and isld(e[3], 'current_logger'), 'advance', n, '%s does not move the current position one forward from what it read' % n, e[7])
                r.check(below(e[5], e[4], 'next_free'), 'advance', n + ': exists', '%s moves the current position to a logger it has not seen to exist' % n, e[7])
                full = [x for x in e[6] if x[0] == 'SPHLFLoggerFull' and element(x[2]) == e[3] and (ne0(e[5], atom(('call', x[1]))))]
                r.check(full, 'advance', n + ': full', '%s moves on from a logger it has not seen full' % n, e[7])
            if re.match(r'SPHLFLogger\w*Alloc', e[0]) and e not in seen:
                seen.add(e)
                p = element(e[2])
                moved = [x for x in e[6] if x[0] == 'current_logger' and x[4] == p]
                ok = p is not None and (isld(p, 'current_logger') or any(won(e[5], x) for x in moved))
                r.check(ok, 'uses', n, '%s allocates from a logger that is not current' % n, e[7])
        if adder:
            rv = sym.lin(t.ops[0], env, st)
            w = [e for e in st.user if e[0] == 'slot' and won(F, e)]
            if rv == ZERO:
                r.check(not w, 'added', n, '%s reports failure after adding the logger' % n, t)
                r.check(not any(e[0] == 'st' for e in st.user), 'added', n + ': clean', '%s changes something although it fails' % n, t)
            else:
                r.check(w and rv == w[0][4], 'added', n, '%s reports success without having added the logger' % n, t)


def report(r, M, f, n, fld):
    sym = Sym(f, stable=lambda g: g[0] == Q, want=lambda s, x: x[0] in ('ge', 'eq', 'ne'))
    good = 0
    for t, st, env in sym.exits:
        rv = sym.lin(t.ops[0], env, st)
        a = single(rv)
        if a is not None and a[0] == 'ld' and sym.fields.get(a[1]) == (Q, fld):
            good += 1
            continue
        # no report: wrong type, or an impossible count
        F = st.facts
        bad = any(x[0] == 'eq' and any(y[0] == 'call' for y in walk(x[1])) for x in F)
        more = any(x[0] == 'ge' and x[1][0] <= -1 for x in F)
        r.check(bad or more, 'report', n, '%s does not report the number of a valid portal' % n, t)
    r.check(good, 'report', n, '%s never reports the number' % n, f.blocks[0].insts[0] if f.blocks[0].insts else None)
