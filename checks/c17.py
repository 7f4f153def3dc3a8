"""C17: queue and log areas lie inside their block and keep their shape."""
import re
from sa import common
from sa.sym import Sym, sub, addl, atom, con, ge0, ne0, eq0, single, plusc, walk, scale, ZERO
from sa.flow import fieldof, fieldpath, TooBig, strip, CASTS

LEVEL = 'other'
TECHNIQUE = 'static analysis: symbolic dataflow (linear forms with quotient bounds) over the initialisation of every queue and log on LLVM IR'
EXPLANATION = ('The bounds and the stride every queue and log initialisation stores are evaluated as linear forms of the buffer address and size on every feasible path and '
               'compared with the buffer: the area starts behind the header, ends inside the buffer, holds whole entries; nothing else changes the bounds; creation passes the size it allocated.')
QS = {'SPHPCQueueHeader': ('startq', 'endq'), 'SPHMPMCQHeader': ('startq', 'endq'), 'SASLFLoggerHeader': ('start_log_buf', 'end_log_buf')}


def upper(L):
    """replace (x / s) * s by x where it adds: an upper bound of L; None when it occurs negatively"""
    r = (L[0], frozenset())
    for a, c in L[1]:
        x = whole(a)
        if x is not None:
            if c < 0:
                return None
            r = addl(r, x[0], c)
        else:
            r = addl(r, atom(a), c)
    return r


def whole(a):
    """(x, s) when the atom is (x / s) * s, or x - x % s cannot be seen here"""
    if a[0] == 'op' and a[1] == 'mul' and len(a) == 3:
        fs = list(a[2])
        if len(fs) == 2:
            for q, s in (fs, fs[::-1]):
                qa = single(q)
                if qa is not None and qa[0] == 'op' and qa[1] in ('udiv', 'sdiv') and len(qa) == 4 and qa[3] == s:
                    return qa[2], s
    return None


def aligned(L, n):
    if not L[1]:
        return L[0] % n == 0
    a = single(L)
    if a is not None and a[0] == 'op' and a[1] == 'and':
        for x in a[2]:
            if not x[1] and x[0] % n == 0:
                return True
    return all(c % n == 0 for _, c in L[1]) and L[0] % n == 0


def fieldatoms(sym, Q):
    for a, g in sym.fields.items():
        if isinstance(g, tuple) and g[0] == Q:
            yield ('ld', a, 0), g[1]


def clean(r, sym, f, n, t, st, env, S0, E0, stv, user):
    F = st.facts
    if eq0(F, stv) or ge0(F, sub(S0, E0)):
        return
    z = [e for e in user if e[0] is None and e[1] == ZERO and e[2] == S0]
    r.check(z, 'clean', n, '%s leaves entries of the queue as the block had them' % n, t)
    for e in z:
        p = strip(e[4].ops[1])
        while p.op in CASTS:
            p = strip(p.ops[0])
        if p.op != 'phi':
            continue
        for v in p.ops:
            v = strip(v)
            if v.op in ('add', 'gep') and strip(v.ops[0]) is p or v.op == 'add' and strip(v.ops[1]) is p:
                o = v.ops[1] if strip(v.ops[0]) is p else v.ops[0]
                L = sym.lin(o, env, st)
                r.check(L == stv, 'clean', n + ': step', '%s clears entries at another distance than the stride' % n, e[4])


def run(r):
    r.rule('start', 'the entry area starts behind the header of the block', 3)
    r.rule('end', 'the entry area ends at or before the end of the buffer, and a buffer too small for it is refused', 3)
    r.rule('whole', 'the area of a queue with a stride is a whole number of strides', 2)
    r.rule('aligned', 'the stored stride is a multiple of the allocation unit', 3)
    r.rule('first', 'a new queue or log starts with its indexes at the start of the area', 3)
    r.rule('refuse', 'an initialisation that returns null has stored nothing', 3)
    r.rule('fixed', 'nothing but initialisation stores the bounds, the stride or the alignment mask', 3)
    r.rule('given-size', 'creation initialises the block with the size it allocated', 3)
    r.rule('clean', 'initialisation and reset of a queue with a stride clear the header of every entry, stride by stride from the start to the end', 2)
    UNIT = 2 * common.consts('sizeof(void*)')[0]
    M = common.lib()
    inits = {}
    for n, f in M.fns.items():
        for i in f.insts():
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                p = i.ops[1] if i.op == 'store' else i.ops[0]
                for g in fieldpath(p):
                    if g[0] in QS and g[1] in QS[g[0]] + ('default_entry_stride', 'align_mask'):
                        inits.setdefault(n, set()).add(g[0])
                        r.check('Init' in n and i.op == 'store', 'fixed', n, '%s changes %s of a queue or log' % (n, g[1]), i)
    for n in sorted(inits):
        f = M.fns[n]
        Q = sorted(inits[n])[0]
        lo, hi = QS[Q]

        def step(sym, i, st, env):
            if i.op == 'store':
                g = next((x[1] for x in fieldpath(i.ops[1]) if x[0] == Q), None)
                A = sym.lin(i.ops[1], env, st)
                return st.user | {(g, sym.lin(i.ops[0], env, st), A, st.facts, i)}
            if i.op == 'call' and i.callee and i.callee.startswith('initSOMSASBlock'):
                return st.user | {('init', sym.lin(i.ops[2], env, st), sym.lin(i.ops[0], env, st), st.facts, i)}
            return st.user
        try:
            sym = Sym(f, stable=lambda g: g[0] == Q, want=lambda s, x: x[0] in ('ge', 'eq', 'ne'), step=step, user=frozenset())
        except TooBig:
            r.fail('%s: too many paths' % n)
            continue
        for t, st, env in sym.exits:
            rv = sym.lin(t.ops[0], env, st)
            d = {e[0]: e for e in st.user}
            if rv == ZERO:
                r.check(not st.user, 'refuse', n, '%s returns null after storing into the buffer' % n, t)
                continue
            if lo not in d or hi not in d or 'init' not in d:
                r.bad('start', n, '%s finishes without setting the bounds of the area' % n, t)
                continue
            base, size = d['init'][2], d['init'][1]
            F = st.facts
            S0, E0 = d[lo][1], d[hi][1]
            off = sub(S0, base)
            hs = max((x[0] for x in (sub(e[2], base) for e in st.user if e[0] is not None and e[0] != 'init') if not x[1]), default=0) + 8
            r.check(not off[1] and off[0] >= hs and off[0] % UNIT == 0, 'start', n, '%s puts the start of the area inside the header or unaligned' % n, d[lo][4])
            u = upper(sub(E0, base))
            pg = off[0]
            need = sub(size, con(pg))
            stv = d['default_entry_stride'][1] if 'default_entry_stride' in d else ZERO
            ok = u is not None and not sub(size, u)[1] and sub(size, u)[0] >= 0
            big = ge0(F, need) or any(ge0(F, sub(need, x)) for x in [stv] + [atom(y) for q in F for y in walk(q[1]) if y[0] in ('op', 'arg')])
            r.check(ok, 'end', n, '%s lets the area reach behind the end of the buffer' % n, d[hi][4])
            r.check(big, 'end', n + ': small buffer', '%s accepts a buffer it has not seen to hold the header and one entry' % n, t)
            r.check(aligned(stv, UNIT), 'aligned', n, '%s stores a stride that is not rounded to the allocation unit' % n, d.get('default_entry_stride', d[hi])[4])
            if Q != 'SASLFLoggerHeader':
                if eq0(F, stv):
                    r.ok('whole', n)
                else:
                    x = single(sub(E0, S0))
                    w = whole(x) if x is not None else None
                    r.check(w is not None and w[1] == stv, 'whole', n, '%s lets the area end inside an entry' % n, d[hi][4])
                clean(r, sym, f, n, t, st, env, S0, E0, stv, st.user)
            for k in ('qhead', 'qtail') if Q != 'SASLFLoggerHeader' else ('next_free',):
                r.check(k in d and d[k][1] == S0, 'first', n, '%s does not put %s at the start of the area' % (n, k), d[k][4] if k in d else t)
    # ------------------------------------------------ reset
    for n in sorted(M.fns):
        f = M.fns[n]
        Q = next((g[0] for i in f.insts() if i.op == 'store' for g in fieldpath(i.ops[1]) if g[0] in ('SPHPCQueueHeader', 'SPHMPMCQHeader') and g[1] == 'qhead'), None)
        if 'Reset' not in n or not Q:
            continue

        def step(sym, i, st, env):
            if i.op == 'store':
                g = next((x[1] for x in fieldpath(i.ops[1]) if x[0] == Q), None)
                return st.user | {(g, sym.lin(i.ops[0], env, st), sym.lin(i.ops[1], env, st), st.facts, i)}
            return st.user
        sym = Sym(f, stable=lambda g: g[0] == Q, want=lambda s, x: x[0] in ('ge', 'eq', 'ne'), step=step, user=frozenset())
        for t, st, env in sym.exits:
            if any(e[0] == 'qhead' for e in st.user):
                fl = {k: atom(a) for a, k in ((a, g) for a, g in fieldatoms(sym, Q))}
                if all(k in fl for k in ('startq', 'endq', 'default_entry_stride')):
                    clean(r, sym, f, n, t, st, env, fl['startq'], fl['endq'], fl['default_entry_stride'], st.user)
                else:
                    r.bad('clean', n, '%s does not clear the entries of the queue' % n, t)
    # ------------------------------------------------ creation
    pub = {n for n in M.fns if re.search(r'Init', n) and any(i.op == 'call' and i.callee in inits for i in M.fns[n].insts())} | set(inits)
    for n in sorted(M.fns):
        f = M.fns[n]
        cs = [i for i in f.insts() if i.op == 'call' and i.callee in pub]
        if not cs:
            continue

        def step(sym, i, st, env):
            if i.op == 'call' and i.callee == 'SASBlockAlloc':
                return st.user | {('alloc', i.id, sym.lin(i.ops[0], env, st))}
            if i.op == 'call' and i.callee in pub:
                a = M.fns[i.callee].args
                k = next((x.idx for x in a if x.w == 64 and x.idx > 0), None)
                if k is not None:
                    return st.user | {('init', sym.lin(i.ops[0], env, st), sym.lin(i.ops[k], env, st), i)}
            return st.user
        try:
            sym = Sym(f, step=step, want=lambda s, x: False, user=frozenset())
        except TooBig:
            continue
        for t, st, env in sym.exits:
            for e in st.user:
                if e[0] != 'init':
                    continue
                al = [x for x in st.user if x[0] == 'alloc' and atom(('call', x[1])) == e[1]]
                if al:
                    d = sub(al[0][2], e[2])
                    r.check(not d[1] and d[0] >= 0, 'given-size', n, '%s initialises a block with more than the size it allocated' % n, e[3])
                elif single(e[1]) and single(e[1])[0] == 'arg' and n in pub:
                    r.check(single(e[2]) is not None and single(e[2])[0] == 'arg', 'given-size', n, '%s does not pass on the size of the buffer' % n, e[3])

