"""C12: log space is reserved atomically and lies inside the log."""
import re
from sa import common
from sa.sym import Sym, sub, addl, atom, con, ge0, ne0, eq0, single, bit_known, plusc, walk, scale, ZERO
from sa.flow import fieldof, fieldpath, TooBig
from checks.c09 import bitno

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive symbolic dataflow (linear forms of the free pointer, the reserved size and the log bounds per feasible path) on LLVM IR'
EXPLANATION = ('Every instruction that changes the free pointer of a log is found and classified; on every feasible path of an allocation the entry handed out must be '
               'the value the free pointer had at an atomic addition (or compare-and-swap) of the reserved size, the path must have seen that the whole reservation lies '
               'before the end of the log and is not larger than the log, and everything written must lie inside it. Wrapping and resetting set the free pointer to the start only.')
Q = 'SASLFLoggerHeader'
HDR = 'SPHLFLogHeader_t'


def fld(sym, name, S=Q):
    return [atom(('ld', A, 0)) for A, g in sym.fields.items() if g == (S, name)]


def isnf(i):
    p = i.ops[1] if i.op == 'store' else i.ops[0]
    return any(g == (Q, 'next_free') for g in fieldpath(p))


def round_up(sym, A, mask):
    """(x, c) when A is (x + c) rounded down to the alignment mask, with the mask's complement folded into c"""
    a = single(A)
    if a is None or a[0] != 'op' or a[1] != 'and' or len(a) != 3:
        return None
    ms = fld(sym, 'align_mask')
    for m in ms + [con(mask), con(mask & (1 << 64) - 1)]:
        if m in a[2]:
            rest = [x for x in a[2] if x != m]
            if len(rest) != 1:
                continue
            x = rest[0]
            c = x[0]; left = []
            for y, k in x[1]:
                if y[0] == 'op' and y[1] == 'xor' and any(mm in y[2] for mm in ms) and any(not z[1] and z[0] in (-1, (1 << 64) - 1) for z in y[2]):
                    c += k * ~mask
                else:
                    left.append((y, k))
            if len(left) == 1 and left[0][1] == 1:
                return left[0][0], c
    return None


def reservation(sym, e):
    how, a, b = e[1:4]
    if how == 'add':
        return a, b
    if how == 'cas' and a is not None:
        return a, sub(b, a)
    if how == 'set':
        old = next((y for y, c in b[1] if y[0] == 'ld' and c == 1 and sym.fields.get(y[1]) == (Q, 'next_free')), None)
        if old is not None:
            return atom(old), sub(b, atom(old))
    return None


def run(r):
    r.rule('atomic', 'the free pointer of a log is changed only by atomic instructions, except in the forms without lock, initialisation and the unsynchronised reset', 4)
    r.rule('restart', 'the free pointer is set to nothing but the start of the log, other than by a reservation', 2)
    r.rule('reserve', 'an entry is handed out only when it is the value the free pointer had when the reserved size was added to it', 5)
    r.rule('inside', 'an entry is handed out only after the whole reservation was seen to end at or before the end of the log', 5)
    r.rule('no-wrap', 'sizes too large for the log are refused before anything is added to the free pointer', 3)
    r.rule('size', 'the reserved size is the requested size plus the entry header rounded up to the alignment, or the stride of the log, which must not be 0', 5)
    r.rule('written', 'an allocation writes only the header of its own entry and the handle', 4)
    r.rule('null', 'an allocation that reserved nothing returns null, or what its own retry returned', 5)
    r.rule('wrap', 'the free pointer restarts inside an allocation only in a circular log, when this reservation crossed the end', 2)
    r.rule('sync-reset', 'the synchronised reset restarts the log only from the free pointer it tested', 1)
    r.rule('options', 'shared log options are changed by atomic instructions, except in the forms without lock, initialisation and the unsynchronised reset', 2)
    r.rule('keep-circular', 'no operation clears the option that makes a log circular', 1)
    CIRC, = common.consts('SPHLFLOGGER_CIRCULAR')
    CB = bitno(CIRC)
    M = common.lib(headers=True)
    HS, HANDLE = common.consts('sizeof(SPHLFLogHeader_t)', 'sizeof(SPHLFLoggerHandle_t)')
    mask = None
    for n, f in M.fns.items():
        for i in f.insts():
            if i.op == 'store' and any(g == (Q, 'align_mask') for g in fieldpath(i.ops[1])):
                v = i.ops[0].c
                if v is None or mask not in (None, v):
                    r.fail('%s: the alignment mask of a log is not one constant' % n)
                    return
                mask = v
    if mask is None:
        r.fail('no store to the alignment mask of a log found')
        return
    if mask >= 1 << 63:
        mask -= 1 << 64
    stable = lambda g: g[0] == Q and g[1] in ('start_log_buf', 'end_log_buf', 'align_mask', 'default_entry_stride')
    changers = {}
    for n, f in M.fns.items():
        for i in f.insts():
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                if isnf(i):
                    changers.setdefault(n, []).append(i)
                p = i.ops[1] if i.op == 'store' else i.ops[0]
                if any(g == (Q, 'options') for g in fieldpath(p)):
                    loose = re.search(r'NoLock$|Init|ResetAsync$', n)
                    r.check(i.op != 'store' or loose, 'options', n, '%s changes the options of a shared log without an atomic instruction' % n, i)
            if i.op == 'call' and i.callee and re.match(r'sas_fetch_and_and', i.callee) and any(g == (Q, 'options') for g in fieldpath(i.ops[0])):
                c = i.ops[1].c
                r.check(c is not None and c & CIRC, 'keep-circular', n, '%s clears the circular option of a log' % n, i)

    def want(sym, x):
        return x[0] == 'b' or any((sym.fields.get(y[1]) or ('',))[0] == Q for y in walk(x) if y[0] == 'ld') or any(y[0] == 'arg' for y in walk(x))
    allocs = {n for n in M.fns if re.match(r'SPHLFLogger(Alloc|.*Alloc)', n)}
    for n in sorted(set(changers) | allocs):
        f = M.fns[n]
        loose = re.search(r'NoLock$|Init|ResetAsync$', n)
        for i in changers.get(n, ()):
            r.check(i.op != 'store' or loose, 'atomic', n, '%s changes the free pointer of a log without an atomic instruction' % n, i)

        def step(sym, i, st, env):
            ev = st.user
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                p = i.ops[1] if i.op == 'store' else i.ops[0]
                if isnf(i):
                    if i.op == 'atomicrmw':
                        d = ('add', atom(('i', i.id)), sym.lin(i.ops[1], env, st)) if i.rmw == 'add' else ('other', None, None)
                    elif i.op == 'cmpxchg':
                        d = ('cas', sym.lin(i.ops[1], env, st), sym.lin(i.ops[2], env, st))
                    else:
                        d = ('set', None, sym.lin(i.ops[0], env, st))
                    return ev | {('nf',) + d + (st.facts, i)}
                if i.op == 'store':
                    A = sym.lin(p, env, st)
                    g = fieldpath(p)
                    if any(x[0] == Q for x in g):
                        if any(x[1] in ('start_log_buf', 'end_log_buf') for x in g):
                            return ev | {('bound', [x[1] for x in g if x[0] == Q][-1], sym.lin(i.ops[0], env, st), i)}
                        return ev
                    return ev | {('st', A, (g[-1] if g else None), sym.lin(i.ops[0], env, st), i, st.facts)}
            if i.op == 'call' and i.callee == n:
                return ev | {('again', i.id, tuple(sym.lin(a, env, st) for a in i.ops[:len(f.args)]), i)}
            return ev
        try:
            sym = Sym(f, stable=lambda g: stable(g) or bool(loose) and g == (Q, 'next_free'), want=want, step=step, user=frozenset())
        except TooBig:
            r.fail('%s: too many paths' % n)
            continue
        isalloc = n in allocs
        stride = 'Stride' in n
        raw = 'Raw' in n
        for t, st, env in sym.exits:
            rv = sym.lin(t.ops[0], env, st) if t.ops and t.ops[0].w else None
            ev = st.user
            nf = [e for e in ev if e[0] == 'nf']
            starts = fld(sym, 'start_log_buf') + [e[2] for e in ev if e[0] == 'bound' and e[1] == 'start_log_buf']
            ends = fld(sym, 'end_log_buf')
            res = []
            for e in nf:
                _, how, a, b, facts, at = e
                if b is not None and b in starts and how in ('cas', 'set'):
                    r.ok('restart', n)
                    if isalloc:
                        ok = bit_known(facts, lambda x: x[0] == 'ld' and sym.fields.get(x[1]) == (Q, 'options'), CB, 1)
                        r.check(ok, 'wrap', n, '%s restarts the log although it was not seen to be circular' % n, at)
                        # crossed the end: the free pointer was at or before the end, and the reservation does not fit
                        crossed = any(ge0(facts, sub(addl(x[0], x[1]), en)) and (loose or ge0(facts, sub(en, x[0])))
                                      for en in ends for x in [y for y in [reservation(sym, z) for z in nf] if y])
                        r.check(crossed, 'wrap', n + ': crossed', '%s restarts the log although its reservation was not seen to cross the end' % n, at)
                    elif how == 'cas':
                        ok = any(ge0(facts, addl(plusc(a, k), sub(ZERO, en))) for en in ends for k in range(0, 257))
                        r.check(ok, 'sync-reset', n, '%s restarts a log whose free pointer it has not seen near its end' % n, at)
                    continue
                if how == 'add':
                    res.append((a, b, facts, at))
                elif how == 'cas' and a is not None and len(sub(b, a)[1]) + (sub(b, a)[0] != 0):
                    res.append((a, sub(b, a), facts, at))
                elif how == 'set' and loose and isalloc:
                    old = next((y for y in walk(b) if y[0] == 'ld' and sym.fields.get(y[1]) == (Q, 'next_free') and (y, 1) in b[1]), None)
                    if old is None:
                        r.bad('restart', n, '%s sets the free pointer to something that is neither the start of the log nor a reservation' % n, at)
                    else:
                        res.append((atom(old), sub(b, atom(old)), facts, at))
                else:
                    r.bad('restart', n, '%s sets the free pointer to something other than the start of the log' % n, at)
            if not isalloc:
                r.check(not res, 'restart', n + ': reserves', '%s moves the free pointer although it allocates nothing' % n, t)
                continue
            sts = [e for e in ev if e[0] == 'st']
            again = [e for e in ev if e[0] == 'again']
            E = A = None
            for a, b, facts, at in res:
                if raw:
                    if rv == a:
                        E, A, F, AT = a, b, st.facts, at
                elif rv is not None and any(e[1] == rv and e[3] == a for e in sts) and not any(rv == atom(('call', g[1])) for g in again):
                    E, A, F, AT = a, b, st.facts, at
                # refused before adding
                if stride:
                    ok = ne0(facts, b)
                    r.check(ok, 'size', n + ': stride not 0', '%s reserves entries of a log without stride' % n, at)
                    r.check(b in fld(sym, 'default_entry_stride'), 'size', n, '%s reserves something other than one stride' % n, at)
                else:
                    x = round_up(sym, b, mask)
                    need = (0 if raw else HS) + ~mask
                    r.check(x is not None and x[0][0] == 'arg' and x[1] >= need and x[1] < need + 64, 'size', n,
                            '%s does not reserve the requested size and header rounded up' % n, at)
                    ok = any(ge0(facts, sub(sub(en, s0), v)) for en in ends for s0 in starts
                             for v in [b] + [atom(('arg', k)) for k in range(len(f.args))])
                    r.check(ok, 'no-wrap', n, '%s adds a size to the free pointer that it has not seen to fit the log' % n, at)
            if E is None:
                got = rv == ZERO or any(rv == atom(('call', g[1])) for g in again)
                r.check(got, 'null', n, '%s returns something although it has no reservation for it' % n, t)
                for g in again:
                    r.check(all(x == atom(('arg', k)) for k, x in enumerate(g[2])), 'null', n + ': retry', '%s retries with other arguments' % n, g[3])
                r.check(not sts, 'written', n + ': nothing', '%s writes an entry or the handle although it hands out nothing' % n, t)
                continue
            r.check(rv == E or single(rv) is not None and single(rv)[0] == 'arg', 'reserve', n, '%s returns something other than what it reserved' % n, t)
            r.check(any(ge0(F, sub(sub(en, E), A)) for en in ends), 'inside', n, '%s hands out an entry it has not seen to end before the end of the log' % n, t)
            for e in sts:
                h = sub(e[1], rv)
                if single(rv) is not None and single(rv)[0] == 'arg' and not h[1] and 0 <= h[0] < HANDLE:
                    continue
                d = sub(e[1], E)
                w = (e[4].ops[0].w or 64) // 8
                r.check(not d[1] and 0 <= d[0] and d[0] + w <= HS, 'written', n, '%s writes outside the header of the entry it reserved' % n, e[4])
                r.check(any(ge0(e[5], sub(sub(en, E), A)) for en in ends), 'inside', n + ': before writing',
                        '%s writes an entry before it has seen that it ends before the end of the log' % n, e[4])
    r.assume.append('forms named NoLock and ResetAsync are documented for use without concurrency')
    r.assume.append('the free pointer does not pass 2^63 by failed reservations (each adds at most the size of the log)')
