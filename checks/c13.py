"""C13: new entries start incomplete and describe themselves; complete only on request."""
import re
from sa import common
from sa.sym import Sym, sub, addl, atom, con, ge0, single, bit_known, plusc, walk, ZERO
from sa.flow import fieldof, fieldpath, TooBig
from checks.c09 import bitno
from checks.c12 import round_up, reservation, isnf

LEVEL = 'other'
TECHNIQUE = 'static analysis: bit-precise symbolic dataflow over every store to an entry header and handle on LLVM IR'
EXPLANATION = ('The word each allocation stores into the header of a new entry is evaluated bit by bit on every feasible path and compared with the documented layout '
               '(not complete, allocated for queues, category and subcategory as given, length the reserved size in units); the handle must describe the same entry. '
               'Stores that set the complete mark are confined to the completion operations and the log iterator tests the mark before it hands out an entry.')
HDRS = ('SPHLFEntryHeader_t', 'SPHLFLogHeader_t')
QS = ('SPHPCQueueHeader', 'SPHMPMCQHeader', 'SASLFLoggerHeader')


def const_bits(b, m, v):
    return all(not isinstance(b[k], tuple) and b[k] == v for k in range(32) if m >> k & 1)


def run(r):
    r.rule('fresh', 'the header of a new entry says not complete (and allocated, for queue entries)', 8)
    r.rule('labels', 'the header of a new entry holds the category and subcategory the caller gave', 6)
    r.rule('length', 'the header of a new entry holds the reserved size in allocation units', 8)
    r.rule('stamped', 'the header says time-stamped exactly when the allocation stores time stamp, process and thread', 6)
    r.rule('handle', 'the handle of a new entry names the entry, its first free byte after the header, its size and what remains', 5)
    r.rule('stride-fits', 'the stride of a queue or log is set only to values the length field can hold', 2)
    r.rule('set-by-completion', 'only operations named as completions set the complete mark of an entry that is not complete', 4)
    r.rule('iterator', 'the log iterator hands out an entry only when it lies before the end of the log and is marked complete, and describes it by its header', 1)
    r.rule('reader', 'the handle given to a reader describes the entry by the length and the time-stamp mark in its header', 2)
    r.rule('query', 'the completeness queries report the complete mark', 2)
    N = ['detail.valid', 'detail.timestamped', 'detail.allocated', 'detail.category', 'detail.subcat', 'detail.len']
    BQ = common.bitmasks('sphLFEntry_t', 'idUnit', N)
    BL = common.bitmasks('sphLogEntry_t', 'idUnit', [x for x in N if 'allocated' not in x])
    HS, HE, US, SHS, HANDLE = common.consts('sizeof(SPHLFLogHeader_t)', 'sizeof(SPHLFEntryHeader_t)', 'sizeof(sphLFEntry_t)', 'sizeof(sphLogEntry_t)', 'sizeof(SPHLFLoggerHandle_t)')
    UNIT = 2 * common.consts('sizeof(void*)')[0]
    SH = UNIT.bit_length() - 1
    ts_off, = common.consts('offsetof(SPHLFEntryHeader_t,timeStamp)')
    hn, ht, hr = common.consts('offsetof(SPHLFLoggerHandle_t,next)', 'offsetof(SPHLFLoggerHandle_t,total_size)', 'offsetof(SPHLFLoggerHandle_t,remaining)')
    R = common.lib(headers=True, raw=True)
    M = common.lib(headers=True)
    kind = {}
    for n, f in R.fns.items():
        for i in f.insts():
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                p = i.ops[1] if i.op == 'store' else i.ops[0]
                k = [x[0] for x in fieldpath(p) if x[0] in HDRS and x[1] == 'entryID']
                if k:
                    kind.setdefault(n, set()).add(k[-1])
    stable = lambda g: g[0] in QS and g[1] in ('start_log_buf', 'end_log_buf', 'align_mask', 'default_entry_stride', 'startq', 'endq')

    def stride(sym, L):
        x = single(L)
        return x is not None and x[0] == 'ld' and (sym.fields.get(x[1]) or ('', ''))[1] == 'default_entry_stride'

    # ------------------------------------------------ new entries
    for n in sorted(M.fns):
        f = M.fns[n]
        new = n in kind and re.search(r'Alloc', n)
        tmpl = n.endswith('GetEntryTemplate')
        if not new and not tmpl:
            continue
        islog = new and 'SPHLFLogHeader_t' in kind[n]
        B = BL if islog else BQ

        def step(sym, i, st, env):
            ev = st.user
            if i.op in ('atomicrmw', 'cmpxchg', 'store') and isnf(i):
                if i.op == 'atomicrmw':
                    return ev | {('nf', 'add', atom(('i', i.id)), sym.lin(i.ops[1], env, st))}
                if i.op == 'cmpxchg':
                    return ev | {('nf', 'cas', sym.lin(i.ops[1], env, st), sym.lin(i.ops[2], env, st))}
                return ev | {('nf', 'set', None, sym.lin(i.ops[0], env, st))}
            if i.op == 'store':
                A = sym.lin(i.ops[1], env, st)
                g = fieldof(i.ops[1])
                if g and g[0] in QS:
                    if g[1] == 'qhead':
                        pass
                    return ev
                b = tuple(sym.bits(i.ops[0], env, st)) if (i.ops[0].w or 64) == 32 else ()
                return ev | {('st', A, b, sym.lin(i.ops[0], env, st), (i.ops[0].w or 64) // 8, i)}
            return ev
        nolock = n.endswith('NoLock')
        try:
            sym = Sym(f, stable=lambda g: stable(g) or nolock and g == ('SASLFLoggerHeader', 'next_free'), want=lambda s, x: x[0] == 'b' or bool(tmpl), step=step, user=frozenset())
        except TooBig:
            r.fail('%s: too many paths' % n)
            continue
        for t, st, env in sym.exits:
            rv = sym.lin(t.ops[0], env, st) if t.ops else None
            if tmpl:
                b = sym.bits(t.ops[0], env, st)
                if rv == ZERO or all(x == 0 and not isinstance(x, tuple) for x in b):
                    continue
                r.check(const_bits(b, B['valid'], 0) and const_bits(b, B['allocated'], 1), 'fresh', n, '%s makes a template that is complete or not allocated' % n, t)
                r.check(len_ok(b, B['len'], SH, lambda a: stride(sym, atom(a))), 'length', n, '%s makes a template whose length is not the stride' % n, t)
                continue
            sts = [e for e in st.user if e[0] == 'st']
            # the header store: a 4-byte store whose value has the allocated/len layout, at the base of the entry
            bases = {e[1] for e in sts}
            hdrs = [e for e in sts if len(e[2]) == 32 and not any(x != e[1] and not sub(e[1], x)[1] and sub(e[1], x)[0] in (hn, ht, hr) and single(x) and single(x)[0] == 'arg' for x in bases)
                    and not (single(e[1]) and single(e[1])[0] == 'arg')]
            if not hdrs:
                continue
            for h in hdrs:
                E, b, at = h[1], h[2], h[5]
                ok = const_bits(b, B['valid'], 0) and (islog or const_bits(b, B['allocated'], 1))
                r.check(ok, 'fresh', n, '%s hands out an entry that is marked complete%s' % (n, '' if islog else ' or not allocated'), at)
                ints = [a.idx for a in f.args if a.w == 32]
                if len(ints) == 2:
                    c, s = masks(b, B['category']), masks(b, B['subcat'])
                    ok = c == [(('arg', ints[0]), k) for k in range(len(c))] and s == [(('arg', ints[1]), k) for k in range(len(s))]
                    r.check(ok, 'labels', n, '%s does not record the category and subcategory it was given' % n, at)
                As = [x[1] for x in [reservation(sym, e) for e in st.user if e[0] == 'nf'] if x and x[0] == E]
                if islog:
                    good = any(len_ok(b, B['len'], SH, lambda a, A=A: atom(a) == A) for A in As)
                else:
                    good = len_ok(b, B['len'], SH, lambda a: stride(sym, atom(a)))
                r.check(good, 'length', n, '%s records a length that is not the size it reserved' % n, at)
                offs = {sub(e[1], E)[0] for e in sts if not sub(e[1], E)[1]}
                marked = const_bits(b, B['timestamped'], 1)
                r.check((marked and {4, 6, ts_off} <= offs) or (const_bits(b, B['timestamped'], 0) and ts_off not in offs), 'stamped', n,
                        '%s marks the entry time-stamped without storing time, process and thread, or the reverse' % n, at)
                if rv is not None and single(rv) is not None and single(rv)[0] == 'arg':
                    H = (HS if islog else HE) if marked else US
                    hv = {sub(e[1], rv)[0]: e[3] for e in sts if not sub(e[1], rv)[1]}
                    isA = (lambda L: L in As) if islog else (lambda L: stride(sym, L))
                    r.check(hv.get(0) == E, 'handle', n + ': entry', '%s returns a handle for another entry' % n, t)
                    r.check(hv.get(hn) == plusc(E, H), 'handle', n + ': next', '%s returns a handle whose data does not start behind the entry header' % n, t)
                    r.check(ht in hv and isA(hv[ht]), 'handle', n + ': total', '%s returns a handle whose size is not the reserved size' % n, t)
                    r.check(hr in hv and isA(plusc(hv[hr], H)), 'handle', n + ': remaining', '%s returns a handle with a wrong remaining size' % n, t)
    # ------------------------------------------------ strides
    for n, f in sorted(M.fns.items()):
        if not any(i.op == 'store' and any(g[0] in QS and g[1] == 'default_entry_stride' for g in fieldpath(i.ops[1])) for i in f.insts()):
            continue

        def step(sym, i, st, env):
            if i.op == 'store' and any(g[0] in QS and g[1] == 'default_entry_stride' for g in fieldpath(i.ops[1])):
                return st.user | {(sym.lin(i.ops[0], env, st), st.facts, i)}
            return st.user
        sym = Sym(f, stable=stable, want=lambda s, x: x[0] in ('ge', 'eq'), step=step, user=frozenset())
        for t, st, env in sym.exits:
            for V, F, i in st.user:
                r.check(any(ge0(F, sub(con(c), V)) for c in (255 * UNIT, 256 * UNIT - 1)), 'stride-fits', n, '%s sets a stride it has not seen to fit the length field of an entry' % n, i)
    # ------------------------------------------------ who sets the complete mark
    for n in sorted(kind):
        f = R.fns[n]
        mine = {}
        for i in f.insts():
            if i.op == 'store':
                k = [x[0] for x in fieldpath(i.ops[1]) if x[0] in HDRS and x[1] == 'entryID']
                if k:
                    mine[i.id] = bitno((BL if k[-1] == 'SPHLFLogHeader_t' else BQ)['valid'])
        hit = set()

        def step(sym, i, st, env):
            if i.id in mine:
                b = sym.bits(i.ops[0], env, st)
                if len(b) == 32:
                    v = b[mine[i.id]]
                    if not (v == 0 and not isinstance(v, tuple)):
                        A = sym.lin(i.ops[1], env, st)
                        seen = bit_known(st.facts, lambda x: x[0] == 'ld' and x[1] == A, mine[i.id], 1)
                        same = isinstance(v, tuple) and v[0][0] == 'ld' and v[0][1] == A and v[1] == mine[i.id]
                        if not seen and not same:
                            hit.add(i)
                else:
                    hit.add(i)
            return st.user
        try:
            Sym(f, stable=lambda g: True, want=lambda s, x: x[0] == 'b', step=step, user=())
        except TooBig:
            continue
        ok = not hit or re.search(r'Complete(Direct)?$', n) and 'Is' not in n.split('Complete')[0][-2:]
        r.check(bool(ok), 'set-by-completion', n, '%s sets the complete mark of an entry although it is no completion' % n, next(iter(hit)) if hit else n)
    # ------------------------------------------------ queries
    for n in sorted(M.fns):
        if not re.search(r'IsComplete$', n):
            continue
        f = M.fns[n]
        VB = bitno((BL if 'Log' in n else BQ)['valid'])
        sym = Sym(f, stable=lambda g: True, want=lambda s, x: x[0] == 'b')
        isv = lambda x: x[0] == 'ld'
        for t, st, env in sym.exits:
            b = sym.bits(t.ops[0], env, st)
            v = b[0]
            rest = all(x == 0 and not isinstance(x, tuple) for x in b[1:])
            if isinstance(v, tuple):
                good = rest and v[0][0] == 'ld' and v[1] == VB
            elif v == 1:
                good = bit_known(st.facts, isv, VB, 1)
            else:
                good = v == 0 and rest and (bit_known(st.facts, isv, VB, 0) or any(x[0] == 'eq' for x in st.facts) or not [i for i in f.insts() if i.op == 'load' and i.w == 32])
            r.check(good, 'query', n, '%s does not report the complete mark' % n, t)
    # ------------------------------------------------ entries handed to readers
    for n in sorted(M.fns):
        f = M.fns[n]
        if not re.match(r'SPH\w*Queue\w*GetNext\w*', n) or len(f.args) < 2:
            continue

        def step(sym, i, st, env):
            if i.op == 'store':
                return st.user | {(sym.lin(i.ops[1], env, st), sym.lin(i.ops[0], env, st), tuple(sym.bits(i.ops[0], env, st)), i)}
            return st.user
        try:
            sym = Sym(f, stable=lambda g: g[0] in QS, want=lambda s, x: x[0] == 'b', step=step, user=frozenset())
        except TooBig:
            r.fail('%s: too many paths' % n)
            continue
        for t, st, env in sym.exits:
            rv = sym.lin(t.ops[0], env, st)
            if rv == ZERO or single(rv) is None or single(rv)[0] != 'arg':
                continue
            reader(r, sym, n, t, st, rv, BQ, SH, HE, US, hn, ht, hr)
    # ------------------------------------------------ iterator
    n = 'SPHLFLoggerIteratorNext'
    f = M.fns.get(n)
    if f is None:
        return
    VB = bitno(BL['valid'])

    def step(sym, i, st, env):
        if i.op == 'store':
            return st.user | {(sym.lin(i.ops[1], env, st), sym.lin(i.ops[0], env, st), tuple(sym.bits(i.ops[0], env, st)), i)}
        return st.user
    IT = 'SPHLFLogIterator_t'
    cur, endo = common.consts('offsetof(SPHLFLogIterator_t,current)', 'offsetof(SPHLFLogIterator_t,end_log)')
    sym = Sym(f, stable=lambda g: g[0] == IT, want=lambda s, x: x[0] == 'b' or x[0] == 'ge', step=step, user=frozenset())
    for t, st, env in sym.exits:
        rv = sym.lin(t.ops[0], env, st)
        if rv == ZERO:
            continue
        hv = {sub(e[0], rv)[0]: e for e in st.user if not sub(e[0], rv)[1]}
        E = hv[0][1] if 0 in hv else None
        ok = E is not None and single(E) is not None and single(E)[0] == 'ld' and single(E)[1] == plusc(atom(('arg', 0)), cur)
        if not r.check(ok, 'iterator', n, '%s hands out something other than the entry at its position' % n, t):
            continue
        r.check(bit_known(st.facts, lambda x: x[0] == 'ld' and x[1] == E, VB, 1), 'iterator', n + ': complete', '%s hands out an entry it has not seen to be complete' % n, t)
        ends = [x for fct in st.facts if fct[0] == 'ge' for x, c in fct[1][1] if x[0] == 'ld' and x[1] == plusc(atom(('arg', 0)), endo)]
        r.check(any(ge0(st.facts, plusc(sub(atom(x), E), -1)) for x in ends), 'iterator', n + ': inside', '%s looks at an entry behind the end of the log' % n, t)
        reader(r, sym, n, t, st, rv, BL, SH, HS, SHS, hn, ht, hr)


def reader(r, sym, n, t, st, rv, B, SH, H1, H0, hn, ht, hr):
    """the handle describes the entry by its header"""
    hv = {sub(e[0], rv)[0]: e for e in st.user if not sub(e[0], rv)[1]}
    E = hv[0][1] if 0 in hv else None
    if E is None:
        return
    tot = hv.get(ht)
    r.check(tot is not None and hdr_len(tot[2], B_len(B), SH, E), 'reader', n + ': size', '%s gives the entry a size that is not the length in its header' % n, t)
    own = lambda x: x[0] == 'ld' and x[1] == E
    T = bitno(B['timestamped'])
    ts = bit_known(st.facts, own, T, 1)
    nt = bit_known(st.facts, own, T, 0)
    H = H1 if ts else H0
    nx = hv.get(hn)
    r.check((ts or nt) and nx is not None and nx[1] == plusc(E, H), 'reader', n + ': data', '%s does not point behind the header of the entry' % n, t)
    rm = hv.get(hr)
    r.check(tot is not None and rm is not None and plusc(rm[1], H) == tot[1], 'reader', n + ': remaining', '%s gives a remaining size that is not the size less the header' % n, t)


def B_len(B):
    m = B['len']
    lo = (m & -m).bit_length() - 1
    return lo, m.bit_length() - lo


def hdr_len(b, lm, SH, E):
    lo, k = lm
    want = [0] * SH + [lo + j for j in range(k)]
    for j, x in enumerate(b[:SH + k]):
        if j < SH:
            if x != 0 or isinstance(x, tuple):
                return False
        elif not (isinstance(x, tuple) and x[0][0] == 'ld' and x[0][1] == E and x[1] == want[j]):
            return False
    return True


def masks(b, m):
    return [b[k] for k in range(32) if m >> k & 1]


def len_ok(b, m, SH, good):
    xs = masks(b, m)
    return all(isinstance(x, tuple) and x[1] == SH + j and good(x[0]) for j, x in enumerate(xs))
