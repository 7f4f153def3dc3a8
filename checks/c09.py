"""C09: single-producer queues - each index has one writer side and every advance is guarded."""
import re
from sa import common
from sa.sym import Sym, sub, addl, atom, con, ge0, ne0, eq0, single, bit_known, plusc, ZERO
from sa.flow import fieldof, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive symbolic dataflow (linear forms and header-bit facts per feasible path) on LLVM IR'
EXPLANATION = ('Every store to the head or tail index of a single-producer queue is found; on every feasible path to it the stored value must be the claimed '
               'position advanced by one stride and wrapped at the end of the queue, and the path must have tested that the queue is not full (or not empty) '
               'and that the claimed entry is free (or complete). Return values are compared with what the path did.')
Q = 'SPHPCQueueHeader'
F = ('qhead', 'qtail', 'startq', 'endq', 'default_entry_stride')


def bitno(m):
    return m.bit_length() - 1


def fields_of(sym, name, S=Q):
    return [atom(('ld', A, 0)) for A, g in sym.fields.items() if g == (S, name)]


def isfield(sym, L, name, S=Q):
    x = single(L)
    return x is not None and x[0] == 'ld' and x[2] == 0 and sym.fields.get(x[1]) == (S, name)


def mentions_field(sym, L, name, S=Q):
    return any(x[0] == 'ld' and sym.fields.get(x[1]) == (S, name) for x, _ in L[1])


def want(sym, f):
    if f[0] == 'b':
        return True
    return any(x[0] == 'ld' and (sym.fields.get(x[1]) or ('',))[0] == Q for x, _ in f[1][1])


def advance(sym, facts, V, E):
    """V is E plus one stride, wrapped to the start of the queue at its end"""
    for st in fields_of(sym, 'default_entry_stride'):
        N = addl(E, st)
        for en in fields_of(sym, 'endq'):
            if V == N:
                # not at the end: N < endq (or N != endq: positions are multiples of the stride)
                if ge0(facts, plusc(sub(en, N), -1)) or ne0(facts, sub(N, en)):
                    return True
            for s0 in fields_of(sym, 'startq'):
                if V == s0 and (ge0(facts, sub(N, en)) or eq0(facts, sub(N, en))):
                    return True
                if V == addl(s0, atom(('op', 'urem', sub(N, s0), sub(en, s0)))):
                    return True
    return False


def run(r):
    r.rule('side', 'a function other than initialisation and reset moves only one of head and tail; allocating functions the head, freeing functions the tail', 6)
    r.rule('reset', 'initialisation and reset set head and tail to the start of the queue', 2)
    r.rule('advance', 'the new index is the claimed position plus one stride, wrapped to the start of the queue at its end', 6)
    r.rule('not-full', 'the head moves only after its new value was seen to differ from the tail', 4)
    r.rule('free-entry', 'an entry is claimed for writing only after it was seen neither complete nor allocated', 4)
    r.rule('not-empty', 'the tail moves, and an entry is handed to the consumer, only after the head was seen to differ from the position', 4)
    r.rule('complete-entry', 'an entry is handed to the consumer or freed only after it was seen allocated (and complete, where complete entries are promised)', 4)
    r.rule('cleared', 'the header of a freed entry is cleared before the tail moves past it', 2)
    r.rule('result', 'what is returned is the claimed entry (or success) exactly when the path claimed one; otherwise null or zero and nothing was stored', 8)
    r.rule('status', 'the empty test answers no only for a complete entry at the tail, the full test answers no only when the next head differs from the tail', 2)
    B = common.bitmasks('sphLFEntry_t', 'idUnit', ['detail.valid', 'detail.allocated'])
    VALID, ALLOC = bitno(B['valid']), bitno(B['allocated'])
    M = common.lib(headers=True, cse=True)
    stores = {}
    for n, f in M.fns.items():
        for i in f.insts():
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                g = fieldof(i.ops[1] if i.op == 'store' else i.ops[0])
                if g and g[0] == Q and g[1] in ('qhead', 'qtail'):
                    stores.setdefault(n, []).append((i, g[1]))
    fns = set(stores) | {n for n in M.fns if re.match(r'SPHSinglePCQueue.*(GetNext|Empty$|Full$|Alloc(?!.*Template)|FreeNext)', n)}
    stable = lambda f: f[0] == Q and f[1] in F
    for n in sorted(fns):
        f = M.fns[n]
        kinds = {k for _, k in stores.get(n, ())}
        reset = kinds == {'qhead', 'qtail'}
        if kinds:
            ok = reset and re.search(r'Init|Reset', n) or kinds == {'qhead'} and not re.search(r'Free|GetNext', n) or kinds == {'qtail'} and not re.search(r'Alloc', n)
            ok = bool(ok) and all(i.op == 'store' for i, _ in stores[n])
            r.check(ok, 'side', n, '%s moves %s' % (n, ' and '.join(sorted(kinds)) or 'an index'), stores[n][0][0])

        def hdr_of(E):
            return lambda x: x[0] == 'ld' and x[1] == E

        def step(sym, i, st, env):
            u = st.user
            if i.op != 'store':
                return u
            g = fieldof(i.ops[1])
            A = sym.lin(i.ops[1], env, st)
            if g and g[0] == Q and g[1] in ('qhead', 'qtail', 'startq'):
                return u | {('idx', g[1], sym.lin(i.ops[0], env, st), st.facts, i)}
            if any(x[0] == 'ld' and (sym.fields.get(x[1]) == (Q, 'qhead') or sym.fields.get(x[1]) == (Q, 'qtail')) for x, _ in A[1]) or \
                    (i.ops[0].w == 32 and A[0] == 0 and 'Direct' in n and single(A) and single(A)[0] == 'arg'):
                b = sym.bits(i.ops[0], env, st)
                zero = len(b) > max(VALID, ALLOC) and b[VALID] == 0 and b[ALLOC] == 0 and not isinstance(b[VALID], tuple)
                return u | {('hdr', A, zero, st.facts, i)}
            if i.ops[0].w == 64:
                return u | {('out', A, sym.lin(i.ops[0], env, st))}
            return u | {('other', A)}
        try:
            sym = Sym(f, stable=stable, want=want, step=step, user=frozenset())
        except TooBig:
            r.fail('%s: too many paths' % n)
            continue
        if reset:
            for t, st, env in sym.exits:
                ix = {e[1]: e[2] for e in st.user if e[0] == 'idx'}
                if 'qhead' not in ix and 'qtail' not in ix:
                    continue
                s0 = ix.get('startq')
                good = all(k in ix and (ix[k] == s0 if s0 is not None else isfield(sym, ix[k], 'startq')) for k in ('qhead', 'qtail'))
                r.check(good, 'reset', n, '%s leaves head and tail at different positions or not at the start of the queue' % n, t)
            continue
        producer = kinds == {'qhead'} or (not kinds and 'Alloc' in n)
        getter = not kinds and 'GetNext' in n
        complete = 'Complete' in n
        for t, st, env in sym.exits:
            rv = sym.lin(t.ops[0], env, st) if t.ops else None
            ev = st.user
            idx = [e for e in ev if e[0] == 'idx']
            hdr = [e for e in ev if e[0] == 'hdr']
            if re.search(r'Empty$', n) or re.search(r'Full$', n):
                if rv == ZERO and idx == []:
                    if n.endswith('Empty'):
                        # a queue refused by the type check also answers 0: only judge paths that looked at the queue
                        if any(mentions_field(sym, x[1], 'qtail') for x in st.facts if x[0] in ('ne', 'eq', 'ge')):
                            good = any(ne0(st.facts, sub(a, b)) and bit_known(st.facts, hdr_of(b), VALID, 1)
                                       for a in fields_of(sym, 'qhead') for b in fields_of(sym, 'qtail'))
                            r.check(good, 'status', n, '%s answers that the queue is not empty without having seen a complete entry at the tail' % n, t)
                    else:
                        good = any(f2[0] in ('ne', 'ge') and mentions_field(sym, f2[1], 'qtail') for f2 in st.facts) and \
                            any(ne0(st.facts, sub(N, b)) for b in fields_of(sym, 'qtail') for N in nexts(sym, st.facts))
                        r.check(good, 'status', n, '%s answers that the queue is not full without having compared the next head with the tail' % n, t)
                continue
            if not idx and not getter:
                # nothing claimed: null or zero, nothing stored
                r.check(rv is None or rv == ZERO, 'result', '%s: nothing claimed' % n, '%s returns something without having claimed an entry' % n, t)
                r.check(not [e for e in ev if e[0] in ('hdr', 'other', 'out')], 'result', '%s: nothing claimed, nothing stored' % n,
                        '%s stores into the queue or the handle although it claims no entry' % n, t)
                continue
            for e in idx:
                _, which, V, facts, at = e
                if producer:
                    Es = fields_of(sym, 'qhead')
                    E = next((x for x in Es if advance(sym, facts, V, x)), None)
                    if not r.check(E is not None, 'advance', n, '%s stores a head that is not the old head advanced by one stride and wrapped' % n, at):
                        continue
                    r.check(any(ne0(facts, sub(V, b)) for b in fields_of(sym, 'qtail')), 'not-full', n,
                            '%s advances the head without having seen that the new head differs from the tail' % n, at)
                    if hdr:
                        for h in hdr:
                            if h[1] == E:
                                r.check(bit_known(h[3], hdr_of(E), VALID, 0) and bit_known(h[3], hdr_of(E), ALLOC, 0), 'free-entry', n,
                                        '%s writes the header of an entry it has not seen to be neither complete nor allocated' % n, h[4])
                            r.check(not sub(h[1], E)[1] and 0 <= sub(h[1], E)[0] < 64, 'free-entry', n + ': own entry only', '%s writes into an entry other than the one it claims' % n, h[4])
                    elif 'Raw' not in n:
                        r.bad('free-entry', n, '%s claims an entry without marking it' % n, at)
                    outs = [x[2] for x in ev if x[0] == 'out']
                    good = rv == E or (rv is not None and single(rv) is not None and single(rv)[0] == 'arg' and E in outs)
                    r.check(good, 'result', '%s: claimed' % n, '%s does not return the entry it claimed' % n, t)
                else:
                    cand = fields_of(sym, 'qtail') + [atom(('arg', k)) for k in range(1, len(f.args))]
                    E = next((x for x in cand if advance(sym, facts, V, x)), None)
                    if not r.check(E is not None, 'advance', n, '%s stores a tail that is not the freed position advanced by one stride and wrapped' % n, at):
                        continue
                    consumer_guard(r, sym, n, facts if not hdr else hdr[0][3], E, VALID, ALLOC, True, hdr_of, at)
                    r.check(any(h[1] == E and h[2] and h[4] is not at for h in hdr) and before(hdr, at), 'cleared', n,
                            '%s moves the tail past an entry whose header it has not cleared before' % n, at)
                    r.check(rv is not None and not rv[1] and rv[0] != 0, 'result', '%s: freed' % n, '%s frees an entry and reports failure' % n, t)
            if getter:
                if rv == ZERO:
                    r.check(not [e for e in ev if e[0] in ('hdr', 'other', 'out')], 'result', '%s: nothing found, nothing stored' % n,
                            '%s stores into the queue or the handle although it hands out no entry' % n, t)
                    continue
                r.check(not hdr, 'result', '%s: entry unchanged' % n, '%s changes the entry it hands to the consumer' % n, t)
                cand = fields_of(sym, 'qtail')
                outs = [x[2] for x in ev if x[0] == 'out']
                E = next((x for x in cand if rv == x or (single(rv) and single(rv)[0] == 'arg' and x in outs)), None)
                if r.check(E is not None, 'result', '%s: entry at the tail' % n, '%s returns something other than the entry at the tail' % n, t):
                    consumer_guard(r, sym, n, st.facts, E, VALID, ALLOC, complete, hdr_of, t)


def nexts(sym, facts):
    for f in facts:
        if f[0] == 'ge' or f[0] in ('ne', 'eq'):
            pass
    for q in fields_of(sym, 'qhead'):
        for st in fields_of(sym, 'default_entry_stride'):
            N = addl(q, st)
            for V in [N] + fields_of(sym, 'startq'):
                if advance(sym, facts, V, q):
                    yield V
    for s0 in fields_of(sym, 'startq'):
        for q in fields_of(sym, 'qhead'):
            for st in fields_of(sym, 'default_entry_stride'):
                for en in fields_of(sym, 'endq'):
                    yield addl(s0, atom(('op', 'urem', sub(addl(q, st), s0), sub(en, s0))))


def before(hdr, at):
    return any(h[4].bb is not at.bb or h[4].pos < at.pos for h in hdr)


def consumer_guard(r, sym, n, facts, E, VALID, ALLOC, complete, hdr_of, at):
    r.check(any(ne0(facts, sub(a, E)) for a in fields_of(sym, 'qhead')), 'not-empty', n,
            '%s goes on with a position it has not seen to differ from the head' % n, at)
    r.check(bit_known(facts, hdr_of(E), ALLOC, 1), 'complete-entry', n + ': allocated', '%s goes on with an entry it has not seen to be allocated' % n, at)
    if complete:
        r.check(bit_known(facts, hdr_of(E), VALID, 1), 'complete-entry', n + ': complete', '%s goes on with an entry it has not seen to be complete' % n, at)
