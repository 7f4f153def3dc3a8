"""C11: multi-producer queues - claims are made by one thread at a time and recorded in the entry."""
import re
from sa import common
from sa.sym import Sym, sub, addl, atom, ge0, ne0, eq0, single, bit_known, plusc, walk, ZERO
from sa.flow import fieldof, TooBig
from checks.c09 import advance, fields_of, mentions_field, bitno

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive symbolic dataflow with a lock typestate (who holds the queue lock at each index read, header test and store) on LLVM IR'
EXPLANATION = ('Every store to the head or tail index of a multi-producer queue is found; on every feasible path to it the reads it is based on and the header test and '
               'header store of the claimed entry must all lie in one section in which the queue is locked exclusively (except in the single-producer and single-consumer forms), '
               'the claimed entry must have been seen free (or complete), must be marked, and must be what is returned.')
Q = 'SPHMPMCQHeader'
F = ('qhead', 'qtail', 'startq', 'endq', 'default_entry_stride')


def norm(x):
    """drop the identity of loads of queue fields, keep everything else"""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'ld':
            return ('ld', norm(x[1]), 0)
        return tuple(norm(y) for y in x)
    if isinstance(x, frozenset):
        return frozenset(norm(y) for y in x)
    return x


def loads_in(x):
    return {y[2] for y in walk(x) if y[0] == 'ld' and y[2] != 0}


def want(sym, f):
    return f[0] == 'b' or any((sym.fields.get(x[1]) or ('',))[0] == Q or isinstance(single(x[1]), tuple) and single(x[1])[0] == 'ld'
                              for x, _ in f[1][1] if x[0] == 'ld') or \
        any((sym.fields.get(y[1]) or ('',))[0] == Q for y in walk(f) if y[0] == 'ld')


def run(r):
    r.rule('side', 'a function other than initialisation and reset moves only one of head and tail', 4)
    r.rule('reset', 'initialisation and reset set head and tail to the start of the queue', 2)
    r.rule('exclusive', 'the index read, the header test, the header store and the index store of a claim lie in one section holding the exclusive lock of the queue', 2)
    r.rule('released', 'the queue lock taken by an operation is released on every path out of it', 2)
    r.rule('advance', 'the new index is the claimed position plus one stride, wrapped to the start of the queue at its end', 4)
    r.rule('free-entry', 'an entry is claimed for writing only after its header was seen free', 2)
    r.rule('complete-entry', 'an entry is claimed for reading only after its header was seen allocated and complete', 2)
    r.rule('marked', 'a claim for writing marks the entry allocated and not complete, a claim for reading takes the allocated mark and keeps the complete mark', 4)
    r.rule('result', 'what is returned is the claimed entry exactly when the path claimed one, otherwise null with nothing stored', 4)
    r.rule('free', 'freeing clears the header of the given entry and nothing else of the queue', 1)
    r.rule('status', 'the empty test answers no only for an allocated and complete entry at the tail, the full test answers no only for a free entry at the head', 2)
    B = common.bitmasks('sphLFEntry_t', 'idUnit', ['detail.valid', 'detail.allocated'])
    VALID, ALLOC = bitno(B['valid']), bitno(B['allocated'])
    WRITE, = common.consts('SasUserLock__WRITE')
    M = common.lib(headers=True)
    stores = {}
    for n, f in M.fns.items():
        for i in f.insts():
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                g = fieldof(i.ops[1] if i.op == 'store' else i.ops[0])
                if g and g[0] == Q and g[1] in ('qhead', 'qtail'):
                    stores.setdefault(n, []).append((i, g[1]))
    fns = set(stores) | {n for n in M.fns if re.match(r'SPH[MS]P[MS]CQ.*(GetNext|Empty$|Full$|Alloc|FreeEntry|FreeNext)', n)}
    stable = lambda f: f[0] == Q and f[1] in F[2:]
    for n in sorted(fns):
        f = M.fns[n]
        kinds = {k for _, k in stores.get(n, ())}
        reset = kinds == {'qhead', 'qtail'}
        if kinds:
            ok = reset and re.search(r'Init|Reset', n) or kinds == {'qhead'} and not re.search(r'Free|GetNext', n) or kinds == {'qtail'} and 'Alloc' not in n
            ok = bool(ok) and all(i.op == 'store' for i, _ in stores[n])
            r.check(ok, 'side', n, '%s moves %s' % (n, ' and '.join(sorted(kinds))), stores[n][0][0])
        single_side = n.startswith('SPHSP') and kinds == {'qhead'} or re.match(r'SPH[MS]PSC', n) and kinds == {'qtail'}

        # user: (lock held or None, loads made under it, events)
        def step(sym, i, st, env):
            held, under, ev = st.user
            if i.op == 'call' and i.callee == 'SASLock':
                L = sym.lin(i.ops[0], env, st)
                m = sym.lin(i.ops[1], env, st)
                return ((L, i.id) if m == (WRITE, frozenset()) else None, frozenset(), ev | {('lock', L)})
            if i.op == 'call' and i.callee == 'SASUnlock':
                return (None, under, ev)
            if i.op == 'load':
                if held:
                    return (held, under | {i.id}, ev)
                return (held, under - {i.id}, ev) if i.id in under else st.user
            if i.op != 'store':
                return st.user
            g = fieldof(i.ops[1])
            if g and g[0] == Q:
                return (held, under, ev | {('idx', g[1], sym.lin(i.ops[0], env, st), st.facts, i, held, under)})
            A = sym.lin(i.ops[1], env, st)
            b = tuple(sym.bits(i.ops[0], env, st)) if (i.ops[0].w or 64) == 32 else ()
            return (held, under, ev | {('st', A, b, st.facts, i, held, under)})
        try:
            sym = Sym(f, stable=stable, want=want, step=step, user=(None, frozenset(), frozenset()))
        except TooBig:
            r.fail('%s: too many paths' % n)
            continue
        if reset:
            for t, st, env in sym.exits:
                ix = {e[1]: e[2] for e in st.user[2] if e[0] == 'idx'}
                if 'qhead' not in ix and 'qtail' not in ix:
                    continue
                s0 = norm(ix['startq']) if 'startq' in ix else None
                good = all(k in ix and (norm(ix[k]) == s0 if s0 is not None else norm(ix[k]) in fields_of(sym, 'startq', Q)) for k in ('qhead', 'qtail'))
                r.check(good, 'reset', n, '%s leaves head and tail at different positions or not at the start of the queue' % n, t)
            continue
        which = 'qhead' if 'Alloc' in n else 'qtail'
        for t, st, env in sym.exits:
            rv = sym.lin(t.ops[0], env, st) if t.ops else None
            held, under, evs = st.user
            idx = [e for e in evs if e[0] == 'idx' and e[1] in ('qhead', 'qtail')]
            sts = [e for e in evs if e[0] == 'st']
            if any(e[0] == 'lock' for e in evs):
                r.check(held is None, 'released', n, '%s returns with the queue locked' % n, t)
            if re.search(r'Empty$|Full$', n):
                if rv == ZERO and any((sym.fields.get(y[1]) or ('',))[0] == Q for x in st.facts for y in walk(x) if y[0] == 'ld'):
                    hd = lambda q: (lambda x: x[0] == 'ld' and norm(x[1]) in fields_of(sym, q, Q))
                    if n.endswith('Empty'):
                        good = bit_known(st.facts, hd('qtail'), VALID, 1) and bit_known(st.facts, hd('qtail'), ALLOC, 1)
                        r.check(good, 'status', n, '%s answers that the queue is not empty without having seen a complete unclaimed entry at the tail' % n, t)
                    else:
                        good = any(ne0(norm(st.facts), sub(a, b)) for a in fields_of(sym, 'qhead', Q) for b in fields_of(sym, 'qtail', Q)) or \
                            free_seen(sym, st.facts, fields_of(sym, 'qhead', Q), VALID, ALLOC)
                        r.check(good, 'status', n, '%s answers that the queue is not full without having looked at the entry at the head' % n, t)
                continue
            if re.search(r'FreeEntry|FreeNext', n) and not idx:
                if rv == ZERO:
                    r.check(not sts, 'free', n + ': refused', '%s stores although it reports failure' % n, t)
                else:
                    ok = len(sts) == 1 and single(sts[0][1]) is not None and single(sts[0][1])[0] == 'arg' and single(sts[0][1])[1] == 1 and \
                        len(sts[0][2]) == 32 and all(x == 0 and not isinstance(x, tuple) for x in sts[0][2])
                    r.check(ok, 'free', n, '%s reports success without clearing the header of the entry it was given' % n, t)
                continue
            if 'Template' in n:
                continue
            if not idx:
                if kinds:
                    r.check(rv == ZERO, 'result', '%s: nothing claimed' % n, '%s returns something without having claimed an entry' % n, t)
                    r.check(not sts, 'result', '%s: nothing claimed, nothing stored' % n, '%s stores into the queue although it claims no entry' % n, t)
                continue
            for e in idx:
                _, k, V, facts, at, hl, un = e
                nf = norm(facts)
                E = next((x for x in fields_of(sym, k, Q) if adv(sym, nf, norm(V), x)), None)
                if not r.check(E is not None, 'advance', n, '%s stores an index that is not the claimed position advanced by one stride and wrapped' % n, at):
                    continue
                hdr = [h for h in sts if norm(h[1]) == E]
                hd = lambda x: x[0] == 'ld' and norm(x[1]) == E
                good = bool(hdr)
                for h in hdr:
                    if k == 'qhead':
                        r.check(free_seen(sym, h[3], [E], VALID, ALLOC), 'free-entry', n, '%s claims an entry it has not seen to be free' % n, h[4])
                        good &= is1(h[2], ALLOC) and is0(h[2], VALID)
                    else:
                        r.check(bit_known(h[3], hd, VALID, 1) and bit_known(h[3], hd, ALLOC, 1), 'complete-entry', n,
                                '%s claims an entry it has not seen to be allocated and complete' % n, h[4])
                        good &= is0(h[2], ALLOC) and is1(h[2], VALID)
                r.check(good, 'marked', n, '%s claims an entry without recording the claim in its header' % n, at)
                r.check(not [h for h in sts if norm(h[1]) != E], 'result', n + ': own entry only', '%s stores into something other than the entry it claims' % n, at)
                r.check(rv is not None and norm(rv) == E, 'result', '%s: claimed' % n, '%s does not return the entry it claimed' % n, t)
                if not single_side:
                    need = {x for x in walk(V) if x[0] == 'ld' and (sym.fields.get(x[1]) or ('', ''))[1] in ('qhead', 'qtail')}
                    for h in hdr:
                        need |= {x for x in walk(h[1]) if x[0] == 'ld'}
                        need |= {x for x in walk(h[3]) if x[0] == 'ld' and norm(x[1]) == E}
                    # the tests that decided the claim: at least one read of the entry's header under the lock decides each needed fact
                    lk = hl is not None and norm(hl[0]) == atom(('arg', 0)) and all(h[5] == hl for h in hdr)
                    fresh = {x for x in need if x[2] in un or x[2] == 0}
                    dec = frozenset(fc for fc in facts if all(x in fresh or (sym.fields.get(x[1]) or ('', ''))[1] in F[2:]
                                                              for x in walk(fc) if x[0] == 'ld'))
                    if k == 'qhead':
                        tested = free_seen(sym, dec, [E], VALID, ALLOC)
                    else:
                        tested = bit_known(dec, hd, VALID, 1) and bit_known(dec, hd, ALLOC, 1)
                    pos = all(x in fresh for x in walk((V, tuple(h[1] for h in hdr))) if x[0] == 'ld' and (sym.fields.get(x[1]) or ('', ''))[1] in ('qhead', 'qtail'))
                    r.check(lk and tested and pos, 'exclusive', n,
                            '%s claims an entry %s' % (n, 'without holding the exclusive lock of the queue' if not lk else
                                                       'on the ground of a header test made outside the locked section' if not tested else
                                                       'at a position read outside the locked section'), at)
    r.assume.append('SPHSPMCQ and SPHMPSCQ forms are documented for one producer or one consumer; the transactional-memory build is not analysed (it is not compiled on this machine)')


def is1(b, k):
    return len(b) > k and b[k] == 1 and not isinstance(b[k], tuple)


def is0(b, k):
    return len(b) > k and b[k] == 0 and not isinstance(b[k], tuple)


def adv(sym, facts, V, E):
    N = None
    for st in fields_of(sym, 'default_entry_stride', Q):
        N = addl(E, st)
        for en in fields_of(sym, 'endq', Q):
            if V == N and (ge0(facts, plusc(sub(en, N), -1)) or ne0(facts, sub(N, en))):
                return True
            for s0 in fields_of(sym, 'startq', Q):
                if V == s0 and (ge0(facts, sub(N, en)) or eq0(facts, sub(N, en))):
                    return True
                if V == addl(s0, atom(('op', 'urem', sub(N, s0), sub(en, s0)))):
                    return True
    return False


def free_seen(sym, facts, Es, VALID, ALLOC):
    for f in facts:
        if f[0] == 'eq':
            x = single(f[1]) or single((-f[1][0], frozenset((a, -c) for a, c in f[1][1])))
            if x is not None and x[0] == 'ld' and norm(x[1]) in Es:
                return True
    hd = lambda x: x[0] == 'ld' and norm(x[1]) in Es
    return bit_known(facts, hd, VALID, 0) and bit_known(facts, hd, ALLOC, 0)
