"""C10: entries are published after their contents and freed after their last use."""
import re
from sa import common
from sa.sym import Sym, sub
from sa.flow import fieldpath, fieldof, TooBig, addr

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive dataflow over entry-header stores, their bit contents and the fences around them, on LLVM IR'
EXPLANATION = ('Every store to the header word of a queue or log entry is found by its member path; its value is evaluated bit by bit on every feasible path. '
               'A store that sets the complete mark must follow a fence with no later store in between, must leave the other bits as read from the same word '
               '(or as given by the template), and a store that clears the mark and the allocation must be ordered after the reads of the contents.')
HDRS = ('SPHLFEntryHeader_t', 'SPHLFLogHeader_t')
ATOMIC = re.compile(r'^sas_(compare_and_swap|fetch_and_|atomic_|spin_)|^__sync_|^SASLock$|^SASUnlock$')


def headers_of(M):
    """(function, header stores) of every function that stores into an entry header word"""
    out = {}
    for n, f in M.fns.items():
        for i in f.insts():
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                p = i.ops[1] if i.op == 'store' else i.ops[0]
                if any(x[0] in HDRS and x[1] == 'entryID' for x in fieldpath(p)):
                    out.setdefault(n, []).append(i)
    return out


def is_fence(i):
    if i.op == 'fence':
        return True
    if i.op in ('cmpxchg', 'atomicrmw'):
        return True
    if i.op == 'call':
        if i.callee and ATOMIC.match(i.callee):
            return True
        if i.asm and 'memory' in i.asm and not re.search(r'asm (sideeffect )?""', i.asm):
            return True
    return False


def masks():
    f = ['detail.valid', 'detail.timestamped', 'detail.allocated', 'detail.category', 'detail.subcat', 'detail.len']
    return common.bitmasks('sphLFEntry_t', 'idUnit', f)


def bitno(m):
    return m.bit_length() - 1


def run(r):
    r.rule('whole-word', 'the header word is changed by stores of the whole word', 12)
    r.rule('one-store', 'an operation changes the header word of an entry at most once', 12)
    r.rule('publish-barrier', 'a store that sets the complete mark follows a barrier, with no other store in between', 4)
    r.rule('publish-keep', 'a store that sets the complete mark keeps the other bits of the word (or takes them from the template)', 4)
    r.rule('free-barrier', 'freeing an entry is ordered after the reads of its contents: a barrier before the header is cleared, or before the tail moves past it', 2)
    r.rule('free-order', 'an entry is marked free before the tail moves past it', 2)
    r.rule('completers', 'every completion operation of the interface sets the complete mark on some path', 4)
    B = masks()
    VALID, ALLOC = bitno(B['valid']), bitno(B['allocated'])
    M = common.lib(headers=True, raw=True)
    hs = headers_of(M)
    sets = set()
    resets = {n for n, f in M.fns.items() if {g[1] for i in f.insts() if i.op == 'store' for g in fieldpath(i.ops[1])} >= {'qhead', 'qtail'}}
    for n in sorted(hs):
        cs = {g for g, f in M.fns.items() for i in f.insts() if i.op == 'call' and i.callee == n}
        if cs and cs <= resets:
            resets.add(n)
    for n in sorted(hs):
        f = M.fns[n]
        # initialisation and reset place both ends of the queue: nobody holds an entry
        if n in resets:
            r.ok('one-store', n)
            continue
        log = {i.id for i in hs[n] if any(x == ('SPHLFLogHeader_t', 'entryID') for x in fieldpath(i.ops[1] if i.op == 'store' else i.ops[0]))}
        for i in hs[n]:
            w = i.ops[0].w if i.op == 'store' else i.w or 32
            p = i.ops[1] if i.op == 'store' else i.ops[0]
            r.check(i.op != 'store' or w == 32, 'whole-word', n, '%s changes only part of an entry header' % n, i)
        mine = {i.id for i in hs[n]}
        # user: (fence seen since the last store, fence seen at all, events)

        def step(sym, i, st, env):
            dirty, any_f, ev = st.user
            if is_fence(i):
                return (False, True, ev | {('fence', len(ev), i)} if len(ev) else ev)
            if i.op == 'store':
                if i.id in mine:
                    A = sym.lin(i.ops[1], env, st)
                    bare = st._replace(facts=frozenset())
                    b = tuple(sym.bits(i.ops[0], env, bare))
                    return (True, any_f, ev | {('hdr', len(ev), i, A, b, not dirty and any_f)})
                g = fieldof(i.ops[1])
                if g and g[1] in ('qtail',):
                    return (True, any_f, ev | {('tail', len(ev), i, any_f)})
                if addr(i.ops[1])[0].op == 'alloca':
                    return st.user
                return (True, any_f, ev)
            if i.op == 'call' and i.callee and i.callee in M.fns and not i.callee.startswith(('SOMSAS', 'sas_')):
                return (True, any_f, ev)
            return st.user
        try:
            sym = Sym(f, stable=lambda g: True, want=lambda s, x: x[0] == 'b', step=step, user=(False, False, frozenset()))
        except TooBig:
            r.fail('%s: too many paths' % n)
            continue
        seen = set()
        for t, st, env in sym.exits:
            ev = sorted(st.user[2], key=lambda e: e[1])
            hdr = [e for e in ev if e[0] == 'hdr']
            if not hdr:
                continue
            r.check(len({e[2].id for e in hdr}) == 1 or len({e[3] for e in hdr}) == len(hdr), 'one-store', n,
                    '%s changes the header word of an entry more than once' % n, hdr[-1][2])
            for e in hdr:
                b = e[4]
                if len(b) < 32:
                    continue
                i = e[2]
                if b[VALID] == 1 and not isinstance(b[VALID], tuple):
                    sets.add(n)
                    if 'Weak' not in n:
                        r.check(e[5] or i.ord >= 5, 'publish-barrier', n, '%s marks the entry complete without a barrier after the last store before it' % n, i)
                    keep = True
                    for k, x in enumerate(b):
                        if k == VALID:
                            continue
                        own = isinstance(x, tuple) and (x[0][0] == 'ld' and x[0][1] == e[3] and x[1] == k or x[0][0] == 'arg')
                        keep &= own
                    r.check(keep, 'publish-keep', n, '%s changes other bits of the header when it marks the entry complete' % n, i)
                elif i.id not in log and b[VALID] == 0 and b[ALLOC] == 0 and not isinstance(b[VALID], tuple) and not isinstance(b[ALLOC], tuple):
                    later = [x for x in ev if x[0] == 'tail' and x[1] > e[1]]
                    r.check(not [x for x in ev if x[0] == 'tail' and x[1] < e[1]], 'free-order', n,
                            '%s moves the tail past the entry before it is marked free' % n, i)
                    okb = later[-1][3] if later else fence_before(ev, e, st)
                    r.check(okb or i.ord >= 5, 'free-barrier', n, '%s marks the entry free without a barrier that orders the reads of its contents before' % n, i)
    for n in sorted(M.fns):
        if re.search(r'(?<!Is)(?<!Next)(?<!Weak)Complete$', n) and re.match(r'SPH(LF|Single|Log)', n):
            callees = {i.callee for i in M.fns[n].insts() if i.op == 'call'}
            r.check(n in sets or bool(callees & sets), 'completers', n, '%s never sets the complete mark' % n, n)
    r.assume.append('operations with Weak in their name are documented to order nothing')


def fence_before(ev, e, st):
    """was a barrier passed before the header store?"""
    return e[5]
