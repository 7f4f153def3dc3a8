"""C22: freeing validates the address (and the size) before free lists, bitmaps or the stack pointer change."""
import re
from sa import common
from sa.sym import Sym, sub, addl, con, atom, eq0, ge0, ge1, ne0, single, plusc, scale, walk, ZERO
from sa.flow import fieldof, fieldpath, strip, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive symbolic dataflow over every call that puts storage on a free list, and every move of a stack pointer, on LLVM IR'
EXPLANATION = ('On every feasible path to a call that puts storage on the free list of a block, to the initialisation of a free node or the clearing of a page, to a bitmap release and to a store of a '
               'stack pointer, the comparisons made on that path must imply that the whole piece lies in the block; the returned status must tell what the path did.')
LIST = 'freeNode_deallocSpace'
TAKE = 'freeNode_allocSpace'
CHK = {'SOMSASCheckBlockSig', 'SOMSASCheckBlockSigAndType', 'SOMSASCheckBlockSigAndTypeAndSubtype'}
TOUCH = {'freeNode_init': 0, LIST: 0}
ST = 'SASSimpleStackHeader'


def below(F, L, banned):
    """L >= 0 known from one comparison that does not mention the atom `banned`"""
    return ge0(frozenset(f for f in F if banned is None or not any(x == banned for x in walk(f))), L)


def ge_sum(F, L):
    """L >= 0 as one fact, or the sum of two"""
    if ge0(F, L):
        return True
    for f in F:
        if f[0] == 'ge' and ge0(F, sub(L, f[1])):
            return True
    return False


def low_bits_clear(sym, F, P, n):
    a = single(P)
    if all(('b', a, k, 0) in F for k in range(n)):
        return True
    for f in F:
        if f[0] == 'eq':
            x = single(f[1]) or single(scale(f[1], -1))
            if x and x[0] == 'op' and x[1] == 'and' and P in x[2]:
                if any(not y[1] and y[0] >= 0 and y[0] & ((1 << n) - 1) == (1 << n) - 1 for y in x[2]):
                    return True
            if x and x[0] == 'op' and x[1] == 'urem' and x[2] == P and not x[3][1] and x[3][0] % (1 << n) == 0:
                return True
    return False


def wants(sym, f):
    return True


def run(r):
    r.rule('inside', 'storage is put on the free list of a block (or gets a free node written into it) only after seeing that it starts behind the block header and ends inside the block', 4)
    r.rule('size', 'storage freed with an explicit size has a size above zero and below the block size, and starts at a multiple of the free-node size', 4)
    r.rule('page', 'a page is cleared and put back only into the block it lies strictly inside, and only if it carries a live header', 4)
    r.rule('own-list', 'a page goes back with the page size of, and onto the free list of, the block it was seen to lie in', 4)
    r.rule('report', 'operations that report a status report success exactly on the paths that freed', 4)
    r.rule('stack', 'the stack pointer of a stack moves only to aligned values between its start and its end', 2)
    r.rule('stack-bounds', 'the bounds of a stack are set by initialisation only, to lie behind the header and inside the block', 1)
    r.rule('bitmap', 'units of a lock-free heap are given back only for an address in the heap, behind its header', 1)
    BS, FS, HDR, NODE, HOFF = common.consts('offsetof(SASBlockHeader, blockSize)', 'offsetof(SASBlockHeader, blockFreeSpace)', 'sizeof(SASBlockHeader)',
                                            'sizeof(struct freeNode)', 'heap_offset')
    nb = NODE.bit_length() - 1
    M = common.lib(cse=True)
    nsites = 0
    for n in sorted(M.fns):
        f = M.fns[n]
        sites = [i for i in f.insts() if i.op == 'call' and i.callee == LIST]
        if sites:
            nsites += len(sites)
            free_lists(r, n, f, sites, BS, FS, HDR, HOFF, nb)
        if any(i.op in ('store', 'cmpxchg', 'atomicrmw') and any(g[0] == ST and g[1] in ('next_stack', 'start_stack', 'end_stack', 'align_mask')
                                                                 for g in fieldpath(i.ops[1] if i.op == 'store' else i.ops[0])) for i in f.insts()):
            stack(r, n, f)
        if any(i.op == 'call' and i.callee in ('bitv_free_marked', 'bitv_free') for i in f.insts()):
            bitmap(r, n, f, BS, M)
    for n in sorted(M.fns):
        if re.match(r'(SAS|SPH)\w*(Free|Dealloc)(In|Near)?(Chk)?(_?[Nn]o_?[Ll]ock)?$', n) and re.search('Heap|Stack|Node|Context|PCQ|Index|BTree', n):
            if getattr(M.fns[n], 'retw', None) == 32 or rets32(M.fns[n]):
                status(r, n, M.fns[n], M)
    r.assume.append('blocks start at multiples of their size and block sizes are multiples of the free-node size (what the region hands out); a header that carries a live signature tells the true size of its block')


def rets32(f):
    return any(i.op == 'ret' and i.ops and (i.ops[0].w or 0) == 32 for i in f.insts())


def free_lists(r, n, f, sites, BS, FS, HDR, HOFF, nb):
    # private lists (free space of an object header) are not reached with addresses of callers
    blocksites = []
    for i in sites:
        g = fieldof(i.ops[1])
        if g and g[1] == 'headerFreeSpace':
            continue
        blocksites.append(i)
    if not blocksites:
        return
    seen = {}

    def piece(sym, i, st, env):
        """(P, X, S, list) of a dealloc call"""
        return sym.lin(i.ops[0], env, st), plusc(sym.lin(i.ops[1], env, st), -FS), sym.lin(i.ops[2], env, st)

    def step(sym, i, st, env):
        u = st.user
        if i.op != 'call' or not i.callee:
            return u
        if i.callee in CHK:
            return frozenset(x for x in u if not (x[0] == 'chk' and x[1] == i.id)) | {('chk', i.id, sym.lin(i.ops[0], env, st), i.callee)}
        if i.callee == TAKE:
            return frozenset(x for x in u if not (x[0] == 'took' and x[1] == i.id)) | {('took', i.id, plusc(sym.lin(i.ops[1], env, st), -FS), sym.lin(i.ops[2], env, st))}
        if i.callee == LIST and i in blocksites:
            seen.setdefault(i.id, []).append((i, piece(sym, i, st, env), st, [x for x in u if x[0] == 'touch'], sym))
            return frozenset(x for x in u if x[0] != 'touch') | {('freed',)}
        if i.callee == 'freeNode_init' or i.callee.startswith('llvm.memset') or i.callee == 'memset':
            return u | {('touch', i, sym.lin(i.ops[0], env, st), st.facts, frozenset(x for x in u if x[0] == 'chk'))}
        return u
    try:
        sym = Sym(f, stable=lambda g: g[1] in ('blockSize', 'pageSize', 'baseBlock', 'heap', 'expandList', '*expandList'), want=wants, step=step, user=frozenset(), prune=True)
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    for sid, evs in seen.items():
        for i, (P, X, Sz), st, touches, sy in evs:
            sa = single(Sz)
            g = sym.field(sa) if sa is not None and sa[0] == 'ld' else None
            bs = atom(('ld', plusc(X, BS), 0))
            took = next((x for x in st.user if x[0] == 'took' and P == atom(('call', x[1]))), None)
            if took is not None and ne0(st.facts, P):
                # storage this very operation took goes back where it came from
                r.check(took[2] == X and took[3] == Sz, 'own-list', n + ': taken', '%s puts storage it took from a block back into another block or with another size' % n, i)
                continue
            pts = [(i, st.facts, frozenset(x for x in st.user if x[0] == 'chk'))] + [(t[1], t[3], t[4]) for t in touches if t[2] == P]
            for at, F, chks in pts:
                own = {x[1]: x for x in chks}
                checked = lambda V: any(x[2] == V and ('ne', canon1(x[1])) in F or x[2] == V and ne0(F, atom(('call', x[1]))) for x in chks)
                typed = any(x[3] != 'SOMSASCheckBlockSig' and x[2] == X and ne0(F, atom(('call', x[1]))) for x in chks)
                if g and g[1] == 'pageSize':
                    base = sa[1]
                    r.check(ge0(F, plusc(sub(P, X), -1)) and ge0(F, plusc(sub(addl(X, bs), P), -1)), 'page', n, '%s puts a page back into a block without seeing that it lies inside that block (and is not the block itself)' % n, at)
                    r.check(checked(P), 'page', n + ': header', '%s clears a page that was not seen to carry a live header' % n, at)
                    if at is i:
                        d = sub(base, X)
                        r.check(not d[1] and d[0] >= 0, 'own-list', n, '%s puts a page back with the page size of another block' % n, at)
                    continue
                lo = HOFF if typed else HDR
                pa = single(P)
                r.check(ge_sum(F, plusc(sub(P, X), -lo)), 'inside', n + ': start', '%s frees storage that may start before the data of the block' % n, at)
                r.check(ge_sum(F, sub(addl(X, bs), addl(P, Sz))), 'inside', n + ': end', '%s frees storage that may end behind the block' % n, at)
                r.check(below(F, plusc(sub(bs, Sz), -1), pa), 'size', n + ': upper', '%s frees storage of a size not seen to be below the block size' % n, at)
                r.check(ne0(F, Sz) or ge0(F, plusc(Sz, -1)), 'size', n + ': zero', '%s frees storage of size zero: the free node is written over memory that is not the caller\'s' % n, at)
                r.check(low_bits_clear(sy, F, P, nb), 'size', n + ': aligned', '%s frees storage at an address that is no multiple of the free-node size' % n, at)


def canon1(cid):
    from sa.sym import canon
    return canon(atom(('call', cid)))


def flds(sym, fn):
    return [atom(('ld', A, 0)) for A, g in sym.fields.items() if g == (ST, fn)]


def stack(r, n, f):
    def step(sym, i, st, env):
        if i.op in ('store', 'cmpxchg', 'atomicrmw'):
            p = i.ops[1] if i.op == 'store' else i.ops[0]
            g = next((x for x in fieldpath(p) if x[0] == ST), None)
            if g and g[1] in ('next_stack', 'start_stack', 'end_stack', 'align_mask'):
                return st.user | {(g[1], sym.lin(i.ops[0 if i.op == 'store' else 1], env, st), sym.lin(p, env, st), st.facts, i)}
        if i.op == 'call' and i.callee and i.callee.startswith('initSOMSASBlock'):
            return st.user | {('init', sym.lin(i.ops[2], env, st), sym.lin(i.ops[0], env, st), st.facts, i)}
        return st.user
    try:
        sym = Sym(f, stable=lambda g: g[0] == ST and g[1] != 'next_stack', step=step, user=frozenset())
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    for t, st, env in sym.exits:
        d = {}
        for e in st.user:
            d.setdefault(e[0], []).append(e)
        if 'start_stack' in d or 'end_stack' in d or 'align_mask' in d:
            ok = 'Init' in n and 'start_stack' in d and 'end_stack' in d
            e0 = (d.get('start_stack') or d.get('end_stack') or d.get('align_mask'))[0]
            r.check(ok, 'stack-bounds', n, '%s changes the bounds of a stack' % n, e0[4])
            if not ok:
                continue
            s, e = d['start_stack'][0], d['end_stack'][0]
            if 'init' in d:
                X, size = d['init'][0][2], d['init'][0][1]
                k = sub(s[1], X)
                r.check(not k[1] and k[0] >= common.consts('sizeof(SASBlockHeader)')[0], 'stack-bounds', n + ': start', 'the stack starts inside the header of its block', s[4])
                k = sub(addl(X, size), e[1])
                r.check(not k[1] and k[0] >= 0, 'stack-bounds', n + ': end', 'the stack ends behind its block', e[4])
                for x in d.get('next_stack', []):
                    r.check(x[1] == s[1], 'stack', n, 'a new stack does not start at its start', x[4])
            continue
        starts, ends, masks = flds(sym, 'start_stack'), flds(sym, 'end_stack'), flds(sym, 'align_mask')
        for e in d.get('next_stack', []):
            F, V = e[3], e[1]
            if V in starts:
                r.ok('stack', n)
                continue
            nexts = [atom(x) for x in set(y for q in F for y in walk(q)) | set(walk(V)) if x[0] == 'ld' and x[1] == e[2]]
            va = single(V)
            # what the aligned value was made from
            made = [x for x in va[2] if x not in masks] if va and va[0] == 'op' and va[1] == 'and' and any(m in va[2] for m in masks) else []
            aligned = bool(made) or any(q[0] == 'eq' and same(q[1], V, m) for q in F for m in masks)
            r.check(any(ge1(F, sub(en, V)) for en in ends), 'stack', n + ': end', '%s moves the stack pointer without seeing that it stays at or before the end of the stack' % n, e[4])
            lo = any(ge1(F, sub(V, x)) for x in starts + nexts)
            for x in made:
                # V = x and V == x on this path
                if eq0(F, sub(x, V)) and any(ge1(F, sub(x, y)) for y in starts):
                    lo = True
                # V = (next + size + round) & mask where the size was seen to fit behind next
                for q in nexts:
                    for m in masks:
                        rest = sub(x, q)
                        sizes = [addl(plusc(rest, 1), m)]
                        for a, c in rest[1]:
                            if c == 1 and a[0] == 'op' and a[1] == 'xor' and m in a[2]:
                                sizes.append(sub(rest, atom(a)))
                        for sz in sizes:
                            if any(ge1(F, sub(sub(en, q), sz)) for en in ends):
                                lo = True
            r.check(lo, 'stack', n + ': start', '%s moves the stack pointer without seeing that it stays at or behind the start of the stack (or that the size fits)' % n, e[4])
            r.check(aligned, 'stack', n + ': aligned', '%s moves the stack pointer to a value that may be unaligned' % n, e[4])


def same(L, V, m):
    """L is (V & m) - V or its negative"""
    for M in (L, scale(L, -1)):
        a = single(addl(M, V))
        if a and a[0] == 'op' and a[1] == 'and' and m in a[2] and V in a[2]:
            return True
    return False


def bitmap(r, n, f, BS, M):
    H = 'SPHLockFreeHeapHeader'

    def step(sym, i, st, env):
        if i.op == 'call' and i.callee in ('bitv_free_marked', 'bitv_free'):
            return st.user | {(i, sym.lin(i.ops[-1], env, st), sym.lin(i.ops[0], env, st), st.facts)}
        return st.user
    try:
        sym = Sym(f, stable=lambda g: g[1] in ('blockSize', 'vec_cnt', 'alloc_vec', 'endmrk_vec'), step=step, user=frozenset())
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    lay = {m.split('.')[0]: o for o, m in sorted(M.structs[H].items(), reverse=True)}
    VB, CB, W = lay['vecbuf'], lay['bitv_cb'], 8
    for t, st, env in sym.exits:
        for i, off, cb, F in st.user:
            X = plusc(cb, -CB)
            bs = atom(('ld', plusc(X, BS), 0))
            cnts = [atom(('ld', A, 0)) for A, g in sym.fields.items() if g[1] == 'vec_cnt']
            ends = [atom(('ld', A, 0)) for A, g in sym.fields.items() if g[1] == 'endmrk_vec']
            hdrs = [plusc(scale(c, 2 * W), VB) for c in cnts] + [addl(sub(e, X), scale(c, W)) for e in ends for c in cnts]
            r.check(any(ge0(F, sub(off, h)) for h in hdrs), 'bitmap', n + ': header', '%s gives back units that may belong to the header of the heap' % n, i)
            P = atom(('arg', 1))
            inside = ge_sum(F, sub(P, X)) and ge_sum(F, plusc(sub(addl(X, bs), P), -1))
            oa = single(off)
            if oa and oa[0] == 'op' and oa[1] == 'and' and plusc(bs, -1) in oa[2]:
                p2 = [x for x in oa[2] if x != plusc(bs, -1)]
                for q in F:
                    if q[0] == 'eq':
                        a = single(q[1]) or single(scale(q[1], -1))
                        if a and a[0] == 'op' and a[1] == 'and' and any(isx(x, p2, X) for x in a[2]) and any(isnot(x, plusc(bs, -1)) for x in a[2]):
                            inside = True
            r.check(inside, 'bitmap', n + ': inside', '%s gives back units for an address not seen to lie in the heap' % n, i)


def isx(x, ps, X):
    a = single(x)
    return a is not None and a[0] == 'op' and a[1] == 'xor' and X in a[2] and any(p in a[2] for p in ps)


def isnot(x, y):
    a = single(x)
    if x == plusc(scale(y, -1), -1):
        return True
    return a is not None and a[0] == 'op' and a[1] == 'xor' and y in a[2] and con(-1) in a[2] or a is not None and a[0] == 'op' and a[1] == 'xor' and y in a[2] and any(not z[1] and z[0] in (-1, (1 << 64) - 1) for z in a[2])


def status(r, n, f, M):
    changing = {LIST, 'bitv_free_marked', 'bitv_free'}

    def step(sym, i, st, env):
        if i.op == 'call' and i.callee:
            if i.callee in changing:
                return st.user | {('did', i.id, i.callee)}
            if re.search('(Free|Dealloc)', i.callee) and i.callee in M.fns:
                return st.user | {('sub', i.id)}
        if i.op == 'store':
            if any(g[0] == ST and g[1] == 'next_stack' for g in fieldpath(i.ops[1])):
                return st.user | {('did', i.id, 'store')}
        return st.user
    try:
        sym = Sym(f, step=step, user=frozenset())
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    for t, st, env in sym.exits:
        if not t.ops:
            continue
        v = sym.lin(t.ops[0], env, st)
        did = [x for x in st.user if x[0] == 'did']
        subs = [x for x in st.user if x[0] == 'sub']
        ok = None
        if not v[1]:
            if did:
                worked = all(x[2] in (LIST, 'store') or eq0(st.facts, atom(('call', x[1]))) for x in did)
                ok = (v[0] == 0) == worked
            elif subs:
                known0 = any(eq0(st.facts, atom(('call', x[1]))) for x in subs)
                ok = v[0] != 0 and not known0 and any(ne0(st.facts, atom(('call', x[1]))) for x in subs) or v[0] == 0 and known0
            else:
                ok = v[0] != 0
        else:
            a = single(v)
            if a and a[0] == 'call' and any(x[1] == a[1] for x in subs):
                ok = True
            elif a and a[0] == 'call' and any(x[1] == a[1] for x in did):
                ok = True
            else:
                ok = False
        r.check(ok, 'report', n, '%s returns %s on a path that %s' % (n, 'success' if v == ZERO else 'its status', 'changed nothing' if not did and not subs else 'freed'), t)
