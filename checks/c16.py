"""C16: lock-free heaps - the allocation bitmap is changed only by atomic operations, claims are tested and match what is returned."""
from sa import common
from sa.sym import Sym, sub, addl, con, atom, eq0, ge0, ne0, single, plusc, scale, walk, ZERO
from sa.flow import fieldof, strip, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: interprocedural pointer-role propagation plus path-sensitive symbolic dataflow on LLVM IR'
EXPLANATION = ('Every pointer into the unit bitmap or the end-mark bitmap of a lock-free heap is followed through calls; each write through one is classified, and on every path '
               'to a claim, to a release and to a return the compared value, the claimed mask, the tested outcome, the end mark and the returned offset are related symbolically.')
H = 'SPHLockFreeHeapHeader'
ROLES = {'alloc_vec': 'units', 'endmrk_vec': 'ends'}
ATOMIC_CALLS = {'sas_fetch_and_or_long': 'or', 'sas_fetch_and_and_long': 'and', 'sas_fetch_and_or': 'or', 'sas_fetch_and_and': 'and'}
MINT = 1 << 63


def roots(v, role, seen=None):
    """roles of the pointer v: units / ends"""
    seen = set() if seen is None else seen
    out = set()
    todo = [v]
    while todo:
        v = strip(todo.pop())
        if v.id in seen:
            continue
        seen.add(v.id)
        if v.k == 'arg':
            out |= role.get(v.idx, set())
        elif v.k in ('inst', 'cexpr'):
            if v.op == 'gep':
                f = fieldof(v)
                if f and f[0] == H and f[1].startswith('vecbuf'):
                    out |= {'units', 'ends'}
                todo.append(v.ops[0])
            elif v.op in ('phi', 'select'):
                todo += list(v.ops)
            elif v.op == 'load':
                f = fieldof(v.ops[0])
                if f and f[0] == H and f[1] in ROLES:
                    out.add(ROLES[f[1]])
            elif v.op in ('add', 'sub', 'inttoptr', 'ptrtoint'):
                todo += list(v.ops)
    return out


def uses_cb(f):
    """argument index of the bitv_cb_t of f"""
    for i in f.insts():
        if i.op == 'load':
            g = fieldof(i.ops[0])
            if g and g[0] == 'bitv_cb_t':
                b = strip(i.ops[0])
                while b.k == 'inst' and b.op == 'gep':
                    b = strip(b.ops[0])
                if b.k == 'arg':
                    return b.idx
    return None


def all_roles(M):
    R = {n: {} for n in M.fns}
    for n, f in M.fns.items():
        if any(i.op == 'cmpxchg' for i in f.insts()):
            cb = uses_cb(f)
            if cb is None:
                continue
            for i in f.insts():
                if i.op == 'cmpxchg':
                    b = strip(i.ops[0])
                    if b.k == 'arg' and b.idx != cb:
                        R[n].setdefault(b.idx, set()).add('units')
    ch = True
    while ch:
        ch = False
        for n, f in M.fns.items():
            for i in f.insts():
                if i.op == 'call' and i.callee in M.fns and i.callee not in ATOMIC_CALLS:
                    for k, o in enumerate(i.ops[:len(M.fns[i.callee].args)]):
                        if o.k in ('const', 'null', 'func'):
                            continue
                        s = roots(o, R[n])
                        if s - R[i.callee].get(k, set()):
                            R[i.callee].setdefault(k, set()).update(s)
                            ch = True
    return R


def andparts(L):
    x = single(L)
    return set(x[2]) if x and x[0] == 'op' and x[1] == 'and' else set()


def complement(L):
    """m when L is ~m"""
    x = single(L)
    if x and x[0] == 'op' and x[1] == 'xor' and con(-1) in x[2]:
        r = set(x[2]) - {con(-1)}
        return r.pop() if len(r) == 1 else None
    if x is None and L[0] == -1 and len(L[1]) == 1 and next(iter(L[1]))[1] == -1:
        return atom(next(iter(L[1]))[0])
    return None


def cleared(new, cur):
    """mask m with new = cur without m, or None"""
    ps = andparts(new)
    if cur in ps:
        for p in ps - {cur}:
            m = complement(p)
            if m is not None:
                return m
    x = single(new)
    if x and x[0] == 'op' and x[1] == 'xor' and cur in x[2] and len(x[2]) == 2:
        return (set(x[2]) - {cur}).pop()
    d = sub(cur, new)
    return d if single(d) else None


def run(r):
    r.rule('atomic', 'the unit and end-mark words of a heap are written only by atomic operations once the heap has been set up', 6)
    r.rule('fresh', 'plain writes to the bitmap are made only while the block is being set up', 1)
    r.rule('claim', 'units are claimed by a compare-and-swap that only clears bits, all of which were seen free in the very value it compares against', 2)
    r.rule('tested', 'an offset is returned exactly on the paths on which one compare-and-swap succeeded', 2)
    r.rule('offset', 'the returned offset is the position of the claimed mask in the word', 0)
    r.rule('size', 'the claimed mask is as long as the requested size rounded up to units', 0)
    r.rule('mark', 'a marked claim sets its end mark after, and only after, the claim succeeded', 1)
    r.rule('release', 'freeing gives units back only after finding a set unit and an end mark, and clears the end mark before the units become free', 1)
    r.rule('release-range', 'units are given back only when they fit in their word, and giving back units that were already free is reported', 1)
    r.rule('same-word', 'the unit word and the end-mark word used together have the same index, which is below the word count, and the returned address uses that index', 3)
    r.rule('nonzero', 'a request reaches the bitmap only with a size above zero and below the most a word can give', 2)
    M = common.lib(headers=True)
    R = all_roles(M)
    for n, f in sorted(M.fns.items()):
        if n in ATOMIC_CALLS:
            continue
        fresh = any(i.op == 'call' and i.callee == 'initSOMSASBlock' for i in f.insts())
        for i in f.insts():
            k = None
            if i.op == 'store':
                rs = roots(i.ops[1], R[n])
                if rs:
                    r.check(fresh, 'fresh' if fresh else 'atomic', '%s writes %s' % (n, '/'.join(sorted(rs))), '%s writes the allocation bitmap with a plain store' % n, i)
            elif i.op in ('cmpxchg', 'atomicrmw') and roots(i.ops[0], R[n]):
                r.ok('atomic', '%s: %s' % (n, i.op))
            elif i.op == 'call' and i.callee in ATOMIC_CALLS and roots(i.ops[0], R[n]):
                r.ok('atomic', '%s: %s' % (n, i.callee))
            elif i.op == 'call' and i.callee and i.callee.startswith(('llvm.mem', 'mem')) and i.ops and roots(i.ops[0], R[n]):
                r.check(fresh, 'atomic', '%s: %s' % (n, i.callee), '%s overwrites the allocation bitmap' % n, i)
    claims(r, M, R)
    releases(r, M, R)
    users(r, M, R)
    return 'LLVM IR of all library sources'


def intphis(b):
    return [i for i in b.insts if i.op == 'phi' and i.w and i.w <= 64]


def claims(r, M, R):
    for n, f in sorted(M.fns.items()):
        cx = [i for i in f.insts() if i.op == 'cmpxchg' and 'units' in roots(i.ops[0], R[n])]
        if not cx:
            continue
        cxid = {i.id for i in cx}
        ends = any('ends' in s for s in R[n].values())

        def step(sym, i, st, env):
            if i.id in cxid:
                cur, new = sym.lin(i.ops[1], env, st), sym.lin(i.ops[2], env, st)
                word = sym.lin(i.ops[0], env, st)
                if cur == ZERO:
                    return None     # nothing free was seen: the guard cannot have held
                m = cleared(new, cur)
                ok = m is not None and (eq0(st.facts, sub(atom(('op', 'and', frozenset((cur, m)))), m)) or
                                        eq0(st.facts, atom(('op', 'and', frozenset((atom(('op', 'xor', frozenset((cur, con(-1))))), m))))))
                x = single(cur)
                src = x is not None and (x[0] == 'ld' and x[1] == word or x[0] == 'i')
                r.check(ok and src, 'claim', n, '%s claims units that it has not seen free in the value it compares against' % n, i)
                return frozenset(e for e in st.user if e[1] != i.id) | {('try', i.id, m, cur)}
            if i.op == 'extractvalue':
                o = strip(i.ops[0])
                if o.k == 'inst' and o.id in cxid:
                    return st.user | {('got', o.id, i.id, i.w)}
            a, k = None, None
            if i.op == 'call' and i.callee in ATOMIC_CALLS:
                a, k, v = i.ops[0], ATOMIC_CALLS[i.callee], i.ops[1]
            elif i.op == 'atomicrmw':
                a, k, v = i.ops[0], i.rmw, i.ops[1]
            if a is not None and 'ends' in roots(a, R[n]):
                won = list({e[1] for e in wins(st, env)})
                m = [e[2] for e in st.user if e[0] == 'try' and e[1] in won]
                V = sym.lin(v, env, st)
                dep = bool(m) and any(y in walk_forms(V) for y in m)
                r.check(k == 'or' and len(won) == 1 and dep, 'mark', n + ': after the claim', '%s sets an end mark without having claimed the units it marks' % n, i)
                return st.user | {('mark', i.id)}
            return st.user
        masks = {}          # block -> mask phis of that block
        for c in cx:
            m = maskval(f, c)
            if m is not None and m.k == 'inst' and m.op == 'phi':
                masks.setdefault(next(b for b in f.blocks if m in b.insts), set()).add(m)

        def edge(b, su, st, env):
            """remember wins; is each counter of the loop moved in step with the mask?"""
            for e in wins(st, env):
                if ('won', e[1]) not in st.user:
                    st = st._replace(user=st.user | {('won', e[1])})
            ids = {('i', p.id) for p in su.insts if p.op == 'phi'}
            gone = [e for e in st.user if e[0] == 'try' and e[3] is not None and any(x in ids for x in walk(e[3]))]
            if gone:                    # what it compared against has a new value now: it can no longer be seen to have won
                st = st._replace(user=st.user - set(gone) | {e[:3] + (None,) for e in gone})
            for m in masks.get(su, ()):
                new, old = incoming(m, b), sym_[0].lin(m, env, st)
                if new is None:
                    continue
                back = b.rpo >= su.rpo
                N = sym_[0].lin(new, env, st)
                for c in intphis(su):
                    if c is m:
                        continue
                    C = sym_[0].lin(incoming(c, b), env, st)
                    x = single(N)
                    if back:
                        k = ZERO if N == old else x[3] if x and x[0] == 'op' and x[1] == 'lshr' and x[2] == old else None
                        good = k is not None and sub(C, sym_[0].lin(c, env, st)) == k
                        if not good:
                            st = st._replace(user=st.user | {('off', m.id, c.id)})
                    else:
                        good = x and x[0] == 'op' and x[1] == 'lshr' and x[3] == C or C == ZERO
                        u = frozenset(e for e in st.user if e != ('off', m.id, c.id))
                        st = st._replace(user=u if good else u | {('off', m.id, c.id)})
            return st
        sym_ = [None]
        try:
            sym = Sym.__new__(Sym)
            sym_[0] = sym
            sym.__init__(f, step=step, edge=edge, user=frozenset(), want=lambda sy, x: x[0] != 'b')
        except TooBig:
            r.fail('%s: too many paths' % n)
            continue
        for t, st, env in sym.exits:
            if not t.ops:
                continue
            rv = sym.lin(t.ops[0], env, st)
            won = wins(st, env)
            if not won:
                r.check(rv == con(-1), 'tested', n + ': nothing claimed', '%s returns an offset although no claim succeeded' % n, t)
                continue
            r.check(rv != con(-1), 'tested', n + ': claimed', '%s claims units and reports failure' % n, t)
            if rv == con(-1):
                continue
            if ends:
                r.check(any(e[0] == 'mark' for e in st.user), 'mark', n + ': marked', '%s returns claimed units without an end mark' % n, t)
            cxi = next(i for i in cx if i.id == won[0][1])
            offset(r, sym, f, n, cxi, t, st, env)


def wins(st, env):
    """the claims known to have succeeded: their flag was seen set, or the old value was seen to be the expected one"""
    out = []
    for e in st.user:
        if e[0] == 'won':
            out.append(e)
        if e[0] != 'got' or ('won', e[1]) in st.user:
            continue
        if e[3] == 1:
            v = env.get(e[2])
            if v is not None and (v[0] == '=' and v[1] != 0 or v[0] == '!' and 0 in v[1]):
                out.append(e)
        else:
            cur = next((x[3] for x in st.user if x[0] == 'try' and x[1] == e[1]), None)
            if cur is not None and eq0(st.facts, sub(atom(('i', e[2])), cur)):
                out.append(e)
    return out


def walk_forms(L):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], frozenset):
                out.add(x)
                for a, c in x[1]:
                    out.add(atom(a))
                    go(a)
            else:
                for y in x:
                    go(y)
        elif isinstance(x, frozenset):
            for y in x:
                go(y)
    go(L)
    return out


def maskval(f, cxi):
    """the instruction value of the claimed mask: the not-ed side of the new value"""
    v = strip(cxi.ops[2])
    c = strip(cxi.ops[1])
    if v.k == 'inst' and v.op == 'and':
        for o in v.ops:
            o = strip(o)
            if o.k == 'inst' and o.op == 'xor':
                return next((strip(q) for q in o.ops if strip(q).k != 'const'), None)
    if v.k == 'inst' and v.op in ('xor', 'sub'):
        return next((strip(q) for q in v.ops if strip(q) is not c), None)
    return None


def incoming(p, b):
    return next((v for v, bb in p.inc if bb is b), None)


def moves(v, ids, fixed):
    todo, seen = [v], set()
    while todo:
        v = strip(todo.pop())
        if v.id in seen or v.id in fixed:
            continue
        seen.add(v.id)
        if v.id in ids:
            return True
        if v.k == 'inst':
            todo += [o for o in v.ops if o.k == 'inst']
    return False


def offset(r, sym, f, n, cxi, t, st, env):
    m = maskval(f, cxi)
    leaves = []
    x = sym.res(t.ops[0], env, st)
    todo, seen = [x], set()
    while todo:
        x = strip(todo.pop())
        if x.id in seen or x.k in ('const', 'null'):
            continue
        seen.add(x.id)
        if x.k == 'inst' and x.op in ('phi', 'sext', 'zext', 'trunc'):
            todo += list(x.ops)
        elif x.k == 'inst' and x.op == 'select':
            todo += list(x.ops[1:])
        else:
            leaves.append(x)
    for x in leaves:
        pos = strip(x.ops[0]) if x.k == 'inst' and x.op in ('shl', 'mul') else None
        if m is None or pos is None:
            r.assume.append('%s: the claimed mask or its position is not recognised' % n)
        else:
            offset1(r, sym, f, n, m, pos, t, st, env)


def offset1(r, sym, f, n, m, pos, t, st, env):
    base = None
    blk = next((b for b in f.blocks if m in b.insts), None)
    if m.k == 'inst' and m.op == 'phi':
        while pos.k == 'inst' and pos.op in ('zext', 'sext', 'trunc'):
            pos = strip(pos.ops[0])
        if pos in intphis(blk):
            good = ('off', m.id, pos.id) not in st.user
        elif moves(pos, {p.id for p in intphis(blk)}, {i.id for b in f.blocks if b.rpo < blk.rpo for i in b.insts}):
            r.assume.append('%s: the returned position is computed in a way the rule does not follow' % n)
            return
        else:
            good = False
        r.check(good, 'offset', n, '%s returns an offset that does not follow the position of the mask it claims' % n, t)
        for v, b in m.inc:
            v = strip(v)
            if b.rpo < blk.rpo:
                base = strip(v.ops[0]) if v.k == 'inst' and v.op == 'lshr' else v
    elif m.k == 'inst' and m.op == 'lshr':
        base = strip(m.ops[0])
        r.check(sym.lin(m.ops[1], env, st) == sym.lin(pos, env, st), 'offset', n, '%s returns an offset that is not the position of the mask it claims' % n, t)
    else:
        r.assume.append('%s: the claimed mask is computed in a way the rule does not follow' % n)
        return
    if base is not None:
        B = single(sym.lin(base, env, st))
        if B and B[0] == 'op' and B[1] == 'ashr':
            U = plusc(B[3], 1)
            u = single(U)
            good = u is not None and u[0] == 'op' and u[1] in ('lshr', 'udiv') and any(y[0] == 'ld' and (sym.fields.get(y[1]) or ('', ''))[1] == 'alloc_mask' for y in walk(u[2])) and \
                B[2][0] in (MINT, -MINT) and not B[2][1]
            r.check(good, 'size', n, '%s claims a mask that is not the requested size rounded up to units' % n, t)
        else:
            r.assume.append('%s: the length of the claimed mask is computed in a way the rule does not follow' % n)


def releases(r, M, R):
    for n, f in sorted(M.fns.items()):
        rel = {}
        for i in f.insts():
            a = None
            if i.op == 'call' and i.callee in ATOMIC_CALLS:
                a, k = i.ops[0], ATOMIC_CALLS[i.callee]
            elif i.op == 'atomicrmw':
                a, k = i.ops[0], i.rmw
            if a is None:
                continue
            rs = roots(a, R[n])
            if 'units' in rs or 'ends' in rs:
                rel[i.id] = ('units' if 'units' in rs else 'ends', k)
        gives = [k for k, v in rel.items() if v[0] == 'units' and v[1] != 'and']
        if not gives:
            continue
        marked = any('ends' in s for s in R[n].values())

        def step(sym, i, st, env):
            if i.id not in rel:
                return st.user
            role, k = rel[i.id]
            if role == 'ends':
                r.check(not any(e[0] == 'give' for e in st.user), 'release', n + ': mark while owned', '%s changes an end mark after the units were given back' % n, i)
                r.check(k == 'and', 'release', n + ': end mark cleared', '%s does not clear the end mark of what it frees' % n, i)
                return st.user | {('end', i.id)}
            m = sym.lin(i.ops[1], env, st)
            fit = any(x[0] == 'ge' and x[1][0] == 64 and sum(1 for _, c in x[1][1] if c < 0) >= 1 or
                      x[0] == 'ge' and x[1][0] in (63, 64) for x in st.facts)
            r.check(k == 'or' and fit, 'release-range', n + ': fits', '%s gives back units without checking that they lie in one word' % n, i)
            if marked:
                # the end mark was seen, the first unit was seen allocated
                ends = [x for x in st.facts if x[0] == 'ne' and any(y[0] == 'ld' and single(y[1]) is not None and single(y[1])[0] == 'arg' and
                                                                   'ends' in R[n].get(single(y[1])[1], ()) for y in walk(x))]
                unit = [x for x in st.facts if (x[0] == 'eq' and any(y[0] == 'op' and y[1] in ('and', 'lshr') for y in walk(x)) or x[0] == 'b' and x[3] == 0 or x[0] == 'ge')
                        and any(y[0] == 'ld' and single(y[1]) is not None and single(y[1])[0] == 'arg' and 'units' in R[n].get(single(y[1])[1], ()) for y in walk(x))]
                r.check(bool(ends), 'release', n + ': end mark seen', '%s gives back units without having found an end mark' % n, i)
                r.check(bool(unit), 'release', n + ': unit in use', '%s gives back units without having checked that the first one is allocated' % n, i)
                r.check(any(e[0] == 'end' for e in st.user), 'release', n + ': mark first', '%s makes units free before their end mark is cleared' % n, i)
            return st.user | {('give', i.id)}
        try:
            sym = Sym(f, step=step, user=frozenset())
        except TooBig:
            r.fail('%s: too many paths' % n)
            continue
        for t, st, env in sym.exits:
            if not t.ops:
                continue
            rv = sym.lin(t.ops[0], env, st)
            g = [e for e in st.user if e[0] == 'give']
            if not g:
                r.check(ne0(st.facts, rv), 'release-range', n + ': refused', '%s reports success without having freed anything' % n, t)
                r.check(not any(e[0] == 'end' for e in st.user) or rv != ZERO, 'release', n + ': refused', '%s clears an end mark and frees nothing' % n, t)
            else:
                dep = depends(t.ops[0], {e[1] for e in g}, sym, env, st)
                tested = any(y[0] in ('call', 'i') and y[1] in {e[1] for e in g} for x in st.facts for y in walk(x))
                r.check(dep or tested, 'release-range', n + ': tested', '%s does not report that it freed units that were already free' % n, t)


def depends(v, ids, sym, env, st):
    todo, seen = [v], set()
    while todo:
        v = sym.res(todo.pop(), env, st)
        if v.id in seen:
            continue
        seen.add(v.id)
        if v.k == 'inst':
            if v.id in ids:
                return True
            todo += [o for o in v.ops if o.k in ('inst', 'cexpr')]
    return False


def users(r, M, R):
    """functions of the heap that hand words of both bitmaps to an operation"""
    for n, f in sorted(M.fns.items()):
        if any(i.op == 'call' and i.callee == 'initSOMSASBlock' for i in f.insts()):
            continue
        sites = {}
        for i in f.insts():
            if i.op == 'call' and i.callee in M.fns and i.callee not in ATOMIC_CALLS:
                rs = [(k, roots(o, R[n])) for k, o in enumerate(i.ops) if o.k not in ('const', 'null', 'func')]
                rs = [(k, s) for k, s in rs if s and loads_vec(i.ops[k])]
                if rs:
                    sites[i.id] = rs
        if not sites:
            continue
        stable = lambda g: g[0] in (H, 'bitv_cb_t') or g[0].startswith('SASBlockHeader') or g[1] in ('blockSize', 'alloc_shift', 'vec_cnt', 'alloc_vec', 'endmrk_vec')

        def step(sym, i, st, env):
            if i.id not in sites:
                return st.user
            idx = {}
            for k, s in sites[i.id]:
                L = sym.lin(i.ops[k], env, st)
                for role, fld in (('units', 'alloc_vec'), ('ends', 'endmrk_vec')):
                    if role in s:
                        b = [y for y, c in L[1] if y[0] == 'ld' and c == 1 and (sym.fields.get(y[1]) or ('', ''))[1] == fld]
                        if len(b) == 1:
                            idx[role] = sub(L, atom(b[0]))
            if len(idx) == 2:
                r.check(idx['units'] == idx['ends'], 'same-word', '%s -> %s: same index' % (n, i.callee), '%s passes words of different positions to %s' % (n, i.callee), i)
            for role, I in idx.items():
                cnt = [('ld', a, 0) for a, g in sym.fields.items() if g[1] == 'vec_cnt']
                # 8*index < 8*count
                good = any(bounded(st.facts, I, atom(c)) for c in cnt) or counts_down(sym, f, I, st, env, [atom(c) for c in cnt])
                r.check(good, 'same-word', '%s -> %s: below the word count' % (n, i.callee), '%s uses a bitmap word without checking its index against the word count' % n, i)
            U = idx.get('units')
            cal = M.fns[i.callee]
            if any(j.op == 'cmpxchg' for j in cal.insts()):
                szs = size_args(cal)
                for a in szs:
                    if a < len(i.ops):
                        z = sym.lin(i.ops[a], env, st)
                        low = ge0(st.facts, plusc(z, -1)) or ne0(st.facts, z)
                        up = any(x[0] == 'ge' and any(y == single(z) and c < 0 for y, c in x[1][1]) for x in st.facts) if single(z) else not z[1]
                        r.check(low, 'nonzero', '%s -> %s: above zero' % (n, i.callee), '%s hands a size of zero to %s' % (n, i.callee), i)
                        r.check(up, 'nonzero', '%s -> %s: below the limit' % (n, i.callee), '%s hands an unchecked size to %s' % (n, i.callee), i)
                return frozenset(e for e in st.user if e[1] != i.id) | {('claim', i.id, U)}
            return st.user
        try:
            sa = {y for i in f.insts() if i.id in sites for a in size_args(M.fns[i.callee]) if a < len(i.ops) for y in argroots(i.ops[a])}

            def want(sy, x):
                if x[0] == 'b':
                    return False
                for y, c in x[1][1]:
                    if y[0] == 'ld' and (sy.fields.get(y[1]) or ('', ''))[1] == 'vec_cnt':
                        return True
                    if y[0] == 'call' and y[1] in sites:
                        return True
                    if y in sa and len(x[1][1]) <= 2 and (x[0] == 'ge' or len(x[1][1]) == 1):
                        return True
                return False
            sym = Sym(f, stable=stable, step=step, user=frozenset(), want=want)
        except TooBig:
            r.fail('%s: too many paths' % n)
            continue
        for t, st, env in sym.exits:
            if not t.ops:
                continue
            rv = sym.lin(t.ops[0], env, st)
            for e in st.user:
                if e[0] != 'claim' or e[2] is None:
                    continue
                c = atom(('call', e[1]))
                got = ne0(st.facts, plusc(c, 1)) or ge0(st.facts, c)
                if rv == ZERO:
                    continue
                uses = any(y == ('call', e[1]) for y, k in rv[1] if k == 1)
                if not got and not uses:
                    continue
                r.check(got, 'same-word', n + ': found', '%s returns an address although nothing was claimed' % n, t)
                r.check(uses and any(y[0] == 'arg' for y, k in rv[1] if k == 1) and posed(rv, e[2], e[1]), 'same-word', n + ': address',
                        '%s returns an address that does not belong to the word it claimed from' % n, t)


def loads_vec(v):
    return any(True for _ in [0] if roots(v, {}))


def bounded(facts, I, cnt):
    """byte index I = 8*i with i < cnt known"""
    for x in facts:
        if x[0] != 'ge':
            continue
        # cnt - i - 1 >= 0
        d = sub(plusc(cnt, -1), x[1])
        if scale(d, 8) == I:
            return True
    return False


def counts_down(sym, f, I, st, env, cnts):
    """the index is cnt - 1 or lower and only ever decreases"""
    if any(I[1] == scale(c, 8)[1] and I[0] <= -8 for c in cnts):
        return True
    if len(I[1]) != 1:
        return False
    (y, k), = I[1]
    p = next((i for i in f.insts() if y[0] == 'i' and i.id == y[1] and i.op == 'phi'), None)
    if p is None or k != 8 or I[0] > 0:
        return False
    for v in p.ops:
        L = sym.lin(v, {}, None)
        if not (L[0] < 0 and (L[1] == frozenset(((y, 1),)) or any(L[1] == c[1] for c in cnts))):
            return False
    return True


def posed(rv, U, cid):
    """the rest of the returned form is the word index times the bytes of a word; U is 8 * index"""
    rest = (rv[0], frozenset((y, k) for y, k in rv[1] if y != ('call', cid) and y[0] != 'arg'))
    if not rest[1]:
        return rest[0] == 0 and U == ZERO
    if len(rest[1]) == 1 and rest[0] == 0:
        (y, k), = rest[1]
        if y[0] == 'op' and y[1] == 'shl':
            return scale(y[2], k) == scale(U, 8)
    iu = {y for y, k in U[1]}
    return not iu or any(z in iu for z in walk(rest))


def argroots(v):
    out, todo, seen = set(), [v], set()
    while todo:
        v = strip(todo.pop())
        if v.id in seen:
            continue
        seen.add(v.id)
        if v.k == 'arg':
            out.add(('arg', v.idx))
        elif v.k == 'inst' and v.op in ('add', 'sub', 'phi', 'select', 'zext', 'sext', 'trunc'):
            todo += list(v.ops)
    return out


def size_args(cal):
    """argument indexes that are rounded with the allocation mask"""
    out = set()
    for i in cal.insts():
        if i.op == 'add':
            a = [strip(o) for o in i.ops]
            if any(x.k == 'inst' and x.op == 'load' and (fieldof(x.ops[0]) or ('', ''))[1] == 'alloc_mask' for x in a):
                for x in a:
                    if x.k == 'arg':
                        out.add(x.idx)
    return out
