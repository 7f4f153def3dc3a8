"""C28: no loop of the library comes round with nothing changed."""
from sa import common
from sa.locks import natural_loops
from sa.sym import Sym, S, sub, con, eq0, single
from sa.effects import roots
from sa.flow import fieldof, strip, env_alias, const_of, eval_cond, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive dataflow over every natural loop of the library, on LLVM IR'
EXPLANATION = ('For every natural loop of every function of the library, every feasible path of one round is followed from the loop header back to it. A round makes progress when a variable carried by the '
               'loop gets another value, memory is written (directly, by an update that succeeds, or in a function that writes), or memory another thread may change is read again by an atomic or volatile '
               'access. A path that comes back to the header without any of these repeats for ever.')
SILENT = {'printf', 'puts', 'putchar', 'fprintf', 'sas_printf', 'fflush', 'fputs', 'fwrite'}
PUREX = {'strcmp', 'strncmp', 'strlen', 'memcmp', 'strchr', 'strrchr'}
CAS = {'sas_compare_and_swap'}


def quiet_functions(M):
    """functions of the library that only compute: no writes, no atomic or volatile accesses, no calls to others"""
    bad = set()
    calls = {}
    for n, f in M.fns.items():
        if not f.blocks:
            bad.add(n); continue
        for i in f.insts():
            if i.op in ('cmpxchg', 'atomicrmw', 'fence') or i.op in ('load', 'store') and (i.vol or i.ord):
                bad.add(n)
            elif i.op == 'store':
                if roots(i.ops[1]) != {('alloca',)}:
                    bad.add(n)
            elif i.op == 'call':
                c = i.callee
                if c and c.startswith('llvm.') and not c.startswith('llvm.mem') or c in PUREX:
                    continue
                if c in SILENT:
                    continue
                if not c or c not in M.fns:
                    bad.add(n)
                else:
                    calls.setdefault(n, set()).add(c)
    while True:
        more = {n for n, cs in calls.items() if n not in bad and cs & bad}
        if not more:
            break
        bad |= more
    return set(M.fns) - bad


def loop_sets(fn):
    """block -> headers of the loops around it;  join phis that feed header phis"""
    L = natural_loops(fn)
    around = {b: frozenset(h for h, body in L.items() if b in body) for b in fn.blocks}
    feed = {}
    for h, body in L.items():
        for p in h.insts:
            if p.op != 'phi':
                break
            st = [v for v, b in p.inc if b in body]
            while st:
                v = strip(st.pop())
                if v.k == 'inst' and v.op in ('phi', 'select') and v.bb in body and not (v.op == 'phi' and v.bb is h) and v.id not in feed:
                    feed[v.id] = v
                    st.extend([x for x, _ in v.inc] if v.op == 'phi' else v.ops[1:])
    return L, around, feed


class Slice:
    """what decides whether the loop is left: variables it carries, memory it reads, calls it makes"""

    def __init__(s, fn, h, body, quiet, reads):
        s.insts = set(); s.phis = set(); s.reads = []; s.any = False
        back = {b for b in body if h in b.succ}
        inside = {b: [x for x in b.succ if x in body and x is not h] for b in body}
        reach = {}
        for b in body:
            seen = set(); st = [b]
            while st:
                x = st.pop()
                if x not in seen:
                    seen.add(x)
                    st.extend(inside[x])
            reach[b] = seen

        def around_it(y, x):
            """can the round end from y without passing x?"""
            seen = {x}; st = [y]
            while st:
                z = st.pop()
                if z in seen:
                    continue
                if z in back or any(q not in body for q in z.succ):
                    return True
                seen.add(z)
                st.extend(inside[z])
            return False
        ctl = {}

        def controls(x):
            if x not in ctl:
                ctl[x] = [y for y in body if len(set(y.succ)) > 1 and x is not y and
                          any(q in body and q is not h and x in reach[q] for q in y.succ) and
                          any(q is h or q not in body or x is not q and around_it(q, x) for q in y.succ)]
            return ctl[x]
        exits = [b for b in body if any(q not in body for q in b.succ) and len(set(b.succ)) > 1]
        s.exits = exits
        st = []
        seenb = set()

        def branch(b):
            if b in seenb:
                return
            seenb.add(b)
            st.extend(b.term.ops[:1])
            for y in controls(b):
                branch(y)
        for b in exits:
            branch(b)
        while st:
            v = st.pop()
            if v.k == 'cexpr':
                st.extend(v.ops)
            if v.k != 'inst' or v.id in s.insts or v.bb not in body:
                continue
            s.insts.add(v.id)
            st.extend(v.ops)
            if v.op == 'phi':
                if v.bb is h:
                    s.phis.add(v.id)
                for _, bb in v.inc:
                    if bb in body:
                        if len(set(bb.succ)) > 1:
                            branch(bb)
                        for y in controls(bb):
                            branch(y)
            elif v.op == 'load':
                if v.vol or v.ord:
                    s.any = True
                s.reads.append((fieldof(v.ops[0]), roots(v.ops[0])))
            elif v.op == 'call':
                if v.callee in quiet:
                    rs = set().union(*[roots(o) for o in v.ops if o.w == 64] or [set()])
                    for f in reads[v.callee]:
                        s.reads.append((f, rs))
                elif v.callee and (v.callee.startswith('llvm.') or v.callee in PUREX):
                    s.reads.append((None, {('unknown',)})) if v.callee in PUREX else None
                else:
                    s.any = True
            elif v.op in ('cmpxchg', 'atomicrmw'):
                s.any = True

    def written(s, f, rs):
        """may a write to field f of an object from rs change what the loop reads?"""
        for g, qs in s.reads:
            if f and g:
                if f == g or not f[0] or not g[0]:
                    return True
                continue
            if rs & qs or any(x[0] in ('unknown', 'call') for x in rs | qs) or not rs or not qs:
                return True
        return False


def all_reads(M, quiet):
    """fields of the objects a computing function reads (itself or in its callees)"""
    rd = {n: {fieldof(i.ops[0]) for i in M.fns[n].insts() if i.op == 'load'} for n in quiet}
    while True:
        more = False
        for n in quiet:
            for i in M.fns[n].insts():
                if i.op == 'call' and i.callee in rd and not rd[i.callee] <= rd[n]:
                    rd[n] |= rd[i.callee]; more = True
        if not more:
            return rd


def fresh(v, body, d=0, seen=None):
    """does the value come from a read made inside the loop (or from a variable of the loop)?"""
    seen = seen if seen is not None else set()
    v = strip(v)
    if v.k == 'arg' or v.k in ('const', 'null', 'undef', 'global'):
        return True                              # waits for a fixed value
    if v.k != 'inst' or v.id in seen or v.bb not in body:
        return False
    seen.add(v.id)
    if v.op in ('load', 'call', 'cmpxchg', 'atomicrmw'):
        return True
    return any(fresh(o, body, d + 1, seen) for o in v.ops if o.k == 'inst')


def analyse(fn, quiet, facts, reads):
    L, around, feed = loop_sets(fn)
    sl = {h: Slice(fn, h, body, quiet, reads) for h, body in L.items()}
    hid = {h: k for k, h in enumerate(fn.blocks) if h in L}
    byid = {k: h for h, k in hid.items()}
    why = {}
    stuck = {}
    rounds = {}

    def val(v, u, env):
        """what the value is in terms of the variables the loops carry: ('p', phi id), ('c', constant) or None"""
        v = strip(v)
        for _ in range(20):
            if v.k == 'const':
                return ('c', v.c)
            if v.k == 'inst' and v.id in feed:
                return dict(u[1]).get(v.id)
            if v.k == 'inst' and v.op == 'phi' and v.bb in L:
                return ('p', v.id)
            w = strip(env_alias(env, v))
            if w is v:
                return None
            v = w
        return None

    def mark(u, hs):
        return (u[0] | frozenset(hid[h] for h in hs), u[1], u[2])

    def step(sy, i, st, env):
        u = st.user
        hs = around[i.bb]
        op = i.op
        if op == 'store':
            f, rs = fieldof(i.ops[1]), None
            ch = []
            for h in hs:
                if sl[h].reads:
                    rs = roots(i.ops[1]) if rs is None else rs
                    if sl[h].written(f, rs):
                        ch.append(h)
            return st._replace(user=mark(u, ch), mem=frozenset(), bind=frozenset())
        if not hs:
            return u
        if op == 'cmpxchg' or op == 'call' and i.callee in CAS:
            hs = [h for h in hs if i.id in sl[h].insts or sl[h].reads]
            e = i.ops[1]
            f = [h for h in hs if fresh(e, L[h]) and not (strip(e).k == 'inst' and val(e, u, env) and val(e, u, env)[0] == 'p')]
            if len(f) < len(hs):
                return (mark(u, f)[0], u[1], u[2] | {i.id})
            return mark(u, hs)
        if op in ('atomicrmw', 'fence') or op == 'load' and (i.vol or i.ord):
            return mark(u, [h for h in hs if i.id in sl[h].insts or op != 'load' and sl[h].reads])
        if op == 'call':
            c = i.callee
            if c and (c.startswith('llvm.') and not c.startswith('llvm.mem') or c in PUREX or c in quiet or c in SILENT):
                return u
            return mark(u, [h for h in hs if i.id in sl[h].insts or sl[h].reads])
        if op == 'select' and i.id in feed:
            t = eval_cond(i.ops[0], env)
            w = None if t is None else val(i.ops[1] if t else i.ops[2], u, env)
            d = dict(u[1]); d.pop(i.id, None)
            if w is not None:
                d[i.id] = w
            return (u[0], frozenset(d.items()), u[2])
        return u

    lv = {}

    def live(p, su):
        """can the value still reach a use from the block without being set again?"""
        if p.id not in lv:
            seen = set()
            st = []
            for x in fn.insts():
                if x.op == 'phi':
                    st.extend(bb for v, bb in x.inc if strip(v) is p)
                elif any(strip(o) is p for o in x.ops):
                    st.append(x.bb)
            while st:
                y = st.pop()
                if y in seen:
                    continue
                seen.add(y)
                if y is not p.bb:
                    st.extend(y.pred)
            lv[p.id] = seen
        return su in lv[p.id] or su is p.bb

    cas = {}
    for i in fn.insts():
        if i.op == 'extractvalue' and strip(i.ops[0]).op == 'cmpxchg' and i.w == 1:
            cas.setdefault(strip(i.ops[0]).id, []).append(i)
        elif i.op == 'call' and i.callee in CAS:
            cas.setdefault(i.id, []).append(i)

    def truth(v, env):
        t = eval_cond(v, env)
        if t is None:
            c = const_of(v, env)
            return None if c is None else bool(c)
        return t

    def edge(b, su, st, env):
        u = st.user
        if su in L and b in L[su]:
            h = su
            k = hid[h]
            rounds[h] = rounds.get(h, 0) + 1
            ch = k in u[0]
            if not ch and u[2]:
                for c in u[2]:
                    i = next((x for x in cas.get(c, ())), None)
                    if i is None or i.bb not in L[h] and True:
                        ch = ch or i is None
                        continue
                    if truth(i, env) is not False:
                        ch = True
            if not ch:
                for p in h.insts:
                    if p.op != 'phi':
                        break
                    if p.id not in sl[h].phis:
                        continue
                    v = next(x for x, bb in p.inc if bb is b)
                    w = val(v, u, env)
                    if w == ('p', p.id):
                        continue
                    if w and w[0] == 'c' and const_of(p, env) == w[1]:
                        continue
                    ch = True
                    break
            if not ch and sl[h].exits:
                stuck.setdefault(h, b.term)
        d = dict(u[1])
        for p in su.insts:
            if p.op != 'phi':
                break
            d.pop(p.id, None)
            if p.id in feed:
                v = next((x for x, bb in p.inc if bb is b), None)
                w = val(v, u, env) if v is not None else None
                if w is not None:
                    d[p.id] = w
        # leaving or (re)entering loops
        inn = around[su]
        if su in L:
            hp = {p.id for p in su.insts if p.op == 'phi'}
            d = {a: w for a, w in d.items() if not (w[0] == 'p' and w[1] in hp and b in L[su])}
        d = {a: w for a, w in d.items() if live(feed[a], su)}
        m = frozenset(k for k in u[0] if byid[k] in inn and byid[k] is not su)
        c2 = frozenset() if su in L or not inn else u[2]
        if su in L and around[b] & inn - {su}:
            c2 = u[2]
        u2 = (m, frozenset(d.items()) if inn else frozenset(), c2)
        return st if u2 == u else st._replace(user=u2)

    Sym(fn, step=step, edge=edge, user=(frozenset(), frozenset(), frozenset()), limit=300 if facts else 3000, prune=True, carry=True, want=None if facts else lambda s, f: False)
    return L, rounds, stuck


def run(r):
    r.rule('progress', 'every feasible round of a loop changes a variable the loop carries, writes memory, or reads again what another thread may change', 20)
    M = common.lib(cse=True)
    quiet = quiet_functions(M)
    reads = all_reads(M, quiet)
    todo = []
    for n in sorted(M.fns):
        seen = set()
        for k, fn in enumerate([M.fns[n]] + getattr(M, 'dups', {}).get(n, [])):      # overloads, and statics of one name
            if (fn.file, fn.line) not in seen and fn.blocks and natural_loops(fn):
                seen.add((fn.file, fn.line))
                todo.append((n if not k else '%s/%d' % (n, k), fn))
    for n, fn in todo:
        try:
            L, rounds, stuck = analyse(fn, quiet, False, reads)
            if stuck:
                L, rounds, stuck = analyse(fn, quiet, True, reads)
        except TooBig:
            r.assume.append('%s is too big to follow: not analysed' % n)
            continue
        for k, h in enumerate(x for x in fn.blocks if x in L):
            at = h.insts[0] if h.insts else fn
            if h in stuck:
                r.bad('progress', '%s.%d' % (n, k), 'the loop at %s can come round with nothing changed' % (getattr(stuck[h], 'loc', None) or h.name), stuck[h])
            else:
                r.ok('progress', '%s.%d' % (n, k))
