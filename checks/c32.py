"""C32: the fault handler repairs faults inside the region only, and never returns from a fault nobody repaired."""
import re, signal
from sa import common
from sa.sym import Sym, sub, atom, eq0, ne0, ge0, plusc, single, walk, scale, bit_known
from sa.flow import fieldpath, fieldof, strip, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive symbolic dataflow over every function installed as SIGSEGV handler and the function that installs it, on LLVM IR'
EXPLANATION = ('Handlers are found from the sigaction calls. On every feasible path of a handler, the attach call is made only for fault addresses compared to be inside the region, and the handler returns only after '
               'the attach reported success or the handler saved at installation was called in the form its flags ask for; otherwise the path ends the program or the thread. The attach function attaches a segment only where '
               'the masked fault address equals the address of an allocated-table entry, and reports success only then.')
ATT = 'SASAttachAllocatedAddr'
END = {'exit', '_exit', 'abort', 'pthread_exit', '_Exit', 'quick_exit'}
SEGV = int(signal.SIGSEGV)
SIGINFO = 4


def glob(L):
    """the global an address form starts in"""
    g = [x for x, c in L[1] if x[0] == 'g']
    return g[0][1] if len(g) == 1 and len(L[1]) == 1 else None


def run(r):
    r.rule('installed', 'whoever installs a fault handler saves the old action where that handler reads it, and asks for the fault address', 1)
    r.rule('restored', 'the saved action is put back by some function that clean-up reaches', 0)
    r.rule('itself', 'an installation that is done per thread never leaves the handler saved as its own old handler', 0)
    r.rule('range', 'the handler attaches a segment only for a fault address seen to lie in the region', 0)
    r.rule('repaired', 'the handler returns from a fault only after it attached the segment or called the old handler', 0)
    r.rule('chain', 'the old handler is called in the form its flags ask for, with the arguments of this fault, and only when there is one', 0)
    r.rule('end', 'without an old handler a fault that is not repaired ends the program or the thread; with one it does not', 0)
    r.rule('attach', 'a segment is attached for a fault only when the allocated table has an entry for exactly that segment, and success means it is attached', 0)
    M = common.lib(cse=True)
    pairs = {}
    puts = {}
    for n, f in sorted(M.fns.items()):
        if any(i.op == 'call' and i.callee in ('sigaction', 'signal') for i in f.insts()):
            install(r, M, n, f, pairs, puts)
    for (h, g), (n, at) in sorted(pairs.items()):
        r.check(any(x == g for x in puts), 'restored', g, 'nothing puts back the old fault action that %s saved' % n, at)
    for h in sorted({h for h, g in pairs}):
        if h in M.fns:
            handler(r, h, M.fns[h], {g for x, g in pairs if x == h})
    for root, fn in (('SASCleanUp', None), ('SASThreadCleanUp', None)):
        if root in M.fns:
            seen, todo = set(), [root]
            while todo:
                x = todo.pop()
                if x in seen or x not in M.fns:
                    continue
                seen.add(x)
                todo += [i.callee for i in M.fns[x].insts() if i.op == 'call' and i.callee]
            r.check(any(n in seen for l in puts.values() for n in l), 'restored', root, '%s leaves the fault handler of the library installed' % root, next(M.fns[root].insts()))
    # attach functions: those handlers ask, with the address of the fault
    if ATT in M.fns:
        attach(r, ATT, M.fns[ATT])


def install(r, M, n, f, pairs, puts):
    seen = {}

    def step(sym, i, st, env):
        u = st.user
        if i.op == 'store':
            A = sym.lin(i.ops[1], env, st)
            v = sym.res(i.ops[0], env, st)
            if v.k == 'func':
                u = frozenset(x for x in u if not (x[0] == 'fn' and x[1] == A)) | {('fn', A, v.name)}
            elif not (v.k == 'const'):
                u = frozenset(x for x in u if not (x[0] == 'fn' and x[1] == A))
            fo = fieldof(i.ops[1])
            if fo and fo[1] == 'sa_flags' and v.k == 'const':
                u = frozenset(x for x in u if not (x[0] == 'fl')) | {('fl', v.c)}
        if i.op == 'call' and i.callee == 'signal' and i.args[0].k == 'const' and i.args[0].c == SEGV:
            seen.setdefault('signal', i)
        if i.op == 'call' and i.callee == 'sigaction' and i.args[0].k == 'const' and i.args[0].c == SEGV:
            new = sym.lin(i.args[1], env, st)
            old = sym.lin(i.args[2], env, st)
            g = glob(new)
            h = next((x[2] for x in u if x[0] == 'fn' and x[1] == new), None)
            if g and not h:
                puts.setdefault(g, set()).add(n)
            elif h and h in M.fns:
                og = glob(old)
                fl = next((x[1] for x in u if x[0] == 'fl'), 0)
                r.check(og is not None, 'installed', n + ': saved', '%s installs a fault handler without saving the old action' % n, i)
                r.check(fl & SIGINFO, 'installed', n + ': flags', '%s installs the fault handler without asking for the fault address (SA_SIGINFO)' % n, i)
                if og:
                    pairs.setdefault((h, og), (n, i))
                    u = frozenset(u) | {('inst', h, og)}
        return u

    def want(sym, fa):
        return any(x[0] == 'g' for x in walk(fa[1])) and fa[0] != 'b'
    try:
        sym = Sym(f, want=want, step=step, user=frozenset(), pure=lambda c: True)
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    for ret, st, env in sym.exits:
        for x in st.user:
            if x[0] == 'inst':
                tls = any(i.op == 'call' and (i.callee or '').startswith('llvm.threadlocal') and i.args[0].name == x[2] for i in f.insts())
                if not tls:
                    continue
                G, H = atom(('g', x[2])), atom(('g', x[1]))
                over = [y for y in st.user if y[0] == 'fn' and y[1] == G]
                ok = any(y[2] != x[1] for y in over)
                for fa in st.facts:
                    if fa[0] == 'ne' and {a[0] for a, c in fa[1][1]} == {'ld', 'g'}:
                        d = dict((a[0], a) for a, c in fa[1][1])
                        if d['ld'][1] == G and d['g'][1] == x[1]:
                            ok = True
                r.check(ok, 'itself', n, '%s may save the fault handler as its own old handler when another thread installed it before: faults it does not repair then never end' % n, ret)


def handler(r, n, f, olds):
    low, high = atom(('ld', atom(('g', 'memLow')), 0)), atom(('ld', atom(('g', 'memHigh')), 0))

    def stable(fo):
        return False
    addr_ids = set()
    fields = {}
    for i in f.insts():
        if i.op == 'load' and any(x[0] == 'siginfo_t' for x in fieldpath(i.ops[0])):
            addr_ids.add(i.id)
    state = {}

    def isaddr(L):
        x = single(L)
        return x is not None and x[0] == 'ld' and x[2] in addr_ids and x[1][0] == 16 and x[1][1] == frozenset(((('arg', 1), 1),))

    def bound(F, lo, A):
        """A >= memLow, or A < memHigh"""
        for fa in F:
            if fa[0] != 'ge':
                continue
            c, at = fa[1][0], dict(fa[1][1])
            if len(at) != 2:
                continue
            pos = [x for x, k in at.items() if k == 1]
            neg = [x for x, k in at.items() if k == -1]
            if len(pos) != 1 or len(neg) != 1:
                continue
            g = lambda x: x[0] == 'ld' and glob(x[1]) if isinstance(x[1], tuple) else None
            if lo and isaddr(atom(pos[0])) and g(neg[0]) == 'memLow' and c <= 0:
                return True
            if not lo and isaddr(atom(neg[0])) and g(pos[0]) == 'memHigh' and c <= -1:
                return True
        return False

    def oldload(x, off):
        return x[0] == 'ld' and x[1][0] == off and glob(x[1]) in olds

    def step(sym, i, st, env):
        u = st.user
        if i.op != 'call':
            return u
        if i.callee == ATT:
            A = sym.lin(i.args[0], env, st)
            state.setdefault(i.id, []).append(('range', n + ': address', isaddr(A), '%s attaches for something that is not the fault address' % n, i))
            state[i.id].append(('range', n + ': low', bound(st.facts, True, A), '%s looks for a segment without having seen the fault address to be at or above the start of the region' % n, i))
            state[i.id].append(('range', n + ': high', bound(st.facts, False, A), '%s looks for a segment without having seen the fault address to be below the end of the region' % n, i))
            return frozenset(x for x in u if x[:2] != ('att', i.id)) | {('att', i.id)}
        if not i.callee:
            tgt = sym.lin(i.ops[-1], env, st)
            x = single(tgt)
            ok = x is not None and oldload(x, 0)
            l = state.setdefault(i.id, [])
            l.append(('chain', n + ': target', ok, '%s calls a handler that is not the one saved when it was installed' % n, i))
            if ok:
                F = st.facts
                args = i.ops[:-1]
                na = len(args)
                info = any(fa[0] == 'b' and fa[2] == 2 and fa[3] == 1 and oldflags(fa[1]) for fa in F)
                noinfo = any(fa[0] == 'b' and fa[2] == 2 and fa[3] == 0 and oldflags(fa[1]) for fa in F)
                l.append(('chain', n + ': form', info if na == 3 else noinfo if na == 1 else False, '%s calls the old handler in a form its flags do not ask for' % n, i))
                l.append(('chain', n + ': arguments', all(sym.lin(a, env, st) == atom(('arg', k)) for k, a in enumerate(args)), '%s does not pass the fault on to the old handler as it came' % n, i))
                l.append(('chain', n + ': default', any(fa[0] == 'ne' and len(fa[1][1]) == 1 and oldload(next(iter(fa[1][1]))[0], 0) and fa[1][0] == 0 for fa in F), '%s calls the old handler without having seen that there is one' % n, i))
                return u | {('chained',)}
        if i.callee in END:
            F = st.facts
            none = any(fa[0] == 'eq' and len(fa[1][1]) == 1 and oldload(next(iter(fa[1][1]))[0], 0) and fa[1][0] == 0 for fa in F)
            state.setdefault(i.id, []).append(('end', n + ': old handler', none, '%s ends the program although a handler was installed before it' % n, i))
        return u

    def oldflags(x):
        g = sym_.field(x) if x[0] == 'ld' else None
        return x[0] == 'ld' and glob(x[1]) in olds and (g is None or g[1] == 'sa_flags') and x[1][0] != 0

    def want(sym, fa):
        for x in walk(fa[1]):
            if x[0] == 'ld' and (x[2] in addr_ids or glob(x[1]) in olds):
                if fa[0] == 'b' and fa[2] != 2:
                    return False
                return True
            if x[0] == 'call' and x[1] in atts:
                return fa[0] != 'b'
            if x == ('arg', 0):
                return fa[0] != 'b'
        return False
    atts = {i.id for i in f.insts() if i.op == 'call' and i.callee == ATT}
    class Fld:
        pass
    sym_ = Fld()
    sym_.field = lambda x: holder[0].fields.get(x[1]) if holder else None
    holder = []

    def step2(sym, i, st, env):
        if not holder:
            holder.append(sym)
        return step(sym, i, st, env)
    try:
        sym = Sym(f, want=want, step=step2, user=frozenset(), pure=lambda c: True, stable=lambda fo: False)
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    for l in state.values():
        for rule, inst, ok, msg, at in l:
            r.check(ok, rule, inst, msg, at)
    for ret, st, env in sym.exits:
        F = st.facts
        if ret.op != 'ret':
            continue
        if any(fa[0] == 'ne' and dict(fa[1][1]).keys() == {('arg', 0)} and abs(fa[1][0]) == SEGV for fa in F):
            r.ok('repaired', n + ': other signals')
            continue
        ok = ('chained',) in st.user or any(x[0] == 'att' and eq0(F, atom(('call', x[1]))) for x in st.user)
        r.check(ok, 'repaired', n, '%s returns from a fault although it neither attached a segment nor called the old handler: the fault comes back at once, without end' % n, ret)
    r.check(any(i.op == 'call' and i.callee in END for i in f.insts()), 'end', n, '%s does not end the program for a fault nobody handles' % n, next(f.insts()))


def leaves(v, seen=None):
    """what a value may be, through phis and casts"""
    seen = seen if seen is not None else set()
    v = strip(v)
    if v.id in seen:
        return []
    seen.add(v.id)
    if v.k == 'inst' and v.op in ('phi', 'select'):
        return [x for o in (v.ops if v.op == 'phi' else v.ops[1:]) for x in leaves(o, seen)]
    return [v]


def attach(r, n, f):
    SA = {i.id: i for i in f.insts() if i.op == 'call' and i.callee in ('SASAttachSegByAddr', 'SASAttachSegByName')}
    infos = {i.id for i in f.insts() if i.op == 'call' and re.search('getInfo$', i.callee or '')}
    loads = {i.id for i in f.insts() if i.op == 'load' and any(x[1] == 'info' for x in fieldpath(i.ops[0]))}
    tab = {i.id for i in f.insts() if i.op == 'call' and re.search('search(Next|EqualOrNext)?Node$', i.callee or '')}
    state = {}
    walked = []

    def want(sym, fa):
        return fa[0] != 'b' and any(x[0] == 'call' and (x[1] in infos or x[1] in SA or x[1] in tab) or x[0] == 'ld' and x[2] in loads for x in walk(fa[1]))

    def step(sym, i, st, env):
        u = st.user
        if i.op == 'call' and i.id in tab:
            ks, us = leaves(i.args[-1]), leaves(i.args[0])
            iskey = lambda k: k.k == 'inst' and (k.op == 'call' and bool(re.search('getKey$', k.callee or '')) or k.op == 'load' and any(x[1] == 'key' for x in fieldpath(k.ops[0])))
            ok = all(k.k == 'const' and k.c == 0 or iskey(k) for k in ks) and any(iskey(k) for k in ks)
            ok2 = all(a.k == 'inst' and a.op == 'load' and any(x[1] == 'allocated' for x in fieldpath(a.ops[0])) for a in us)
            walked.append((ok and ok2, i))
            return u
        if i.id in SA and i.op == 'call':
            A = sym.lin(i.args[0], env, st)
            ok = any(eq0(st.facts, sub(A, atom(('call', k)))) for k in infos) or any(x[0] == 'ld' and x[2] in loads and eq0(st.facts, sub(A, atom(x))) for fa in st.facts for x in walk(fa[1])) \
                or single(A) and single(A)[0] == 'call' and single(A)[1] in infos and any(fa[0] == 'eq' and any(x == single(A) for x in walk(fa[1])) and any(x == ('arg', 0) for x in walk(fa[1])) for fa in st.facts)
            state.setdefault(i.id, []).append((ok, i))
            fault = any(x == ('arg', 0) for x in walk(A)) or any(fa[0] == 'eq' and any(x == ('arg', 0) for x in walk(fa[1])) for fa in st.facts)
            state[i.id].append((fault, i))
            return frozenset(x for x in u if x[:2] != ('sa', i.id)) | {('sa', i.id)}
        return u
    try:
        sym = Sym(f, want=want, step=step, user=frozenset(), pure=lambda c: True)
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    for ok, at in walked:
        r.check(ok, 'attach', n + ': table', '%s does not look through the whole table of allocated segments' % n, at)
    for l in state.values():
        for ok, at in l:
            r.check(ok, 'attach', n + ': entry', '%s attaches a segment although no allocated-table entry was seen equal to the segment of the fault' % n, at)
    r.check(bool(state), 'attach', n + ': reachable', '%s never attaches a segment' % n, next(f.insts()))
    for ret, st, env in sym.exits:
        if not ret.ops:
            r.check(False, 'attach', n + ': result', '%s does not tell whether it attached the segment' % n, ret)
            continue
        v = sym.lin(ret.ops[0], env, st)
        good = False
        for x in st.user:
            if x[0] == 'sa' and (v == atom(('call', x[1])) or eq0(st.facts, atom(('call', x[1])))):
                good = True
        if not any(x[0] == 'sa' for x in st.user) and tab:
            r.check(any(eq0(st.facts, atom(('call', k))) for k in tab), 'attach', n + ': whole table', '%s gives up before the end of the table of allocated segments' % n, ret)
        r.check(good or ne0(st.facts, v), 'attach', n + ': result', '%s may report success without having attached the segment' % n, ret)
