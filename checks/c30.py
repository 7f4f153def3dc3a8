"""C30: the two directions of a context binding change together."""
import re
from sa import common
from sa.sym import Sym, sub, atom, eq0, ne0, canon, con, plusc, walk
from sa.flow import fieldpath, strip, TooBig
from checks.c26 import truth

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive typestate of the pair (name tree, address index) over every context operation, on LLVM IR'
EXPLANATION = ('Every path of every context operation that changes the name tree or the address index of a context is followed, each tree operation once as successful and once as refused where its outcome is open; '
               'the bindings added and removed in one direction have to be those of the other at every exit, agree with the documented result, and the stored copies of names have to be allocated, freed and sized with them.')
INLINE = {'SPHContext' + x for x in ('AddNameNoLock', 'FindByNameNoLock', 'FindByAddrNoLock', 'RemoveByNameNoLock', 'RemoveByAddrNoLock')}
NAME = re.compile(r'^SASStringBTree(Put|Get|Remove|Replace)(_nolock)?$')
INDEX = re.compile(r'^SASIndex(Put|Get|Remove|Replace)(_nolock)?$')
MUT = ('Put', 'Remove', 'Replace')


def tree(v):
    """'name' or 'objID' when v is a tree handle read from a context"""
    v = strip(v)
    if v.k == 'inst' and v.op == 'load':
        for t, f in fieldpath(v.ops[0]):
            if t == 'SPHContextHeader' and f in ('name', 'objID'):
                return f
    return None


def run(r):
    r.rule('paired', 'at every exit the bindings added to and removed from the name tree are those added to and removed from the address index', 1)
    r.rule('done', 'an operation that reports success has made its change', 0)
    r.rule('untouched', 'an operation that reports failure has changed nothing', 0)
    r.rule('copy', 'the address index refers to a copy of the name it is bound to', 0)
    r.rule('storage', 'a stored name is freed with the size it was allocated with, after its binding is gone, and as the last use of it; a copy that was not bound is freed', 0)
    M = common.lib(cse=True, extra_inline=INLINE, extra_keep={'SASIndexKeyInitRef'})
    for n, f in sorted(M.fns.items()):
        ops = [i for i in f.insts() if i.op == 'call' and i.callee and (NAME.match(i.callee) or INDEX.match(i.callee)) and i.args and tree(i.args[0])]
        if any((NAME.match(i.callee) or INDEX.match(i.callee)).group(1) in MUT for i in ops):
            operation(r, n, f)


def operation(r, n, f):
    seen = {}

    def note(rule, ok, msg, i, inst=None):
        seen.setdefault((rule, inst or n), set()).add((bool(ok), msg, i))

    def val(sym, v, st, env):
        L = sym.lin(v, env, st)
        return next((x[2] for x in st.user if x[0] == 'alias' and x[1] == L), L)

    def same(st, a, b):
        return a == b or eq0(st.facts, sub(a, b))

    def lookups(st, what):
        return [x for x in st.user if x[0] == 'look' and x[1] == what and ne0(st.facts, x[3])]

    def bound(st, t, K):
        """is a binding under K in direction t known to exist (by a lookup, or by one in the other direction)?"""
        other = 'objID' if t == 'name' else 'name'
        return any(same(st, x[2], K) for x in lookups(st, t)) or any(same(st, x[3], K) for x in lookups(st, other))

    def step(sym, i, st, env):
        if i.op != 'call' or not i.callee:
            return st.user
        u = set(st.user)
        c = re.sub(r'\.\d+$', '', i.callee)
        me = atom(('call', i.id))
        if c == 'SASIndexKeyInitRef':
            K = sym.lin(i.args[0], env, st)
            u = {x for x in u if x[:2] != ('key', K)} | {('key', K, sym.lin(i.args[1], env, st))}
            return frozenset(u)
        if c in ('strcpy', 'memcpy') or c.startswith('llvm.memcpy'):
            d = val(sym, i.args[0], st, env)
            a = next((x for x in u if x[0] == 'alloc' and x[1] == d), None)
            if a and c == 'strcpy':
                src = sym.lin(i.args[1], env, st)
                ln = [sub(a[2], plusc(x[1], 1)) for x in u if x[0] == 'len' and x[2] == src]
                note('storage', not ln or any(not y[1] and y[0] >= 0 for y in ln), '%s copies a name into storage that is too small for it' % n, i, n + ': size')
            u |= {('content', d, sym.lin(i.args[1], env, st)), ('alias', me, d)}
            return frozenset(u)
        if c == 'SPHContextAllocNoLock':
            u.add(('alloc', me, sym.lin(i.args[1], env, st)))
            return frozenset(u)
        if c == 'strlen':
            u.add(('len', me, sym.lin(i.args[0], env, st)))
            return frozenset(u)
        if c in ('SPHContextFreeNoLock', 'SPHContextFree'):
            free(sym, i, st, env)
            u.add(('freed', val(sym, i.args[1], st, env)))
            return frozenset(u)
        m = NAME.match(c) or INDEX.match(c)
        t = m and tree(i.args[0])
        if not t or t == 'name' and not NAME.match(c) or t == 'objID' and not INDEX.match(c):
            return st.user
        op = m.group(1)
        K = sym.lin(i.args[1], env, st)
        if t == 'objID':
            K = next((x[2] for x in u if x[0] == 'key' and x[1] == K), atom(('key', i.id)))
        for x in u:
            if x[0] == 'freed' and not any(y[0] == 'alloc' and y[1] == x[1] for y in u):
                note('storage', False, '%s: %s runs after the stored name has been freed: the key may be that name' % (n, c), i, n + ': last')
        if op == 'Get':
            u.add(('look', t, K, me))
            return frozenset(u)
        ok = set(u)
        V = val(sym, i.args[2], st, env) if op != 'Remove' else None
        if op == 'Put':
            ok.add(('+', t, K, V))
            if t == 'objID':
                copied(st, i, K, V, u)
        elif op == 'Remove':
            if any(x[:3] == ('+', t, K) for x in u):
                ok = {x for x in u if x[:3] != ('+', t, K)}
                return frozenset(ok)
            ok |= {('-', t, K), ('look', t, K, me)}
        else:
            ok |= {('-', t, K), ('+', t, K, V), ('look', t, K, me)}
            if t == 'objID':
                copied(st, i, K, V, u)
        ok.add(('res', me, 1)); u.add(('res', me, 0))
        S1 = st._replace(user=frozenset(ok), facts=st.facts | {('ne', canon(me))})
        if op != 'Put' and bound(st, t, K):
            return [S1]
        S2 = st._replace(user=frozenset(u), facts=st.facts | {('eq', canon(me))})
        return [S1, S2]

    def copied(st, i, K, V, u):
        cont = [x[2] for x in u if x[0] == 'content' and x[1] == V]
        names = [x[2] for x in u if x[0] == '+' and x[1] == 'name' and same(st, x[3], K)]
        note('copy', cont and any(x[0] == 'alloc' and x[1] == V for x in u) and (not names or cont[-1] in names),
             '%s binds an address to a string that is not a copy, allocated in the context, of the name' % n, i)

    def free(sym, i, st, env):
        X, size = val(sym, i.args[1], st, env), sym.lin(i.args[2], env, st)
        u = st.user
        fresh = next((x for x in u if x[0] == 'alloc' and x[1] == X), None)
        if fresh:
            ok = not any(x[0] == '+' and x[1] == 'objID' and x[3] == X for x in u)
            note('storage', ok, '%s frees a copy of a name that is still bound' % n, i, n + ': bound')
            sz = size == fresh[2] or any(x[0] == 'len' and plusc(x[1], 1) == size and (x[2] == X or ('content', X, x[2]) in u) for x in u)
        else:
            V = [x[2] for x in u if x[0] == 'look' and x[1] == 'objID' and x[3] == X]
            gone = any(x[0] == '-' and x[1] == 'objID' and same(st, x[2], v) for x in u for v in V)
            note('storage', gone, '%s frees a stored name that is still bound' % n, i, n + ': bound')
            left = [x for x in u if x[0] == '-' and x[1] == 'objID' and not any(y[0] == '-' and y[1] == 'name' for y in u)]
            note('storage', not left, '%s frees a stored name before the name is removed' % n, i, n + ': bound')
            sz = any(x[0] == 'len' and x[2] == X and plusc(x[1], 1) == size for x in u)
        note('storage', sz, '%s frees a stored name with a size other than its length with the terminator' % n, i, n + ': size')

    def edge(b, su, st, env):
        for x in st.user:
            if x[0] == 'res' and (eq0 if x[2] else ne0)(st.facts, x[1]):
                return None
        return st

    def want(s, fa):
        return fa[0] != 'b' and any(x[0] in ('call', 'arg') for x in walk(fa[1]))
    try:
        sym = Sym(f, want=want, step=step, user=frozenset(), pure=lambda c: False, edge=edge, limit=20000)
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    kind = re.search('Add|Rename|Remove', n)
    for ret, st, env in sym.exits:
        u = st.user
        nm = {x for x in u if x[0] in '+-' and x[1] == 'name'}
        ix = {x for x in u if x[0] in '+-' and x[1] == 'objID'}
        msg = None
        rep = {x[2] for x in ix if x[0] == '-'} & {x[2] for x in ix if x[0] == '+'}
        left = set(ix)
        for x in nm:
            if x[0] == '+':
                m = next((y for y in left if y[0] == '+' and same(st, y[2], x[3])), None)
            else:
                vals = [z[3] for z in u if z[0] == 'look' and z[1] == 'name' and same(st, z[2], x[2])]
                m = next((y for y in left if y[0] == '-' and (any(same(st, y[2], v) for v in vals) or any(z[0] == 'look' and z[1] == 'objID' and same(st, z[2], y[2]) and same(st, z[3], x[2]) for z in u))), None)
            if m is None:
                msg = '%s %s a name without doing the same for the address' % (n, 'binds' if x[0] == '+' else 'removes')
            left.discard(m)
        if left and not msg:
            msg = '%s %s an address without doing the same for the name' % (n, 'binds' if any(x[0] == '+' for x in left) else 'removes')
        note('paired', not msg, msg, ret)
        # copies that nothing refers to
        for x in u:
            if x[0] == 'alloc' and not eq0(st.facts, x[1]) and ('freed', x[1]) not in u and not any(y[0] == '+' and y[1] == 'objID' and y[3] == x[1] for y in u):
                note('storage', False, '%s keeps a copy of a name that nothing refers to' % n, ret, n + ': lost')
        for x in ix:
            if x[0] == '-':
                Xs = [z[3] for z in u if z[0] == 'look' and z[1] == 'objID' and same(st, z[2], x[2])]
                note('storage', any(('freed', X) in u or eq0(st.facts, X) for X in Xs), '%s does not free the stored name it unbinds' % n, ret, n + ': lost')
        t = truth(sym, ret.ops[0], st, env) if ret.ops else None
        if kind and t is not None:
            good = t == (0 if kind.group(0) == 'Remove' else 1)
            fr = any(c.op == 'call' and re.search('ContextFree', c.callee or '') and ne0(st.facts, atom(('call', c.id))) for c in f.insts())
            eq = any(c.op == 'call' and c.callee in ('strcmp', 'strncmp') and eq0(st.facts, atom(('call', c.id))) for c in f.insts())
            if good:
                note('done', nm or eq, '%s reports success without having changed a binding' % n, ret)
            elif not fr:
                note('untouched', not nm and not ix, '%s reports failure after it changed a binding' % n, ret)
    for (rule, inst), l in sorted(seen.items()):
        bad = sorted({msg for ok, msg, _ in l if not ok})
        for msg in bad:
            r.bad(rule, inst, msg, next(i for ok, m, i in l if m == msg and not ok))
        if not bad:
            r.ok(rule, inst)
