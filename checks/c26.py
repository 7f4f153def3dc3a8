"""C26: counts, modification counts and the recorded smallest and largest key of string B-trees and indexes."""
import re
from sa import common
from sa.sym import Sym, sub, scale, atom, eq0, ne0, single, walk, con, ge0
from sa.flow import fieldpath, strip, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive symbolic dataflow (net change of counters per path, matched with the result) on LLVM IR'
EXPLANATION = ('For every path of every insertion, removal and replacement, in the locking and the non-locking form, the net change of the element count and of the modification count is computed from the stores '
               'and compared with what the path did (root replaced, deletion called) and returns; in removals the key recorded as smallest or largest has to come from a node seen to have no child on that side; '
               'nothing else changes the counts or the root.')
COMMON = re.compile(r'^(SASStringBTree|SASIndex)Common$')
HEADER = re.compile(r'^(SASStringBTree|SASIndex)Header$')
COPY = re.compile(r'^(strcpy|memcpy|memmove|SASIndexKeyCopy|llvm\.mem(cpy|move)\..*)$')
CMP = re.compile(r'^(strcmp|SASIndexKeyCompare)$')
NODE = re.compile(r'^(SASStringBTree|SASIndex)NodeHeader$')
OPS = re.compile(r'^(SASStringBTree|SASIndex)(Put|Remove|Replace)(_nolock)?$')
FORMS = [p + o + n for p in ('SASStringBTree', 'SASIndex') for o in ('Put', 'Remove', 'Replace') for n in ('', '_nolock')]


def what(p):
    """count, mod, root, min, max: what a store or load at p is about"""
    for t, f in reversed(fieldpath(p)):
        if t and COMMON.match(t):
            return {'count': 'count', 'modCount': 'mod', 'min_key': 'min', 'max_key': 'max'}.get(f)
        if t and HEADER.match(t):
            return 'root' if f == 'root' else None
    return None


def truth(sym, v, st, env, d=0):
    """1 / 0 when the path decides whether v is nonzero"""
    v = sym.res(v, env, st)
    if v.k in ('const', 'null'):
        return int(bool(v.c)) if v.c is not None else 0
    if d < 6 and v.k == 'inst':
        if v.op in ('zext', 'sext', 'trunc', 'freeze'):
            return truth(sym, v.ops[0], st, env, d + 1)
        if v.op == 'icmp' and v.pred in ('eq', 'ne'):
            L = sub(sym.lin(v.ops[0], env, st), sym.lin(v.ops[1], env, st))
            if eq0(st.facts, L):
                return int(v.pred == 'eq')
            if ne0(st.facts, L):
                return int(v.pred == 'ne')
    L = sym.lin(v, env, st)
    return 1 if ne0(st.facts, L) else 0 if eq0(st.facts, L) else None


def run(r):
    r.rule('counted', 'a path that inserts or removes a key changes the element count by one in the right direction; other paths do not change it', 1)
    r.rule('modified', 'a path that inserts or removes a key changes the modification count exactly once; paths that refuse or do not find do not change it', 1)
    r.rule('result', 'an insertion reports success on the paths that store a new root and on no other', 0)
    r.rule('found', 'the deletion runs only after a search from the root has found the key', 0)
    r.rule('outermost', 'the smallest and largest key recorded after a removal come from a node without a child on that side', 0)
    r.rule('bounds', 'an insertion records a copy of its key as smallest or largest unless it was compared and lies inside; a removal renews them unless its key was compared and is another', 0)
    r.rule('only-here', 'counts, modification count and root change only in these operations and where the object is created', 0)
    M = common.lib(cse=True, extra_keep={'SASIndexKeyCompare', 'SASIndexKeyCopy'})
    users = {}
    for n, f in sorted(M.fns.items()):
        for i in f.insts():
            if i.op in ('store', 'atomicrmw', 'cmpxchg'):
                w = what(i.ops[1] if i.op == 'store' else i.ops[0])
                if w in ('count', 'mod', 'root'):
                    users.setdefault(n, []).append((i, w))
    for n, l in users.items():
        if OPS.match(n):
            continue
        f = M.fns[n]
        init = any(i.op == 'call' and i.callee and re.match('initSOMSASBlock', i.callee) for i in f.insts())
        for i, w in l:
            v = strip(i.ops[0]) if i.op == 'store' else None
            r.check(init and v is not None and v.k in ('const', 'null'), 'only-here', '%s: %s' % (n, w),
                    '%s changes the %s of a tree outside insertion, removal and replacement' % (n, {'count': 'element count', 'mod': 'modification count'}.get(w, w)), i)
    for n in FORMS:
        if n in M.fns:
            operation(r, M, n, M.fns[n])


def operation(r, M, n, f):
    kind = OPS.match(n).group(2)
    seen = {}

    def note(rule, inst, ok, msg, i):
        seen.setdefault((rule, inst), set()).add((bool(ok), msg, i))

    def base(A, fld):
        """node N when A is the address of element ... of N's array fld: (N, index part)"""
        for x, k in A[1]:
            if k == 1 and x[0] == 'ld':
                g = sym_fields.get(x[1])
                if g and NODE.match(g[0] or '') and g[1] == fld:
                    return x[1], sub(A, atom(x))
        return None

    def outer(sym, st, N, idx):
        """sides on which node N is known to have no child, for the key at idx of its keys"""
        side = ''
        for fa in st.facts:
            if fa[0] != 'eq':
                continue
            x = single(fa[1]) or single(scale(fa[1], -1))
            e = base(x[1], 'branch') if x is not None and x[0] == 'ld' else None
            if not e or e[0][1] != N[1]:
                continue
            if idx == con(8) and e[1] == con(0):
                side += 'min'
            if of_count(sym, idx) and of_count(sym, e[1]):
                side += 'max'
        return side

    def of_count(sym, L):
        """8 * the count of a node"""
        if L[0] != 0 or len(L[1]) != 1:
            return False
        (x, k), = L[1]
        if k != 8:
            return False
        if x[0] == 'ld':
            g = sym.field(x)
            return bool(g and NODE.match(g[0] or '') and g[1] == 'count')
        return x[0] == 'i' and count_value(vals.get(x[1]), set())

    def count_value(v, seen):
        v = strip(v) if v is not None else None
        if v is None or v.k != 'inst':
            return False
        if v.id in seen:
            return True
        seen.add(v.id)
        if v.op == 'phi':
            return all(count_value(o, seen) for o in v.ops)
        return v.op == 'load' and any(NODE.match(t or '') and g == 'count' for t, g in fieldpath(v.ops[0]))

    sym_fields = {}

    def step(sym, i, st, env):
        nonlocal sym_fields
        sym_fields = sym.fields
        u = dict(st.user)
        if i.op == 'load':
            w = what(i.ops[0])
            if w in ('count', 'mod'):
                u[('at', i.id)] = u[w]
            elif w == 'root':
                u['root'] = i.id
            else:
                return st.user
            return tuple(sorted(u.items(), key=repr))
        if i.op == 'store':
            w = what(i.ops[1])
            if w in ('count', 'mod'):
                L = sym.lin(i.ops[0], env, st)
                if not L[1]:
                    # the count of an empty tree
                    root = u.get('root')
                    empty = L[0] == 0 and w == 'count' and root is not None and truth(sym, vals[root], st, env) == 0
                    u[w] = 'set' if not empty else 'zero' if 'del' in u else u[w]
                else:
                    x = [y for y, k in L[1] if k == 1 and y[0] == 'ld']
                    at = u.get(('at', x[0][2])) if len(L[1]) == 1 and len(x) == 1 else None
                    u[w] = at + L[0] if isinstance(at, int) else 'set'
            elif w in ('min', 'max'):
                v = sym.res(i.ops[0], env, st)
                u[w] = 'null' if sym.lin(v, env, st) == con(0) else v.id
            elif w == 'root':
                v = sym.res(i.ops[0], env, st)
                vals[v.id] = v
                u['newroot'] = 1
                u['root'] = v.id
            else:
                return st.user
            return tuple(sorted(u.items(), key=repr))
        if i.op == 'call' and i.callee:
            if re.search('NodeDelete$', i.callee):
                u['del'] = 1
                ok = any(c.op == 'call' and re.search('Search|Find', c.callee or '') and ne0(st.facts, atom(('call', c.id))) for c in calls)
                note('found', n, ok, '%s runs the deletion on a path on which no search has found the key' % n, i)
                return tuple(sorted(u.items(), key=repr))
            if COPY.match(i.callee) and len(i.args) > 1:
                src = sym.res(i.args[1], env, st)
                if kind == 'Put':
                    v = 'key' if src.k == 'arg' and src.idx == 1 else 'other'
                else:
                    A = single(sym.lin(src, env, st))
                    e = base(A[1], 'keys') if A is not None and A[0] == 'ld' else None
                    v = outer(sym, st, *e) if e else ''
                d = sym.res(i.args[0], env, st)
                for x in ('null' if sym.lin(d, env, st) == con(0) else d.id, i.id):
                    u[('copy', x)] = v
                return tuple(sorted(u.items(), key=repr))
            if CMP.match(i.callee) and len(i.args) > 1:
                for k in (0, 1):
                    a = sym.res(i.args[k], env, st)
                    if a.k == 'inst' and a.op == 'load' and what(a.ops[0]) in ('min', 'max'):
                        u[('cmp', what(a.ops[0]), i.id)] = 1 if k else -1
                        return tuple(sorted(u.items(), key=repr))
        return st.user

    vals = {i.id: i for i in f.insts()}
    calls = [i for i in f.insts() if i.op == 'call']
    keep = {c.id for c in calls if re.search('Node|Search|Check|Find|Init|strcmp|Compare', c.callee or '')}

    def elem(s, A):
        nonlocal sym_fields
        sym_fields = s.fields
        f = s.fields.get(A)
        return f and COMMON.match(f[0] or '') and f[1] == 'count' or base(A, 'branch') or base(A, 'keys')

    def want(s, fa):
        if fa[0] == 'b':
            return False
        return any(x == ('arg', 1) or x[0] == 'call' and x[1] in keep or x[0] == 'ld' and ((s.fields.get(x[1]) or ('', ''))[1] == 'root' or elem(s, x[1])) for x in walk(fa[1]))
    try:
        sym = Sym(f, want=want, step=step, user=(('count', 0), ('mod', 0)), pure=lambda c: False, limit=20000)
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    for ret, st, env in sym.exits:
        u = dict(st.user)
        t = truth(sym, ret.ops[0], st, env) if ret.ops else None
        c, m = u['count'], u['mod']
        if kind == 'Put':
            done = 'newroot' in u
            if t is not None:
                note('result', n, bool(t) == done, '%s %s' % (n, 'reports success on a path that stores no root' if t else 'reports failure on a path that stores a new root'), ret)
                done = bool(t)
            note('counted', n, c == (1 if done else 0), '%s: element count %s on a path that %s' % (n, show(c), 'inserts' if done else 'does not insert'), ret)
            note('modified', n, m == (1 if done else 0), '%s: modification count %s on a path that %s' % (n, show(m), 'inserts' if done else 'does not insert'), ret)
        elif kind == 'Remove':
            done = 'del' in u
            note('counted', n, c in ((-1, 'zero') if done else (0,)), '%s: element count %s on a path that %s' % (n, show(c), 'removes' if done else 'does not remove'), ret)
            note('modified', n, m == (1 if done else 0), '%s: modification count %s on a path that %s' % (n, show(m), 'removes' if done else 'does not remove'), ret)
        else:
            done = not (t == 0) and any(ne0(st.facts, atom(('call', x.id))) for x in calls if re.search('Search|Find', x.callee or ''))
            note('counted', n, c == 0, '%s: element count %s by a replacement' % (n, show(c)), ret)
            note('modified', n, m in ((0, 1) if done else (0,)), '%s: modification count %s on a path that %s' % (n, show(m), 'replaces' if done else 'does not replace'), ret)
        if not done or kind == 'Replace':
            continue
        if kind == 'Remove' and ('root' not in u or truth(sym, vals[u['root']], st, env) == 0):
            continue
        if any(k[0] == 'at' and v == -1 and (eq0(st.facts, sym.lin(vals[k[1]], env, st)) or ge0(st.facts, scale(sym.lin(vals[k[1]], env, st), -1))) for k, v in st.user if isinstance(k, tuple)):
            continue                        # the count is zero
        if any(fa[0] == 'eq' and any(x[0] == 'ld' and base(x[1], 'keys') for x in walk(fa[1])) for fa in st.facts):
            continue                        # a key slot in use that holds no key
        for w, side in (('min', 'smallest'), ('max', 'largest')):
            v = u.get(w)
            if v == 'null' and kind == 'Put' and (eq0(st.facts, atom(('arg', 1))) or ('copy', 'null') in u):
                continue
            if v is None:
                sg = {o: atom(('call', k[2])) for k, o in st.user if isinstance(k, tuple) and k[0] == 'cmp' and k[1] == w}
                if kind == 'Remove':
                    ok = any(ne0(st.facts, L) for L in sg.values())
                else:
                    ok = any(ge0(st.facts, scale(L, o if w == 'min' else -o)) for o, L in sg.items())
                note('bounds', n, ok, '%s leaves the recorded %s key on a path on which the key %s' % (n, side, 'removed may be that key' if kind == 'Remove' else 'inserted may lie beyond it'), ret)
            else:
                c = u.get(('copy', v), 'other')
                if kind == 'Remove':
                    note('outermost', n, w in c, '%s records a %s key that is not from a node seen to have no child on that side' % (n, side), ret)
                else:
                    note('bounds', n, c == 'key', '%s records a %s key that is not a copy of the key inserted' % (n, side), ret)
    for (rule, inst), l in sorted(seen.items()):
        bad = sorted({(msg) for ok, msg, _ in l if not ok})
        for msg in bad:
            r.bad(rule, inst, msg, next(i for ok, m, i in l if m == msg and not ok))
        if not bad:
            r.ok(rule, inst)


def show(c):
    return 'unchanged' if c == 0 else 'set to a new value' if c == 'set' else 'set to zero' if c == 'zero' else 'changed by %+d' % c
