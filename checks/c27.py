"""C27: enumeration steps compare modification counts before they use the cached position, and keep their own key."""
import re
from sa import common
from sa.sym import Sym, sub, atom, eq0, ne0, single, walk
from sa.flow import fieldpath, strip, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive symbolic dataflow over every function that uses an enumeration, on LLVM IR'
EXPLANATION = ('On every feasible path of every step function, a node read from the enumeration and not written by a successful search of the same call is used only where the remembered '
               'modification count was compared equal to the count of the tree read in the same call (and, in locking forms, under the same hold of the lock); the remembered count changes only after a search from the root; '
               'pointers to tree storage kept from an earlier call are not followed.')
ENUM = re.compile(r'^_*(SB|IDX)Enumeration$')


def enum_field(p):
    fp = fieldpath(p)
    for k, (t, f) in enumerate(fp):
        if t and ENUM.match(t):
            return f, [x[1] for x in fp[k + 1:]]
    return None


def is_node(ef):
    return ef and ef[0] == 'ref' and ef[1] in (['node'], [])


def is_count(f):
    return re.search('(?i)modcount', f or '')


def tree_value(v, kept, seen=None):
    """may v be storage of the tree (not the enumeration's own)?"""
    seen = seen if seen is not None else set()
    v = strip(v)
    if v.id in seen:
        return False
    seen.add(v.id)
    if v.k in ('const', 'null', 'global', 'undef'):
        return False
    if v.k == 'arg':
        return False
    if v.k == 'inst':
        if v.op == 'load':
            ef = enum_field(v.ops[0])
            if ef:
                return not ef[1] and ef[0] in kept
            return v.w is None or v.w == 64
        if v.op in ('phi', 'select'):
            return any(tree_value(o, kept, seen) for o in (v.ops if v.op == 'phi' else v.ops[1:]))
        if v.op == 'gep':
            return tree_value(v.ops[0], kept, seen)
        if v.op == 'call':
            return v.callee not in ('malloc', 'calloc', 'realloc', 'strdup', 'strcpy', 'memcpy')
        return False
    return False


def run(r):
    r.rule('compared', 'a node position kept from an earlier step is used only after the remembered modification count was seen equal to the count of the tree, read in this step', 1)
    r.rule('locked', 'locking forms read the count and use nodes of the tree under one hold of its lock', 0)
    r.rule('remember', 'the remembered count changes only to the count read in this step, after a search from the root that succeeded', 0)
    r.rule('start', 'a new enumeration remembers the current count and no position', 0)
    r.rule('own-key', 'pointers to storage of the tree kept from an earlier step are not followed without that comparison', 0)
    M = common.lib(cse=True)
    users = {}
    kept = set()
    for n, f in sorted(M.fns.items()):
        for i in f.insts():
            if i.op in ('load', 'store'):
                ef = enum_field(i.ops[0] if i.op == 'load' else i.ops[1])
                if ef:
                    users.setdefault(n, []).append((i, ef))
    while True:
        k0 = len(kept)
        for n, l in users.items():
            for i, ef in l:
                if i.op == 'store' and not ef[1] and ef[0] not in ('tree', 'ref') and (i.ops[0].w in (None, 64)) and i.ops[0].k == 'inst' and tyis_ptr(i.ops[0]) and tree_value(i.ops[0], kept):
                    kept.add(ef[0])
        if len(kept) == k0:
            break
    for n, l in sorted(users.items()):
        f = M.fns[n]
        if any(i.op == 'load' and is_node(ef) for i, ef in l) or any(i.op == 'load' and ef[0] in kept for i, ef in l):
            step_fn(r, n, f, kept)
        if any(i.op == 'call' and i.callee in ('malloc', 'calloc') for i in f.insts()) and any(i.op == 'store' for i, ef in l):
            create_fn(r, n, f)


def tyis_ptr(v):
    v = strip(v)
    return v.k == 'inst' and (getattr(v, 'ptr', None) if hasattr(v, 'ptr') else True)


def step_fn(r, n, f, kept):
    locking = not re.search(r'(?i)_?nolock$', n)
    seen = {}

    def want(sym, fa):
        if fa[0] == 'b':
            return False
        for x in walk(fa[1]):
            if x[0] == 'call' and x[1] in track:
                return True
            if x[0] == 'ld' and x[2] in track:
                return True
        return False
    track = set()
    fresh = {i.id for i in f.insts() if i.op == 'call' and i.callee in ('malloc', 'calloc')}
    for i in f.insts():
        if i.op == 'call' and i.callee and (is_count(i.callee) or re.search('Search|KeepKey', i.callee)):
            track.add(i.id)
        if i.op == 'load':
            fp = fieldpath(i.ops[0])
            ef = enum_field(i.ops[0])
            if any(is_count(x[1]) for x in fp) or ef and (ef[0] == 'curmod' or is_node(ef)):
                track.add(i.id)

    def current(sym, st, env, u):
        """count of the tree read in this step, equal to the remembered one"""
        for fa in st.facts:
            if fa[0] == 'eq' and fa[1][0] == 0 and len(fa[1][1]) == 2:
                (a, ca), (b, cb) = fa[1][1]
                if ca == -cb:
                    for x, y in ((a, b), (b, a)):
                        if ('count', x[1] if x[0] == 'call' else x[2] if x[0] == 'ld' else None) in u and y[0] == 'ld' and ('rem', y[2]) in u:
                            return True
        return False

    def note(rule, inst, ok, msg, at):
        seen.setdefault((rule, inst, id(at)), []).append((ok, msg, at))

    def step(sym, i, st, env):
        u = st.user
        if i.op == 'load':
            ef = enum_field(i.ops[0])
            if is_node(ef):
                u = frozenset(x for x in u if x[1:2] != (i.id,))
                got = any(x[0] == 'search' and ne0(st.facts, atom(('call', x[1]))) for x in u)
                u |= {('fresh' if got else 'stale', i.id)}
            elif ef and ef[0] == 'curmod':
                u |= {('rem', i.id)}
            elif ef and not ef[1] and ef[0] in kept:
                u = frozenset(x for x in u if x[1:2] != (i.id,))
                if ('wrote', ef[0]) in u:
                    note('own-key', n, True, '', i)
                else:
                    u |= {('old', i.id)}
            elif any(is_count(x[1]) for x in fieldpath(i.ops[0])):
                u = frozenset(x for x in u if x[1:2] != (i.id,)) | {('count', i.id)}
        # uses
        ptrs = []
        if i.op == 'load':
            ptrs = [i.ops[0]]
        elif i.op == 'store':
            ptrs = [i.ops[1]]
        elif i.op == 'call' and i.callee not in ('free', 'SASLock', 'SASUnlock') and not (i.callee or '').startswith('llvm.dbg'):
            ptrs = [a for a in i.args if a.k == 'inst']
        for p in ptrs:
            L = sym.lin(p, env, st)
            ids = {x[2] for x, c in L[1] if x[0] == 'ld'}
            for d in ids:
                if ('stale', d) in u:
                    note('compared', n, current(sym, st, env, u), '%s uses the node it cached in an earlier step without having seen the modification count unchanged' % n, i)
                if locking and (('stale', d) in u or ('fresh', d) in u):
                    note('locked', n, ('lock',) in u, '%s uses a node of the tree without the lock of the tree' % n, i)
                if ('old', d) in u:
                    note('own-key', n, current(sym, st, env, u), '%s follows a pointer into the tree that it kept from an earlier step; the storage may have been freed since' % n, i)
        if i.op == 'store':
            ef = enum_field(i.ops[1])
            if ef and any(x[0] == 'call' and x[1] in fresh for x, c in sym.lin(i.ops[1], env, st)[1]):
                ef = None                       # the enumeration being made
            if ef and ef[0] == 'curmod':
                x = single(sym.lin(i.ops[0], env, st))
                d = x and (x[1] if x[0] == 'call' else x[2] if x[0] == 'ld' else None)
                note('remember', n + ': value', ('count', d) in u, '%s remembers a modification count that is not the one read in this step' % n, i)
                ok = any(x[0] == 'search' and x[2] and ne0(st.facts, atom(('call', x[1]))) for x in u) or current(sym, st, env, u)
                note('remember', n + ': sought', ok, '%s remembers the current modification count although it did not look the position up from the root again' % n, i)
            if ef and not ef[1] and ef[0] in kept:
                u |= {('wrote', ef[0])}
            if is_node(ef):
                u = frozenset(x for x in u if x[0] != 'search')
        if i.op == 'call' and i.callee:
            if is_count(i.callee):
                u = frozenset(x for x in u if x[1:2] != (i.id,)) | {('count', i.id)}
            elif re.search('Search', i.callee) and any(enum_field(a) and enum_field(a)[0] == 'ref' for a in i.args):
                a0 = sym.res(i.args[0], env, st)
                root = a0.k == 'inst' and (a0.op == 'call' and re.search('(?i)root', a0.callee or '') or a0.op == 'load' and any(re.search('(?i)root', x[1] or '') for x in fieldpath(a0.ops[0])))
                u = frozenset(x for x in u if x[:2] != ('search', i.id)) | {('search', i.id, bool(root))}
            elif i.callee == 'SASLock':
                u |= {('lock',)}
            elif i.callee == 'SASUnlock':
                u = frozenset(x for x in u if x[0] not in ('lock', 'count'))
        return u
    try:
        Sym(f, want=want, step=step, user=frozenset(), pure=lambda c: True, limit=20000)
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    for (rule, inst, _), l in seen.items():
        for ok, msg in sorted({x[:2] for x in l}):
            at = l[0][2]
            r.check(ok, rule, inst, msg, at)


def create_fn(r, n, f):
    fresh = {i.id for i in f.insts() if i.op == 'call' and i.callee in ('malloc', 'calloc')}

    def step(sym, i, st, env):
        u = st.user
        if i.op == 'call' and i.id in fresh:
            return frozenset()
        if i.op == 'store':
            ef = enum_field(i.ops[1])
            if is_node(ef):
                v = sym.res(i.ops[0], env, st)
                u = frozenset(x for x in u if x[0] != 'node') | {('node', v.k == 'null')}
            elif ef and ef[0] == 'curmod':
                v = sym.res(i.ops[0], env, st)
                ok = v.k == 'inst' and (v.op == 'call' and is_count(v.callee) or v.op == 'load' and any(is_count(x[1]) for x in fieldpath(v.ops[0])))
                u = frozenset(x for x in u if x[0] != 'mod') | {('mod', bool(ok))}
        return u
    try:
        sym = Sym(f, want=lambda s, fa: any(x[0] == 'call' and x[1] in fresh for x in walk(fa[1])), step=step, user=frozenset())
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    for ret, st, env in sym.exits:
        v = sym.res(ret.ops[0], env, st) if ret.ops else None
        if v is not None and v.k == 'inst' and v.id in fresh:
            if not ne0(st.facts, atom(('call', v.id))):
                continue                    # the null result of a failed malloc
            r.check(('node', True) in st.user, 'start', n + ': position', '%s returns an enumeration that already holds a node position' % n, ret)
            r.check(('mod', True) in st.user, 'start', n + ': count', '%s returns an enumeration that does not remember the modification count of the tree' % n, ret)
