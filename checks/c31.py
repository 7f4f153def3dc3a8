"""C31: entries of tree nodes move as a whole (key, value and branch)."""
import re
from sa import common
from sa.locks import natural_loops
from sa.sym import Sym, S, sub, con, atom, single, addl, walk, ge0, plusc, scale
from sa.flow import fieldof, strip, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-sensitive symbolic dataflow over every function that writes entries of tree nodes, on LLVM IR'
EXPLANATION = ('Every store into the key, value and branch arrays of a B-tree or index node is read as a move between entries (node, index), through pointers kept in variables, copies of key storage and records that pass an entry '
               'up. Per loop round and per path the moves of keys and values have to agree in source and destination, and so do those of branches between entries.')
NODE = re.compile(r'^(SASStringBTreeNode|SASIndexNode)Header$')
REF = re.compile(r'^_*(SB|IDX)nodeKeyRef$')
KIND = {'keys': 'k', 'vals': 'v', 'branch': 'b'}
RKIND = {'key': 'k', 'val': 'v', 'node': 'b'}
COPY = ('memcpy', 'memmove', 'strcpy', 'strncpy', 'stpcpy')


def innermost(fn):
    L = natural_loops(fn)
    out = {}
    for h, body in sorted(L.items(), key=lambda x: -len(x[1])):
        for b in body:
            out[b] = h
    return L, out


class Moves:
    def __init__(s, M, n, r):
        s.fn = M.fns[n]; s.n = n; s.r = r
        s.L, s.inner = innermost(s.fn)
        s.hid = {b: k for k, b in enumerate(s.fn.blocks)}
        s.bad = {}
        s.count = 0
        s.pend = {}
        s.sites = {}
        sy = Sym(s.fn, stable=lambda f: bool(f and (NODE.match(f[0] or '') and f[1] in ('keys', 'vals', 'branch', 'count', 'max_count'))), want=lambda a, f: False, step=s.step, edge=s.edge,
                 user=(frozenset(), frozenset(), frozenset()), limit=2000)
        for i, st, env in ((x[0], x[1], x[2]) for x in sy.exits):
            s.judge(st.user, None)
        s.settle()

    def place(s, sy, ptr, env, st):
        """(kind, container, index) of the entry part at an address"""
        f = fieldof(ptr)
        if f and f[0] and REF.match(f[0]) and f[1] in RKIND:
            L = sy.lin(ptr, env, st)
            return (RKIND[f[1]], ('r', plusc(L, -s.off(f))), None)
        L = sy.lin(ptr, env, st)
        for a, k in L[1]:
            if k == 1 and a[0] == 'ld':
                g = sy.field(a)
                if g and g[0] and NODE.match(g[0]) and g[1] in KIND:
                    return (KIND[g[1]], ('n', plusc(a[1], -s.off(g))), sub(L, atom(a)))
        return None

    def off(s, f):
        for o, m in s.fn_structs[f[0]].items():
            if m == f[1]:
                return o
        return 0

    def source(s, sy, v, kind, user, env, st):
        """entry the value was read from"""
        v = sy.res(v, env, st)
        for _ in range(4):
            if v.k == 'inst' and v.op == 'load':
                p = s.place(sy, v.ops[0], env, st)
                return p if p and p[0] == kind else None
            if v.k == 'inst' and v.op == 'call':
                return dict(user[1]).get(v.id)
            return None

    def step(s, sy, i, st, env):
        u = st.user
        if i.op == 'call' and i.callee and any(i.callee == c or i.callee.startswith('llvm.%s.' % c) for c in COPY):
            d = sy.res(i.ops[0], env, st)
            if d.k == 'inst' and d.op == 'call':
                src = s.source(sy, i.ops[1], 'k', u, env, st)
                m = {x for x in u[1] if x[0] not in (d.id, i.id)}
                if src:
                    m |= {(d.id, src), (i.id, src)}
                return (u[0], frozenset(m), u[2])
        if i.op == 'call' and any(x[0] == i.id for x in u[1]):
            return (u[0], frozenset(x for x in u[1] if x[0] != i.id), u[2])
        if i.op == 'store':
            h = s.inner.get(i.bb)
            tag = None if h is None else s.hid[h]
            f = fieldof(i.ops[1])
            if f and f[0] and NODE.match(f[0]) and f[1] == 'count':
                c = ('n', plusc(sy.lin(i.ops[1], env, st), -s.off(f)))
                t = None
                if s.grows(sy, i.ops[0], c, env, st):
                    t = (tag, '+', c)
                elif s.fresh(sy, c):
                    t = (tag, 'n', c)
                if t:
                    s.sites.setdefault(t, i)
                    return (u[0], u[1], u[2] | {t})
                return u
            p = s.place(sy, i.ops[1], env, st)
            if p:
                mv, fl = u[0], u[2]
                src = s.source(sy, i.ops[0], p[0], u, env, st)
                if src and src[1:] != p[1:]:
                    t = (tag, p[0], p[1:], src[1:])
                    s.sites.setdefault(t, i)
                    mv = mv | {t}
                v = sy.res(i.ops[0], env, st)
                null = v.k == 'null' or v.k == 'const' and not v.c
                if p[1][0] == 'n' and not (src and src[1:] == p[1:]):
                    t = (tag, p[0] + ('0' if null else ''), p[1:])
                    s.sites.setdefault(t, i)
                    fl = fl | {t}
                return (mv, u[1], fl)
        return u

    def grows(s, sy, v, c, env, st):
        """v is the count of c and one"""
        v = strip(v)
        while v.k == 'inst' and v.op in ('trunc', 'sext', 'zext'):
            v = strip(v.ops[0])
        if not (v.k == 'inst' and v.op == 'add'):
            return False
        for a, b in (v.ops, v.ops[::-1]):
            a = strip(a)
            while a.k == 'inst' and a.op in ('trunc', 'sext', 'zext'):
                a = strip(a.ops[0])
            if b.k == 'const' and b.c == 1 and a.k == 'inst' and a.op == 'load':
                f = fieldof(a.ops[0])
                return bool(f and f[1] == 'count' and ('n', plusc(sy.lin(a.ops[0], env, st), -s.off(f))) == c)
        return False

    def fresh(s, sy, c):
        x = single(c[1])
        if not x or x[0] not in ('call', 'i'):
            return False
        w = [next((j for j in s.fn.insts() if j.id == x[1]), None)]
        seen = set()
        while w:
            v = w.pop()
            v = strip(v) if v is not None else None
            if v is None or v.k != 'inst' or v.op not in ('call', 'phi', 'select'):
                return False
            if v.id in seen or v.op == 'call':
                continue
            seen.add(v.id)
            w += [y for y, _ in v.inc] if v.op == 'phi' else v.ops[1:]
        return True

    def judge(s, u, tag):
        moves = u[0]
        fl = {t[1:] for t in u[2] if t[0] == tag}
        for t in u[2]:
            if t[0] != tag:
                continue
            if tag is not None and any(x[0] == tag and x[1] == t[1] and x[2] == t[2] for x in moves):
                continue                                # judged as a move
            if t[1] == 'k' and ('v', t[2]) not in fl:
                s.say('an entry gets a key and no value', t)
            elif t[1] == 'b' and t[2][1] != con(0) and ('k', t[2]) not in fl:
                s.say('an entry gets a branch and no key', t)
            elif t[1] == '+' and any(x[0] == 'k' and x[1][0] == t[2] and ('b', x[1]) not in fl and ('b0', x[1]) not in fl for x in fl):
                s.say('an entry is added without its branch', t)
            elif t[1] == 'n' and not any(x[0] in ('b', 'b0') and x[1] == (t[2], con(0)) for x in fl):
                s.say('a new node gets no leftmost branch', t)
        mine = [t for t in moves if t[0] == tag]
        if not mine:
            return
        have = {k: {t[2:] for t in mine if t[1] == k} for k in 'kvb'}
        for t in mine:
            s.count += 1
            m = t[2:]
            (dc, di), (sc, si) = m
            zero = (di is not None and di == con(0)) or (si is not None and si == con(0))
            if t[1] == 'k' and m not in have['v']:
                s.miss('a key moves without its value', t, 'v')
            elif t[1] == 'v' and m not in have['k']:
                s.miss('a value moves without its key', t, 'k')
            elif t[1] == 'b' and not zero and m not in have['k']:
                s.miss('a branch moves without its key', t, 'k')
            if t[1] == 'k' and tag is not None and dc[0] == 'n' and sc[0] == 'n' and not zero and m not in have['b']:
                s.miss('a key is shifted without its branch', t, 'b')

    def miss(s, what, t, kind):
        """a part that does not move in this round may move in a loop of its own"""
        (dc, di), (sc, si) = t[2:]
        if t[0] is None or di is None or si is None:
            s.say(what, t)
        else:
            s.pend[(what, t, kind)] = (dc, sc, sub(di, si))

    def settle(s):
        alone = {}
        for (what, t, kind), key in s.pend.items():
            alone.setdefault((t[1], key), set()).add(t[0])
        for (what, t, kind), key in sorted(s.pend.items(), key=lambda x: (x[0][0], s.sites[x[0][1]].id)):
            if not alone.get((kind, key), set()) - {t[0]}:
                s.say(what, t)

    def say(s, what, t):
        s.bad.setdefault((what, s.sites[t].id), s.sites[t])

    def edge(s, sy_b, su, st, env):
        b = sy_b
        u = st.user
        mv = u[0]
        h = s.inner.get(b)
        out = set()
        # loops left or come round
        for hh, body in s.L.items():
            if b in body and (su is hh or su not in body):
                s.judge(u, s.hid[hh])
                out.add(s.hid[hh])
        if out and any(t[0] in out for t in mv | u[2]):
            return st._replace(user=(frozenset(t for t in mv if t[0] not in out), u[1], frozenset(t for t in u[2] if t[0] not in out)))
        return st


def run(r):
    r.rule('whole', 'in every loop round and on every path, the entry parts moved between nodes (key, value, branch) agree in source and destination', 4)
    M = common.lib(cse=True)
    Moves.fn_structs = M.structs
    for n in sorted(M.fns):
        fn = M.fns[n]
        w = False
        for i in fn.insts():
            f = fieldof(i.ops[0]) if i.op == 'load' else None
            if f and f[0] and NODE.match(f[0]) and f[1] in KIND and any(x.op == 'store' for x in fn.insts()):
                w = True
                break
        if not w:
            continue
        try:
            m = Moves(M, n, r)
        except TooBig:
            r.assume.append('%s is too big to follow' % n)
            continue
        if m.bad:
            for (what, _), i in sorted(m.bad.items(), key=lambda x: x[0]):
                r.bad('whole', '%s: %s' % (n, what), what, i)
        elif m.count:
            r.ok('whole', n)
