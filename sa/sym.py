"""Path facts in terms of symbolic values: linear forms over loads and arguments, known header bits, own stores.

A linear form is (const, frozenset of (atom, coefficient)).  Atoms:
  ('ld', address form, tag)   a load; tag 0 for fields the check calls stable, the instruction id otherwise
  ('arg', n) ('g', name) ('call', id) ('op', op, form, form) ('i', id)
Facts of a path: ('ge', L) L >= 0, ('eq', L), ('ne', L), ('b', atom, bit, value)."""
from collections import namedtuple
from .flow import Flow, CASTS, EXT, depends, env_alias, strip, fieldof, const_of, eval_cond

S = namedtuple('S', 'facts mem bind user')
ZERO = (0, frozenset())
NEG = {'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'eq': 'ne', 'ne': 'eq'}


def addl(a, b, k=1):
    d = dict(a[1])
    for x, c in b[1]:
        d[x] = d.get(x, 0) + k * c
    return (a[0] + k * b[0], frozenset((x, c) for x, c in d.items() if c))


def scale(a, k):
    return (a[0] * k, frozenset((x, c * k) for x, c in a[1])) if k else ZERO


def sub(a, b):
    return addl(a, b, -1)


def con(c):
    return (c, frozenset())


def plusc(a, c):
    return (a[0] + c, a[1])


def atom(x):
    return (0, frozenset(((x, 1),)))


def single(a):
    """the atom of a form that is exactly one atom"""
    if a[0] == 0 and len(a[1]) == 1:
        (x, c), = a[1]
        if c == 1:
            return x
    return None


def walk(x):
    """all atoms inside a form or atom"""
    if isinstance(x, tuple):
        if x and isinstance(x[0], str):
            yield x
        for y in x:
            if isinstance(y, (tuple, frozenset)):
                yield from walk(y)
    elif isinstance(x, frozenset):
        for y in x:
            yield from walk(y)


def rename(x, ren):
    """atoms replaced all through a form, a fact or a user state"""
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x in ren:
            return ren[x]
        y = tuple(rename(z, ren) if isinstance(z, (tuple, frozenset)) else z for z in x)
        return x if y == x else type(x)(*y) if hasattr(x, '_fields') else y
    if isinstance(x, frozenset):
        y = frozenset(rename(z, ren) if isinstance(z, (tuple, frozenset)) else z for z in x)
        return x if y == x else y
    return x


def canon(L):
    """one of L and -L"""
    M = scale(L, -1)
    return L if (repr(sorted(L[1], key=repr)), L[0]) <= (repr(sorted(M[1], key=repr)), M[0]) else M


class Sym:
    """stable(field) -> loads of the field are the same value all along (up to own stores)
    want(sym, fact) -> keep the fact;  step(sym, inst, S, env) -> user state, list of user states, or None to drop the path"""

    def __init__(s, fn, stable=lambda f: False, want=None, step=None, user=(), pure=lambda n: True, limit=4000, env0=None, kill=None, edge=None, prune=False, carry=False):
        s.fn = fn; s.prune = prune; s.carry = carry; s.stable = stable; s.want = want; s.stepf = step; s.pure = pure; s.killf = kill
        s.fields = {}
        s.vals = {}
        s._r = {}
        s.edgef = edge
        s._ph = {}
        s.flow = Flow(fn, S(frozenset(), frozenset(), frozenset(), user), s._tr, s._learn, edge=s._edge, limit=limit, env0=env0)
        s.exits = s.flow.exits

    # ------------------------------------------------------------ values
    def res(s, v, env, st):
        """the value behind phis chosen on this path, casts and own stores"""
        n = 0
        while n < 60:
            n += 1
            w = env_alias(env, strip(v))
            if w.k == 'inst' and w.op == 'load' and st is not None:
                b = next((x for i, x in st.bind if i == w.id), None)
                if b is not None:
                    w = s.vals[b]
            if w.k == 'inst' and w.op == 'select':
                t = eval_cond(w.ops[0], env)
                if t is not None:
                    w = w.ops[1] if t else w.ops[2]
            if w is v:
                return v
            v = w
        return v

    def lin(s, v, env, st, d=0):
        v = s.res(v, env, st)
        if d > 40:
            return atom(('i', v.id))
        if v.k in ('const', 'null'):
            return con(v.c) if v.c is not None else atom(('i', v.id))
        if v.k == 'arg':
            return atom(('arg', v.idx))
        if v.k in ('global', 'func'):
            return atom(('g', v.name))
        if v.k in ('inst', 'cexpr'):
            if v.k == 'inst':
                e = env.get(v.id)
                if e is not None and e[0] == '=':
                    return con(e[1])
            op = v.op
            if op in EXT:
                return s.lin(v.ops[0], env, st, d + 1)
            if op == 'trunc':
                a = s.lin(v.ops[0], env, st, d + 1)
                if s.cmp and a[1] and v.w and not s.fits(v.ops[0], v.w, env, st) and not ge0(st.facts, sub(con((1 << v.w) - 1), a)):
                    return atom(('op', 'trunc', a, con(v.w)))
                return a
            if op == 'gep' and v.lin is not None:
                r = s.lin(v.ops[0], env, st, d + 1)
                for x, k in v.lin:
                    r = plusc(r, k) if x is None else addl(r, s.lin(x, env, st, d + 1), k)
                return r
            if op in ('add', 'sub'):
                return addl(s.lin(v.ops[0], env, st, d + 1), s.lin(v.ops[1], env, st, d + 1), 1 if op == 'add' else -1)
            if op in ('mul', 'shl'):
                a, b = s.lin(v.ops[0], env, st, d + 1), s.lin(v.ops[1], env, st, d + 1)
                if op == 'mul' and not a[1]:
                    a, b = b, a
                if not b[1]:
                    return scale(a, b[0] if op == 'mul' else 1 << (b[0] & 63))
                if op == 'mul':
                    return atom(('op', op, frozenset((a, b))))
                return atom(('op', op, a, b))
            if op == 'load':
                A = s.lin(v.ops[0], env, st, d + 1)
                f = fieldof(v.ops[0])
                if f and A not in s.fields:
                    s.fields[A] = f
                if not f:
                    x = single(A)
                    if x is not None and x[0] == 'ld' and x[1] in s.fields:
                        f = ('', '*' + s.fields[x[1]][1])       # the first word of what a field points to
                return atom(('ld', A, 0 if f and s.stable(f) else v.id))
            if op in ('and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr'):
                a, b = s.lin(v.ops[0], env, st, d + 1), s.lin(v.ops[1], env, st, d + 1)
                if op in ('and', 'or', 'xor'):
                    if op == 'and' and a == b:
                        return a
                    return atom(('op', op, frozenset((a, b))))
                if not a[1] and not b[1] and b[0] > 0 and a[0] >= 0:
                    return con(a[0] // b[0] if op in ('udiv', 'sdiv') else a[0] % b[0] if op in ('urem', 'srem') else a[0] >> b[0])
                return atom(('op', op, a, b))
            if op == 'call':
                if (v.callee or '').startswith('llvm.threadlocal.address'):
                    return s.lin(v.ops[0], env, st, d + 1)
                return atom(('call', v.id))
            if v.k == 'inst':
                return atom(('i', v.id))
            return atom(('ce', op) + tuple(s.lin(o, env, st, d + 1) for o in v.ops))
        return atom((v.k, v.id))

    def fits(s, v, w, env, st, d=0):
        """is every value v can have small enough for w bits?"""
        v = s.res(v, env, st)
        if (v.w or 64) <= w or d > 12:
            return (v.w or 64) <= w
        if v.k == 'const':
            return v.c is not None and -(1 << (w - 1)) <= v.c < 1 << w
        if v.k != 'inst':
            return v.k == 'null'
        if v.op in EXT:
            return s.fits(v.ops[0], w, env, st, d + 1)
        if v.op == 'trunc':
            return s.fits(v.ops[0], w, env, st, d + 1)
        if v.op == 'and':
            return any(o.k == 'const' and o.c is not None and 0 <= o.c < 1 << w for o in v.ops) or all(s.fits(o, w, env, st, d + 1) for o in v.ops)
        if v.op in ('or', 'xor', 'udiv', 'urem', 'add', 'sub', 'mul', 'phi', 'select'):
            # arithmetic on narrow values: done in the narrow type by the source, widened by the compiler
            ops = v.ops[1:] if v.op == 'select' else [o for o, _ in v.inc] if v.op == 'phi' else v.ops[:1] if v.op in ('udiv', 'sub') else v.ops
            return all(s.fits(o, w, env, st, d + 1) for o in ops)
        if v.op == 'lshr':
            c = const_of(v.ops[1], env)
            return c is not None and (v.w or 64) - c <= w or s.fits(v.ops[0], w, env, st, d + 1)
        if v.op == 'call' and v.callee:
            if v.callee.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
                return w > 7
            if v.callee in ('read', 'write', 'recv', 'pread', '__read_chk'):
                return s.fits(v.ops[2], w, env, st, d + 1)
        return False

    def field(s, x):
        """field a load atom or an address form reads"""
        if isinstance(x, tuple) and x and x[0] == 'ld':
            x = x[1]
        return s.fields.get(x)

    def bits(s, v, env, st, d=0):
        """list of 0, 1, (atom, bit) or None, least significant first"""
        w = v.w or 64
        v = s.res(v, env, st)
        w2 = v.w or 64
        r = s._bits(v, env, st, d, w2)
        if len(r) < w:
            r = r + [None] * (w - len(r))
        return r[:w] if v.k != 'const' else [(v.c >> n) & 1 for n in range(w)]

    def _bits(s, v, env, st, d, w):
        if v.k in ('const', 'null'):
            return [None] * w if v.c is None else [(v.c >> n) & 1 for n in range(w)]
        if d > 40:
            return [None] * w
        if v.k == 'inst':
            e = env.get(v.id)
            if e is not None and e[0] == '=':
                return [(e[1] >> n) & 1 for n in range(w)]
            op = v.op
            if op in ('and', 'or', 'xor'):
                a, b = s.bits(v.ops[0], env, st, d + 1), s.bits(v.ops[1], env, st, d + 1)
                out = []
                for x, y in zip(a, b):
                    if x in (0, 1) and not isinstance(x, tuple):
                        x, y = y, x
                    # y constant if any is
                    if y == 0 and not isinstance(y, tuple):
                        out.append(0 if op == 'and' else x)
                    elif y == 1 and not isinstance(y, tuple):
                        out.append(x if op == 'and' else 1 if op == 'or' else (1 - x if x in (0, 1) else None))
                    else:
                        out.append(x if x == y and x is not None and op != 'xor' else None)
                if None in out:
                    at = single(s.lin(v, env, st))
                    if at is not None:
                        out = [(at, k) if x is None else x for k, x in enumerate(out)]
                return out
            if op in ('shl', 'lshr', 'ashr'):
                c = const_of(v.ops[1], env)
                if c is None or not 0 <= c < 64:
                    return [None] * w
                a = s.bits(v.ops[0], env, st, d + 1)
                if op == 'shl':
                    return ([0] * c + a)[:w]
                return (a[c:] + [0 if op == 'lshr' else a[-1]] * c)[:w]
            if op in ('zext', 'sext'):
                a = s.bits(v.ops[0], env, st, d + 1)
                return (a + [0 if op == 'zext' else a[-1]] * w)[:w]
            if op == 'trunc':
                return s.bits(v.ops[0], env, st, d + 1)[:w]
            if op == 'icmp' and v.pred in ('eq', 'ne'):
                a = s.bits(v.ops[0], env, st, d + 1)
                c = const_of(v.ops[1], env)
                nz = [n for n, x in enumerate(a) if x != 0 or isinstance(x, tuple)]
                if c is not None and len(nz) == 1:
                    b = 1 << nz[0]
                    if (v.pred, c) in (('ne', 0), ('eq', b)):
                        return [a[nz[0]]] + [0] * (w - 1)
                return [None] * w
            if op == 'load':
                at = single(s.lin(v, env, st))
                if at is not None and st is not None:
                    kn = {f[2]: f[3] for f in st.facts if f[0] == 'b' and f[1] == at}
                    return [kn.get(n, (at, n)) for n in range(w)]
            if op == 'select':
                a, b = s.bits(v.ops[1], env, st, d + 1), s.bits(v.ops[2], env, st, d + 1)
                return [x if x == y else None for x, y in zip(a, b)]
            if op in ('udiv', 'urem', 'mul'):
                c = const_of(v.ops[1], env)
                if c is not None and c > 0 and c & (c - 1) == 0:
                    k = c.bit_length() - 1
                    a = s.bits(v.ops[0], env, st, d + 1)
                    if op == 'udiv':
                        return a[k:] + [0] * k
                    if op == 'urem':
                        return a[:k] + [0] * (w - k)
                    return ([0] * k + a)[:w]
            if op in ('add', 'sub', 'mul', 'udiv', 'gep', 'phi', 'call'):
                L = s.lin(v, env, st)
                at = single(L)
                return [(at if at is not None else ('form', L), n) for n in range(w)]
        if v.k == 'arg':
            return [(('arg', v.idx), n) for n in range(w)]
        return [None] * w

    # ------------------------------------------------------------ transfer
    def _edge(s, b, su, st, env):
        if s.edgef:
            st = s.edgef(b, su, st, env)
            if st is None:
                return None
        ids = s._ph.get(su)
        if ids is None:
            ids = s._ph[su] = frozenset(i.id for i in su.insts if i.op == 'phi')
        if ids and (st.facts or st.mem or st.user):
            ren = {}
            for i in su.insts:
                if i.op != 'phi':
                    break
                v = next((x for x, bb in i.inc if bb is b), None)
                if v is None or v.k != 'inst':
                    continue
                w = s.res(v, env, st)
                if w is i:
                    ids = ids - {i.id}                  # carried on unchanged
                elif w.k == 'inst' and w.op == 'load':
                    a = single(s.lin(v, env, st))
                    if a is not None and depends(w, su, b):
                        ren[a] = ('i', i.id)            # a value of the round that ends, kept in a variable
            old = lambda f: any(x[0] == 'i' and x[1] in ids for x in walk(f))
            f2 = frozenset(f for f in st.facts if not old(f))
            if s.carry and st.facts:
                f2 = f2 | s._carried(b, su, st, env, ids)
            if ren:
                more = frozenset(y for y in (rename(f, ren) for f in st.facts if any(x in ren for x in walk(f))) if not any(x[0] == 'i' and x[1] in ids and x not in ren.values() for x in walk(y)))
                f2 = f2 | frozenset((y[0], canon(y[1])) if y[0] in ('eq', 'ne') else y for y in more)
                st = st._replace(user=rename(st.user, {a: x for a, x in ren.items() if old(a)}))
            m2 = frozenset(m for m in st.mem if not old(m[0]))
            if f2 != st.facts or len(m2) != len(st.mem):
                st = st._replace(facts=f2, mem=m2)
        return st

    def _carried(s, b, su, st, env, ids):
        """bounds on a counting variable that its step keeps true: p' = p + c"""
        stepc = {}
        sym = {}
        for i in su.insts:
            if i.op != 'phi':
                break
            v = next((x for x, bb in i.inc if bb is b), None)
            if v is None or i.id not in ids:
                continue
            for e in ({k: x for k, x in env.items() if k != i.id}, env):
                L, L0 = s.lin(v, e, st), s.lin(i, e, st)
                a = single(plusc(L0, -L0[0]))
                D = sub(L, L0)
                if a is None or L0[0] and D[1] or D == con(0) or any(x[0] == 'i' and x[1] in ids for y, _ in D[1] for x in walk(y)):
                    continue
                if D[1]:
                    sym[a] = (D, ('i', i.id))
                else:
                    stepc[a] = (D[0], ('i', i.id), L0[0])
        out = set()
        if not stepc and not sym:
            return frozenset()
        for f in st.facts:
            if f[0] != 'ge':
                continue
            for a, k in f[1][1]:
                if a in sym:                    # a bound on the next value, seen before the step by an unknown amount
                    L = addl(sub(f[1], scale(atom(a), k)), addl(atom(sym[a][1]), sym[a][0], -1), k)
                    if len(L[1]) < len(f[1][1]) and not any(x[0] == 'i' and x[1] in ids and x != sym[a][1] for y, _ in L[1] for x in walk(y)):
                        out.add(('ge', L))
            d = off = 0
            ren = {}
            for a, k in f[1][1]:
                if a in stepc:
                    d += k * stepc[a][0]
                    off -= k * stepc[a][2]          # the name stands for the variable less a constant
                    ren[a] = stepc[a][1]
                elif any(x[0] == 'i' and x[1] in ids for x in walk(a)):
                    break
            else:
                if ren and (d >= 0 or d == -1 and ('ne', canon(f[1])) in st.facts):
                    out.add(('ge', plusc(rename(f[1], ren), off)))
        return frozenset(out)

    def _tr(s, i, st, env):
        if i.op == 'load':
            drop = st.bind and any(x == i.id for x, _ in st.bind)
            bind = frozenset(y for y in st.bind if y[0] != i.id) if drop else st.bind
            st = st._replace(bind=bind)
            if st.facts:
                f2 = frozenset(f for f in st.facts if not any(x[0] == 'ld' and x[2] == i.id for x in walk(f)))
                if len(f2) != len(st.facts):
                    st = st._replace(facts=f2)
            if st.mem:
                A = s.lin(i.ops[0], env, st)
                m = next((v for a, v in st.mem if a == A), None)
                if m is not None and s.vals[m].w == i.w:
                    st = st._replace(bind=st.bind | {(i.id, m)})
        elif i.op == 'call' and st.facts:
            f2 = frozenset(f for f in st.facts if not any(x[0] == 'call' and x[1] == i.id for x in walk(f)))
            if len(f2) != len(st.facts):
                st = st._replace(facts=f2)
        elif i.op in ('cmpxchg', 'atomicrmw', 'extractvalue', 'phi') and st.facts:
            f2 = frozenset(f for f in st.facts if not any(x[0] == 'i' and x[1] == i.id for x in walk(f)))
            if len(f2) != len(st.facts):
                st = st._replace(facts=f2)
        us = s.stepf(s, i, st, env) if s.stepf else st.user
        if us is None:
            return None
        if i.op == 'store':
            A = s.lin(i.ops[1], env, st)
            f = fieldof(i.ops[1])
            if f and A not in s.fields:
                s.fields[A] = f
            v = s.res(i.ops[0], env, st)
            s.vals[v.id] = v
            st = st._replace(mem=frozenset(x for x in st.mem if x[0] != A) | {(A, v.id)})
        elif i.op == 'call' and st.mem and i.callee and not i.callee.startswith('llvm.') and not s.pure(i.callee):
            st = st._replace(mem=frozenset())
        if isinstance(us, list):
            return [x if isinstance(x, S) else st._replace(user=x) for x in us]
        if isinstance(us, S):
            return us
        return st._replace(user=us) if us is not st.user else st

    cmp = False

    def _learn(s, v, rel, c, st, env):
        s.cmp = True
        try:
            return s._learn1(v, rel, c, st, env)
        finally:
            s.cmp = False

    def _learn1(s, v, rel, c, st, env):
        new = []
        if v.k == 'inst' and v.op == 'icmp' and rel == '=':
            p = v.pred if c else NEG[v.pred]
            if p[0] in 'us':
                a, b = s.lin(v.ops[0], env, st), s.lin(v.ops[1], env, st)
                if p[0] == 'u':                 # constants above the signed range
                    w = v.ops[0].w or 64
                    a, b = (plusc(x, 1 << w) if not x[1] and x[0] < 0 else x for x in (a, b))
                if p[1:] in ('gt', 'ge'):
                    a, b = b, a
                L = sub(b, a)               # a <(=) b
                if p[1:] in ('lt', 'gt'):
                    L = plusc(L, -1)
                if L[1]:
                    new.append(('ge', L))
                elif a == b and L[0] < 0:
                    return None                 # x < x
            else:
                L = sub(s.lin0(v.ops[0], env, st), s.lin0(v.ops[1], env, st))
                if L[1]:
                    new.append((p, canon(L)))
                elif (p == 'eq') != (L[0] == 0):
                    return None                 # x != x, x == x + c
        elif v.k in ('inst', 'arg') and not (v.k == 'inst' and v.op == 'icmp') and v.w and v.w <= 64:
            L = s.lin0(v, env, st)
            if L[1] and v.op not in ('and', 'or', 'xor'):
                new.append(('eq' if rel == '=' else 'ne', canon(plusc(L, -c))))
        if v.k == 'inst' and v.w and v.w <= 64 and v.op != 'icmp' and v.op in ('and', 'or', 'xor', 'lshr', 'load', 'trunc', 'zext', 'shl', 'ashr'):
            e0 = {k: x for k, x in env.items() if k != v.id}
            bs = s.bits(v, e0, st._replace(facts=frozenset(f for f in st.facts if f[0] != 'b')))
            if rel == '=':
                for n, x in enumerate(bs):
                    if isinstance(x, tuple):
                        new.append(('b', x[0], x[1], (c >> n) & 1))
            else:
                nz = [n for n, x in enumerate(bs) if isinstance(x, tuple) or x is None]
                ones = sum(1 << n for n, x in enumerate(bs) if x == 1 and not isinstance(x, tuple))
                if len(nz) == 1 and isinstance(bs[nz[0]], tuple):
                    if c == ones:
                        new.append(('b',) + bs[nz[0]] + (1,))
                    elif c == ones | 1 << nz[0]:
                        new.append(('b',) + bs[nz[0]] + (0,))
        new = [f for f in new if s.want is None or s.want(s, f)]
        if new:
            fs = set(st.facts)
            for f in new:
                if f[0] == 'b':
                    fs -= {('b', f[1], f[2], 1 - f[3])}
                elif f[0] in ('eq', 'ne'):
                    fs -= {('ne' if f[0] == 'eq' else 'eq', f[1])}
                elif f[0] == 'ge':
                    if s.prune and ('ge', plusc(scale(f[1], -1), -1)) in fs:
                        return None                 # the opposite was seen on this path
                    fs -= {('ge', plusc(scale(f[1], -1), -1))}
                fs.add(f)
            st = st._replace(facts=frozenset(fs))
        return st

    def lin0(s, v, env, st):
        """form of v without the constant the environment just learnt for it"""
        w = s.res(v, env, st)
        if w.k in ('inst', 'arg') and w.id in env and env[w.id][0] == '=':
            e = {k: x for k, x in env.items() if k != w.id}
            return s.lin(v, e, st)
        return s.lin(v, env, st)


# ---------------------------------------------------------------- queries
def ge0(facts, L):
    """is L >= 0 known?"""
    if not L[1]:
        return L[0] >= 0
    for f in facts:
        if f[0] == 'ge' and f[1][1] == L[1] and f[1][0] <= L[0]:
            return True
        if f[0] == 'eq' and (f[1][1] == L[1] and f[1][0] <= L[0]):
            return True
        if f[0] == 'eq':
            M = scale(f[1], -1)
            if M[1] == L[1] and M[0] <= L[0]:
                return True
    return False


def ge1(facts, L):
    """ge0, also after replacing one value by one it was seen equal to"""
    return ge0(facts, L) or any(f[0] == 'eq' and (ge0(facts, addl(L, f[1])) or ge0(facts, sub(L, f[1]))) for f in facts)


def ne0(facts, L):
    if not L[1]:
        return L[0] != 0
    return (('ne', canon(L)) in facts or ge0(facts, plusc(L, -1)) or ge0(facts, plusc(scale(L, -1), -1))
            or any(f[0] == 'ne' and (known0(facts, sub(L, f[1])) or known0(facts, addl(L, f[1], 1))) for f in facts))


def known0(facts, L):
    return L[0] == 0 if not L[1] else ('eq', canon(L)) in facts


def eq0(facts, L):
    if not L[1]:
        return L[0] == 0
    return (('eq', canon(L)) in facts or (ge0(facts, L) and ge0(facts, scale(L, -1)))
            or any(f[0] == 'eq' and (known0(facts, sub(L, f[1])) or known0(facts, addl(L, f[1], 1))) for f in facts))


def bit_known(facts, pred, bit, val):
    """is the bit of some load atom accepted by pred known to be val?"""
    return any(f[0] == 'b' and f[2] == bit and f[3] == val and pred(f[1]) for f in facts)
