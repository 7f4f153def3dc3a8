"""Typestate propagation over a function's CFG with branch-fact refinement (property simulation:
states that agree on the typestate are merged, their branch facts intersected)."""
from .ir import Inst, Val

CASTS = ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze')
EXT = ('zext', 'sext')


# ---------------------------------------------------------------- value descriptions
def strip(v):
    """strip value-preserving casts and zero-offset geps"""
    while True:
        if v.k in ('inst', 'cexpr') and v.op in CASTS:
            v = v.ops[0]
        elif v.k in ('inst', 'cexpr') and v.op == 'gep' and v.off == 0:
            v = v.ops[0]
        else:
            return v


def addr(v, env=None):
    """(root value, byte offset or None): peel casts, geps, +- constants"""
    off = 0
    while True:
        if v.k in ('inst', 'cexpr'):
            if v.op in CASTS:
                v = v.ops[0]; continue
            if v.op == 'gep':
                off = None if (off is None or v.off is None) else off + v.off
                v = v.ops[0]; continue
            if v.op in ('add', 'sub') and v.w == 64:
                a, b = v.ops
                if b.k == 'const':
                    if off is not None:
                        off += b.c if v.op == 'add' else -b.c
                    v = a; continue
                if a.k == 'const' and v.op == 'add':
                    if off is not None:
                        off += a.c
                    v = b; continue
            if v.op == 'phi' and env is not None:
                r = env_alias(env, v)
                if r is not v:
                    v = r; continue
        return v, off


def env_alias(env, v):
    n = 0
    while v.k == 'inst':
        e = env.get(v.id)
        if e is not None and e[0] == '~':
            v = e[1]
            n += 1
            if n > 50:
                break
        else:
            break
    return v


def key(v, env=None, depth=0):
    """canonical, hashable description of a value (loads described by their address)"""
    if depth > 25:
        return ('deep', v.id)
    if env is not None and v.k == 'inst' and v.op == 'phi':
        e = env.get(v.id)
        if e is not None:
            if e[0] == '=':
                return e[1]
            if e[0] == '~':
                return key(e[1], env, depth + 1)
    if v.k == 'const':
        return v.c
    if v.k == 'null':
        return 0
    if v.k == 'arg':
        return 'a%d' % v.idx
    if v.k == 'global':
        return '@' + v.name
    if v.k == 'func':
        return '&' + v.name
    if v.k in ('inst', 'cexpr'):
        op = v.op
        if op in CASTS or op in EXT:
            return key(v.ops[0], env, depth + 1)
        if op == 'gep' and v.off is not None:
            return mkoff(key(v.ops[0], env, depth + 1), v.off)
        if op in ('add', 'sub'):
            a, b = v.ops
            if b.k == 'const' and b.c is not None:
                return mkoff(key(a, env, depth + 1), b.c if op == 'add' else -b.c)
            if a.k == 'const' and op == 'add' and a.c is not None:
                return mkoff(key(b, env, depth + 1), a.c)
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            ks = sorted((key(o, env, depth + 1) for o in v.ops), key=repr)
            return (op,) + tuple(ks)
        if op == 'load':
            return ('ld', key(v.ops[0], env, depth + 1))
        if op in ('sub', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'trunc', 'gep'):
            return (op,) + tuple(key(o, env, depth + 1) for o in v.ops)
        if op == 'icmp':
            return (op, v.pred) + tuple(key(o, env, depth + 1) for o in v.ops)
        return (op, v.id)
    return (v.k, v.id)


def mkoff(k, off):
    if off == 0:
        return k
    if isinstance(k, int):
        return k + off
    if isinstance(k, tuple) and k and k[0] == '+':
        o = k[2] + off
        return k[1] if o == 0 else ('+', k[1], o)
    return ('+', k, off)


def fieldof(ptr):
    """last struct field designated by a pointer: ('Struct','member') or None"""
    v = ptr
    while v.k in ('inst', 'cexpr'):
        if v.op in CASTS:
            v = v.ops[0]; continue
        if v.op == 'gep':
            fs = [f for f in (v.gepf or ()) if f[0] != '[]']
            if fs:
                return fs[-1]
            if v.off == 0 or (v.gepf and v.gepf[0][0] == '[]') or not v.gepf:
                # array element / pointer arithmetic on a field
                if v.off == 0:
                    v = v.ops[0]; continue
                v = v.ops[0]
                continue
        return None
    return None


def fieldpath(ptr):
    """all struct fields on the way, outermost first"""
    out = []
    v = ptr
    while v.k in ('inst', 'cexpr'):
        if v.op in CASTS:
            v = v.ops[0]; continue
        if v.op == 'gep':
            out = [f for f in (v.gepf or ()) if f[0] != '[]'] + out
            v = v.ops[0]; continue
        break
    return out


# ---------------------------------------------------------------- facts
class Env(dict):
    pass


def const_of(v, env):
    if v.k in ('const', 'null'):
        return v.c
    if v.k == 'undef':
        return None
    if v.k in ('inst', 'arg'):
        e = env.get(v.id)
        if e is not None:
            if e[0] == '=':
                return e[1]
            if e[0] == '~':
                return const_of(e[1], env)
        if v.k == 'arg':
            return None
        if v.op in CASTS:
            return const_of(v.ops[0], env)
        if v.op == 'zext':
            c = const_of(v.ops[0], env)
            if c is not None and v.ops[0].w:
                return c & ((1 << v.ops[0].w) - 1)
            return None
        if v.op == 'sext':
            return const_of(v.ops[0], env)
        if v.op == 'trunc':
            c = const_of(v.ops[0], env)
            if c is None:
                return None
            c &= (1 << v.w) - 1
            if v.w > 1 and c >> (v.w - 1):
                c -= 1 << v.w
            return c
        if v.op == 'icmp':
            t = eval_cond(v, env)
            return None if t is None else (1 if t else 0)
        if v.op in ('xor', 'and', 'or') and v.w == 1:
            t = eval_cond(v, env)
            return None if t is None else (1 if t else 0)
        if v.op == 'select':
            t = eval_cond(v.ops[0], env)
            if t is not None:
                return const_of(v.ops[1] if t else v.ops[2], env)
            a = const_of(v.ops[1], env); b = const_of(v.ops[2], env)
            return a if a is not None and a == b else None
        if v.op in ('add', 'sub', 'and', 'or', 'shl', 'mul'):
            a = const_of(v.ops[0], env); b = const_of(v.ops[1], env)
            if a is None or b is None:
                return None
            r = {'add': a + b, 'sub': a - b, 'and': a & b, 'or': a | b, 'mul': a * b,
                 'shl': a << b if 0 <= b < 64 else 0}[v.op]
            r &= (1 << v.w) - 1
            if v.w > 1 and r >> (v.w - 1):
                r -= 1 << v.w
            return r
    return None


def excl(v, env):
    """set of constants v is known to differ from"""
    if v.k in ('inst', 'arg'):
        e = env.get(v.id)
        if e is not None:
            if e[0] == '!':
                return e[1]
            if e[0] == '~':
                return excl(e[1], env)
        if v.k == 'inst':
            if v.op in CASTS or v.op in EXT:
                return excl(v.ops[0], env)
            if v.op == 'gep' and v.off is not None and v.off > 0:
                return frozenset((0,))
            if v.op == 'gep' and v.off is None and v.gepf and v.gepf[0][0] != '[]':
                return frozenset((0,))
            if v.op == 'alloca':
                return frozenset((0,))
    if v.k in ('global', 'func', 'cexpr'):
        return frozenset((0,))
    return frozenset()


UZ = {('ugt', 0): True, ('ule', 0): False, ('uge', 1): True, ('ult', 1): False}


def eval_cond(v, env):
    if v.k == 'const':
        return bool(v.c)
    if v.k == 'inst':
        e = env.get(v.id)
        if e is not None:
            if e[0] == '=':
                return bool(e[1])
            if e[0] == '~':
                return eval_cond(e[1], env)
            if e[0] == '!' and v.w == 1:
                if 0 in e[1]:
                    return True
                return False
        if v.op == 'icmp':
            a, b = v.ops
            ca, cb = const_of(a, env), const_of(b, env)
            if ca is not None and cb is not None:
                w = a.w or 64
                m = (1 << w) - 1
                ua, ub = ca & m, cb & m
                return {'eq': ua == ub, 'ne': ua != ub, 'ugt': ua > ub, 'uge': ua >= ub, 'ult': ua < ub,
                        'ule': ua <= ub, 'sgt': ca > cb, 'sge': ca >= cb, 'slt': ca < cb, 'sle': ca <= cb}[v.pred]
            if cb is not None and (v.pred, cb) in UZ and 0 in excl(a, env):
                return UZ[(v.pred, cb)]
            if v.pred in ('eq', 'ne'):
                if cb is not None and cb in excl(a, env):
                    return v.pred == 'ne'
                if ca is not None and ca in excl(b, env):
                    return v.pred == 'eq' and False or v.pred == 'ne'
                if cb == 0 or ca == 0:
                    x = a if cb == 0 else b
                    y = x
                    while y.k == 'inst' and y.op in ('zext', 'sext'):
                        y = y.ops[0]
                    if y.w == 1:
                        t = eval_cond(y, env)
                        if t is not None:
                            return t if v.pred == 'ne' else not t
                ra, rb = env_alias(env, strip(a)), env_alias(env, strip(b))
                if ra is rb:
                    return v.pred == 'eq'
            return None
        if v.op == 'xor' and v.w == 1:
            a, b = eval_cond(v.ops[0], env), eval_cond(v.ops[1], env)
            if a is not None and b is not None:
                return a != b
        if v.op == 'and' and v.w == 1:
            a, b = eval_cond(v.ops[0], env), eval_cond(v.ops[1], env)
            if a is False or b is False:
                return False
            if a and b:
                return True
        if v.op == 'or' and v.w == 1:
            a, b = eval_cond(v.ops[0], env), eval_cond(v.ops[1], env)
            if a or b:
                return True
            if a is False and b is False:
                return False
        if v.op == 'select':
            t = eval_cond(v.ops[0], env)
            if t is not None:
                return eval_cond(v.ops[1] if t else v.ops[2], env)
        if v.op == 'trunc':
            c = const_of(v, env)
            if c is not None:
                return bool(c)
            x = v.ops[0]
            # bool stored as i8: trunc i8 (zext i1) to i1
            if x.k == 'inst' and x.op == 'zext' and x.ops[0].w == 1:
                return eval_cond(x.ops[0], env)
        if v.op == 'zext' or v.op == 'sext':
            return eval_cond(v.ops[0], env) if v.ops[0].w == 1 else None
    return None


def set_eq(v, c, env, learned):
    if v.k not in ('inst', 'arg'):
        return
    e = env.get(v.id)
    if e is not None and e[0] == '~':
        set_eq(e[1], c, env, learned)
    else:
        env[v.id] = ('=', c)
        learned.append((v, '=', c))
    if v.k == 'inst':
        if v.op in CASTS:
            set_eq(v.ops[0], c, env, learned)
        elif v.op in EXT or v.op == 'trunc':
            o = v.ops[0]
            if o.w == 1:
                assume(o, c != 0, env, learned)
            elif v.op in EXT:
                set_eq(o, c, env, learned)
            elif v.op == 'trunc' and v.w == 1 and o.k == 'inst' and o.op == 'zext' and o.ops[0].w == 1:
                assume(o.ops[0], c != 0, env, learned)
        elif v.w == 1:
            _assume1(v, c != 0, env, learned)
        elif v.op == 'or' and c == 0:
            for o in v.ops:
                set_eq(o, 0, env, learned)


def set_ne(v, c, env, learned):
    if v.k not in ('inst', 'arg'):
        return
    e = env.get(v.id)
    if e is not None and e[0] == '~':
        set_ne(e[1], c, env, learned)
    elif e is not None and e[0] == '=':
        pass
    else:
        s = e[1] if e is not None else frozenset()
        env[v.id] = ('!', s | {c})
        learned.append((v, '!', c))
    if v.k == 'inst':
        if v.op in CASTS:
            set_ne(v.ops[0], c, env, learned)
        elif v.op in EXT:
            o = v.ops[0]
            if o.w == 1 and c == 0:
                assume(o, True, env, learned)
            else:
                set_ne(o, c, env, learned)
        elif v.op == 'and' and c == 0:
            for o in v.ops:
                if o.k != 'const':
                    set_ne(o, 0, env, learned)


def assume(v, truth, env, learned):
    if v.k == 'inst':
        e = env.get(v.id)
        if e is not None and e[0] == '~':
            assume(e[1], truth, env, learned)
            return
        env[v.id] = ('=', 1 if truth else 0)
        learned.append((v, '=', 1 if truth else 0))
        _assume1(v, truth, env, learned)


def _assume1(v, truth, env, learned):
    if v.op == 'icmp':
        a, b = v.ops
        p = v.pred
        ca, cb = const_of(a, env), const_of(b, env)
        if p in ('eq', 'ne'):
            eq = (p == 'eq') == truth
            if cb is not None:
                (set_eq if eq else set_ne)(a, cb, env, learned)
            elif ca is not None:
                (set_eq if eq else set_ne)(b, ca, env, learned)
        elif cb is not None:
            # strict relations with 0 that imply != 0
            if p in ('sgt', 'ugt') and truth and cb == 0:
                set_ne(a, 0, env, learned)
            if p == 'slt' and truth and cb == 0:
                set_ne(a, 0, env, learned)
            if p == 'ugt' and not truth and cb == 0:
                set_eq(a, 0, env, learned)
            if p in ('ult',) and truth and cb == 1:
                set_eq(a, 0, env, learned)
            if (p, cb) in (('ule', 0), ('ult', 1)) and not truth or (p, cb) == ('uge', 1) and truth:
                set_ne(a, 0, env, learned)
            if (p, cb) == ('ule', 0) and truth or (p, cb) == ('uge', 1) and not truth:
                set_eq(a, 0, env, learned)
    elif v.op == 'xor':
        for x, y in (v.ops, v.ops[::-1]):
            if y.k == 'const':
                assume(x, truth != bool(y.c), env, learned)
                break
    elif v.op == 'and' and truth:
        assume(v.ops[0], True, env, learned); assume(v.ops[1], True, env, learned)
    elif v.op == 'or' and not truth:
        assume(v.ops[0], False, env, learned); assume(v.ops[1], False, env, learned)
    elif v.op == 'select':
        a, b = v.ops[1], v.ops[2]
        ca, cb = const_of(a, env), const_of(b, env)
        if truth and cb == 0:
            assume(v.ops[0], True, env, learned); assume(a, True, env, learned)
        if not truth and ca == 1:
            assume(v.ops[0], False, env, learned); assume(b, False, env, learned)
        if truth and ca == 0:
            assume(v.ops[0], False, env, learned); assume(b, True, env, learned)
    elif v.op == 'trunc':
        o = env_alias(env, v.ops[0])
        if o.k == 'inst' and o.op == 'zext' and o.ops[0].w == 1:
            assume(o.ops[0], truth, env, learned)


def loop_blocks(fn):
    """blocks that lie on a cycle"""
    if getattr(fn, '_loopb', None) is not None:
        return fn._loopb
    idx = {}; low = {}; st = []; on = set(); out = set(); n = [0]
    import sys
    sys.setrecursionlimit(20000)

    def dfs(v):
        idx[v] = low[v] = n[0]; n[0] += 1
        st.append(v); on.add(v)
        for s in v.succ:
            if s not in idx:
                dfs(s); low[v] = min(low[v], low[s])
            elif s in on:
                low[v] = min(low[v], idx[s])
        if low[v] == idx[v]:
            comp = []
            while True:
                x = st.pop(); on.discard(x); comp.append(x)
                if x is v:
                    break
            if len(comp) > 1 or v in v.succ:
                out.update(comp)
    for b in fn.blocks:
        if b not in idx:
            dfs(b)
    fn._loopb = out
    return out


class TooBig(Exception):
    pass


class Flow:
    """transfer(inst, ts, env) -> ts | list of ts | list of (ts, env)
       learn(v, rel, const, ts, env) -> ts     called for every fact a branch teaches
       edge(pred, succ, ts, env) -> ts | None  (None kills the path)"""

    def __init__(s, fn, init, transfer, learn=None, edge=None, limit=4000, env0=None):
        s.fn = fn; s.transfer = transfer; s.learn = learn; s.edge = edge; s.limit = limit
        s.at = {}
        s.steps = 0
        s.exits = []      # (inst, ts, env) at ret
        s._run(init, env0)

    def _choose(s, i, states):
        """a select is a branch: one path for each value"""
        out = []
        for t, e in states:
            if eval_cond(i.ops[0], e) is not None or i.ops[0].k != 'inst':
                out.append((t, e))
                continue
            for tr in (True, False):
                e2 = dict(e); t2 = t
                ln = []
                assume(i.ops[0], tr, e2, ln)
                if s.learn:
                    for (x, rel, cc) in ln:
                        t2 = s.learn(x, rel, cc, t2, e2)
                        if t2 is None:
                            break
                if t2 is not None:
                    out.append((t2, e2))
        return out

    def _run(s, init, env0):
        fn = s.fn
        lb = loop_blocks(fn)
        work = {}
        start = fn.blocks[0]
        s.at[start] = {init: dict(env0 or {})}
        pend = [(start.rpo, start, init)]
        inq = {(start, init)}
        import heapq
        cnt = 0
        bid = {b: n for n, b in enumerate(fn.blocks)}
        tie = 0
        heap = [(0, 0, start, init)]
        exits = {}
        while heap:
            _, _, b, ts = heapq.heappop(heap)
            inq.discard((b, ts))
            env = s.at[b][ts]
            s.steps += 1
            if s.steps > s.limit * 50:
                raise TooBig(fn.name)
            states = [(ts, dict(env))]
            inloop = b in lb
            for i in b.insts:
                if i.op == 'phi':
                    continue
                nxt = []
                if i.op == 'select':
                    states = s._choose(i, states)
                for t, e in states:
                    if inloop and i.w:
                        kill(e, i)
                    r = s.transfer(i, t, e)
                    if r is None:
                        continue
                    if isinstance(r, list):
                        for x in r:
                            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict):
                                nxt.append(x)
                            else:
                                nxt.append((x, dict(e)))
                    else:
                        nxt.append((r, e))
                states = nxt
                if not states:
                    break
            term = b.term
            for t, e in states:
                if term.op == 'ret':
                    k = (term, t)
                    exits[k] = e if k not in exits else meet(exits[k], e)
                    continue
                if term.op == 'unreachable':
                    continue
                outs = []
                if term.op == 'br' and term.ops:
                    c = term.ops[0]
                    v = eval_cond(c, e)
                    if len(term.succ) == 2 and term.succ[0] is term.succ[1]:
                        outs.append((term.succ[0], t, e))
                    else:
                        for n, tr in ((0, True), (1, False)):
                            if v is not None and v != tr:
                                continue
                            e2 = dict(e); t2 = t
                            ln = []
                            assume(c, tr, e2, ln)
                            if s.learn:
                                for (x, rel, cc) in ln:
                                    t2 = s.learn(x, rel, cc, t2, e2)
                                    if t2 is None:
                                        break
                            if t2 is not None:
                                outs.append((term.succ[n], t2, e2))
                elif term.op == 'switch':
                    c = term.ops[0]
                    cv = const_of(c, e)
                    dflt = term.succ[0]
                    taken = False
                    for cc, su in zip(term.cases, term.succ[1:]):
                        if cv is not None and cv != cc.c:
                            continue
                        if cc.c in excl(c, e):
                            continue
                        if cv is not None:
                            taken = True
                        e2 = dict(e); ln = []; t2 = t
                        set_eq(c, cc.c, e2, ln)
                        if s.learn:
                            for (x, rel, c3) in ln:
                                t2 = s.learn(x, rel, c3, t2, e2)
                                if t2 is None:
                                    break
                        if t2 is not None:
                            outs.append((su, t2, e2))
                    if not taken:
                        e2 = dict(e)
                        ln = []; t2 = t
                        for cc in term.cases:
                            set_ne(c, cc.c, e2, ln)
                        if s.learn:
                            for (x, rel, c3) in ln:
                                t2 = s.learn(x, rel, c3, t2, e2)
                                if t2 is None:
                                    break
                        if t2 is not None:
                            outs.append((dflt, t2, e2))
                else:
                    for su in term.succ:
                        outs.append((su, t, dict(e)))
                for su, t2, e2 in outs:
                    if s.edge:
                        t2 = s.edge(b, su, t2, e2)
                        if t2 is None:
                            continue
                    e2 = phis(b, su, e2)
                    d = s.at.setdefault(su, {})
                    if t2 in d:
                        m = meet(d[t2], e2)
                        if len(m) == len(d[t2]) and m == d[t2]:
                            continue
                        d[t2] = m
                    else:
                        d[t2] = e2
                        if len(d) > s.limit:
                            raise TooBig(fn.name)
                    if (su, t2) not in inq:
                        inq.add((su, t2))
                        tie += 1
                        heapq.heappush(heap, (su.rpo, tie, su, t2))
        s.exits = [(k[0], k[1], e) for k, e in exits.items()]


def kill(e, i):
    if i.id in e:
        del e[i.id]
    for k in [k for k, x in e.items() if x[0] == '~' and x[1] is i]:
        del e[k]


def phis(b, su, e):
    new = []
    for i in su.insts:
        if i.op != 'phi':
            break
        v = next((x for x, bb in i.inc if bb is b), None)
        if v is None:
            new.append((i, None)); continue
        c = const_of(v, e)
        if c is not None and v.k == 'inst' and v.op in ('add', 'sub', 'mul', 'shl') and not -2 <= c <= 2 and depends(v, su, b):
            new.append((i, ('!', frozenset((0,))) if counts_up(i, v) else None))     # a counter: do not unroll the loop for every value
        elif c is not None:
            new.append((i, ('=', c)))
        elif v.k in ('inst', 'arg', 'global', 'cexpr'):
            r = env_alias(e, v)
            if r is i or depends(r, su, b):
                # computed from this block's old phi values: describing it in terms of the new ones would be wrong
                f = e.get(r.id) if r is not i else None
                if f is None and counts_up(i, r):
                    f = ('!', frozenset((0,)))
                new.append((i, f if f is not None and f[0] != '~' else None))
            else:
                new.append((i, ('~', r)))
        else:
            new.append((i, None))
    if new:
        e2 = dict(e)
        ids = {i.id for i, _ in new}
        # aliases to a phi being redefined
        for k in [k for k, x in e2.items() if x[0] == '~' and x[1].id in ids]:
            del e2[k]
        for i, f in new:
            if f is None:
                e2.pop(i.id, None)
            elif f[0] == '~' and f[1].id in ids:
                # points to a sibling phi's old value: keep facts only
                old = e.get(f[1].id)
                if old is not None and old[0] != '~':
                    e2[i.id] = old
                else:
                    e2.pop(i.id, None)
            else:
                e2[i.id] = f
        return e2
    return e


def counts_up(p, v):
    """phi p starts at a non-negative constant and v is p + positive constant: not 0 after the first round"""
    return (v.k == 'inst' and v.op == 'add' and v.w >= 32 and any(o is p for o in v.ops) and any(o.k == 'const' and o.c > 0 for o in v.ops) and
            all(x.k == 'const' and x.c >= 0 or x is v or x is p for x in p.ops))


_dep = {}


def depends(v, su, b):
    """does the expression v use a phi of block su (su having been passed before: v is from an earlier iteration)?"""
    k = (v.id, id(su))
    r = _dep.get(k)
    if r is None:
        seen = set(); st = [v]; r = False
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k == 'inst':
                if x.op == 'phi':
                    if x.bb is su:
                        r = True
                        break
                    continue
                if x.op in ('load', 'call') and x is not v and False:
                    continue
                st.extend(x.ops)
            elif x.k == 'cexpr':
                st.extend(x.ops)
        _dep[k] = r
    return r


def meet(a, b):
    if len(a) > len(b):
        a, b = b, a
    out = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        if w == v:
            out[k] = v
        elif v[0] == '!' and w[0] == '!':
            x = v[1] & w[1]
            if x:
                out[k] = ('!', x)
        elif v[0] == '=' and w[0] == '!':
            x = frozenset(c for c in w[1] if c != v[1])
            if x:
                out[k] = ('!', x)
        elif w[0] == '=' and v[0] == '!':
            x = frozenset(c for c in v[1] if c != w[1])
            if x:
                out[k] = ('!', x)
        elif v[0] == '=' and w[0] == '=' and v[1] != 0 and w[1] != 0:
            out[k] = ('!', frozenset((0,)))
    return out


# ---------------------------------------------------------------- simple reachability helpers
def reach_from(inst, stop=None):
    """instructions reachable strictly after inst; stop(i) -> True cuts the path at i (i included)"""
    seen = set(); out = []
    work = [(inst.bb, inst.pos + 1)]
    done = set()
    while work:
        b, p = work.pop()
        cut = False
        for i in b.insts[p:]:
            if i.id in done:
                cut = True
                break
            done.add(i.id)
            out.append(i)
            if stop and stop(i):
                cut = True
                break
        if not cut:
            for s in b.succ:
                if s not in seen:
                    seen.add(s)
                    work.append((s, 0))
    return out


def reaches_without(a, b, barrier):
    """is there a path from after a to b that passes no instruction with barrier(i)?"""
    for i in reach_from(a, stop=lambda x: barrier(x) or x is b):
        if i is b:
            return True
    return False
