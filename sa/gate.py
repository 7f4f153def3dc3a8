"""Which objects have been validated (signature + type) where each access to them happens."""
from .flow import Flow, addr, key, env_alias, strip
CHK = {'SOMSASCheckBlockSig': None, 'SOMSASCheckBlockSigAndType': 1, 'SOMSASCheckBlockSigAndTypeAndSubtype': 1}


class Gate:
    """runs the typestate on one function; .events = list of (inst, kind, rootval, off, validated types frozenset)"""

    def __init__(s, fn, roots=None):
        s.fn = fn
        s.events = {}
        s.checks = []
        s.roots = roots
        s.callcheck = {}
        for i in fn.insts():
            if i.op == 'call' and i.callee in CHK and i.ops:
                t = CHK[i.callee]
                ty = i.ops[t].u if t is not None and i.ops[t].k == 'const' else (None if t is not None else 'sig')
                s.checks.append((i, ty))
                s.callcheck[i.id] = (i, ty)
        s.flow = Flow(fn, frozenset(), s._tr, learn=s._learn)

    def _root(s, v, env):
        r, off = addr(v, env)
        return r, off

    def _learn(s, v, rel, c, ts, env):
        if v.k == 'inst' and v.id in s.callcheck:
            ok = (rel == '=' and c != 0) or (rel == '!' and c == 0)
            if ok:
                i, ty = s.callcheck[v.id]
                r, off = addr(i.ops[0], env)
                return ts | {(r.id, off, ty)}
        return ts

    def _tr(s, i, ts, env):
        ptrs = ()
        if i.op == 'load':
            ptrs = ((i.ops[0], 'load'),)
        elif i.op == 'store':
            ptrs = ((i.ops[1], 'store'),)
        elif i.op in ('atomicrmw', 'cmpxchg'):
            ptrs = ((i.ops[0], 'store'),)
        elif i.op == 'call':
            if i.callee in CHK:
                return ts
            ptrs = tuple((o, 'call') for o in i.ops if o.w == 64 or o.k == 'inst')
        for p, kind in ptrs:
            r, off = addr(p, env)
            if r.k == 'inst' and r.op == 'alloca' or r.k in ('const', 'null', 'undef', 'global', 'func'):
                continue
            if s.roots is not None and r.id not in s.roots:
                continue
            tys = frozenset(t for (rid, o, t) in ts if rid == r.id)
            k = (i.id, kind, r.id)
            e = s.events.get(k)
            if e is None:
                s.events[k] = [i, kind, r, off, tys]
            else:
                e[4] = e[4] & tys
        return ts
