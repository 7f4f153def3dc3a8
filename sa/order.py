"""Nested lock acquisitions: which object locks are waited for while which others are held."""
from .access import origins, CAP
from .locks import Held, LOCK, UNLOCK, pretty
from .flow import key, fieldof, addr, strip


def outward(v, depth=0, seen=None):
    """how many base links the address was followed through at the end of its path (the most over all ways to compute it)"""
    seen = frozenset() if seen is None else seen
    r, off = addr(v)
    if r.id in seen or depth > 20 or r.k != 'inst':
        return 0
    seen = seen | {r.id}
    if r.op == 'load':
        f = fieldof(r.ops[0])
        if f and f[1] == 'baseBlock':
            return min(3, 1 + outward(addr(r.ops[0])[0], depth + 1, seen))
        return 0
    if r.op in ('phi', 'select'):
        return max([outward(o, depth + 1, seen) for o in (r.ops if r.op == 'phi' else r.ops[1:])] + [0])
    return 0


def lock_summaries(M, contexts):
    """(fn, choice) -> {(root, k, out, mode)}: locks a call may wait for, in terms of its arguments"""
    out = {}
    for n, c in contexts.nodes:
        out[(n, c)] = {}
    ch = True
    direct = {}
    for n, c in contexts.nodes:
        for i, cc in contexts.calls(n, c):
            if i.callee == LOCK:
                m = i.ops[1].c if i.ops[1].k == 'const' else 1
                for x in origins(i.ops[0]):
                    out[(n, c)].setdefault(x + (outward(i.ops[0]), m), i)
    while ch:
        ch = False
        for n, c in contexts.nodes:
            for i, cc in contexts.calls(n, c):
                if i.callee in (LOCK, UNLOCK):
                    continue
                for y in mapped(out.get((i.callee, cc), ()), i):
                    if y not in out[(n, c)]:
                        out[(n, c)][y] = i
                        ch = True
    return out


def mapped(summary, i):
    res = set()
    for root, k, ow, m in summary:
        base = root[1] if root[0] == 'hdr' else root
        if base[0] != 'arg':
            res.add((root, k, ow, m))
            continue
        if base[1] >= len(i.ops):
            continue
        for x, kk in origins(i.ops[base[1]]):
            if x[0] not in ('arg', 'hdr', 'global', 'new'):
                continue
            if root[0] == 'hdr':
                res.add((('hdr', x), k, ow, m) if kk == 0 and x[0] != 'hdr' else (x, min(CAP, kk + 1 + k), ow, m))
            else:
                res.add((x, min(CAP, kk + k), min(3, ow + (outward(i.ops[base[1]]) if k == ow else 0)), m))
    return res
