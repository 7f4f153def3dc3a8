"""Which memory a function reads and writes, in terms of where the address came from.

An origin is (root, k): the address was reached from root by k loads.  Roots: ('arg', n), ('global', name),
('hdr', root) for the block header found around an interior address, ('new',) for fresh storage, ('alloca', id)."""
from .flow import addr, key, fieldof, strip
from .effects import ALLOC, EXT_WRITES, ext_name

CAP = 4
EXT_READS = {'memcpy': (1,), 'memmove': (1,), 'strcpy': (1,), 'strncpy': (1,), 'strcat': (0, 1), 'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1),
             'memcmp': (0, 1), 'strdup': (0,), 'llvm.memcpy': (1,), 'llvm.memmove': (1,), 'bcmp': (0, 1)}


def origins(v, seen=None, depth=0):
    if seen is None:
        seen = set()
    r, off = addr(v)
    if r.id in seen or depth > 60:
        return frozenset()
    seen = seen | {r.id}
    if r.k == 'arg':
        return frozenset({(('arg', r.idx), 0)})
    if r.k == 'global':
        return frozenset({(('global', r.name), 0)})
    if r.k in ('const', 'null', 'undef', 'func'):
        return frozenset()
    if r.k == 'cexpr':
        out = frozenset()
        for o in r.ops:
            out |= origins(o, seen, depth + 1)
        return out
    if r.k != 'inst':
        return frozenset()
    if r.op == 'alloca':
        return frozenset({(('alloca', r.id), 0)})
    if r.op == 'load':
        return frozenset((x, min(k + 1, CAP)) for x, k in origins(r.ops[0], seen, depth + 1))
    if r.op == 'phi':
        out = frozenset()
        for o in r.ops:
            out |= origins(o, seen, depth + 1)
        return out
    if r.op == 'select':
        return origins(r.ops[1], seen, depth + 1) | origins(r.ops[2], seen, depth + 1)
    if r.op == 'call':
        if r.callee in ALLOC:
            return frozenset({(('new',), 0)})
        out = set()
        for o in r.ops:
            if o.w == 64:
                for x, k in origins(o, seen, depth + 1):
                    if r.callee == 'SASFindHeader' or (r.callee or '').endswith('NearFind'):
                        if k == 0 and x[0] != 'hdr':
                            out.add((('hdr', x), 0))
                        else:
                            out.add((x, min(k + 1, CAP)))
                    elif x[0] in ('arg', 'global', 'hdr'):
                        out.add((x, min(k + 1, CAP)))
        return frozenset(out)
    out = frozenset()
    if r.op in ('cmpxchg', 'atomicrmw', 'extractvalue'):
        return frozenset((x, min(k + 1, CAP)) for x, k in origins(r.ops[0], seen, depth + 1))
    for o in r.ops:
        if o.w == 64:
            out |= origins(o, seen, depth + 1)
    return out


class Access:
    """summaries: .full[fn] = set of (kind, root, k) reached from arguments and globals, excluding calls to `opaque` names.
    stop(fn, argidx, call) -> True when the callee looks after that argument itself (it locks it)"""

    def __init__(s, M, opaque, stop=None, fields=()):
        s.M = M; s.opaque = opaque; s.stop = stop; s.fields = set(fields)
        s.sum = {n: set() for n in M.fns}
        s._o = {}
        calls = {}
        for n, f in M.fns.items():
            if n in opaque:
                continue
            for i in f.insts():
                for kind, x in s.direct(i):
                    if x[0][0] in ('arg', 'global', 'hdr'):
                        s.sum[n].add((kind,) + x)
                if i.op == 'call' and i.callee in M.fns and i.callee not in opaque:
                    calls.setdefault(n, []).append(i)
        ch = True
        while ch:
            ch = False
            for n, cs in calls.items():
                for i in cs:
                    for a in s.through(i):
                        if a[1][0] in ('arg', 'global', 'hdr') and a not in s.sum[n]:
                            s.sum[n].add(a)
                            ch = True

    def org(s, v):
        o = s._o.get(v.id)
        if o is None:
            o = s._o[v.id] = origins(v)
        return o

    def direct(s, i):
        """(kind, origin) of one load, store, atomic or external call"""
        if i.op == 'load':
            f = fieldof(i.ops[0])
            if f and f[1] in s.fields:
                return
            for x in s.org(i.ops[0]):
                yield 'R', x
        elif i.op == 'store':
            for x in s.org(i.ops[1]):
                yield 'W', x
        elif i.op in ('atomicrmw', 'cmpxchg'):
            for x in s.org(i.ops[0]):
                yield 'W', x
        elif i.op == 'call' and i.callee not in s.M.fns:
            e = ext_name(i.callee)
            for n in EXT_WRITES.get(e, ()):
                if n < len(i.ops):
                    for x in s.org(i.ops[n]):
                        yield 'W', x
            for n in EXT_READS.get(e, ()):
                if n < len(i.ops):
                    for x in s.org(i.ops[n]):
                        yield 'R', x

    def through(s, i):
        """accesses (kind, root, k) a call makes, in the caller's terms"""
        out = set()
        for kind, root, k in s.sum[i.callee]:
            base = root[1] if root[0] == 'hdr' else root
            if base[0] == 'arg':
                if base[1] >= len(i.ops):
                    continue
                if s.stop and s.stop(i.callee, root, k, i):
                    continue
                for x, kk in s.org(i.ops[base[1]]):
                    if root[0] == 'hdr':
                        if kk == 0 and x[0] != 'hdr':
                            out.add((kind, ('hdr', x), k))
                        else:
                            out.add((kind, x, min(kk + 1 + k, CAP)))
                    else:
                        out.add((kind, x, min(kk + k, CAP)))
            else:
                out.add((kind, root, k))
        return out

    def at(s, i):
        """all accesses of one instruction"""
        out = {(k,) + x for k, x in s.direct(i)}
        if i.op == 'call' and i.callee in s.M.fns and i.callee not in s.opaque:
            out |= s.through(i)
        return out
