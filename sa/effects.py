"""Interprocedural summaries: through which arguments a function may write memory, which object locks it may take."""
from .flow import addr, key
ALLOC = {'SASBlockAlloc', 'malloc', 'calloc', 'SASBlockAllocNoLock', 'freeNode_allocSpace'}
EXT_WRITES = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,), 'sprintf': (0,),
              'snprintf': (0,), 'bzero': (0,), 'stpcpy': (0,), 'free': (0,), 'llvm.memcpy': (0,), 'llvm.memset': (0,), 'llvm.memmove': (0,),
              'sem_init': (0,), 'sem_post': (0,), 'sem_wait': (0,), 'read': (1,), 'fgets': (0,), 'gettimeofday': (0,), 'fstat': (1,)}


def roots(v, depth=0, seen=None):
    """abstract origins of an address: ('arg',n), ('global',name), ('alloca',), ('new',call), ('call',inst)"""
    if seen is None:
        seen = set()
    r, off = addr(v)
    if r.id in seen or depth > 40:
        return set()
    seen.add(r.id)
    if r.k == 'arg':
        return {('arg', r.idx)}
    if r.k == 'global':
        return {('global', r.name)}
    if r.k in ('const', 'null', 'undef', 'func'):
        return set()
    if r.k == 'inst':
        if r.op == 'alloca':
            return {('alloca',)}
        if r.op == 'load':
            return {('arg', x[1]) if x[0] == 'arg' else x if x[0] != 'alloca' else ('unknown',) for x in roots(r.ops[0], depth + 1, seen)}
        if r.op in ('phi', 'select'):
            ops = r.ops if r.op == 'phi' else r.ops[1:]
            out = set()
            for o in ops:
                out |= roots(o, depth + 1, seen)
            return out
        if r.op == 'call':
            if r.callee in ALLOC:
                return {('new',)}
            out = {('call', r.callee)}
            for o in r.ops:
                if o.w == 64:
                    out |= {x for x in roots(o, depth + 1, seen) if x[0] == 'arg'}
            return out
        if r.op in ('cmpxchg', 'atomicrmw', 'extractvalue'):
            return roots(r.ops[0], depth + 1, seen)
        out = set()
        for o in r.ops:
            if o.w == 64:
                out |= roots(o, depth + 1, seen)
        return out
    if r.k == 'cexpr':
        out = set()
        for o in r.ops:
            out |= roots(o, depth + 1, seen)
        return out
    return {('unknown',)}


def ext_name(c):
    if c and c.startswith('llvm.'):
        return '.'.join(c.split('.')[:2])
    return c


class Effects:
    def __init__(s, M):
        s.M = M
        s.w = {n: set() for n in M.fns}         # function -> set of roots written
        s.sites = {}
        rc = {}
        calls = {}
        for n, f in M.fns.items():
            for i in f.insts():
                p = None
                if i.op == 'store':
                    p = i.ops[1]
                elif i.op in ('atomicrmw', 'cmpxchg'):
                    p = i.ops[0]
                if p is not None:
                    rs = roots(p) - {('alloca',)}
                    s.w[n] |= rs
                    s.sites.setdefault(n, []).append((i, rs))
                if i.op == 'call':
                    if i.callee in M.fns:
                        calls.setdefault(n, []).append((i, [roots(o) if o.w == 64 else set() for o in i.ops]))
                    else:
                        for x in EXT_WRITES.get(ext_name(i.callee), ()):
                            if x < len(i.ops):
                                rs = roots(i.ops[x]) - {('alloca',)}
                                s.w[n] |= rs
                    if i.callee is None and i.asm and i.ops:
                        s.w[n] |= roots(i.ops[0]) - {('alloca',)}
        s.calls = calls
        ch = True
        while ch:
            ch = False
            for n, cs in calls.items():
                for i, rs in cs:
                    for t in list(s.w[i.callee]):
                        if t[0] == 'arg':
                            add = (rs[t[1]] if t[1] < len(rs) else set()) - {('alloca',)}
                        elif t[0] in ('new', 'alloca'):
                            continue
                        else:
                            add = {t}
                        if not add <= s.w[n]:
                            s.w[n] |= add
                            ch = True

    def writes(s, i):
        """roots (in the caller's terms) a call or store instruction may write"""
        if i.op == 'store':
            return roots(i.ops[1])
        if i.op in ('atomicrmw', 'cmpxchg'):
            return roots(i.ops[0])
        if i.op == 'call':
            if i.callee in s.M.fns:
                out = set()
                for t in s.w[i.callee]:
                    if t[0] == 'arg':
                        if t[1] < len(i.ops):
                            out |= roots(i.ops[t[1]])
                    elif t[0] not in ('new', 'alloca'):
                        out.add(t)
                return out
            out = set()
            for x in EXT_WRITES.get(ext_name(i.callee), ()):
                if x < len(i.ops):
                    out |= roots(i.ops[x])
            return out
        return set()

    def writes_arg(s, fn, idx):
        return ('arg', idx) in s.w.get(fn, ())


def field_writes(M):
    """function -> set of (struct, member) fields stored to by it or anything it calls"""
    from .flow import fieldof
    w = {n: set() for n in M.fns}
    cs = {}
    for n, f in M.fns.items():
        for i in f.insts():
            p = i.ops[1] if i.op == 'store' else i.ops[0] if i.op in ('atomicrmw', 'cmpxchg') else None
            if p is not None:
                x = fieldof(p)
                if x:
                    w[n].add(x)
            elif i.op == 'call' and i.callee in M.fns:
                cs.setdefault(n, set()).add(i.callee)
    ch = True
    while ch:
        ch = False
        for n, c in cs.items():
            for x in c:
                if not w[x] <= w[n]:
                    w[n] |= w[x]
                    ch = True
    return w
