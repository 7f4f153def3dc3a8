"""Object-lock typestate: which object locks are held at every instruction, per path."""
from .flow import Flow, addr, key, loop_blocks, env_alias, strip, excl, fieldof, reach_from, mkoff

LOCK, UNLOCK = 'SASLock', 'SASUnlock'
READ, WRITE = 0, 1


def natural_loops(fn):
    """header block -> set of blocks of its natural loop (back edges to the same header merged)"""
    if getattr(fn, '_natl', None) is not None:
        return fn._natl
    out = {}
    dom = fn.dom()

    def dominates(a, b):
        while True:
            if a is b:
                return True
            n = dom.get(b)
            if n is None or n is b:
                return False
            b = n
    for b in fn.blocks:
        for s in b.succ:
            if dominates(s, b):
                body = out.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(x.pred)
    fn._natl = out
    return out


def mentions(k, pred):
    if pred(k):
        return True
    if isinstance(k, tuple):
        return any(mentions(x, pred) for x in k)
    return False


def subst(k, m):
    if k in m:
        return m[k]
    if isinstance(k, tuple):
        return tuple(subst(x, m) for x in k)
    return k


def plus(v, p):
    """c if v is p + c with a constant c, else None"""
    if v.k == 'inst' and v.op == 'add' and any(strip(o) is p for o in v.ops):
        c = [o.c for o in v.ops if o.k == 'const']
        if c:
            return c[0]
    return None


class Minus:
    """a bound less a constant"""
    k = 'minus'; op = '-'; w = None; c = None; name = None

    def __init__(s, base, d):
        s.base = base; s.d = d; s.id = ('minus', base.id, d); s.ops = (base,)


class LoopInfo:
    """counted loop: index phi, constant start, exclusive end value on the edge where the count test fails"""

    def __init__(s, h, body):
        s.h = h; s.body = body; s.phi = None; s.start = None; s.ends = []      # ends: (block, exit succ, bound value, inclusive)
        for p in h.insts:
            if p.op != 'phi' or not p.w:
                continue
            ini = [v for v, b in p.inc if b not in body]
            stp = [v for v, b in p.inc if b in body]
            if len(ini) == 1 and ini[0].k == 'const' and stp and all(
                    v.k == 'inst' and v.op == 'add' and any(o is p for o in v.ops) and any(o.k == 'const' and o.c == 1 for o in v.ops) for v in stp):
                s.phi = p; s.start = ini[0].c
                break
        if s.phi is None:
            return
        for b in body:
            t = b.term
            if t.op == 'br' and t.ops and len(t.succ) == 2:
                for n in (0, 1):
                    if t.succ[n] not in body and t.succ[1 - n] in body:
                        c = t.ops[0]
                        if c.k != 'inst' or c.op != 'icmp':
                            continue
                        a, bb = strip(c.ops[0]), strip(c.ops[1])
                        pr = c.pred
                        if n == 0:      # leaves when the test holds: continue on its negation
                            pr = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult',
                                  'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}[pr]
                        d = 0
                        if bb is s.phi or plus(bb, s.phi) is not None:
                            a, bb = bb, a
                            pr = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pr, pr)
                        if a is s.phi and pr in ('ult', 'slt', 'ne', 'ule', 'sle'):
                            s.ends.append((b, t.succ[n], bb, pr in ('ule', 'sle')))
                        elif pr in ('ult', 'slt', 'ne', 'ule', 'sle') and plus(a, s.phi) is not None:
                            # i + c < bound: leaves c elements early, unless the test follows the step (do .. while)
                            d = plus(a, s.phi)
                            if b is not s.h and s.step_in(a, body):
                                d -= 1
                            if d == 0:
                                s.ends.append((b, t.succ[n], bb, pr in ('ule', 'sle')))
                            else:
                                s.ends.append((b, t.succ[n], Minus(bb, d), pr in ('ule', 'sle')))


    def step_in(s, v, body):
        """is v the value the index takes in the next round"""
        return any(x is v for x, b in s.phi.inc if b in body)


class Held:
    """flow over one function.  typestate: sorted tuple of (key, mode, kind) with kind 'one' or 'sweep'.
    .at(inst) -> set of typestates in force just before inst; .errors -> list of (kind, inst, key)"""

    def __init__(s, fn, extra=None, fw=None, env0=None):
        s.fn = fn
        s.keyval = {}                 # key (plain and canonical) -> lock operand values
        s.loops = natural_loops(fn)
        s.phis = {h: {('phi', i.id) for i in h.insts if i.op == 'phi'} for h in s.loops}
        s.errors = []
        s.before = {}
        s.extra = extra
        s.sweep_unlocks = {}          # header -> set of canonical keys unlocked in that loop
        s.sweep_locks = set()
        s.info = {h: LoopInfo(h, body) for h, body in s.loops.items()}
        s.range_errors = []
        s.ranges = 0
        s.starts = {}                 # (header, canonical key, callee) -> set of effective first index
        s.fw = fw or {}
        for h, body in s.loops.items():
            for b in body:
                for i in b.insts:
                    if i.op == 'call' and i.callee in (LOCK, UNLOCK):
                        k = key(i.ops[0])
                        if mentions(k, lambda x: x in s.phis[h]):
                            c = s.canon(k)
                            if i.callee == UNLOCK:
                                s.sweep_unlocks.setdefault(h, set()).add(c)
                            else:
                                s.sweep_locks.add(c)
        for c in fn.calls(LOCK):
            k = key(c.ops[0])
            for kk in {k, s.canon(k)}:
                s.keyval.setdefault(kk, []).append(c.ops[0])
        s.flow = Flow(fn, (), s._tr, edge=s._edge, env0=env0)

    def canon(s, k):
        """replace loop index values by a neutral name"""
        m = {}
        for ps in s.phis.values():
            for p in ps:
                m[p] = ('phi', 'i')
        return subst(k, m)

    def _tr(s, i, ts, env):
        s.before.setdefault(i.id, set()).add(ts)
        if i.op == 'call' and i.callee == LOCK:
            k = key(i.ops[0])
            s._start(i, k, env)
            m = i.ops[1].c if len(i.ops) > 1 and i.ops[1].k == 'const' else None
            return tuple(sorted(ts + ((k, m, 'one'),), key=repr))
        if i.op == 'call' and i.callee == UNLOCK:
            k = key(i.ops[0])
            s._start(i, k, env)
            for t in ts:
                if t[0] == k and t[2] == 'one':
                    l = list(ts)
                    l.remove(t)
                    return tuple(l)
            c = s.canon(k)
            if c != k and c in s.sweep_locks:
                return ts
            s.errors.append(('not-held', i, k))
            return ts
        if i.op == 'store' and ts:
            # the pointer a held lock was named by is overwritten: later uses name another object
            a = key(i.ops[1])
            if any(mentions(t[0], lambda x: x == ('ld', a)) for t in ts):
                return tuple(sorted(((subst(t[0], {('ld', a): ('old', a)}), t[1], t[2]) for t in ts), key=repr))
        return ts

    def _start(s, i, k, env):
        for h, inf in s.info.items():
            if i.bb in inf.body and inf.phi is not None and mentions(k, lambda x: x == ('phi', inf.phi.id)):
                st = inf.start
                if st == 0 and 0 in excl(inf.phi, env):
                    st = 1
                s.starts.setdefault((h, s.canon(k), i.callee), {}).setdefault(i.id, set()).add(st)

    def _end(s, h, b, su, held_current):
        """key of the exclusive end of the index range when the loop is left by this edge"""
        inf = s.info[h]
        if inf.phi is None:
            return None
        for bb, ss, v, incl in inf.ends:
            if bb is b and ss is su:
                return (mkoff(key(v), 1) if incl else key(v), v)
        return (mkoff(('phi', inf.phi.id), 1 if held_current else 0), None)

    def _range(s, h, b, su, tok, env):
        """unlock loop h is left with the swept locks tok: are the ranges the same?"""
        inf = s.info[h]
        end = tok[2][1] if isinstance(tok[2], tuple) else None
        if inf.phi is None or end is None:
            return
        mine = next(((v, incl) for bb, ss, v, incl in inf.ends if bb is b and ss is su), None)
        if mine is None:
            return
        v, incl = mine
        r = env_alias(env, strip(v))
        k = key(r)
        if incl:
            k = mkoff(k, 1)
        if mentions(k, lambda x: isinstance(x, tuple) and x and x[0] == 'phi') and not mentions(end, lambda x: isinstance(x, tuple) and x and x[0] == 'phi'):
            return
        s.ranges += 1
        if k != end:
            s.range_errors.append((b.term, tok[0], 'locks are taken up to %s but released up to %s' % (pretty(end), pretty(k))))
            return
        # the same expression, but evaluated after something changed what it reads?
        locks = [i for i in s.fn.insts() if i.op == 'call' and i.callee == LOCK and s.canon(key(i.ops[0])) == tok[0]]
        lds = loads(r)
        for l in lds:
            fld = fieldof(l.ops[0])
            if fld is None:
                continue
            for c in s.fn.insts():
                if c.op == 'call' and fld in s.fw.get(c.callee, ()):
                    ra = reach_from(c)
                    if l in ra and any(c in reach_from(x) for x in locks) and not any(x in ra for x in locks):
                        s.range_errors.append((l, tok[0], 'the release range is computed from %s.%s after %s may have changed it' % (fld + (c.callee,))))
                        return

    def _edge(s, b, su, ts, env):
        if not ts:
            return ts
        out = ts
        for h, body in s.loops.items():
            if b in body and (su not in body or su is h):
                # the index moves on: a lock named through it becomes part of the swept range
                new = []
                for t in out:
                    if t[2] == 'one' and mentions(t[0], lambda x: x in s.phis[h]):
                        t = (s.canon(t[0]), t[1], 'sweep')
                        cur = True
                        if t in new or t in out:
                            continue
                    new.append(t)
                if su not in body:
                    cur = any(t[2] == 'one' and mentions(t[0], lambda x: x in s.phis[h]) for t in out)
                    e = s._end(h, b, su, cur)
                    mine = {s.canon(key(i.ops[0])) for x in body for i in x.insts if i.op == 'call' and i.callee == LOCK
                            and mentions(key(i.ops[0]), lambda y: y in s.phis[h])}
                    new = [(t[0], t[1], ('sweep', e[0] if e else None)) if t[2] == 'sweep' and t[0] in mine else t for t in new]
                out = tuple(sorted(set(new), key=repr)) if len(set(new)) != len(new) and any(t[2] != 'one' for t in new) else tuple(sorted(new, key=repr))
            if b in body and su not in body and h in s.sweep_unlocks:
                keep = []
                for t in out:
                    if t[2] != 'one' and t[0] in s.sweep_unlocks[h] and not (isinstance(t[2], str) and False):
                        s._range(h, b, su, t, env)
                        continue
                    keep.append(t)
                out = tuple(keep)
        return out

    def values(s, k):
        """operands of the SASLock calls that took the lock named k"""
        if k in s.keyval:
            return s.keyval[k]
        def olds(x):
            if isinstance(x, tuple):
                if x and x[0] == 'old':
                    return ('ld', olds(x[1]))
                return tuple(olds(y) for y in x)
            return x
        return s.keyval.get(olds(k), [])

    def exits(s):
        return s.flow.exits

    def start_errors(s):
        """first index locked and first index unlocked of the same list"""
        out = []
        L = {}; U = {}
        for (h, c, callee), per in s.starts.items():
            for st in per.values():
                (L if callee == LOCK else U).setdefault(c, set()).add(min(st))
        for c in U:
            if c in L and None not in U[c] and None not in L[c] and U[c] != L[c] and c in {x for v in s.sweep_unlocks.values() for x in v}:
                out.append((c, 'locking starts at element %s, unlocking at element %s' % (sorted(L[c]), sorted(U[c]))))
        return out


def loads(v, seen=None):
    seen = set() if seen is None else seen
    if v.id in seen or v.k != 'inst':
        return []
    seen.add(v.id)
    out = [v] if v.op == 'load' else []
    for o in v.ops:
        out += loads(o, seen)
    return out


def pretty(k):
    if isinstance(k, tuple):
        if k[0] == '+':
            return '%s%+d' % (pretty(k[1]), k[2])
        if k[0] == 'ld':
            return '[%s]' % pretty(k[1])
        if k[0] == 'phi':
            return 'i'
        return '%s(%s)' % (k[0], ', '.join(pretty(x) for x in k[1:]))
    return str(k)
