"""C04: unlocked forms never take or release object locks."""
import os, re
from sa import common
from sa.flow import Flow, const_of, strip, env_alias
from sa.locks import LOCK, UNLOCK

LEVEL = 'other'
TECHNIQUE = 'static analysis: context-sensitive call-graph effect analysis (lock effect per lock-choice argument) on LLVM IR'
EXPLANATION = ('Every operation named as unlocked form, and every internal function under lock choice 0, is explored over its feasible paths with the lock choice '
               'propagated as a constant; no path may reach SASLock or SASUnlock, directly or through a callee that locks under the choice it is given.')
NAME = re.compile(r'(NoLock|_nolock|Nolock|_NoLock)$')
TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tables', 'lockon.txt')
# separate objects an object only refers to: they lock themselves
SEPARATE = (('SPHContext', ('SASStringBTree', 'SASIndex')),)


def choices(M):
    on = {}
    for l in open(TABLE):
        l = l.split('#')[0].split()
        if l and l[0] in M.fns:
            on[l[0]] = int(l[1])
    for n, f in M.fns.items():
        for a in f.args:
            if getattr(a, 'name', '') == 'lock_on':
                on[n] = a.idx
    return {n: i for n, i in on.items() if i < len(M.fns[n].args)}


class Locks:
    """does (function, lock choice) take or release object locks?  choice: 0, 1 or None (no such parameter)"""

    def __init__(s, M):
        s.M = M
        s.on = choices(M)
        s.nodes = set()
        for n in M.fns:
            s.nodes |= {(n, 0), (n, 1)} if n in s.on else {(n, None)}
        s.memo = {}
        s.why = {}

    def calls(s, n, ch):
        """feasible calls of n under the choice: [(inst, choice handed on)]"""
        k = (n, ch)
        if k in s.memo:
            return s.memo[k]
        f = s.M.fns[n]
        env0 = None
        if n in s.on and ch is not None:
            a = f.args[s.on[n]]
            env0 = {a.id: ('=', 0) if ch == 0 else ('!', frozenset((0,)))}
        seen = {}

        def tr(i, ts, env):
            if i.op == 'call' and (i.callee in s.M.fns or i.callee in (LOCK, UNLOCK)):
                c = None
                if i.callee in s.on and s.on[i.callee] < len(i.ops):
                    v = i.ops[s.on[i.callee]]
                    x = const_of(v, env)
                    if x is None:
                        r = env_alias(env, strip(v))
                        if n in s.on and r is f.args[s.on[n]]:
                            x = ch
                        else:
                            x = 1           # not known to be off
                    c = 0 if x == 0 else 1
                seen[(i.id, c)] = (i, c)
            return ts
        Flow(f, (), tr, env0=env0)
        s.memo[k] = list(seen.values())
        return s.memo[k]

    def locks(s):
        """set of (fn, choice) that may lock, with one witness each"""
        why = {}
        edges = {}
        for n, c in s.nodes:
            for i, cc in s.calls(n, c):
                if i.callee in (LOCK, UNLOCK):
                    why.setdefault((n, c), i)
                else:
                    edges.setdefault((i.callee, cc), []).append(((n, c), i))
        work = list(why)
        while work:
            x = work.pop()
            for y, i in edges.get(x, ()):
                if y not in why:
                    why[y] = i
                    work.append(y)
        s.why = why
        s.edges = edges
        return why


def separate(a, b):
    return any(a.startswith(x) and b.startswith(y) for x, ys in SEPARATE for y in ys)


def run(r):
    r.rule('unlocked', 'no feasible path of an unlocked form reaches SASLock or SASUnlock', 60)
    r.rule('unlocked-call', 'every call an unlocked form makes goes to code that does not lock under the choice handed on', 200)
    M = common.lib(headers=True, cse=True)
    L = Locks(M)
    why = L.locks()
    forms = [(n, None) for n in M.fns if NAME.search(n) and n not in L.on] + [(n, 0) for n in L.on]
    isform = set(forms)
    for n, c in sorted(forms, key=repr):
        r.ok('unlocked', n if c is None else '%s with lock choice 0' % n)
        for i, cc in L.calls(n, c):
            t = n if c is None else '%s with lock choice 0' % n
            inst = '%s calls %s' % (t, i.callee)
            if i.callee in (LOCK, UNLOCK):
                r.bad('unlocked', inst, '%s reaches %s' % (t, i.callee), i)
                continue
            r.ok('unlocked-call', inst)
            if (i.callee, cc) in why and (i.callee, cc) not in isform and not separate(n, i.callee):
                # follow the witness to the lock call
                path = [i.callee]
                x = (i.callee, cc)
                while why[x].callee not in (LOCK, UNLOCK) and len(path) < 12:
                    w = why[x]
                    nx = next(((m, k) for (m, k) in why if m == w.callee and any(y == x and j is w for y, j in L.edges.get((m, k), ()))), None)
                    if nx is None:
                        break
                    path.append(nx[0])
                    x = nx
                r.bad('unlocked-call', inst, '%s takes an object lock through %s' % (t, ' -> '.join(path)), i)
    r.assume.append('separate objects that an object only refers to lock themselves: ' + '; '.join('%s -> %s' % (a, ', '.join(b)) for a, b in SEPARATE))
