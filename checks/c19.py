"""C19: segments are mapped shared, at their address, from their own, exclusively created file."""
import re
from sa import common, ir
from sa.sym import Sym, atom, con, sub, plusc, scale, single, eq0, ne0
from sa.flow import fieldof, strip, TooBig

LEVEL = 'other'
TECHNIQUE = 'static analysis: symbolic dataflow from segment number to file name, address and mapping arguments at every system call and call site, on LLVM IR'
EXPLANATION = ('The arguments of every mapping, open, truncate and name-building call are computed symbolically on every path: constant flags are inspected, the file mapped must be the one opened by the name handed in, '
               'and at every call site address, segment number, name buffer and size must belong together.')
O_ACC, O_RDWR, O_CREAT, O_EXCL, O_TRUNC = 3, 2, 0o100, 0o200, 0o1000
SHARED, PRIVATE, FIXED, NOREPLACE, ANON = 1, 2, 0x10, 0x100000, 0x20
BYNAME = {'SASAttachSegByName': 3, 'SASSegStoreCreateByName': 0, 'SASSegStoreRemoveByName': 0, 'SASSegNameExists': 0}
BYADDR = {'SASDetachSegByAddr', 'SASRemoveSegByAddr', 'SASCreateSegByAddr', 'SASAttachSegByAddr'}


def run(r):
    r.rule('shared', 'a store file is mapped readable, writable, shared, from its first byte, at the fixed address and with the size handed in', 1)
    r.rule('file', 'the file mapped is the one of the name handed in, opened for reading and writing, neither created nor truncated', 1)
    r.rule('created', 'a store file is created exclusively, never truncating one, and is sized to exactly one segment before success is reported', 1)
    r.rule('number', 'wherever a segment is created, attached or removed, its name is built from its number, and the number is its distance from the region base in segments', 5)
    r.rule('size', 'segments are created, attached, detached and removed with the segment size (or the size recorded for them)', 5)
    r.rule('name', 'the store file name contains the whole segment number', 1)
    r.rule('base', 'a process joins at the fixed base address with the fixed region and segment size', 2)
    r.rule('other-maps', 'nothing else is mapped over or unmapped from the region: other mappings are one page at its upper end', 2)
    SEG, REG, BASE = common.consts('SegmentSize', 'RegionSize', '__SAS_BASE_ADDRESS')
    M = common.lib()
    for n, f in sorted(M.fns.items()):
        if not f.blocks:
            continue
        cs = {i.callee for i in f.insts() if i.op == 'call' and i.callee}
        for c in cs & {'creat', 'truncate', 'truncate64', 'mremap', 'shm_open'}:
            r.check(False, 'created', '%s: %s' % (n, c), '%s calls %s' % (n, c), n)
        if cs & ({'mmap', 'munmap', 'open', 'ftruncate', 'SASSegNameIndexed', 'SASAttachAnchorSeg', 'SASCreateAnchorSeg'} | set(BYNAME) | BYADDR):
            function(r, M, n, f, SEG, REG, BASE)
    namefmt(r, M)


def function(r, M, n, f, SEG, REG, BASE):
    mlow = lambda x: x[0] == 'ld' and single(x[1]) == ('g', 'memLow')

    def offset_of(L):
        """address minus region base -> the address form, or None"""
        for x, c in L[1]:
            if c == -1 and (mlow(x) or x[0] == 'call' and callee.get(x[1]) == 'getMemLow'):
                return (L[0], frozenset(y for y in L[1] if y != (x, c)))
        return None
    callee = {i.id: i.callee for i in f.insts() if i.op == 'call'}

    def number_of(idx, addr, size):
        """is idx the number of the segment at addr"""
        a = single(idx)
        if a and a[0] == 'op' and a[1] in ('udiv', 'sdiv'):
            o = offset_of(a[2])
            return o is not None and o == addr and (a[3] == size or a[3] == con(SEG))
        if a and a[0] == 'op' and a[1] in ('lshr', 'ashr'):
            o = offset_of(a[2])
            return o is not None and o == addr and not a[3][1] and 1 << a[3][0] == SEG
        return False

    def tomemlow(addr):
        a = single(addr)
        return bool(a) and (mlow(a) or a[0] == 'call' and callee.get(a[1]) == 'getMemLow')

    def step(sym, i, st, env):
        us = st.user
        if i.op != 'call' or not i.callee:
            return us
        c = i.callee
        L = lambda k: sym.lin(i.ops[k], env, st)
        cv = lambda k: L(k)[0] if not L(k)[1] else None
        if c == 'mmap':
            fl, pr, fd = cv(3), cv(2), L(4)
            if fl is not None and fl & ANON:
                hi = single(L(0))
                ok = bool(hi) and (hi[0] == 'call' and callee.get(hi[1]) == 'getMemHigh' or hi[0] == 'ld' and single(hi[1]) == ('g', 'memHigh'))
                sz = cv(1)
                z = single(L(1))
                ok = ok and (sz is not None and 0 < sz <= 65536 or bool(z) and z[0] == 'call' and callee.get(z[1]) in ('getpagesize', 'sysconf'))
                r.check(ok, 'other-maps', n + ': mmap', '%s maps anonymous memory elsewhere than one page behind the region' % n, i)
                return us
            r.check(fl is not None and fl & SHARED and not fl & PRIVATE and fl & (FIXED | NOREPLACE), 'shared', n + ': flags', '%s maps a segment with flags %s (not shared and fixed)' % (n, fl), i)
            r.check(pr == 3, 'shared', n + ': protection', '%s maps a segment with protection %s' % (n, pr), i)
            r.check(cv(5) == 0, 'shared', n + ': offset', '%s maps a segment not from the start of its file' % n, i)
            r.check(single(L(0)) == ('arg', 0) and (single(L(1)) == ('arg', 1) or L(1) == con(SEG)), 'shared', n + ': place', '%s maps a segment at another address or with another size than handed in' % n, i)
            a = single(fd)
            o = a and a[0] == 'call' and next((u for u in us if u[0] == 'open' and u[1] == a[1]), None)
            r.check(bool(o), 'file', n + ': descriptor', '%s maps something else than the file it opened' % n, i)
            if o:
                r.check(o[2] is not None and o[2] & O_ACC == O_RDWR and not o[2] & (O_CREAT | O_TRUNC), 'file', n + ': flags', '%s opens a segment with flags %s' % (n, o[2]), i)
                r.check(single(o[3]) == ('arg', 3), 'file', n + ': name', '%s opens another file than the one named' % n, i)
        elif c == 'munmap':
            hi = single(L(0))
            if hi and (hi[0] == 'call' and callee.get(hi[1]) == 'getMemHigh' or hi[0] == 'ld' and single(hi[1]) == ('g', 'memHigh')):
                r.check(cv(1) is None and single(L(1))[0] == 'call' or cv(1) is not None and cv(1) <= 65536, 'other-maps', n + ': munmap', '%s unmaps more than the guard page' % n, i)
            else:
                r.check(hi == ('arg', 0) and (single(L(1)) == ('arg', 1) or L(1) == con(SEG)), 'other-maps', n + ': munmap', '%s unmaps something else than the segment handed in' % n, i)
        elif c == 'open':
            fl = cv(1)
            us = frozenset(u for u in us if u[:2] != ('open', i.id)) | {('open', i.id, fl, L(0))}
            r.check(fl is not None and not fl & O_TRUNC, 'created', n + ': truncate', '%s opens a file truncating it' % n, i)
            if fl is None or fl & O_CREAT:
                r.check(fl is not None and fl & O_EXCL, 'created', n + ': exclusive', '%s creates a file that may exist already' % n, i)
                r.check(fl is not None and fl & O_ACC == O_RDWR, 'created', n + ': mode', '%s creates a file it cannot size' % n, i)
        elif c in ('ftruncate', 'ftruncate64'):
            a = single(L(0))
            o = a and a[0] == 'call' and next((u for u in us if u[0] == 'open' and u[1] == a[1]), None)
            r.check(bool(o) and bool(o[2] & O_CREAT) and cv(1) == SEG, 'created', n + ': size', '%s sizes a store file to %s (a segment has %s), or one it did not create' % (n, cv(1), SEG), i)
            if o:
                us = us | {('sized', o[1])}
        elif c == 'SASSegNameIndexed':
            b = strip(sym.res(i.ops[0], env, st))
            while b.k in ('inst', 'cexpr') and b.op == 'gep':
                b = strip(b.ops[0])
            us = frozenset(u for u in us if u[:2] != ('buf', b.id)) | {('buf', b.id, L(1))}
        elif c in BYNAME:
            k = BYNAME[c]
            if single(L(k)) and single(L(k))[0] == 'arg':
                return us                       # handed on by an operation by name
            b = strip(sym.res(i.ops[k], env, st))
            while b.k in ('inst', 'cexpr') and b.op == 'gep':
                b = strip(b.ops[0])
            u = next((u for u in us if u[:2] == ('buf', b.id)), None)
            if not r.check(u is not None, 'number', '%s: %s name' % (n, c), '%s passes %s a name not built from a segment number' % (n, c), i):
                return us
            idx = u[2]
            if n in BYADDR:
                addr, size = atom(('arg', 0)), atom(('arg', 1))
                r.check(number_of(idx, addr, size), 'number', '%s: %s number' % (n, c), '%s names the file of another segment than the one at the address' % n, i)
                if c == 'SASAttachSegByName':
                    r.check(L(0) == addr and (L(1) == size or L(1) == con(SEG)) and L(2) == idx, 'number', '%s: %s place' % (n, c), '%s attaches a file at another address, size or number than its own' % n, i)
            elif n in ('SASSegStoreCreate', 'SASSegStoreRemove', 'SASSegIndexExists'):
                r.check(single(idx) == ('arg', 0), 'number', '%s: %s number' % (n, c), '%s names the file of another segment' % n, i)
            elif c == 'SASAttachSegByName':
                # the first segment, at the region base
                r.check(idx == con(0) and L(2) == con(0) and (single(L(0)) == ('arg', 0) or tomemlow(L(0)) or cv(0) == BASE), 'number', '%s: %s anchor' % (n, c),
                        '%s attaches another file than the first at the region base, or the first elsewhere' % n, i)
                r.check(single(L(1)) == ('arg', 2) or cv(1) == SEG, 'size', '%s: %s' % (n, c), '%s attaches the first segment with another size' % n, i)
            else:
                r.check(idx == con(0), 'number', '%s: %s anchor' % (n, c), '%s names a segment by something else than its number' % n, i)
        if c in BYADDR and n not in BYADDR or c in BYADDR and c != n and len(i.ops) > 1:
            s, z = L(1), single(L(1))
            fromtable = bool(z) and z[0] == 'ld' and any(x[0] == 'g' and x[1] in ('logTable', '_logTable') for x in atoms(z[1]))
            r.check(s == con(SEG) or fromtable or n in BYADDR and z == ('arg', 1), 'size', '%s: %s' % (n, c), '%s passes %s a size that is not the segment size' % (n, c), i)
            if n in BYADDR:
                r.check(single(L(0)) == ('arg', 0), 'number', '%s: %s address' % (n, c), '%s passes %s another address than its own' % (n, c), i)
        if c in ('SASAttachAnchorSeg', 'SASCreateAnchorSeg') and n not in ('SASAttachAnchorSeg', 'SASCreateAnchorSeg'):
            r.check(cv(0) == BASE, 'base', '%s: %s address' % (n, c), '%s joins at another address than the region base' % n, i)
            r.check(cv(1) == REG and cv(2) == SEG, 'base', '%s: %s sizes' % (n, c), '%s joins with another region or segment size' % n, i)
        if c in ('SASSegStoreCreate', 'SASSegStoreRemove', 'SASSegIndexExists') and n in ('SASAttachAnchorSeg', 'SASCreateAnchorSeg'):
            r.check(L(0) == con(0), 'number', '%s: %s anchor' % (n, c), '%s looks for another file than the first' % n, i)
        return us
    calls = {i.id for i in f.insts() if i.op == 'call' and i.callee in ('open', 'ftruncate', 'ftruncate64', 'close')}
    want = lambda sym, q: q[0] != 'b' and any(x[0] == 'call' and x[1] in calls for x in atoms(q))
    try:
        sym = Sym(f, want=want, step=step, user=frozenset(), limit=20000, pure=lambda x: True)
    except TooBig:
        r.fail('%s: too many paths' % n)
        return
    # a created file is sized on every path that may report success
    for t, st, env in sym.exits:
        for u in st.user:
            if u[0] == 'open' and (u[2] is None or u[2] & O_CREAT) and t.ops:
                v = sym.lin(t.ops[0], env, st)
                nofile = eq0(st.facts, plusc(atom(('call', u[1])), 1))
                r.check(nofile or ('sized', u[1]) in st.user or ne0(st.facts, v), 'created', n + ': sized', '%s reports success for a store file it did not size' % n, t)


def atoms(x):
    from sa.sym import walk
    return walk(x)


def namefmt(r, M):
    f = M.fns.get('SASSegNameIndexed')
    if not f:
        return
    for i in f.insts():
        if i.op == 'call' and i.callee in ('sprintf', 'snprintf', '__sprintf_chk', '__snprintf_chk'):
            k = {'sprintf': 1, 'snprintf': 2, '__sprintf_chk': 3, '__snprintf_chk': 4}[i.callee]
            fmt = M.strings.get(strip(i.ops[k]).name)
            if fmt is None:
                r.fail('format of SASSegNameIndexed not found')
                continue
            conv = re.findall(r'%([-0 #+]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t)?([a-zA-Z])', fmt)
            nums = [c for c in conv if c[4] in 'diouxX']
            r.check(len(nums) == 1 and nums[0][3] in ('l', 'll', 'j', 'z'), 'name', 'conversion: %s' % fmt, 'the file name %r does not hold the whole segment number' % fmt, i)
            pos = [n for n, c in enumerate(conv) if c[4] in 'diouxX']
            if len(pos) == 1:
                v = strip(i.ops[k + 1 + pos[0]])
                r.check(v.k == 'arg' and v.idx == 1, 'name', 'number: %s' % fmt, 'the file name is not built from the segment number handed in', i)
