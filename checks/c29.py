"""C29: atomic primitives are one indivisible full-width update, locks and barriers order memory."""
import os, re, subprocess
from sa import ir

LEVEL = 'other'
TECHNIQUE = 'static analysis: path-wise effect summaries of every atomic primitive (LLVM IR and inline assembly) against its specification, for six targets'
EXPLANATION = ('Compiles the atomic and lock headers of the repository for x86-64 (as the recent and as the old compiler branch), i386, '
               'aarch64, riscv64, loongarch64 and powerpc64. For every primitive all paths (two rounds of each loop) are summarised as the sequence of '
               'accesses to the operand: atomic updates (compiler atomics, or x86 inline assembly read instruction by '
               'instruction: mnemonic, lock prefix, width from suffix or register operand, tied operands, clobbers), plain '
               'accesses and fences, with the operands as terms over the arguments. The summary is compared with the '
               'specification of the primitive: which single update it makes, at which width, what it returns, and which '
               'ordering it needs. Paths the terms do not decide are counted as undecided and not reported.')

# name -> (kind, width: L long, I int, pointer slot)
SPEC = {
    'sas_fetch_and_add_ptr': ('fetch', 'add', 'L'), 'sas_fetch_and_add': ('fetch', 'add', 'L'),
    'sas_fetch_and_and': ('fetch', 'and', 'I'), 'sas_fetch_and_and_long': ('fetch', 'and', 'L'),
    'sas_fetch_and_or': ('fetch', 'or', 'I'), 'sas_fetch_and_or_long': ('fetch', 'or', 'L'),
    'sas_atomic_swap': ('fetch', 'xchg', 'L'),
    'sas_atomic_inc': ('count', 1, 'L'), 'sas_atomic_dec': ('count', -1, 'L'),
    'sas_atomic_inc_long': ('fcount', 1, 'L'), 'sas_atomic_dec_long': ('fcount', -1, 'L'),
    'sas_compare_and_swap': ('cas', None, 'L'),
    'sas_spin_lock': ('lock', 'word', 'I'), 'sas_spin_lock_with_yield': ('lock', 'word', 'I'),
    'sas_spin_trylock': ('trylock', 'word', 'I'), 'sas_spin_unlock': ('unlock', 'word', 'I'),
    'spin_lock': ('lock', 'word', 'L'), 'spin_unlock': ('unlock', 'word', 'L'),
    'sas_lock_ptr': ('lock', 'ptr', 'L'), 'sas_lock_ptr_with_yield': ('lock', 'ptr', 'L'),
    'sas_trylock_ptr': ('trylock', 'ptr', 'L'), 'sas_unlock_ptr': ('unlock', 'ptr', 'L'),
    'sas_set_unlocked_ptr': ('setptr', 0, 'L'), 'sas_set_locked_ptr': ('setptr', 1, 'L'),
    'sa_full_barrier': ('barrier', 'full', ''), 'sa_read_barrier': ('barrier', 'read', ''),
    'sa_write_barrier': ('barrier', 'write', ''), 'sa_code_barrier': ('barrier', 'code', ''),
}
TU = '''#include <stddef.h>
#include "sasatom.h"
#ifdef __cplusplus
#include "saslock.h"
#include "sasulock.h"
extern "C" {
#endif
void sa_full_barrier(void) { sas_full_barrier(); }
void sa_read_barrier(void) { sas_read_barrier(); }
void sa_write_barrier(void) { sas_write_barrier(); }
void sa_code_barrier(void) { sas_code_barrier(); }
#ifdef __cplusplus
}
#endif
'''
STUB = {'sched.h': 'int sched_yield(void);\n', 'stdlib.h': '#include <stddef.h>\n', 'unistd.h': '\n', 'string.h': '\n', 'stdio.h': '\n',
        'sys/types.h': '\n', 'pthread.h': '\n', 'errno.h': '\n'}
NEW = '-fgnuc-version=10.2.1'
TARGETS = [('x86-64', [NEW], 64, 'x86'), ('x86-64 (old compiler)', [], 64, 'x86'),
           ('i386', ['--target=i386-linux-gnu', NEW], 32, 'x86'), ('aarch64', ['--target=aarch64-linux-gnu', NEW], 64, 'arm'),
           ('riscv64', ['--target=riscv64-linux-gnu', '-march=rv64gc', NEW], 64, 'riscv'), ('loongarch64', ['--target=loongarch64-linux-gnu', NEW], 64, 'la'),
           ('powerpc64', ['--target=powerpc64le-linux-gnu', NEW], 64, 'ppc'), ('aarch64 (old compiler)', ['--target=aarch64-linux-gnu'], 64, 'arm'),
           ('riscv64 (old compiler)', ['--target=riscv64-linux-gnu', '-march=rv64gc'], 64, 'riscv'),
           ('loongarch64 (old compiler)', ['--target=loongarch64-linux-gnu'], 64, 'la')]
OLDPREFIX = ('sas_', 'sa_', 'spin_')


class Unknown(Exception):
    pass


def compile_for(name, flags):
    w = ir.workdir()
    d = os.path.join(w, 'atom_' + re.sub(r'\W', '_', name))
    os.makedirs(os.path.join(d, 'sys'), exist_ok=True)
    native = not any(f.startswith('--target') for f in flags)
    src = os.path.join(d, 'tu.cpp' if native else 'tu.c')
    open(src, 'w').write(TU)
    fl = (['-fno-exceptions', '-fno-rtti', '-pthread'] if native else ['-std=gnu17']) + ['-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w', '-emit-llvm', '-c', '-femit-all-decls',
          '-D__SASSIM__']
    if not native:
        for h, t in STUB.items():
            open(os.path.join(d, h), 'w').write(t)
        fl += ['-nostdlibinc', '-isystem', d]
    o = os.path.join(d, 'tu.bc')
    r = subprocess.run([ir.CLANGXX if native else ir.CLANG] + fl + flags + ['-I', ir.SRC] + ir.overlay() + [src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise ir.Broken(r.stdout.decode()[:600])
    return ir.load([o], keep=lambda n: n in SPEC, passes='always-inline,function(sroa,instsimplify,sccp,instsimplify)',
                   expose=None)


# terms: ('arg',k) ('c',v) (op,a,b) ('old',n) value before update n, ('flag',n) 1 iff update n happened, ('ld',n) ('tr',w,t) ('undef',)

def norm(t):
    if t[0] in ('and', 'or', 'add', 'xor') and t[2][0] == 'c' and t[1][0] == 'c':
        a, b = t[1][1], t[2][1]
        return ('c', {'and': a & b, 'or': a | b, 'add': a + b, 'xor': a ^ b}[t[0]])
    if t[0] in ('and', 'or', 'add', 'xor') and t[1][0] == 'c':
        t = (t[0], t[2], t[1])
    if t[0] in ('or', 'add', 'xor') and t[2] == ('c', 0) or t[0] == 'and' and t[2] == ('c', -1):
        return t[1]
    return t


def low(t):
    """bit 0 of a term where it is known"""
    if t[0] == 'c':
        return t[1] & 1
    if t[0] in ('and', 'or', 'xor'):
        a, b = low(t[1]), low(t[2])
        if t[0] == 'and':
            return 0 if 0 in (a, b) else 1 if a == b == 1 else None
        if t[0] == 'or':
            return 1 if 1 in (a, b) else 0 if a == b == 0 else None
    if t[0] == 'add' and low(t[1]) is not None and low(t[2]) is not None:
        return low(t[1]) ^ low(t[2])
    return None


def rest(t):
    """the term without what happens to bit 0"""
    while t[0] in ('and', 'or') and t[2][0] == 'c' and (t[0] == 'and' and t[2][1] in (-2, 2**64 - 2, 2**32 - 2) or t[0] == 'or' and t[2][1] == 1):
        t = t[1]
    if t[0] == 'c':
        return ('c', t[1] & ~1)
    return t


class Path:
    def __init__(s):
        s.ev = []      # (kind, ...)
        s.env = {}
        s.know = {}    # flag term -> bool

    def copy(s):
        p = Path(); p.ev = list(s.ev); p.env = dict(s.env); p.know = dict(s.know)
        return p


class Walk:
    def __init__(s, fn, wl, arch):
        s.fn = fn; s.wl = wl; s.arch = arch; s.out = []; s.n = 0; s.steps = 0

    def val(s, v, p):
        if v.k == 'const':
            return ('c', v.c)
        if v.k == 'null':
            return ('c', 0)
        if v.k == 'arg':
            return ('arg', v.idx)
        if v.k == 'undef':
            return ('undef',)
        if v.k == 'inst':
            return p.env.get(v.id, ('?', v.id))
        return ('?', v.id)

    def isp(s, v, p):
        return s.val(v, p) == ('arg', 0)

    def upd(s, p, op, w, operand, ordr, at, exp=None, flagged=False):
        s.n += 1
        p.ev.append(('upd', s.n, op, w, operand, exp, ordr, at))
        return s.n

    def run(s):
        s.go(s.fn.blocks[0], None, Path(), {})
        return s.out

    def go(s, b, prev, p, seen):
        s.steps += 1
        if s.steps > 4000:
            raise Unknown('too many paths')
        if seen.get(b, 0) >= 3:
            return
        seen = dict(seen); seen[b] = seen.get(b, 0) + 1
        new = {}
        for i in b.insts:
            if i.op != 'phi':
                break
            for v, pb in i.inc:
                if pb is prev:
                    new[i.id] = s.val(v, p)
        p.env.update(new)
        for i in b.insts:
            if i.op == 'phi':
                continue
            if i.op == 'ret':
                s.out.append((s.val(i.ops[0], p) if i.ops else None, p, i))
                return
            if i.op == 'unreachable':
                return
            if i.op in ('br', 'switch'):
                if len(i.succ) == 1:
                    return s.go(i.succ[0], b, p, seen)
                if i.op == 'switch':
                    raise Unknown('switch')
                c = s.truth(i.ops[0], p)
                for k, su in enumerate(i.succ):
                    want = k == 0
                    if isinstance(c, bool):
                        if c != want:
                            continue
                        s.go(su, b, p.copy(), seen)
                    else:
                        q = p.copy()
                        if c is not None:
                            f, pos = c
                            q.know[f] = want == pos
                        s.go(su, b, q, seen)
                return
            s.inst(i, p)

    def truth(s, v, p):
        t = s.val(v, p)
        return s.truthterm(t, p)

    def truthterm(s, t, p):
        if t[0] == 'c':
            return bool(t[1])
        if t[0] == 'not':
            x = s.truthterm(t[1], p)
            return (not x) if isinstance(x, bool) else (x[0], not x[1]) if x else None
        if t in p.know:
            return p.know[t]
        if t[0] in ('flag', 'eqz'):
            return (t, True)
        return None

    def bin(s, i, p):
        a, b = s.val(i.ops[0], p), s.val(i.ops[1], p)
        if i.op == 'xor' and i.w == 1 and b[0] == 'c' and b[1] & 1:
            return ('not', a)
        if i.op == 'sub' and b[0] == 'c':
            return norm(('add', a, ('c', -b[1])))
        return norm((i.op, a, b))

    def inst(s, i, p):
        o = i.op
        if o in ('zext', 'sext', 'inttoptr', 'ptrtoint', 'bitcast', 'freeze'):
            p.env[i.id] = s.val(i.ops[0], p)
        elif o == 'trunc':
            t = s.val(i.ops[0], p)
            p.env[i.id] = t if t[0] in ('c', 'flag', 'not', 'undef') else ('tr', i.w, t)
        elif o == 'extractvalue':
            t = s.val(i.ops[0], p)
            if t[0] == 'pair':
                k = exidx(i)
                p.env[i.id] = ('old', t[1]) if k == 0 else ('flag', t[1])
        elif o in ('add', 'sub', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'mul'):
            p.env[i.id] = s.bin(i, p)
        elif o == 'icmp':
            a, b = s.val(i.ops[0], p), s.val(i.ops[1], p)
            if b == ('c', 0) and i.pred in ('eq', 'ne') and a[0] in ('flag', 'not'):
                p.env[i.id] = a if i.pred == 'ne' else ('not', a)
            elif b == ('c', 1) and i.pred in ('eq', 'ne') and a[0] in ('flag', 'not'):
                p.env[i.id] = a if i.pred == 'eq' else ('not', a)
            elif a[0] == 'old' and i.pred in ('eq', 'ne'):
                up = next((e for e in p.ev if e[0] == 'upd' and e[1] == a[1]), None)
                if up is not None and up[5] is not None and up[5] == b:
                    t = ('flag', a[1])
                elif up is not None and b == ('c', 0):
                    t = ('eqz', a[1])
                else:
                    t = ('?', i.id)
                p.env[i.id] = t if i.pred == 'eq' else ('not', t)
            elif a[0] == b[0] == 'c' and i.pred in ('eq', 'ne'):
                p.env[i.id] = ('c', int((a[1] == b[1]) == (i.pred == 'eq')))
            elif a[0] == b[0] == 'c' and i.pred in ('slt', 'sgt', 'sle', 'sge', 'ult', 'ugt', 'ule', 'uge'):
                x, y = a[1], b[1]
                if i.pred[0] == 'u':
                    x, y = x & (2**64 - 1), y & (2**64 - 1)
                p.env[i.id] = ('c', int({'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[i.pred[1:]]))
            else:
                p.env[i.id] = ('?', i.id)
        elif o == 'select':
            c = s.truth(i.ops[0], p)
            a, b = s.val(i.ops[1], p), s.val(i.ops[2], p)
            if isinstance(c, bool):
                p.env[i.id] = a if c else b
            elif c is not None and a == ('c', 1) and b == ('c', 0):
                p.env[i.id] = c[0] if c[1] else ('not', c[0])
            elif c is not None and a == ('c', 0) and b == ('c', 1):
                p.env[i.id] = ('not', c[0]) if c[1] else c[0]
        elif o == 'load':
            if s.isp(i.ops[0], p):
                s.n += 1
                p.ev.append(('load', s.n, i.w, i))
                p.env[i.id] = ('ld', s.n)
        elif o == 'store':
            if s.isp(i.ops[1], p):
                p.ev.append(('store', s.val(i.ops[0], p), i.ops[0].w or 64, i.ord, i))
        elif o == 'fence':
            p.ev.append(('fence', i.ord, i))
        elif o == 'atomicrmw':
            if s.isp(i.ops[0], p):
                t = s.val(i.ops[1], p)
                op = i.rmw
                if op == 'sub':
                    op, t = 'add', (('c', -t[1]) if t[0] == 'c' else ('neg', t))
                n = s.upd(p, op, i.w or 64, t, i.ord, i)
                p.env[i.id] = ('old', n)
        elif o == 'cmpxchg':
            if s.isp(i.ops[0], p):
                n = s.upd(p, 'cas', i.ops[2].w or s.wl, s.val(i.ops[2], p), cxord(i), i, s.val(i.ops[1], p))
                p.env[i.id] = ('pair', n)
        elif o == 'call':
            s.call(i, p)

    def call(s, i, p):
        if i.asm is not None:
            return s.asm(i, p)
        if i.callee in SPEC and i.ops and s.isp(i.ops[0], p):
            k, x, w = SPEC[i.callee]
            w = 32 if w == 'I' else s.wl
            if k == 'cas':
                n = s.upd(p, 'cas', w, s.val(i.ops[2], p), 'full', i, s.val(i.ops[1], p))
                p.env[i.id] = ('flag', n)
            elif k == 'trylock':
                n = s.upd(p, 'lock', w, ('c', 1), 'full', i, x)
                p.env[i.id] = ('not', ('flag', n))
            elif k == 'lock':
                n = s.upd(p, 'lock', w, ('c', 1), 'full', i, x)
                p.know[('flag', n)] = True
                p.env[i.id] = ('held', n)
            elif k == 'unlock':
                s.n += 1
                p.ev.append(('unlock', s.n, x, i))
            elif k == 'fetch':
                n = s.upd(p, x, w, s.val(i.ops[1], p), 'full', i)
                p.env[i.id] = ('old', n)
            elif k in ('count', 'fcount'):
                n = s.upd(p, 'add', w, ('c', x), 'full', i)
                p.env[i.id] = ('old', n)
            else:
                raise Unknown(i.callee)
        elif i.callee in SPEC and not i.ops:
            p.ev.append(('fence', 7, i))
        elif any(s.isp(a, p) for a in i.ops):
            raise Unknown('call of ' + str(i.callee))

    def asm(s, i, p):
        m = re.search(r'asm\s+((?:sideeffect|alignstack|inteldialect|unwind)\s+)*"((?:[^"\\]|\\.)*)",\s*"([^"]*)"', i.asm)
        if not m:
            raise Unknown('assembly ' + i.asm[:60])
        side = 'sideeffect' in i.asm.split('"')[0]
        text = re.sub(r'\\([0-9A-F]{2})', lambda x: chr(int(x.group(1), 16)), m.group(2))
        cons = m.group(3).split(',')
        mem = '~{memory}' in cons
        outs = [c for c in cons if c.startswith('=')]
        ins = [c for c in cons if not c.startswith(('=', '~'))]
        # operand number -> (kind, value)
        opn = []
        arg = list(i.ops)
        for c in outs:
            if '*' in c:
                opn.append(('mem', arg.pop(0), c))
            else:
                opn.append(('out', None, c))
        for c in ins:
            v = arg.pop(0)
            if '*' in c:
                opn.append(('mem', v, c))
            elif c.isdigit():
                opn.append(('tied', v, c)); opn[int(c)] = ('out', v, opn[int(c)][2]) if opn[int(c)][0] == 'out' else opn[int(c)]
            else:
                opn.append(('in', v, c))
        nout = [k for k, c in enumerate(outs) if '*' not in c]
        stm = [re.sub(r'\s+', ' ', x).strip() for x in re.split(r'[;\n]', text)]
        stm = [x for x in stm if x]
        touches = any(v is not None and s.isp(v, p) for _, v, _ in opn)
        if s.arch != 'x86':
            if touches:
                raise Unknown('assembly')
            f = {'sync': 7, 'dmb ish': 7, 'lwsync': 6, 'isync': 4, '': 'c'}
            for x in stm or ['']:
                if x in f and mem:
                    p.ev.append(('fence', f[x], i))
            return
        lock = False; last = None; res = {}
        if not stm and mem:
            p.ev.append(('fence', 'c', i))
        for x in stm:
            if x == 'lock':
                lock = True
                continue
            if x.startswith('lock '):
                lock = True; x = x[5:]
            mn, _, ar = x.partition(' ')
            ops = [a.strip() for a in ar.split(',')] if ar else []
            if mn in ('pause', 'nop', 'rep'):
                if mem:
                    p.ev.append(('fence', 'c', i))
                continue
            if mn == 'mfence':
                p.ev.append(('fence', 7 if mem else 'weak', i))
                continue
            if mn in ('sete', 'setz') and ops and re.match(r'^\$\{?(\d+)', ops[0]):
                k = int(re.match(r'^\$\{?(\d+)', ops[0]).group(1))
                if last is not None:
                    res[k] = ('flag', last)
                continue
            mm = re.match(r'^(xadd|xchg|cmpxchg|inc|dec|add|sub|and|or|xor)([bwlq]?)$', mn)
            if not mm:
                if touches:
                    raise Unknown('assembly ' + x)
                continue
            base, suf = mm.groups()
            dst = ops[-1]
            k = re.match(r'^\(?\$\{?(\d+)(?::\w)?\}?\)?$', dst)
            if not k or opn[int(k.group(1))][1] is None:
                if lock and mem and re.match(r'^0?\(%[er]sp\)$', dst):
                    p.ev.append(('fence', 7, i))
                    continue
                if touches:
                    raise Unknown('assembly ' + x)
                continue
            k = int(k.group(1))
            kind, pv, _ = opn[k]
            if not s.isp(pv, p) or (kind != 'mem' and '(' not in dst):
                raise Unknown('assembly ' + x)
            srcv = None; sk = None
            if len(ops) == 2:
                q = re.match(r'^\$\{?(\d+)', ops[0])
                im = re.match(r'^\$\$(-?\w+)$', ops[0])
                if q:
                    sk = int(q.group(1))
                    v = opn[sk][1]
                    srcv = s.val(v, p) if v is not None else ('undef',)
                    rw = (i.w if sk in nout and len(nout) == 1 else v.w if v is not None else 0) or s.wl
                elif im:
                    srcv = ('c', int(im.group(1), 0)); rw = 0
                else:
                    raise Unknown('assembly ' + x)
            else:
                rw = 0
            w = {'b': 8, 'w': 16, 'l': 32, 'q': 64}.get(suf) or rw
            if base == 'inc':
                op, t = 'add', ('c', 1)
            elif base == 'dec':
                op, t = 'add', ('c', -1)
            elif base == 'sub' and srcv[0] == 'c':
                op, t = 'add', ('c', -srcv[1])
            elif base in ('xadd', 'add'):
                op, t = 'add', srcv
            elif base == 'cmpxchg':
                op, t = 'cas', srcv
            else:
                op, t = base, srcv
            at = lock or base == 'xchg'
            knows = mem or any(c.startswith('=*') and s.isp(v, p) for kd, v, c in opn if kd == 'mem')
            kept = side or not nout
            ordr = ('full' if mem else 'relaxed') if at else 'torn'
            if not knows:
                ordr = 'hidden'
            if not kept:
                ordr = 'dropped'
            exp = None
            if base == 'cmpxchg':
                ax = [v for kd, v, c in opn if v is not None and (c in ('{ax}', '{eax}', '{rax}', 'a') or c == '={ax}' and kd == 'out')]
                exp = s.val(ax[0], p) if ax else ('undef',)
            n = s.upd(p, op, w, t, ordr, i, exp)
            last = n
            if base in ('xadd', 'xchg') and sk is not None:
                res[sk] = ('old', n)
            if base == 'cmpxchg':
                for kk, (kd, v, c) in enumerate(opn):
                    if kd == 'out' and c in ('={ax}', '={eax}', '={rax}') and kk not in res:
                        res[kk] = ('old', n)
            for kk, (kd, v, c) in enumerate(opn):
                if kd == 'out' and c == '={@cc' + 'z}' or kd == 'out' and c == '={@cce}':
                    res[kk] = ('flag', n)
            lock = False
        if len(nout) == 1:
            p.env[i.id] = res.get(nout[0], ('?', i.id))


_exi = {}


def exidx(i):
    m = re.search(r',\s*(\d+)(?:,\s*!|$|\s*$)', ir.text(i).split(', !dbg')[0])
    return int(m.group(1)) if m else 0


def cxord(i):
    m = re.search(r'\b(monotonic|acquire|release|acq_rel|seq_cst)\s+(monotonic|acquire|seq_cst)', ir.text(i))
    return {'monotonic': 2, 'acquire': 4, 'release': 5, 'acq_rel': 6, 'seq_cst': 7}.get(m.group(1), 2) if m else 2


def acq(o):
    return o in ('full', 4, 6, 7)


def rel(o):
    return o in ('full', 5, 6, 7)


def indivisible(r, tag, n, u, w, full):
    """rules every update has to obey, whatever it does"""
    _, k, op, uw, t, exp, o, at = u
    r.check(o != 'torn', 'single', tag, '%s changes its operand with an instruction that is not indivisible (no lock prefix)' % n, at)
    r.check(o not in ('dropped',), 'kept', tag, '%s: the assembly is not volatile, the compiler may leave the update out when its result is not used' % n, at)
    r.check(o != 'hidden', 'kept', tag, '%s: the assembly does not tell the compiler that the operand changes' % n, at)
    r.check(uw == w or not uw, 'width', tag, '%s updates %d of the %d bits of its operand' % (n, uw, w), at)


def strip_tr(t, w):
    while t and t[0] == 'tr' and t[1] >= w:
        t = t[2]
    return t


def effective(p):
    """updates that happened on a path: list of (event, decided)"""
    out = []
    for e in p.ev:
        if e[0] == 'upd':
            if e[2] in ('cas', 'lock'):
                k = p.know.get(('flag', e[1]))
                if k is False:
                    continue
                out.append((e, k))
            elif e[2] == 'xchg' and ('eqz', e[1]) in p.know and p.know[('eqz', e[1])] is False and e[4] == ('c', 1):
                continue      # found it taken, wrote the same again
            else:
                out.append((e, True))
    return out


def lockstep(e, shape, p):
    """does this update take the lock exactly when it is free? None: cannot tell"""
    _, k, op, w, t, exp, o, at = e
    if op == 'lock':
        return exp == shape
    if op == 'cas':
        if shape == 'word':
            if exp[0] != 'c' or t[0] != 'c':
                return None if '?' in (exp[0], t[0]) else False
            return exp[1] == 0 and t[1] != 0
        if '?' in str(exp) or '?' in str(t):
            return None
        return low(exp) == 0 and low(t) == 1 and rest(exp) == rest(t)
    if op == 'xchg' and shape == 'word':
        return t[0] == 'c' and t[1] != 0
    if op == 'or' and shape == 'ptr' or op == 'or':
        return t == ('c', 1)
    return False


def check(r, tgt, n, f, wl, arch):
    kind, x, wc = SPEC[n]
    w = 32 if wc == 'I' else wl
    tag = '%s on %s' % (n, tgt)
    try:
        outs = Walk(f, wl, arch).run()
    except Unknown as e:
        r.assume.append('%s not decided: %s' % (tag, e))
        return
    ord_ok = arch == 'x86'
    if not outs:
        r.assume.append('%s: no path leads out within two rounds' % tag)
    for ret, p, at in outs:
        ups = [e for e in p.ev if e[0] == 'upd']
        eff = effective(p)
        stores = [e for e in p.ev if e[0] == 'store']
        for e in ups:
            indivisible(r, tag, n, e, w, True)
        if kind in ('fetch', 'count', 'fcount'):
            for e in stores:
                r.check(False, 'single', tag, '%s writes its operand with a separate store' % n, e[-1])
            if not r.check(len(eff) == 1, 'single', tag, '%s makes %d updates on one path, not one' % (n, len(eff)), at):
                continue
            e, dec = eff[0]
            op = 'add' if kind != 'fetch' else x
            want = ('arg', 1) if kind == 'fetch' else ('c', x)
            t = strip_tr(e[4], w)
            if e[2] == 'cas':
                base = e[5]
                new = strip_tr(e[4], w)
                good = new == norm((op, base, want)) or new == norm((op, want, base)) if op != 'xchg' else new == want
                r.check(dec is True, 'single', tag, '%s ends although its update did not happen' % n, e[-1])
                oldv = (base, ('old', e[1]))
            else:
                good = e[2] == op and t == want
                oldv = (('old', e[1]),)
            if '?' in str(t) and not good:
                r.assume.append('%s: operand not decided' % tag); good = True
            r.check(good, 'update', tag, '%s does not make the update it stands for (operation %s with %s)' % (n, e[2], show(t)), e[-1])
            if kind != 'count':
                rv = strip_tr(ret, w) if ret else ret
                if rv is None or rv[0] == '?':
                    r.assume.append('%s: result not decided' % tag)
                else:
                    r.check(rv in oldv, 'result', tag, '%s does not return the value before the update (returns %s)' % (n, show(rv)), at)
        elif kind == 'cas':
            for e in stores:
                r.check(False, 'single', tag, '%s writes its operand with a separate store' % n, e[-1])
            if not ups and truth(ret, p) is False:
                continue
            if not r.check(len(ups) >= 1 and len(eff) <= 1, 'single', tag, '%s makes %d updates on one path' % (n, len(eff)), at):
                continue
            e = eff[0][0] if eff else ups[-1]
            r.check(e[2] == 'cas' and strip_tr(e[4], w) == ('arg', 2) and strip_tr(e[5], w) == ('arg', 1), 'update', tag,
                    '%s does not swap the old value it was given for the new one' % n, e[-1])
            r.check(acq(e[6]) or e[6] in ('torn', 'hidden', 'dropped'), 'order', tag, '%s lets later accesses move before it' % n, e[-1])
            v = truth(ret, p)
            flag = ('flag', e[1])
            if ret is not None and strip_tr(ret, 1) == ('old', e[1]):
                r.check(False, 'result', tag, '%s returns the value it found, not whether the swap took place' % n, at)
            elif v is None:
                r.assume.append('%s: result not decided' % tag)
            else:
                r.check(v == (flag, True) or (v is True and p.know.get(flag) is True) or (v is False and p.know.get(flag) is False), 'result', tag,
                        '%s does not tell whether the swap took place' % n, at)
        elif kind in ('lock', 'trylock'):
            for e in stores:
                r.check(False, 'single', tag, '%s writes its operand with a separate store' % n, e[-1])
            got = [e for e, d in eff]
            bad = False
            for e in ups:
                ls = lockstep(e, x, p)
                if ls is None:
                    r.assume.append('%s: lock word values not decided' % tag)
                else:
                    bad |= not r.check(ls, 'update', tag, '%s can take a lock that is held (expects %s, installs %s)' % (n, show(e[5]), show(e[4])), e[-1])
            if bad:
                continue
            if kind == 'lock':
                have = [e for e, d in eff if d is True or e[2] == 'xchg' and p.know.get(('eqz', e[1])) is True]
                if any(d is None and e[2] in ('cas', 'lock') for e, d in eff) and not have:
                    r.check(False, 'single', tag, '%s returns without knowing that it has the lock' % n, at)
                    continue
                r.check(len(have) == 1, 'single', tag, '%s returns after taking the lock %d times' % (n, len(have)), at)
                if x == 'ptr' and ret is not None and have and have[0][2] == 'cas':
                    r.check(rest(ret) == rest(have[0][5]) and low(ret) == 0 or '?' in str(ret), 'result', tag,
                            '%s does not return the unlocked value' % n, at)
            else:
                v = truth(ret, p)
                for e in ups:
                    flag = ('flag', e[1])
                    if len(ups) != 1 or v is None:
                        r.assume.append('%s: result not decided' % tag)
                        break
                    kn = p.know.get(flag)
                    if e[2] == 'xchg':
                        flag = ('eqz', e[1]); kn = p.know.get(flag)
                    r.check(v == (flag, False) or kn is True and v is False or kn is False and v is True, 'result', tag,
                            '%s must return 0 exactly when it took the lock' % n, at)
                if not ups:
                    r.check(v is True or v is None, 'result', tag, '%s reports the lock as taken without an update' % n, at)
            for e in got:
                k = p.ev.index(e)
                after = [q for q in p.ev[k + 1:] if q[0] == 'fence' and fence_ok(q[1], arch, 'acq')]
                r.check(acq(e[6]) or after or e[6] in ('torn', 'hidden', 'dropped'), 'order', tag, '%s lets accesses of the critical section move before the lock' % n, e[-1])
        elif kind == 'unlock' and x == 'word':
            rels = [(k, e) for k, e in enumerate(p.ev) if e[0] == 'store' or e[0] == 'upd' and e[2] in ('xchg', 'and', 'cas')]
            if not r.check(len(rels) == 1, 'single', tag, '%s writes the lock %d times' % (n, len(rels)), at):
                continue
            k, e = rels[0]
            val = e[1] if e[0] == 'store' else e[4]
            r.check(val == ('c', 0), 'update', tag, '%s does not set the lock free (stores %s)' % (n, show(val)), e[-1])
            if e[0] == 'store':
                r.check(e[2] == w, 'width', tag, '%s clears %d of the %d bits of the lock' % (n, e[2], w), e[-1])
            before = any(q[0] == 'fence' and fence_ok(q[1], arch, 'rel') for q in p.ev[:k])
            own = e[3] in (5, 6, 7) if e[0] == 'store' else rel(e[6])
            r.check(before or own, 'order', tag, '%s lets accesses of the critical section move after the release' % n, e[-1])
        elif kind == 'unlock':
            if not r.check(len(eff) == 1 and eff[0][1] is True and not stores, 'single', tag, '%s: %d releases on one path' % (n, len(eff)), at):
                continue
            e = eff[0][0]
            if e[2] == 'cas':
                if '?' not in str(e[4]) + str(e[5]):
                    r.check(low(e[5]) == 1 and low(e[4]) == 0 and rest(e[4]) == rest(e[5]), 'update', tag,
                            '%s does not clear just the lock bit (expects %s, installs %s)' % (n, show(e[5]), show(e[4])), e[-1])
            else:
                r.check(e[2] == 'and' and e[4] == ('c', -2), 'update', tag, '%s does not clear just the lock bit' % n, e[-1])
            k = p.ev.index(e)
            before = any(q[0] == 'fence' and fence_ok(q[1], arch, 'rel') for q in p.ev[:k])
            own = isinstance(e[6], int) and rel(e[6]) or arch == 'x86' and e[6] == 'full'
            r.check(before or own, 'order', tag, '%s lets accesses of the critical section move after the release' % n, e[-1])
        elif kind == 'setptr':
            if not r.check(len(eff) == 1 and eff[0][1] is True and not stores, 'single', tag, '%s: %d updates on one path' % (n, len(eff)), at):
                continue
            e = eff[0][0]
            if e[2] == 'cas' and '?' not in str(e[4]) + str(e[5]):
                r.check(low(e[5]) == x and low(e[4]) == 1 and rest(e[4]) == rest(('or', ('arg', 1), ('c', 1))), 'update', tag,
                        '%s does not replace %s pointer by the locked new one (expects %s, installs %s)' % (
                            n, 'a locked' if x else 'an unlocked', show(e[5]), show(e[4])), e[-1])
        elif kind == 'barrier':
            need = {'full': 'full', 'read': 'acqrel', 'write': 'store', 'code': 'c'}[x]
            ok = any(q[0] == 'fence' and fence_ok(q[1], arch, need) for q in p.ev)
            r.check(ok, 'order', tag, 'the %s barrier does not keep memory accesses from moving across it' % x, at)


def truth(t, p):
    if t is None:
        return None
    if t[0] == 'c':
        return bool(t[1])
    if t[0] == 'not':
        v = truth(t[1], p)
        return None if v is None else (not v) if isinstance(v, bool) else (v[0], not v[1])
    if t[0] == 'tr':
        return truth(t[2], p)
    if t in p.know:
        return p.know[t]
    if t[0] in ('flag', 'eqz'):
        return (t, True)
    return None


def fence_ok(o, arch, need):
    """is a fence of this kind enough on this processor"""
    if o == 'weak':
        return False
    if need == 'c':
        return True
    if need == 'full':
        return o == 7
    if arch == 'x86':
        return True          # the processor keeps loads in order, stores in order and stores after loads
    if need == 'acq':
        return o in (4, 6, 7)
    if need == 'store' and arch == 'ppc':
        return o in (4, 5, 6, 7)
    return o in (5, 6, 7)


def show(t):
    if t is None:
        return 'nothing'
    if t[0] == 'arg':
        return 'argument %d' % t[1]
    if t[0] == 'c':
        return str(t[1])
    if t[0] == 'undef':
        return 'an undefined value'
    if t[0] == 'old':
        return 'the old value'
    if t[0] in ('ld',):
        return 'the value read'
    if t[0] == 'tr':
        return '%d bits of %s' % (t[1], show(t[2]))
    if t[0] == 'flag':
        return 'whether it was done'
    if t[0] == 'not':
        return 'not ' + show(t[1])
    if len(t) == 3:
        return '(%s %s %s)' % (show(t[1]), t[0], show(t[2]))
    return 'something else'


def run(r):
    r.rule('single', 'an atomic primitive changes its operand by exactly one indivisible update per success, never by a separate store', 0)
    r.rule('kept', 'inline assembly tells the compiler that memory changes and may not be left out', 0)
    r.rule('width', 'the update covers the whole operand', 0)
    r.rule('update', 'the update is the one the primitive stands for', 0)
    r.rule('result', 'the primitive returns what it documents', 0)
    r.rule('order', 'locks acquire, unlocks release, barriers order memory on the target', 0)
    for tgt, flags, wl, arch in TARGETS:
        try:
            M = compile_for(tgt, flags)
        except ir.Broken as e:
            if tgt == 'x86-64':
                raise
            r.assume.append('%s not analysed: %s' % (tgt, str(e)[:200]))
            continue
        for n in sorted(SPEC):
            f = M.fns.get(n)
            if f is None:
                continue
            check(r, tgt, n, f, wl, arch)
    r.assume = sorted(set(r.assume))
