"""Shared set-up: which functions stay calls, cached modules, repository constants."""
import os, re, subprocess
from . import ir

PRIM = {'sas_compare_and_swap', 'sas_fetch_and_add', 'sas_fetch_and_add_ptr', 'sas_fetch_and_and',
        'sas_fetch_and_and_long', 'sas_fetch_and_or', 'sas_fetch_and_or_long', 'sas_atomic_swap', 'sas_atomic_inc',
        'sas_atomic_dec', 'sas_spin_lock', 'sas_spin_unlock', 'sas_spin_trylock', 'sas_spin_lock_init',
        'sas_spin_lock_with_yield',
        'SOMSASCheckBlockSig', 'SOMSASCheckBlockSigAndType', 'SOMSASCheckBlockSigAndTypeAndSubtype',
        'SOMSASSetBlockSubType', 'SOMSASCheckBlockSubType',
        'spin_lock', 'spin_unlock', 'spin_lock_init'}

_here = os.path.dirname(os.path.abspath(__file__))


def names():
    return set(open(os.path.join(_here, 'baseline_names.txt')).read().split('\n')) - {''}


_mods = {}
CSE = 'always-inline,function(sroa,instsimplify,sccp,early-cse,instsimplify)'


def headers_tu():
    """a translation unit that emits every inline function of the public headers"""
    p = os.path.join(ir.workdir(), 'headers_tu.c')
    if not os.path.exists(p):
        inc = ['sasatom.h', 'sasalloc.h', 'sassim.h', 'sphsinglepcqueue.h', 'sphmultipcqueue.h', 'sphdirectpcqueue.h',
               'sphlflogger.h', 'sphlflogentry.h', 'sphlfentry.h', 'sphlogportal.h', 'sphcompoundpcqheap.h',
               'sasindexkey.h', 'sphthread.h', 'sphtimer.h']
        open(p, 'w').write('#include <stdlib.h>\n#include <string.h>\n#include <stddef.h>\n' +
                           ''.join('#include "%s"\n' % h for h in inc if os.path.exists(os.path.join(ir.SRC, h))))
    return p


RAW = 'always-inline,function(sroa,sccp)'


def lib(extra_inline=(), extra_keep=(), headers=False, cse=False, raw=False):
    """the linked library; functions outside the public/baseline set are inlined away.
    raw: keep member accesses at offset 0 visible (no folding of zero geps)"""
    k = (tuple(sorted(extra_inline)), tuple(sorted(extra_keep)), headers, cse, raw)
    if k in _mods:
        return _mods[k]
    base = names() | PRIM
    base -= set(extra_inline)
    base |= set(extra_keep)
    bcs = ir.bitcode()
    if headers:
        bcs = ir.bitcode([headers_tu()], ('-femit-all-decls',)) + bcs
    M = ir.load(bcs, keep=lambda n: n in base,
                passes=RAW if raw else CSE if cse else None,
                expose=(lambda n: re.match(r'(SPH|SAS|sas_|SOMSAS)', n)) if headers else None)
    _mods[k] = M
    return M


_consts = {}


def consts(*macros):
    """values of integer macros/expressions as the repository's headers define them now"""
    todo = [m for m in macros if m not in _consts]
    if todo:
        p = os.path.join(ir.workdir(), 'probe%d.c' % len(_consts))
        hdrs = ['sasalloc.h', 'sastype.h', 'sassim.h', 'sasconf.h', 'freenode.h', 'sphsinglepcqueue.h', 'sphmultipcqueue.h',
                'sphlflogger.h', 'sphlogportal.h', 'sphlockfreeheap.h', 'sassimpleheap.h', 'sphlfentry.h', 'bitv_priv.h', 'sassimplespace.h', 'saslock.h']
        t = '#include <stdlib.h>\n#include <string.h>\n#include <stddef.h>\n'
        t += ''.join('#include "%s"\n' % h for h in hdrs if os.path.exists(os.path.join(ir.SRC, h)))
        # values are read back from the initialisers of global constants in the bitcode text
        for n, m in enumerate(todo):
            t += 'const unsigned long sa_probe_%d = (unsigned long)(%s);\n' % (n, m)
        open(p, 'w').write(t)
        o = p + '.ll'
        r = subprocess.run([ir.CLANG, '-std=gnu17', '-w', '-D__SASSIM__', '-O0', '-S', '-emit-llvm', '-I', ir.SRC] +
                           ir.overlay() + [p, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ir.Broken('probe: ' + r.stdout.decode()[:1500])
        txt = open(o).read()
        for n, m in enumerate(todo):
            mm = re.search(r'@sa_probe_%d = .*i64 (-?\d+)' % n, txt)
            if not mm:
                raise ir.Broken('probe value %s' % m)
            _consts[m] = int(mm.group(1))
    return [_consts[m] for m in macros]


def short(f):
    return f.name


_bits = {}


def bitmasks(utype, unit, fields):
    """masks of bit fields inside the unit word of a union type: {last component of field: mask}"""
    todo = [f for f in fields if (utype, f) not in _bits]
    if todo:
        p = os.path.join(ir.workdir(), 'bits%d.c' % len(_bits))
        t = '#include <stdlib.h>\n#include <string.h>\n#include <stddef.h>\n#include "sastype.h"\n#include "sphlfentry.h"\n#include "sphlflogger.h"\n'
        for n, f in enumerate(todo):
            t += 'unsigned long sa_bits_%d(void) { %s x; x.%s = 0; x.%s = ~0; return x.%s; }\n' % (n, utype, unit, f, unit)
        open(p, 'w').write(t)
        o = p + '.ll'
        r = subprocess.run([ir.CLANG, '-std=gnu17', '-w', '-D__SASSIM__', '-O2', '-S', '-emit-llvm', '-I', ir.SRC] +
                           ir.overlay() + [p, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise ir.Broken('probe: ' + r.stdout.decode()[:1500])
        txt = open(o).read()
        for n, f in enumerate(todo):
            m = re.search(r'define [^\n]*@sa_bits_%d\([^\n]*\{(.*?)\n\}' % n, txt, re.S)
            v = re.search(r'ret i64 (-?\d+)', m.group(1)) if m else None
            if not v:
                raise ir.Broken('mask of %s' % f)
            _bits[(utype, f)] = int(v.group(1))
    return {f.split('.')[-1]: _bits[(utype, f)] for f in fields}
