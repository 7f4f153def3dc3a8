"""LLVM-IR front end: compiles /repo's sources to bitcode, links, normalises (inlines,
promotes to SSA) in process through LLVM-C, and lifts the result into plain Python objects."""
import ctypes as C, os, re, subprocess, sys, tempfile, shutil, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SA_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
HERE = os.path.dirname(os.path.abspath(__file__))
LLVMBIN = '/usr/lib/llvm-18/bin'
CLANG = os.path.join(LLVMBIN, 'clang') if os.path.exists(os.path.join(LLVMBIN, 'clang')) else 'clang'
CLANGXX = os.path.join(LLVMBIN, 'clang++') if os.path.exists(os.path.join(LLVMBIN, 'clang++')) else 'clang++'


class Broken(Exception):
    """The analysis cannot run (not a verdict)."""


def _lib():
    for p in ('/usr/lib/llvm-18/lib/libLLVM.so', '/usr/lib/llvm-18/lib/libLLVM-18.so',
              '/usr/lib/x86_64-linux-gnu/libLLVM-18.so'):
        if os.path.exists(p):
            return C.CDLL(p)
    raise Broken('libLLVM-18 not found')


L = _lib()
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ctxCreate = _f('LLVMContextCreate', P)
memBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
parseBC = _f('LLVMParseBitcodeInContext2', C.c_int, P, P, C.POINTER(P))
linkMods = _f('LLVMLinkModules2', C.c_int, P, P)
firstFn = _f('LLVMGetFirstFunction', P, P)
nextFn = _f('LLVMGetNextFunction', P, P)
valName = _f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
isDecl = _f('LLVMIsDeclaration', C.c_int, P)
firstBB = _f('LLVMGetFirstBasicBlock', P, P)
nextBB = _f('LLVMGetNextBasicBlock', P, P)
bbName = _f('LLVMGetBasicBlockName', C.c_char_p, P)
bbAsVal = _f('LLVMBasicBlockAsValue', P, P)
valAsBB = _f('LLVMValueAsBasicBlock', P, P)
firstI = _f('LLVMGetFirstInstruction', P, P)
nextI = _f('LLVMGetNextInstruction', P, P)
opc = _f('LLVMGetInstructionOpcode', C.c_int, P)
numOps = _f('LLVMGetNumOperands', C.c_int, P)
getOp = _f('LLVMGetOperand', P, P, C.c_uint)
valKind = _f('LLVMGetValueKind', C.c_int, P)
typeOf = _f('LLVMTypeOf', P, P)
typeKind = _f('LLVMGetTypeKind', C.c_int, P)
intWidth = _f('LLVMGetIntTypeWidth', C.c_uint, P)
icmpPred = _f('LLVMGetICmpPredicate', C.c_int, P)
zextVal = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
sextVal = _f('LLVMConstIntGetSExtValue', C.c_longlong, P)
constOpc = _f('LLVMGetConstOpcode', C.c_int, P)
calledVal = _f('LLVMGetCalledValue', P, P)
numArgs = _f('LLVMGetNumArgOperands', C.c_uint, P)
gepTy = _f('LLVMGetGEPSourceElementType', P, P)
structName = _f('LLVMGetStructName', C.c_char_p, P)
printType = _f('LLVMPrintTypeToString', P, P)
printVal = _f('LLVMPrintValueToString', P, P)
disposeMsg = _f('LLVMDisposeMessage', None, P)
numSucc = _f('LLVMGetNumSuccessors', C.c_uint, P)
getSucc = _f('LLVMGetSuccessor', P, P, C.c_uint)
countInc = _f('LLVMCountIncoming', C.c_uint, P)
incVal = _f('LLVMGetIncomingValue', P, P, C.c_uint)
incBB = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
numParams = _f('LLVMCountParams', C.c_uint, P)
getParam = _f('LLVMGetParam', P, P, C.c_uint)
dbgLoc = _f('LLVMInstructionGetDebugLoc', P, P)
diLine = _f('LLVMDILocationGetLine', C.c_uint, P)
diScope = _f('LLVMDILocationGetScope', P, P)
diInl = _f('LLVMDILocationGetInlinedAt', P, P)
diFile = _f('LLVMDIScopeGetFile', P, P)
diFname = _f('LLVMDIFileGetFilename', C.c_void_p, P, C.POINTER(C.c_uint))
setLinkage = _f('LLVMSetLinkage', None, P, C.c_int)
getLinkage = _f('LLVMGetLinkage', C.c_int, P)
attrKind = _f('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)
mkAttr = _f('LLVMCreateEnumAttribute', P, P, C.c_uint, C.c_uint64)
addAttr = _f('LLVMAddAttributeAtIndex', None, P, C.c_uint, P)
rmAttr = _f('LLVMRemoveEnumAttributeAtIndex', None, P, C.c_uint, C.c_uint)
runPasses = _f('LLVMRunPasses', P, P, C.c_char_p, P, P)
pbOpts = _f('LLVMCreatePassBuilderOptions', P)
printMod = _f('LLVMPrintModuleToString', P, P)
modDL = _f('LLVMGetModuleDataLayout', P, P)
offOf = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
sizeOf = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
elemTy = _f('LLVMGetElementType', P, P)
structElem = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
getVol = _f('LLVMGetVolatile', C.c_int, P)
getOrd = _f('LLVMGetOrdering', C.c_int, P)
rmwOp = _f('LLVMGetAtomicRMWBinOp', C.c_int, P)
isNull = _f('LLVMIsNull', C.c_int, P)
firstGlob = _f('LLVMGetFirstGlobal', P, P)
nextGlob = _f('LLVMGetNextGlobal', P, P)
globConst = _f('LLVMIsGlobalConstant', C.c_int, P)
getInit = _f('LLVMGetInitializer', P, P)
isCStr = _f('LLVMIsConstantString', C.c_int, P)
isCDA = _f('LLVMIsAConstantDataArray', P, P)
asStr = _f('LLVMGetAsString', P, P, C.POINTER(C.c_size_t))
isTLS = _f('LLVMIsThreadLocal', C.c_int, P)
globValTy = _f('LLVMGlobalGetValueType', P, P)
getErr = _f('LLVMGetErrorMessage', P, P)
asmStr = _f('LLVMGetInlineAsmAsmString', C.c_char_p, P, C.POINTER(C.c_size_t)) if hasattr(L, 'LLVMGetInlineAsmAsmString') else None

OP = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub',
      11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
      20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
      29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
      37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
      45: 'call', 46: 'select', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
      53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume',
      59: 'landingpad', 60: 'addrspacecast', 66: 'fneg', 67: 'callbr', 68: 'freeze'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor'}


class Val:
    __slots__ = ('k', 'id', 'name', 'w', 'c', 'u', 'op', 'ops', 'fn', 'idx', 'ty', 'gepf', 'off', 'tls', 'const', 'lin', 'size')
    # k: arg const null undef global func cexpr inst asm other

    def __init__(s, k):
        s.k = k; s.name = ''; s.w = 0; s.c = None; s.u = None; s.op = None; s.ops = (); s.fn = None
        s.idx = None; s.ty = ''; s.gepf = None; s.off = None; s.id = 0; s.tls = False; s.const = False; s.lin = None; s.size = None

    def __repr__(s):
        if s.k == 'const':
            return str(s.c)
        if s.k in ('null', 'undef'):
            return s.k
        if s.k == 'inst':
            return '%' + (s.name or '#%d' % s.id)
        if s.k == 'cexpr':
            return '(%s %s)' % (s.op, ' '.join(map(repr, s.ops)))
        return s.name or s.k


class Inst(Val):
    __slots__ = ('bb', 'callee', 'pred', 'succ', 'inc', 'line', 'file', 'chain', 'raw', 'users', 'vol', 'ord',
                 'rmw', 'pos', 'asm', 'cases')

    def __init__(s):
        Val.__init__(s, 'inst')
        s.callee = None; s.pred = None; s.succ = (); s.inc = (); s.line = 0; s.file = ''; s.chain = ()
        s.users = []; s.vol = False; s.ord = 0; s.rmw = None; s.pos = 0; s.asm = None; s.cases = ()

    @property
    def args(s):
        return s.ops


class Block:
    __slots__ = ('name', 'insts', 'succ', 'pred', 'fn', 'id', 'rpo')

    def __init__(s):
        s.insts = []; s.succ = []; s.pred = []

    @property
    def term(s):
        return s.insts[-1]

    def __repr__(s):
        return s.name or 'bb%d' % s.id


class Func:
    def __init__(s):
        s.blocks = []; s.args = []; s.name = ''; s.file = ''; s._dom = None; s._pdom = None

    def insts(s):
        for b in s.blocks:
            for i in b.insts:
                yield i

    def calls(s, *names):
        for i in s.insts():
            if i.op == 'call' and i.callee and (not names or i.callee in names):
                yield i

    def __repr__(s):
        return 'fn ' + s.name

    # dominators (simple iterative on RPO)
    def dom(s):
        if s._dom is None:
            s._dom = _doms(s.blocks, lambda b: b.pred)
        return s._dom

    def dominates(s, a, b):
        """instruction a dominates instruction b"""
        if a.bb is b.bb:
            return a.pos < b.pos
        d = s.dom()
        x = b.bb
        while x is not None:
            if x is a.bb:
                return True
            nx = d.get(x)
            if nx is x:
                return False
            x = nx
        return False


def _doms(blocks, preds):
    # blocks in RPO, blocks[0] entry
    idx = {b: n for n, b in enumerate(blocks)}
    idom = {blocks[0]: blocks[0]}
    ch = True
    while ch:
        ch = False
        for b in blocks[1:]:
            new = None
            for p in preds(b):
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                ch = True
    return idom


def _str(p):
    if not p:
        return ''
    s = C.cast(p, C.c_char_p).value.decode('utf8', 'replace')
    disposeMsg(p)
    return s


class Module:
    """A lifted module: .fns name -> Func (definitions), .decls set of names."""

    def __init__(s):
        s.fns = {}; s.decls = set(); s.globals = {}; s.strings = {}

    def fn(s, name):
        f = s.fns.get(name)
        if f is None:
            raise Broken('anchor function %s not found' % name)
        return f


_work = None


def workdir():
    global _work
    if _work is None:
        base = os.environ.get('SA_TMP') or tempfile.gettempdir()
        _work = tempfile.mkdtemp(prefix='sphsa.', dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


def lib_sources():
    """Sources of the installed libraries, from src/Makefile.am."""
    txt = open(os.path.join(SRC, 'Makefile.am')).read().replace('\\\n', ' ')
    out = []
    for lib in ('libsphde_la_SOURCES', 'libsphgtod_la_SOURCES', 'libsphgettime_la_SOURCES'):
        m = re.search(r'^%s\s*=(.*)$' % lib, txt, re.M)
        if not m:
            raise Broken('no %s in Makefile.am' % lib)
        out += [x for x in m.group(1).split() if x.endswith(('.c', '.cpp'))]
    return out


CFLAGS = ['-DHAVE_CONFIG_H', '-D__SASSIM__', '-pthread', '-g', '-O0', '-Xclang', '-disable-O0-optnone',
          '-fno-discard-value-names', '-w', '-emit-llvm', '-c', '-fno-exceptions', '-fno-rtti']


_ovl = None
_ovl_lock = threading.Lock()


def overlay():
    with _ovl_lock:
        return _overlay()


def _overlay():
    """clang rejects the matching constraint `"0" (long)` against a char output in
    sasatom_x86_64.h (gcc accepts it).  The overlay hands clang the same header with the
    one-byte flag variables widened; the asm text, operands and control flow are the repository's."""
    global _ovl
    if _ovl is None:
        w = workdir()
        roots = []
        for n in ('sasatom_x86_64.h', 'sasatom_i386.h'):
            h = os.path.join(SRC, n)
            if not os.path.exists(h):
                continue
            t = open(h).read()
            t = re.sub(r'\b(?:unsigned\s+|signed\s+)?char\s+(\w+)\s*(=[^;]*)?;', r'long \1 \2;', t)
            p = os.path.join(w, n)
            open(p, 'w').write(t)
            roots.append('{"name":"%s","type":"file","external-contents":"%s"}' % (h, p))
        y = os.path.join(w, 'ovl.yaml')
        open(y, 'w').write('{"version":0,"case-sensitive":"true","use-external-names":false,"roots":[%s]}' % ','.join(roots))
        _ovl = ['-ivfsoverlay', y]
    return _ovl


def compile_one(src, out, extra=()):
    cxx = src.endswith('.cpp')
    fl = [f for f in CFLAGS if cxx or f not in ('-fno-exceptions', '-fno-rtti')]
    std = [] if cxx else ['-std=gnu17']
    inc = ['-I', SRC]
    if os.path.isdir(os.path.join(REPO, '_build')):
        inc += ['-I', os.path.join(REPO, '_build')]
    r = subprocess.run([CLANGXX if cxx else CLANG] + fl + std + inc + overlay() + list(extra) + [src, '-o', out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Broken('compile %s: %s' % (src, r.stdout.decode()[:2000]))


_bc = {}


def bitcode(srcs=None, extra=()):
    """Compile in parallel; returns list of .bc paths."""
    w = workdir()
    if srcs is None:
        srcs = [os.path.join(SRC, x) for x in lib_sources()]
    jobs = []
    res = []
    for s in srcs:
        key = (s, tuple(extra))
        if key not in _bc:
            o = os.path.join(w, '%s.%d.bc' % (os.path.basename(s), len(_bc)))
            _bc[key] = o
            jobs.append((s, o))
        res.append(_bc[key])
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(compile_one, s, o, extra) for s, o in jobs]:
            f.result()
    return res


def _attr(ctx, name):
    return mkAttr(ctx, attrKind(name, len(name)), 0)


def load(bcs, keep=None, passes=None, di=True, expose=None):
    """Link bcs; every defined function whose name is not accepted by keep(name) is inlined into its
    callers (helpers extracted by a refactoring vanish this way); promote to SSA; lift."""
    ctx = ctxCreate()
    mod = None
    for b in bcs:
        mb = P(); err = C.c_char_p()
        if memBuf(b.encode(), C.byref(mb), C.byref(err)):
            raise Broken('read ' + b)
        m = P()
        if parseBC(ctx, mb, C.byref(m)):
            raise Broken('parse ' + b)
        if mod is None:
            mod = m
        elif linkMods(mod, m):
            raise Broken('link ' + b)
    AI, NI, ON = (attrKind(n, len(n)) for n in (b'alwaysinline', b'noinline', b'optnone'))
    ln = C.c_size_t()
    names = []
    f = firstFn(mod)
    while f:
        names.append(valName(f, C.byref(ln)).decode())
        f = nextFn(f)
    demangle_all(names)
    f = firstFn(mod)
    while f:
        if not isDecl(f):
            own = valName(f, C.byref(ln)).decode()
            nm = demangle(own)
            k = keep is None or keep(base_name(nm))
            rmAttr(f, 0xFFFFFFFF, AI); rmAttr(f, 0xFFFFFFFF, NI); rmAttr(f, 0xFFFFFFFF, ON)
            addAttr(f, 0xFFFFFFFF, _attr(ctx, b'noinline' if k else b'alwaysinline'))
            if expose is not None and own == nm and expose(nm) and base_name(nm) == nm:
                setLinkage(f, 0)
        f = nextFn(f)
    ps = passes or 'always-inline,function(sroa,instsimplify,sccp,instsimplify)'
    e = runPasses(mod, ps.encode(), None, pbOpts())
    if e:
        raise Broken('passes: ' + _str(getErr(e)))
    M = lift(mod, di)
    M._raw = mod
    M._ctx = ctx
    return M


def base_name(n):
    """strip the .NN suffix the linker gives clashing internal functions"""
    return re.sub(r'\.\d+$', '', n)


_dem = {}


def demangle_all(names):
    todo = [n for n in names if n.startswith('_Z') and n not in _dem]
    if not todo:
        return
    exe = os.path.join(LLVMBIN, 'llvm-cxxfilt')
    if not os.path.exists(exe):
        exe = 'c++filt'
    r = subprocess.run([exe, '-p'], input='\n'.join(todo) + '\n', stdout=subprocess.PIPE, text=True)
    out = r.stdout.split('\n')
    for n, d in zip(todo, out):
        while True:
            d2 = re.sub(r'<[^<>]*>', '', d)
            if d2 == d:
                break
            d = d2
        _dem[n] = d


def demangle(n):
    if not n.startswith('_Z'):
        return n
    if n not in _dem:
        demangle_all([n])
    return _dem.get(n, n)


def parse_di(text):
    """struct name -> {byte offset: (member, size)} from debug metadata."""
    nodes = {}
    for m in re.finditer(r'^!(\d+) = (?:distinct )?!(DICompositeType|DIDerivedType)\((.*)\)$', text, re.M):
        nodes[m.group(1)] = (m.group(2), m.group(3))
    lists = {m.group(1): re.findall(r'!(\d+)', m.group(2))
             for m in re.finditer(r'^!(\d+) = !\{(.*)\}$', text, re.M)}
    def fld(body, k):
        m = re.search(r'\b%s: (?:"([^"]*)"|!(\d+)|([^,)]+))' % k, body)
        if not m:
            return None
        return m.group(1) if m.group(1) is not None else (m.group(2) if m.group(2) is not None else m.group(3))
    out = {}
    def members(nid):
        body = nodes[nid][1]
        els = fld(body, 'elements')
        r = {}
        for e in lists.get(els, ()):
            if e in nodes and nodes[e][0] == 'DIDerivedType' and 'DW_TAG_member' in nodes[e][1]:
                b = nodes[e][1]
                r[int(fld(b, 'offset') or 0) // 8] = fld(b, 'name') or ''
        return r
    for nid, (k, body) in nodes.items():
        if k == 'DICompositeType' and ('DW_TAG_structure_type' in body or 'DW_TAG_union_type' in body or 'DW_TAG_class_type' in body):
            n = fld(body, 'name')
            if n:
                mm = members(nid)
                if mm:
                    out.setdefault(n, mm)
                    if '<' in n:
                        out.setdefault(n.split('<')[0], mm)
        if k == 'DIDerivedType' and 'DW_TAG_typedef' in body:
            bt = fld(body, 'baseType')
            n = fld(body, 'name')
            if bt in nodes and nodes[bt][0] == 'DICompositeType' and n and not fld(nodes[bt][1], 'name'):
                mm = members(bt)
                if mm:
                    out.setdefault(n, mm)
    return out


def lift(mod, di=True):
    M = Module()
    dl = modDL(mod)
    txt = _str(printMod(mod)) if di else ''
    M.structs = parse_di(txt)
    M.text = txt
    vals = {}
    tycache = {}
    ln = C.c_size_t()

    def tystr(t):
        if t not in tycache:
            tycache[t] = _str(printType(t))
        return tycache[t]

    def width(t):
        k = typeKind(t)
        return intWidth(t) if k == 8 else (64 if k == 12 else 32 if k == 2 else 64 if k == 3 else 0)

    def gepinfo(v, nops, conv):
        """(constant offset or None, tuple of field names)"""
        ty = gepTy(v)
        idxs = [conv(getOp(v, i)) for i in range(1, nops)]
        off = 0; fields = []
        lin = []            # (index value, scale) of the variable indices and (None, bytes) of the fixed ones
        x = idxs[0]
        if x.k == 'const':
            off += x.c * sizeOf(dl, ty)
            lin.append((None, off))
        elif x.k != 'null':
            off = None
            lin.append((x, sizeOf(dl, ty)))
        cur = ty
        for x in idxs[1:]:
            k = typeKind(cur)
            if k == 10:  # struct
                o = offOf(dl, cur, x.c)
                sn = (structName(cur) or b'').decode()
                sn = re.sub(r'^(struct|union|class)\.', '', sn)
                sn = base_name(sn)
                mem = M.structs.get(sn, {}).get(o, '+%d' % o)
                fields.append((sn, mem))
                lin.append((None, o))
                if off is not None:
                    off += o
                cur = structElem(cur, x.c)
            else:
                cur = elemTy(cur)
                if x.k == 'const':
                    lin.append((None, x.c * sizeOf(dl, cur)))
                    if off is not None:
                        off += x.c * sizeOf(dl, cur)
                    fields.append(('[]', x.c))
                else:
                    off = None
                    lin.append((x, sizeOf(dl, cur)))
                    fields.append(('[]', None))
        return off, tuple(fields), tystr(ty), lin

    def conv(v):
        r = vals.get(v)
        if r is not None:
            return r
        k = valKind(v)
        t = typeOf(v)
        if k == 18 or (k == 0):  # placeholder
            pass
        tk = typeKind(t)
        # use opcode-free classification
        if isConstInt(v):
            r = Val('const'); r.w = intWidth(t)
            if r.w <= 64:
                r.c = sextVal(v); r.u = zextVal(v)
        elif isNull(v) and tk in (2, 3):
            r = Val('const'); r.c = 0; r.u = 0
        elif isNull(v) and tk == 12:
            r = Val('null'); r.c = 0; r.u = 0; r.w = 64
        elif isUndef(v):
            r = Val('undef')
        elif isFunction(v):
            r = Val('func'); r.name = demangle(valName(v, C.byref(ln)).decode())
        elif isGlobal(v):
            r = Val('global'); r.name = valName(v, C.byref(ln)).decode(); r.tls = bool(isTLS(v)); r.const = bool(globConst(v))
            vals[v] = r
        elif isCE(v):
            r = Val('cexpr'); r.op = OP.get(constOpc(v), 'x'); vals[v] = r
            n = numOps(v)
            r.ops = tuple(conv(getOp(v, i)) for i in range(n))
            if r.op == 'gep':
                r.off, r.gepf, r.ty, r.lin = gepinfo(v, n, conv)
        elif isAsm(v):
            r = Val('asm'); r.name = _str(printVal(v))
        else:
            r = Val('other')
            if tk in (2, 3):
                r.name = _str(printVal(v))
        r.w = r.w or width(t)
        r.id = len(vals)
        vals[v] = r
        return r

    isConstInt = _f('LLVMIsAConstantInt', P, P)
    isUndef = _f('LLVMIsUndef', C.c_int, P)
    isFunction = _f('LLVMIsAFunction', P, P)
    isGlobal = _f('LLVMIsAGlobalVariable', P, P)
    isCE = _f('LLVMIsAConstantExpr', P, P)
    isAsm = _f('LLVMIsAInlineAsm', P, P)

    loccache = {}

    def loc(d):
        if not d:
            return ('', 0, ())
        if d in loccache:
            return loccache[d]
        l = diLine(d)
        n = C.c_uint()
        fl = diFile(diScope(d))
        s = ''
        if fl:
            p = diFname(fl, C.byref(n))
            s = C.string_at(p, n.value).decode() if p else ''
        s = os.path.basename(s)
        inl = diInl(d)
        ch = ()
        if inl:
            a = loc(inl)
            ch = ((a[0], a[1]),) + a[2]
        loccache[d] = (s, l, ch)
        return loccache[d]

    g = firstGlob(mod)
    while g:
        v = conv(g)
        M.globals[v.name] = v
        v.ty = tystr(globValTy(g))
        v.size = sizeOf(dl, globValTy(g)) if getInit(g) else None
        init = getInit(g)
        v.c = init or None
        if init and isCDA(init) and isCStr(init):
            sz = C.c_size_t()
            p = asStr(init, C.byref(sz))
            M.strings[v.name] = C.string_at(p, sz.value).rstrip(b'\0').decode('latin1')
        g = nextGlob(g)

    f = firstFn(mod)
    fid = 0
    while f:
        nm = base_name(demangle(valName(f, C.byref(ln)).decode()))
        if isDecl(f):
            M.decls.add(nm)
            f = nextFn(f)
            continue
        F = Func(); F.name = nm; F.internal = getLinkage(f) in (8, 9)
        F.fid = fid; fid += 1
        n = numParams(f)
        for i in range(n):
            p = getParam(f, i)
            a = Val('arg'); a.name = (valName(p, C.byref(ln)) or b'').decode() or 'arg%d' % i
            a.idx = i; a.w = width(typeOf(p)); a.fn = F; a.id = len(vals); a.ty = tystr(typeOf(p))
            vals[p] = a
            F.args.append(a)
        bbs = {}
        order = []
        b = firstBB(f)
        while b:
            B = Block(); B.fn = F; B.name = (bbName(b) or b'').decode(); B.id = len(order)
            bbs[b] = B
            order.append((b, B))
            b = nextBB(b)
        raw = []
        for b, B in order:
            i = firstI(b)
            while i:
                I = Inst(); I.bb = B; I.id = len(vals); I.name = (valName(i, C.byref(ln)) or b'').decode()
                I.raw = i
                o = opc(i)
                I.op = OP.get(o, 'op%d' % o)
                t = typeOf(i)
                I.w = width(t)
                vals[i] = I
                I.fn = F
                raw.append((i, I))
                if I.op == 'call' and (calledName(i) or '').startswith('llvm.dbg.'):
                    pass
                else:
                    I.pos = len(B.insts)
                    B.insts.append(I)
                i = nextI(i)
        for i, I in raw:
            op = I.op
            n = numOps(i)
            if op == 'phi':
                I.inc = tuple((conv(incVal(i, k)), bbs[incBB(i, k)]) for k in range(countInc(i)))
                I.ops = tuple(x for x, _ in I.inc)
            elif op in ('br', 'switch'):
                I.succ = tuple(bbs[getSucc(i, k)] for k in range(numSucc(i)))
                if op == 'br':
                    I.ops = (conv(getOp(i, 0)),) if n == 3 else ()
                else:
                    I.ops = (conv(getOp(i, 0)),)
                    I.cases = tuple(conv(getOp(i, k)) for k in range(2, n, 2))
            elif op == 'call':
                na = numArgs(i)
                cn = calledName(i)
                I.callee = base_name(demangle(cn)) if cn else None
                if cn and (cn.startswith('llvm.dbg')):
                    continue
                I.ops = tuple(conv(getOp(i, k)) for k in range(na))
                if not cn:
                    cv = calledVal(i)
                    if isAsm(cv):
                        I.asm = _str(printVal(cv))
                    else:
                        pass
                        I.ops = I.ops + (conv(cv),)
            else:
                I.ops = tuple(conv(getOp(i, k)) for k in range(n)) if op not in ('unreachable',) else ()
            if op == 'gep':
                I.off, I.gepf, I.ty, I.lin = gepinfo(i, n, conv)
            if op == 'icmp':
                I.pred = PRED[icmpPred(i)]
            if op in ('load', 'store', 'cmpxchg', 'atomicrmw'):
                I.vol = bool(getVol(i))
            if op in ('load', 'store', 'atomicrmw', 'fence'):
                I.ord = getOrd(i)
            if op == 'atomicrmw':
                I.rmw = RMW.get(rmwOp(i), '?')
            if op == 'alloca':
                I.ty = tystr(_allocTy(i))
                I.size = sizeOf(dl, _allocTy(i))
            s, l, ch = loc(dbgLoc(i))
            I.file, I.line, I.chain = s, l, ch
        # reachable RPO
        for b, B in order:
            B.succ = list(B.insts[-1].succ)
        seen = set(); post = []
        st = [(order[0][1], iter(order[0][1].succ))]
        seen.add(order[0][1])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(s.succ)))
                    break
            else:
                post.append(b)
                st.pop()
        F.blocks = post[::-1]
        for n_, B in enumerate(F.blocks):
            B.rpo = n_
            for s in B.succ:
                if B not in s.pred:
                    s.pred.append(B)
        for B in F.blocks:
            for I in B.insts:
                for o in I.ops:
                    if o.k == 'inst':
                        o.users.append(I)
                if I.op == 'phi':
                    I.inc = tuple((v, b) for v, b in I.inc if b in seen)
                    I.ops = tuple(x for x, _ in I.inc)
        first = next((I for I in F.insts() if I.line and not I.chain), None)
        F.file = first.file if first else ''
        F.line = first.line if first else 0
        if nm in M.fns:
            # clash of internal names (header inlines): keep first
            M.dups = getattr(M, 'dups', {})
            M.dups.setdefault(nm, []).append(F)
        else:
            M.fns[nm] = F
        f = nextFn(f)
    unmerge(M)
    return M


_closure = {}


def closure(fn):
    """the identifiers of a source file and of the repository headers it includes"""
    if fn not in _closure:
        todo, seen, toks = [fn], set(), set()
        while todo:
            x = todo.pop()
            p = os.path.join(SRC, x)
            if x in seen or not os.path.isfile(p):
                continue
            seen.add(x)
            t = open(p, errors='replace').read()
            toks |= set(re.findall(r'[A-Za-z_]\w*', t))
            todo += [os.path.basename(h) for h in re.findall(r'^\s*#\s*include\s*["<]([^">]+)[">]', t, re.M)]
        _closure[fn] = toks
    return _closure[fn]


def unmerge(M):
    """the linker merges structs of equal layout; give each access the name of the struct its own source file knows"""
    lay = {}
    for n, m in M.structs.items():
        lay.setdefault(tuple(sorted(m)), []).append(n)
    alt = {n: [x for x in lay[tuple(sorted(m))] if x != n] for n, m in M.structs.items()}

    def fix(g, src):
        sn = g[0]
        if sn == '[]' or not alt.get(sn):
            return g
        toks = closure(src)
        if not toks or sn in toks:
            return g
        c = [x for x in alt[sn] if x in toks]
        if len(c) != 1:
            c = [x for x in c if x.endswith('Header') or x.endswith('Common') or x.endswith('List') or x.endswith('Ref')]
        if len(c) != 1:
            return g
        o = next((o for o, m in M.structs[sn].items() if m == g[1]), None)
        return (c[0], M.structs[c[0]][o]) if o in M.structs[c[0]] else g
    for F in list(M.fns.values()) + [x for l in getattr(M, 'dups', {}).values() for x in l]:
        for I in F.insts():
            src = I.file if I.file.endswith(('.c', '.cpp')) else F.file
            for v in (I,) + tuple(o for o in I.ops if o.k == 'cexpr'):
                if v.op == 'gep' and v.gepf:
                    n = tuple(fix(g, src) for g in v.gepf)
                    if n != v.gepf:
                        v.gepf = n


_allocTy = _f('LLVMGetAllocatedType', P, P)


isAlias = _f('LLVMIsAGlobalAlias', P, P)
aliasee = _f('LLVMAliasGetAliasee', P, P)


def calledName(i):
    cv = calledVal(i)
    ln = C.c_size_t()
    isF = L.LLVMIsAFunction
    isF.restype = P; isF.argtypes = [P]
    if isAlias(cv):                              # a constructor called by its other name
        cv = aliasee(cv)
    if isF(cv):
        return valName(cv, C.byref(ln)).decode()
    return None


def text(i):
    """an instruction as LLVM prints it"""
    return _str(printVal(i.raw))
