"""Load LLVM bitcode into plain Python objects through the LLVM-C API (ctypes).

Nothing here interprets the program: it is a faithful transcription of the
module clang (and opt) produced from /repo's current source.
"""
import ctypes as C
import glob

_paths = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"] + \
    glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM*18*")
_L = None
for _p in _paths:
    try:
        _L = C.CDLL(_p)
        break
    except OSError:
        pass
if _L is None:
    raise ImportError("libLLVM-18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


U = C.c_uint
_ctx_create = _f("LLVMContextCreate", P)
_membuf_file = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
_parse_bc = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
_first_fn = _f("LLVMGetFirstFunction", P, P)
_next_fn = _f("LLVMGetNextFunction", P, P)
_first_g = _f("LLVMGetFirstGlobal", P, P)
_next_g = _f("LLVMGetNextGlobal", P, P)
_first_al = _f("LLVMGetFirstGlobalAlias", P, P)
_next_al = _f("LLVMGetNextGlobalAlias", P, P)
_alias_aliasee = _f("LLVMAliasGetAliasee", P, P)
_first_bb = _f("LLVMGetFirstBasicBlock", P, P)
_next_bb = _f("LLVMGetNextBasicBlock", P, P)
_first_i = _f("LLVMGetFirstInstruction", P, P)
_next_i = _f("LLVMGetNextInstruction", P, P)
_name2 = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
_typeof = _f("LLVMTypeOf", P, P)
_tkind = _f("LLVMGetTypeKind", C.c_int, P)
_iwidth = _f("LLVMGetIntTypeWidth", U, P)
_arrlen = _f("LLVMGetArrayLength2", C.c_uint64, P)
_eltype = _f("LLVMGetElementType", P, P)
_veclen = _f("LLVMGetVectorSize", U, P)
_nstruct = _f("LLVMCountStructElementTypes", U, P)
_structel = _f("LLVMStructGetTypeAtIndex", P, P, U)
_packed = _f("LLVMIsPackedStruct", C.c_int, P)
_opaque = _f("LLVMIsOpaqueStruct", C.c_int, P)
_dl = _f("LLVMGetModuleDataLayout", P, P)
_absize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
_storesize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
_offel = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
_vkind = _f("LLVMGetValueKind", C.c_int, P)
_nops = _f("LLVMGetNumOperands", C.c_int, P)
_op = _f("LLVMGetOperand", P, P, U)
_opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
_cexopcode = _f("LLVMGetConstOpcode", C.c_int, P)
_icmp = _f("LLVMGetICmpPredicate", C.c_int, P)
_fcmp = _f("LLVMGetFCmpPredicate", C.c_int, P)
_callee = _f("LLVMGetCalledValue", P, P)
_nargs = _f("LLVMGetNumArgOperands", U, P)
_ginit = _f("LLVMGetInitializer", P, P)
_gconst = _f("LLVMIsGlobalConstant", C.c_int, P)
_gvt = _f("LLVMGlobalGetValueType", P, P)
_isdecl = _f("LLVMIsDeclaration", C.c_int, P)
_nparams = _f("LLVMCountParams", U, P)
_param = _f("LLVMGetParam", P, P, U)
_zext = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
_realval = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
_print = _f("LLVMPrintValueToString", C.c_void_p, P)
_printt = _f("LLVMPrintTypeToString", C.c_void_p, P)
_dispose = _f("LLVMDisposeMessage", None, P)
_gepsrc = _f("LLVMGetGEPSourceElementType", P, P)
_allocty = _f("LLVMGetAllocatedType", P, P)
_ninc = _f("LLVMCountIncoming", U, P)
_incv = _f("LLVMGetIncomingValue", P, P, U)
_incb = _f("LLVMGetIncomingBlock", P, P, U)
_nidx = _f("LLVMGetNumIndices", U, P)
_idx = _f("LLVMGetIndices", C.POINTER(U), P)
_ordering = _f("LLVMGetOrdering", C.c_int, P)
_volatile = _f("LLVMGetVolatile", C.c_int, P)
_rmwop = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
_cxs = _f("LLVMGetCmpXchgSuccessOrdering", C.c_int, P)
_nsucc = _f("LLVMGetNumSuccessors", U, P)
_succ = _f("LLVMGetSuccessor", P, P, U)
_bb2v = _f("LLVMBasicBlockAsValue", P, P)
_v2bb = _f("LLVMValueAsBasicBlock", P, P)
_isds = _f("LLVMIsConstantString", C.c_int, P)
_asstr = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
_eltconst = _f("LLVMGetAggregateElement", P, P, U)
_nuw = _f("LLVMGetNUW", C.c_int, P)
_nsw = _f("LLVMGetNSW", C.c_int, P)
_nmask = _f("LLVMGetNumMaskElements", U, P)
_mask = _f("LLVMGetMaskValue", C.c_int, P, U)
_parent = _f("LLVMGetInstructionParent", P, P)
_fnty = _f("LLVMGetCalledFunctionType", P, P)
_retty = _f("LLVMGetReturnType", P, P)
_isaicall = _f("LLVMIsAInvokeInst", P, P)
_normdest = _f("LLVMGetNormalDest", P, P)
_unwdest = _f("LLVMGetUnwindDest", P, P)
_condbr = _f("LLVMIsConditional", C.c_int, P)
_cond = _f("LLVMGetCondition", P, P)
_swdef = _f("LLVMGetSwitchDefaultDest", P, P)
_isundef = _f("LLVMIsUndef", C.c_int, P)
_ispoison = _f("LLVMIsPoison", C.c_int, P)
_isnull = _f("LLVMIsNull", C.c_int, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       47: 'userop1', 48: 'userop2', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad', 61: 'cleanupret', 62: 'catchret', 63: 'catchpad', 64: 'cleanuppad',
       65: 'catchswitch'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
ORD = {0: 'na', 1: 'unordered', 2: 'monotonic', 4: 'acquire', 5: 'release', 6: 'acq_rel', 7: 'seq_cst'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax',
       10: 'umin', 11: 'fadd', 12: 'fsub'}


class Ty:
    __slots__ = ('k', 'n', 'el', 'els', 'size', 'store', 'offs', 'ref')

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k in ('array', 'vector'):
            return '[%s x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.els))
        return self.k


class V:
    """A value: kind in arg inst int fp null undef global func cexpr agg bb asm meta"""
    __slots__ = ('kind', 'ty', 'name', 'val', 'ops', 'op', 'x', 'id')

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name or (self.val if self.kind in ('int', 'fp') else self.op))


class Inst(V):
    __slots__ = ('bb', 'text_')


class BB:
    __slots__ = ('name', 'insts', 'fn', 'id', 'idx')

    def __repr__(self):
        return '<bb %s>' % self.id


class Func:
    __slots__ = ('name', 'args', 'decl', 'ref', 'mod', '_blocks', 'retty', 'ty')

    @property
    def blocks(self):
        if self._blocks is None:
            self.mod._load_body(self)
        return self._blocks

    def __repr__(self):
        return '<fn %s>' % self.name


class Glob:
    __slots__ = ('name', 'const', 'vty', 'ref', 'mod', '_init', 'decl')

    @property
    def init(self):
        if self._init is None and not self.decl:
            r = _ginit(self.ref)
            self._init = self.mod.value(r, None) if r else None
        return self._init


def _str(ptr):
    s = C.cast(ptr, C.c_char_p).value.decode('utf8', 'replace')
    _dispose(ptr)
    return s


class Module:
    def __init__(self, path):
        self.ctx = _ctx_create()
        mb = P()
        err = C.c_char_p()
        if _membuf_file(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        m = P()
        if _parse_bc(self.ctx, mb, C.byref(m)):
            raise RuntimeError("cannot parse bitcode " + path)
        self.m = m
        self.dl = _dl(m)
        self._ty = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self._byref = {}
        self._vals = {}
        f = _first_fn(m)
        while f:
            fn = Func()
            fn.name = self.vname(f)
            fn.ref = f
            fn.mod = self
            fn.decl = bool(_isdecl(f))
            fn._blocks = None
            fn.args = None
            self.funcs[fn.name] = fn
            self._byref[f] = fn
            f = _next_fn(f)
        g = _first_g(m)
        while g:
            gl = Glob()
            gl.name = self.vname(g)
            gl.ref = g
            gl.mod = self
            gl.const = bool(_gconst(g))
            gl.vty = self.ty(_gvt(g))
            gl._init = None
            gl.decl = bool(_isdecl(g))
            self.globals[gl.name] = gl
            self._byref[g] = gl
            g = _next_g(g)
        a = _first_al(m)
        while a:
            self.aliases[self.vname(a)] = a
            a = _next_al(a)

    def vname(self, r):
        n = C.c_size_t()
        s = _name2(r, C.byref(n))
        return s.decode('utf8', 'replace') if s else ''

    def ty(self, r):
        t = self._ty.get(r)
        if t is not None:
            return t
        t = Ty()
        self._ty[r] = t
        t.ref = r
        k = _tkind(r)
        t.n = t.el = t.els = t.offs = None
        t.size = t.store = None
        if k == 0:
            t.k = 'void'
        elif k == 2:
            t.k = 'float'
        elif k == 3:
            t.k = 'double'
        elif k == 4:
            t.k = 'x86_fp80'
        elif k == 7:
            t.k = 'label'
        elif k == 8:
            t.k = 'int'
            t.n = _iwidth(r)
        elif k == 9:
            t.k = 'func'
        elif k == 10:
            t.k = 'struct'
            t.els = [self.ty(_structel(r, i)) for i in range(_nstruct(r))]
            if not _opaque(r):
                t.offs = [_offel(self.dl, r, i) for i in range(len(t.els))]
        elif k == 11:
            t.k = 'array'
            t.n = _arrlen(r)
            t.el = self.ty(_eltype(r))
        elif k == 12:
            t.k = 'ptr'
        elif k == 13:
            t.k = 'vector'
            t.n = _veclen(r)
            t.el = self.ty(_eltype(r))
        elif k == 14:
            t.k = 'metadata'
        else:
            t.k = 'other%d' % k
        if t.k in ('float', 'double', 'int', 'array', 'vector', 'ptr', 'x86_fp80') or (t.k == 'struct' and t.offs is not None):
            t.size = _absize(self.dl, r)
            t.store = _storesize(self.dl, r)
        return t

    def value(self, r, fctx):
        """transcribe a value used as operand"""
        if fctx is not None and r in fctx:
            return fctx[r]
        v = self._vals.get(r)
        if v is not None:
            return v
        k = _vkind(r)
        v = V()
        v.name = None
        v.val = v.ops = v.op = v.x = None
        v.id = r
        # kinds: 0 Argument 1 BasicBlock 5 Function 6 GlobalAlias 8 GlobalVariable 9 BlockAddress
        # 10 ConstExpr 11 ConstArray 12 ConstStruct 13 ConstVector 14 Undef 15 AggZero 16 DataArray 17 DataVector
        # 18 ConstInt 19 ConstFP 20 NullPtr 21 TokenNone 22 MetadataAsValue 23 InlineAsm 24 Inst 25 Poison
        v.ty = self.ty(_typeof(r)) if k not in (1,) else None
        if k == 5:
            v.kind = 'func'
            v.val = self._byref[r]
            v.name = v.val.name
        elif k == 8:
            v.kind = 'global'
            v.val = self._byref[r]
            v.name = v.val.name
        elif k == 6:
            return self.value(_alias_aliasee(r), fctx)
        elif k == 18:
            v.kind = 'int'
            if v.ty.n <= 64:
                v.val = _zext(r) & ((1 << v.ty.n) - 1)
            else:
                s = _str(_print(r)).split()[-1]
                v.val = int(s) & ((1 << v.ty.n) - 1)
        elif k == 19:
            v.kind = 'fp'
            li = C.c_int()
            v.val = _realval(r, C.byref(li))
            if v.val != v.val or v.val in (float('inf'), float('-inf')) or True:
                v.x = _str(_print(r)).split()[-1]
        elif k == 20:
            v.kind = 'null'
        elif k in (14, 25):
            v.kind = 'undef'
        elif k == 15:
            v.kind = 'zero'
        elif k in (11, 12, 13, 16, 17):
            v.kind = 'agg'
            t = v.ty
            n = len(t.els) if t.k == 'struct' else t.n
            if k == 16 and _isds(r):
                ln = C.c_size_t()
                p = _asstr(r, C.byref(ln))
                v.kind = 'bytes'
                v.val = C.string_at(p, ln.value)
            else:
                v.ops = [self.value(_eltconst(r, i), None) for i in range(n)]
        elif k == 10:
            v.kind = 'cexpr'
            v.op = OPC[_cexopcode(r)]
            v.ops = [self.value(_op(r, i), None) for i in range(_nops(r))]
            if v.op == 'gep':
                v.x = self.ty(_gepsrc(r))
            elif v.op == 'icmp':
                v.x = ICMP[_icmp(r)]
        elif k == 22:
            v.kind = 'meta'
        elif k == 23:
            v.kind = 'asm'
            v.val = _str(_print(r))
        elif k == 1:
            v.kind = 'bb'
        else:
            v.kind = 'other%d' % k
            v.val = _str(_print(r))
        self._vals[r] = v
        return v

    def _load_args(self, fn):
        if fn.args is not None:
            return
        fn.args = []
        for i in range(_nparams(fn.ref)):
            r = _param(fn.ref, i)
            v = V()
            v.kind = 'arg'
            v.ty = self.ty(_typeof(r))
            v.name = self.vname(r)
            v.val = i
            v.ops = v.op = v.x = None
            v.id = r
            fn.args.append(v)

    def _load_body(self, fn):
        self._load_args(fn)
        ctx = {a.id: a for a in fn.args}
        bbs = {}
        blocks = []
        b = _first_bb(fn.ref)
        while b:
            o = BB()
            o.fn = fn
            o.idx = len(blocks)
            o.name = self.vname(_bb2v(b))
            o.id = '%s.%d' % (o.name, o.idx)
            o.insts = []
            bbs[b] = o
            blocks.append(o)
            b = _next_bb(b)
        raw = []
        for b, o in bbs.items():
            i = _first_i(b)
            while i:
                v = Inst()
                v.kind = 'inst'
                v.op = OPC[_opcode(i)]
                v.ty = self.ty(_typeof(i))
                v.name = self.vname(i)
                v.id = i
                v.val = v.x = v.ops = None
                v.bb = o
                ctx[i] = v
                o.insts.append(v)
                raw.append(v)
                i = _next_i(i)
        for v in raw:
            i = v.id
            op = v.op
            if op == 'phi':
                v.ops = []
                v.x = []
                for k in range(_ninc(i)):
                    v.ops.append(self.value(_incv(i, k), ctx))
                    v.x.append(bbs[_incb(i, k)])
                continue
            if op == 'br':
                v.ops = [self.value(_cond(i), ctx)] if _condbr(i) else []
                v.x = [bbs[_succ(i, k)] for k in range(_nsucc(i))]
                continue
            if op == 'switch':
                n = _nops(i)
                v.ops = [self.value(_op(i, 0), ctx)]
                cases = []
                for k in range(2, n, 2):
                    cases.append((self.value(_op(i, k), ctx), bbs[_v2bb(_op(i, k + 1))]))
                v.x = (bbs[_swdef(i)], cases)
                continue
            if op in ('call', 'invoke'):
                v.ops = [self.value(_op(i, k), ctx) for k in range(_nargs(i))]
                v.val = self.value(_callee(i), ctx)
                if op == 'invoke':
                    v.x = (bbs[_normdest(i)], bbs[_unwdest(i)])
                continue
            v.ops = []
            for k in range(_nops(i)):
                r = _op(i, k)
                if _vkind(r) == 1:
                    v.ops.append(bbs[_v2bb(r)])
                else:
                    v.ops.append(self.value(r, ctx))
            if op == 'icmp':
                v.x = ICMP[_icmp(i)]
            elif op == 'fcmp':
                v.x = FCMP[_fcmp(i)]
            elif op == 'gep':
                v.x = self.ty(_gepsrc(i))
            elif op == 'alloca':
                v.x = self.ty(_allocty(i))
            elif op in ('extractvalue', 'insertvalue'):
                p = _idx(i)
                v.x = [p[k] for k in range(_nidx(i))]
            elif op in ('load', 'store'):
                v.x = (ORD[_ordering(i)], bool(_volatile(i)))
            elif op == 'fence':
                v.x = ORD[_ordering(i)]
            elif op == 'atomicrmw':
                v.x = (RMW.get(_rmwop(i), 'other'), ORD[_ordering(i)])
            elif op == 'cmpxchg':
                v.x = ORD[_cxs(i)]
            elif op == 'shufflevector':
                v.x = [_mask(i, k) for k in range(_nmask(i))]
            elif op in ('add', 'sub', 'mul', 'shl'):
                v.x = (bool(_nuw(i)), bool(_nsw(i)))
        fn._blocks = blocks

    def itext(self, inst):
        return _str(_print(inst.id)).strip()
