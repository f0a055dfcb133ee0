"""Loads LLVM IR (the real code, compiled by clang from /repo) into Python objects through the LLVM-C library."""
import ctypes as C
import functools

_LIBS = ["/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so.1", "/usr/lib/llvm-18/lib/libLLVM.so"]


def _load():
    for p in _LIBS:
        try:
            return C.CDLL(p)
        except OSError:
            continue
    raise RuntimeError("libLLVM 18 not found")


L = _load()
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CreateMB = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
CtxCreate = _f("LLVMContextCreate", P)
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstG = _f("LLVMGetFirstGlobal", P, P)
NextG = _f("LLVMGetNextGlobal", P, P)
GName = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opc = _f("LLVMGetInstructionOpcode", C.c_int, P)
NOps = _f("LLVMGetNumOperands", C.c_int, P)
Op = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TKind = _f("LLVMGetTypeKind", C.c_int, P)
IntW = _f("LLVMGetIntTypeWidth", C.c_uint, P)
VKind = _f("LLVMGetValueKind", C.c_int, P)
IntZ = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
RealD = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
ICmpP = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpP = _f("LLVMGetFCmpPredicate", C.c_int, P)
NInc = _f("LLVMCountIncoming", C.c_uint, P)
IncV = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
IsBB = _f("LLVMValueIsBasicBlock", C.c_int, P)
AsBB = _f("LLVMValueAsBasicBlock", P, P)
GepTy = _f("LLVMGetGEPSourceElementType", P, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
NSW = _f("LLVMGetNSW", C.c_int, P)
NUW = _f("LLVMGetNUW", C.c_int, P)
NIdx = _f("LLVMGetNumIndices", C.c_uint, P)
Idx = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
CVal = _f("LLVMGetCalledValue", P, P)
NArgs = _f("LLVMGetNumArgOperands", C.c_uint, P)
Param = _f("LLVMGetParam", P, P, C.c_uint)
NParams = _f("LLVMCountParams", C.c_uint, P)
GInit = _f("LLVMGetInitializer", P, P)
AliasOf = _f("LLVMAliasGetAliasee", P, P)
GConst = _f("LLVMIsGlobalConstant", C.c_int, P)
GValTy = _f("LLVMGlobalGetValueType", P, P)
ConstOpc = _f("LLVMGetConstOpcode", C.c_int, P)
StructN = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructT = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
StructName = _f("LLVMGetStructName", C.c_char_p, P)
ElemT = _f("LLVMGetElementType", P, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecLen = _f("LLVMGetVectorSize", C.c_uint, P)
AggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
DL = _f("LLVMGetModuleDataLayout", P, P)
AbiSize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
OffOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
SwDef = _f("LLVMGetSwitchDefaultDest", P, P)
IsCond = _f("LLVMIsConditional", C.c_int, P)
Cond = _f("LLVMGetCondition", P, P)
NSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
RetTy = _f("LLVMGetReturnType", P, P)
IsStr = _f("LLVMIsConstantString", C.c_int, P)
GetStr = _f("LLVMGetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
PrintV = _f("LLVMPrintValueToString", C.c_void_p, P)
IMeta = _f("LLVMInstructionGetDebugLoc", P, P)
DLine = _f("LLVMDILocationGetLine", C.c_uint, P)
DScope = _f("LLVMDILocationGetScope", P, P)
DFile = _f("LLVMDIScopeGetFile", P, P)
DFName = _f("LLVMDIFileGetFilename", C.c_void_p, P, C.POINTER(C.c_uint))

OPC = {1: 'ret', 2: 'br', 3: 'switch', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul',
       13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
       23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 5: 'invoke', 58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = ['false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'true']


class Ty:
    __slots__ = ('k', 'w', 'size', 'elems', 'offs', 'n', 'name', 'ref')

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k in ('struct', 'array'):
            return '%s<%s>' % (self.k, self.name or self.size)
        return self.k


class Val:
    """operand: k in inst,arg,int,fp,null,undef,global,fn,cexpr,agg,block,zero,meta"""
    __slots__ = ('k', 'ty', 'v', 'ops', 'x')

    def __repr__(self):
        return '%s:%s' % (self.k, self.v)


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'id', 'x', 'line', 'file')

    def __repr__(self):
        return '%%%s = %s %s' % (self.id, self.op, self.ops)


class Block:
    __slots__ = ('idx', 'insts', 'succs', 'nphi')


class Fn:
    pass


class Glob:
    __slots__ = ('name', 'ty', 'init', 'const')


class Module:
    def __init__(self, path):
        ctx = CtxCreate()
        mb, err, m = P(), C.c_char_p(), P()
        if CreateMB(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        if ParseIR(ctx, mb, C.byref(m), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.m = m
        self.dl = DL(m)
        self.tcache = {}
        self.fnref = {}
        self.fns = {}
        self.globs = {}
        self.gref = {}
        f = FirstFn(m)
        while f:
            n = self._name(f)
            self.fnref[n] = f
            f = NextFn(f)
        g = FirstG(m)
        while g:
            n = self._name(g)
            self.gref[n] = g
            g = NextG(g)

    def _name(self, v):
        n = C.c_size_t()
        p = GName(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def ty(self, t):
        if t in self.tcache:
            return self.tcache[t]
        r = Ty()
        r.ref = t
        r.w = r.size = r.n = 0
        r.elems = r.offs = r.name = None
        self.tcache[t] = r
        k = TKind(t)
        if k == 8:
            r.k, r.w = 'int', IntW(t)
            r.size = AbiSize(self.dl, t)
        elif k == 3:
            r.k, r.size = 'double', 8
        elif k == 2:
            r.k, r.size = 'float', 4
        elif k == 12:
            r.k, r.size = 'ptr', 8
        elif k == 0:
            r.k = 'void'
        elif k == 10:
            r.k = 'struct'
            n = StructN(t)
            nm = StructName(t)
            r.name = nm.decode() if nm else None
            r.elems = [self.ty(StructT(t, i)) for i in range(n)]
            try:
                r.size = AbiSize(self.dl, t)
                r.offs = [OffOf(self.dl, t, i) for i in range(n)]
            except Exception:
                pass
        elif k == 11:
            r.k = 'array'
            r.elems = [self.ty(ElemT(t))]
            r.n = ArrLen(t)
            r.size = AbiSize(self.dl, t)
        elif k == 13:
            r.k = 'vector'
            r.elems = [self.ty(ElemT(t))]
            r.n = VecLen(t)
            r.size = AbiSize(self.dl, t)
        elif k == 9:
            r.k = 'fnty'
        elif k == 4 or k == 5:
            r.k, r.size = 'fp80', 16
        elif k == 14:
            r.k = 'meta'
        else:
            r.k = 'other%d' % k
        return r

    def val(self, v, ids=None):
        k = VKind(v)
        r = Val()
        r.ops = None
        r.x = None
        r.v = None
        if k == 1:
            r.k = 'block'
            r.ty = None
            r.v = ids[AsBB(v)]
            return r
        r.ty = self.ty(TypeOf(v))
        if k == 24:
            r.k, r.v = 'inst', ids[v]
        elif k == 0:
            r.k, r.v = 'arg', ids[v]
        elif k == 18:
            r.k, r.v = 'int', IntZ(v)
            if r.ty.w > 64:
                r.k = 'unsupported'
        elif k == 19:
            li = C.c_int()
            r.k, r.v = 'fp', RealD(v, C.byref(li))
        elif k == 20:
            r.k = 'null'
        elif k == 14 or k == 25:
            r.k = 'undef'
        elif k == 5:
            r.k, r.v = 'fn', self._name(v)
        elif k == 6 and AliasOf(v):
            return self.val(AliasOf(v))
        elif k == 8 or k == 6:
            r.k, r.v = 'global', self._name(v)
        elif k == 15:
            r.k = 'zero'
        elif k in (11, 12):
            r.k = 'agg'
            r.ops = [self.val(Op(v, i)) for i in range(NOps(v))]
        elif k in (16, 17):
            r.k = 'agg'
            if k == 16 and IsStr(v):
                n = C.c_size_t()
                p = GetStr(v, C.byref(n))
                r.x = C.string_at(p, n.value)
            n = r.ty.n
            r.ops = [self.val(AggElem(v, i)) for i in range(n)]
        elif k == 10:
            r.k = 'cexpr'
            r.v = OPC.get(ConstOpc(v))
            r.ops = [self.val(Op(v, i)) for i in range(NOps(v))]
            if r.v == 'gep':
                r.x = self.ty(GepTy(v))
        elif k == 22:
            r.k = 'meta'
        else:
            r.k = 'unsupported'
            r.v = k
        return r

    def glob(self, name):
        if name in self.globs:
            return self.globs[name]
        ref = self.gref[name]
        g = Glob()
        g.name = name
        g.ty = self.ty(GValTy(ref))
        g.const = bool(GConst(ref))
        i = None
        try:
            i = GInit(ref)
        except Exception:
            pass
        g.init = self.val(i) if i else None
        self.globs[name] = g
        return g

    def fn(self, name):
        if name in self.fns:
            return self.fns[name]
        ref = self.fnref.get(name)
        if ref is None:
            return None
        f = Fn()
        f.name = name
        f.decl = bool(IsDecl(ref))
        f.params = []
        ids = {}
        n = NParams(ref)
        for i in range(n):
            p = Param(ref, i)
            ids[p] = i
            f.params.append(self.ty(TypeOf(p)))
        f.blocks = []
        if not f.decl:
            b = FirstBB(ref)
            raw = []
            ni = 0
            while b:
                ids[b] = len(raw)
                insts = []
                i = FirstI(b)
                while i:
                    ids[i] = ni
                    ni += 1
                    insts.append(i)
                    i = NextI(i)
                raw.append((b, insts))
                b = NextBB(b)
            f.ninst = ni
            for bi, (b, insts) in enumerate(raw):
                B = Block()
                B.idx = bi
                B.insts = []
                B.succs = []
                B.nphi = 0
                for i in insts:
                    I = self._inst(i, ids)
                    if I is None:
                        continue
                    if I.op == 'phi':
                        B.nphi += 1
                    B.insts.append(I)
                last = B.insts[-1]
                if last.op in ('br', 'switch'):
                    B.succs = list(last.x['succs'])
                f.blocks.append(B)
            self._loops(f)
        self.fns[name] = f
        return f

    def _inst(self, i, ids):
        I = Inst()
        I.op = OPC.get(Opc(i), 'op%d' % Opc(i))
        I.ty = self.ty(TypeOf(i))
        I.id = ids[i]
        I.x = None
        I.line = 0
        I.file = ''
        d = IMeta(i)
        if d:
            I.line = DLine(d)
            sc = DScope(d)
            if sc:
                fl = DFile(sc)
                if fl:
                    n = C.c_uint()
                    p = DFName(fl, C.byref(n))
                    I.file = C.string_at(p, n.value).decode().split('/')[-1]
        op = I.op
        if op == 'phi':
            I.ops = [(ids[IncB(i, k)], self.val(IncV(i, k), ids)) for k in range(NInc(i))]
        elif op == 'br':
            ns = NSucc(i)
            I.ops = [self.val(Cond(i), ids)] if IsCond(i) else []
            I.x = {'succs': [ids[Succ(i, k)] for k in range(ns)]}
        elif op == 'switch':
            n = NOps(i)
            I.ops = [self.val(Op(i, 0), ids)]
            cases = []
            for k in range(2, n, 2):
                cases.append((IntZ(Op(i, k)), ids[AsBB(Op(i, k + 1))]))
            de = ids[SwDef(i)]
            I.x = {'cases': cases, 'default': de, 'succs': [de] + [c[1] for c in cases]}
        elif op in ('call', 'invoke'):
            cv = CVal(i)
            na = NArgs(i)
            callee = self.val(cv, ids)
            if callee.k == 'fn' and callee.v.startswith('llvm.dbg.'):
                return None
            I.ops = [self.val(Op(i, k), ids) for k in range(na)]
            I.x = callee
        else:
            I.ops = [self.val(Op(i, k), ids) for k in range(NOps(i))]
            if op == 'icmp':
                I.x = ICMP[ICmpP(i)]
            elif op == 'fcmp':
                I.x = FCMP[FCmpP(i)]
            elif op == 'gep':
                I.x = self.ty(GepTy(i))
            elif op == 'alloca':
                I.x = self.ty(AllocTy(i))
            elif op in ('extractvalue', 'insertvalue'):
                n = NIdx(i)
                a = Idx(i)
                I.x = [a[k] for k in range(n)]
            elif op in ('add', 'sub', 'mul', 'shl'):
                I.x = (bool(NUW(i)), bool(NSW(i)))
        return I

    def _loops(self, f):
        """natural loop headers: targets of back edges in a DFS over a reducible CFG"""
        n = len(f.blocks)
        preds = [[] for _ in range(n)]
        for b in f.blocks:
            for s in b.succs:
                preds[s].append(b.idx)
        # dominators (simple iterative)
        order, seen = [], set()
        st = [(0, iter(f.blocks[0].succs))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(f.blocks[v].succs)))
                    break
            else:
                order.append(u)
                st.pop()
        rpo = order[::-1]
        pos = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while pos[a] > pos[c]:
                                    a = idom[a]
                                while pos[c] > pos[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        f.loops = {}
        for b in rpo:
            for s in f.blocks[b].succs:
                if dom(s, b):
                    body = f.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(p for p in preds[x] if p in pos)
        f.idom = idom
        f.dom = dom
