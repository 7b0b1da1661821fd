"""Reader of LLVM IR (text or bitcode) through the LLVM-C API: lazily decoded functions."""
import ctypes as C
from fractions import Fraction

_L = C.CDLL('/usr/lib/x86_64-linux-gnu/libLLVM-18.so')
_P = C.c_void_p


def _f(name, res=_P, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _f('LLVMContextCreate')
MemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(_P), C.POINTER(C.c_char_p))
ParseIR = _f('LLVMParseIRInContext', C.c_int, _P, _P, C.POINTER(_P), C.POINTER(C.c_char_p))
FirstFunction = _f('LLVMGetFirstFunction', _P, _P)
NextFunction = _f('LLVMGetNextFunction', _P, _P)
FirstGlobal = _f('LLVMGetFirstGlobal', _P, _P)
NextGlobal = _f('LLVMGetNextGlobal', _P, _P)
FirstAlias = _f('LLVMGetFirstGlobalAlias', _P, _P)
NextAlias = _f('LLVMGetNextGlobalAlias', _P, _P)
AliasAliasee = _f('LLVMAliasGetAliasee', _P, _P)
_GetName2 = _f('LLVMGetValueName2', _P, _P, C.POINTER(C.c_size_t))
IsDeclaration = _f('LLVMIsDeclaration', C.c_int, _P)
FirstBB = _f('LLVMGetFirstBasicBlock', _P, _P)
NextBB = _f('LLVMGetNextBasicBlock', _P, _P)
BBAsValue = _f('LLVMBasicBlockAsValue', _P, _P)
ValueAsBB = _f('LLVMValueAsBasicBlock', _P, _P)
FirstInst = _f('LLVMGetFirstInstruction', _P, _P)
NextInst = _f('LLVMGetNextInstruction', _P, _P)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, _P)
NumOperands = _f('LLVMGetNumOperands', C.c_int, _P)
Operand = _f('LLVMGetOperand', _P, _P, C.c_uint)
TypeOf = _f('LLVMTypeOf', _P, _P)
TypeKind = _f('LLVMGetTypeKind', C.c_int, _P)
IntWidth = _f('LLVMGetIntTypeWidth', C.c_uint, _P)
ConstZExt = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, _P)
ConstReal = _f('LLVMConstRealGetDouble', C.c_double, _P, C.POINTER(C.c_int))
ValueKind = _f('LLVMGetValueKind', C.c_int, _P)
ICmpPred = _f('LLVMGetICmpPredicate', C.c_int, _P)
FCmpPred = _f('LLVMGetFCmpPredicate', C.c_int, _P)
CountIncoming = _f('LLVMCountIncoming', C.c_uint, _P)
IncomingValue = _f('LLVMGetIncomingValue', _P, _P, C.c_uint)
IncomingBlock = _f('LLVMGetIncomingBlock', _P, _P, C.c_uint)
GEPSrcType = _f('LLVMGetGEPSourceElementType', _P, _P)
AllocatedType = _f('LLVMGetAllocatedType', _P, _P)
CalledFnType = _f('LLVMGetCalledFunctionType', _P, _P)
CalledValue = _f('LLVMGetCalledValue', _P, _P)
NumArgOperands = _f('LLVMGetNumArgOperands', C.c_uint, _P)
NormalDest = _f('LLVMGetNormalDest', _P, _P)
UnwindDest = _f('LLVMGetUnwindDest', _P, _P)
NumIndices = _f('LLVMGetNumIndices', C.c_uint, _P)
Indices = _f('LLVMGetIndices', C.POINTER(C.c_uint), _P)
GetInitializer = _f('LLVMGetInitializer', _P, _P)
AggElement = _f('LLVMGetAggregateElement', _P, _P, C.c_uint)
ConstOpcode = _f('LLVMGetConstOpcode', C.c_int, _P)
NumClauses = _f('LLVMGetNumClauses', C.c_uint, _P)
GetClause = _f('LLVMGetClause', _P, _P, C.c_uint)
IsCleanup = _f('LLVMIsCleanup', C.c_int, _P)
NumMask = _f('LLVMGetNumMaskElements', C.c_uint, _P)
MaskValue = _f('LLVMGetMaskValue', C.c_int, _P, C.c_uint)
RMWOp = _f('LLVMGetAtomicRMWBinOp', C.c_int, _P)
GetDataLayout = _f('LLVMGetModuleDataLayout', _P, _P)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, _P, _P)
StoreSize = _f('LLVMStoreSizeOfType', C.c_ulonglong, _P, _P)
ABIAlign = _f('LLVMABIAlignmentOfType', C.c_uint, _P, _P)
OffsetOf = _f('LLVMOffsetOfElement', C.c_ulonglong, _P, _P, C.c_uint)
CountStructElems = _f('LLVMCountStructElementTypes', C.c_uint, _P)
StructElem = _f('LLVMStructGetTypeAtIndex', _P, _P, C.c_uint)
ArrayLen = _f('LLVMGetArrayLength2', C.c_uint64, _P)
VectorSize = _f('LLVMGetVectorSize', C.c_uint, _P)
ElemType = _f('LLVMGetElementType', _P, _P)
ReturnType = _f('LLVMGetReturnType', _P, _P)
CountParams = _f('LLVMCountParams', C.c_uint, _P)
GetParam = _f('LLVMGetParam', _P, _P, C.c_uint)
IsVarArg = _f('LLVMIsFunctionVarArg', C.c_int, _P)
GlobalValueType = _f('LLVMGlobalGetValueType', _P, _P)
PrintValue = _f('LLVMPrintValueToString', _P, _P)
DisposeMsg = _f('LLVMDisposeMessage', None, _P)
IsConditional = _f('LLVMIsConditional', C.c_int, _P)
EnumAttrKind = _f('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)
CallSiteAttr = _f('LLVMGetCallSiteEnumAttribute', _P, _P, C.c_uint, C.c_uint)
FnAttr = _f('LLVMGetEnumAttributeAtIndex', _P, _P, C.c_uint, C.c_uint)
TypeAttrValue = _f('LLVMGetTypeAttributeValue', _P, _P)
IsStringConst = _f('LLVMIsConstantString', C.c_int, _P)
GetAsString = _f('LLVMGetAsString', _P, _P, C.POINTER(C.c_size_t))
InstParent = _f('LLVMGetInstructionParent', _P, _P)
GetDebugLoc = _f('LLVMGetDebugLocLine', C.c_uint, _P)
GetVolatile = _f('LLVMGetVolatile', C.c_int, _P)

_BYVAL = EnumAttrKind(b'byval', 5)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 68: 'freeze', 60: 'addrspacecast'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
         10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
TK = {0: 'void', 2: 'float', 3: 'double', 4: 'x86_fp80', 7: 'label', 8: 'int', 9: 'func', 10: 'struct', 11: 'array',
      12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}


def vname(v):
    n = C.c_size_t()
    p = _GetName2(v, C.byref(n))
    return C.string_at(p, n.value).decode('utf8', 'replace')


def vprint(v):
    p = PrintValue(v)
    s = C.string_at(p).decode('utf8', 'replace')
    DisposeMsg(p)
    return s


class Type:
    __slots__ = ('kind', 'width', 'size', 'store', 'align', 'elems', 'offsets', 'elem', 'n', 'ref')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.width
        if self.kind in ('array', 'vector'):
            return '[%d x %r]' % (self.n, self.elem)
        if self.kind == 'struct':
            return '{%s}' % ','.join(map(repr, self.elems))
        return self.kind


class Inst:
    __slots__ = ('op', 'slot', 'type', 'ops', 'x', 'ref', 'line')

    def __repr__(self):
        return vprint(self.ref).strip()


class Function:
    __slots__ = ('name', 'ref', 'mod', 'decl', '_blocks', 'nslots', 'params', 'rettype', 'paramtypes', 'vararg', 'byval')

    def __init__(self, mod, ref):
        self.mod = mod
        self.ref = ref
        self.name = vname(ref)
        self.decl = bool(IsDeclaration(ref))
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._decode()
        return self._blocks

    def _decode(self):
        m = self.mod
        slots = {}
        bbs = {}
        blist = []
        n = CountParams(self.ref)
        ft = GlobalValueType(self.ref)
        self.vararg = bool(IsVarArg(ft))
        self.params = []
        self.byval = {}
        for i in range(n):
            p = GetParam(self.ref, i)
            slots[p] = i
            a = FnAttr(self.ref, i + 1, _BYVAL)
            if a:
                self.byval[i] = m.type(TypeAttrValue(a))
        cnt = n
        bb = FirstBB(self.ref)
        while bb:
            bbs[bb] = len(blist)
            insts = []
            i = FirstInst(bb)
            while i:
                insts.append(i)
                slots[i] = cnt
                cnt += 1
                i = NextInst(i)
            blist.append(insts)
            bb = NextBB(bb)
        self.nslots = cnt
        self.rettype = m.type(ReturnType(ft))

        def val(v):
            s = slots.get(v)
            if s is not None:
                return s
            k = ValueKind(v)
            return m.const(v)

        out = []
        for insts in blist:
            bl = []
            for r in insts:
                ins = Inst()
                ins.ref = r
                oc = Opcode(r)
                op = OPC.get(oc, 'op%d' % oc)
                ins.op = op
                ins.slot = slots[r]
                ins.type = m.type(TypeOf(r))
                ins.x = None
                no = NumOperands(r)
                if op == 'br':
                    if IsConditional(r):
                        # operands: cond, false, true
                        ins.ops = [val(Operand(r, 0))]
                        ins.x = (bbs[ValueAsBB(Operand(r, 2))], bbs[ValueAsBB(Operand(r, 1))])
                    else:
                        ins.ops = []
                        ins.x = (bbs[ValueAsBB(Operand(r, 0))],)
                elif op == 'switch':
                    ins.ops = [val(Operand(r, 0))]
                    d = bbs[ValueAsBB(Operand(r, 1))]
                    cases = []
                    for k in range(2, no, 2):
                        cases.append((ConstZExt(Operand(r, k)), bbs[ValueAsBB(Operand(r, k + 1))]))
                    ins.x = (d, cases, m.type(TypeOf(Operand(r, 0))))
                elif op == 'phi':
                    ins.ops = []
                    ins.x = {}
                    for k in range(CountIncoming(r)):
                        ins.x[bbs[IncomingBlock(r, k)]] = val(IncomingValue(r, k))
                elif op in ('call', 'invoke'):
                    na = NumArgOperands(r)
                    callee = CalledValue(r)
                    args = []
                    atys = []
                    for k in range(na):
                        o = Operand(r, k)
                        t = m.type(TypeOf(o))
                        atys.append(t)
                        if t.kind == 'metadata':
                            args.append(None)
                        else:
                            args.append(val(o))
                    ins.ops = args
                    bv = {}
                    for k in range(na):
                        a = CallSiteAttr(r, k + 1, _BYVAL)
                        if a:
                            bv[k] = m.type(TypeAttrValue(a))
                    ck = ValueKind(callee)
                    cv = val(callee)
                    dests = None
                    if op == 'invoke':
                        dests = (bbs[NormalDest(r)], bbs[UnwindDest(r)])
                    ins.x = (cv, atys, bv, dests)
                else:
                    ins.ops = [val(Operand(r, k)) for k in range(no)]
                    if op == 'icmp':
                        ins.x = (IPRED[ICmpPred(r)], m.type(TypeOf(Operand(r, 0))))
                    elif op == 'fcmp':
                        ins.x = (FPRED[FCmpPred(r)], m.type(TypeOf(Operand(r, 0))))
                    elif op == 'gep':
                        ins.x = (m.type(GEPSrcType(r)), [m.type(TypeOf(Operand(r, k))) for k in range(1, no)])
                    elif op == 'alloca':
                        ins.x = m.type(AllocatedType(r))
                    elif op == 'store':
                        ins.x = m.type(TypeOf(Operand(r, 0)))
                    elif op in ('extractvalue', 'insertvalue'):
                        ip = Indices(r)
                        ins.x = [ip[k] for k in range(NumIndices(r))]
                    elif op == 'landingpad':
                        ins.ops = [val(GetClause(r, k)) for k in range(NumClauses(r))]
                        ins.x = ([m.type(TypeOf(GetClause(r, k))) for k in range(NumClauses(r))], bool(IsCleanup(r)))
                    elif op == 'shufflevector':
                        ins.x = [MaskValue(r, k) for k in range(NumMask(r))]
                    elif op == 'atomicrmw':
                        ins.x = RMWOp(r)
                    elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext',
                                'ptrtoint', 'inttoptr', 'bitcast', 'ret', 'extractelement', 'switch', 'select', 'cmpxchg', 'freeze'):
                        ins.x = m.type(TypeOf(Operand(r, 0))) if no else None
                bl.append(ins)
            out.append(bl)
        self._blocks = out


class Const:
    """wrapper so that operands are either int slots or Const"""
    __slots__ = ('kind', 'v', 'type')

    def __init__(self, kind, v, type):
        self.kind = kind
        self.v = v
        self.type = type

    def __repr__(self):
        return 'Const(%s,%r)' % (self.kind, self.v)


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        mb = _P()
        msg = C.c_char_p()
        if MemBuf(path.encode(), C.byref(mb), C.byref(msg)):
            raise RuntimeError(msg.value)
        mod = _P()
        if ParseIR(self.ctx, mb, C.byref(mod), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.mod = mod
        self.dl = GetDataLayout(mod)
        self._types = {}
        self._consts = {}
        self.functions = {}
        self.globals = {}
        self.aliases = {}
        f = FirstFunction(mod)
        while f:
            fn = Function(self, f)
            self.functions[fn.name] = fn
            f = NextFunction(f)
        g = FirstGlobal(mod)
        while g:
            self.globals[vname(g)] = g
            g = NextGlobal(g)
        a = FirstAlias(mod)
        while a:
            self.aliases[vname(a)] = vname(AliasAliasee(a))
            a = NextAlias(a)

    def type(self, ref):
        t = self._types.get(ref)
        if t is not None:
            return t
        t = Type()
        t.ref = ref
        t.kind = TK.get(TypeKind(ref), 'k%d' % TypeKind(ref))
        t.width = t.size = t.store = t.align = t.elems = t.offsets = t.elem = t.n = None
        self._types[ref] = t
        k = t.kind
        if k == 'int':
            t.width = IntWidth(ref)
        if k == 'struct':
            t.n = CountStructElems(ref)
            t.elems = [self.type(StructElem(ref, i)) for i in range(t.n)]
        elif k == 'array':
            t.n = ArrayLen(ref)
            t.elem = self.type(ElemType(ref))
        elif k == 'vector':
            t.n = VectorSize(ref)
            t.elem = self.type(ElemType(ref))
        if k in ('int', 'float', 'double', 'x86_fp80', 'ptr', 'array', 'vector', 'struct'):
            try:
                t.size = ABISize(self.dl, ref)
                t.store = StoreSize(self.dl, ref)
                t.align = ABIAlign(self.dl, ref)
                if k == 'struct':
                    t.offsets = [OffsetOf(self.dl, ref, i) for i in range(t.n)]
            except Exception:
                pass
        return t

    def const(self, v):
        c = self._consts.get(v)
        if c is None:
            c = self._const(v)
            self._consts[v] = c
        return c

    def _const(self, v):
        k = ValueKind(v)
        t = self.type(TypeOf(v))
        # LLVMValueKind: 0 Argument 1 BB 2 MemoryUse.. 5 Function 6 GlobalAlias 7 IFunc 8 GlobalVar 9 BlockAddress 10 CExpr
        # 11 CArray 12 CStruct 13 CVector 14 Undef 15 CAggZero 16 CDataArray 17 CDataVector 18 CInt 19 CFP 20 CNullPtr
        # 21 CTokenNone 22 MetadataAsValue 23 InlineAsm 24 Instruction 25 Poison 26 CTargetNone
        if k == 18:
            if t.width <= 64:
                return Const('int', ConstZExt(v), t)
            s = vprint(v).split()[-1]
            return Const('int', int(s) & ((1 << t.width) - 1), t)
        if k == 19:
            li = C.c_int()
            return Const('fp', ConstReal(v, C.byref(li)), t)
        if k == 20:
            return Const('int', 0, t)
        if k in (5, 6, 8, 7):
            return Const('global', vname(v), t)
        if k in (14, 25, 26):
            return Const('undef', None, t)
        if k == 15:
            return Const('zero', None, t)
        if k == 16 and IsStringConst(v):
            n = C.c_size_t()
            p = GetAsString(v, C.byref(n))
            return Const('bytes', C.string_at(p, n.value), t)
        if k in (11, 12, 13, 16, 17):
            n = t.n
            return Const('agg', [self.const(AggElement(v, i)) for i in range(n)], t)
        if k == 10:
            op = OPC.get(ConstOpcode(v))
            ops = [self.const(Operand(v, i)) for i in range(NumOperands(v))]
            x = None
            if op == 'gep':
                x = self.type(GEPSrcType(v))
            elif op == 'icmp':
                x = IPRED[ICmpPred(v)]
            return Const('expr', (op, ops, x), t)
        if k == 23:
            return Const('asm', vprint(v), t)
        if k == 22:
            return Const('md', None, t)
        raise NotImplementedError('constant kind %d %s' % (k, vprint(v)))

    def initializer(self, name):
        g = self.globals[name]
        if IsDeclaration(g):
            return None, self.type(GlobalValueType(g))
        return self.const(GetInitializer(g)), self.type(GlobalValueType(g))
