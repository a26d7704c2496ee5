"""Reads LLVM bitcode through the libLLVM C API (ctypes) into plain Python
objects."""
import ctypes as C
import glob

_cand = ["/usr/lib/llvm-18/lib/libLLVM.so", "/usr/lib/llvm-18/lib/libLLVM-18.so",
         "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"] + \
    sorted(glob.glob("/usr/lib/llvm-18/lib/libLLVM*.so*"))
L = None
for _c in _cand:
    try:
        L = C.CDLL(_c)
        break
    except OSError:
        pass

P = C.c_void_p
S = C.c_char_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ctxCreate = _f("LLVMContextCreate", P)
memBufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, S, C.POINTER(P), C.POINTER(S))
parseBC = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
parseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(S))
firstFn = _f("LLVMGetFirstFunction", P, P)
nextFn = _f("LLVMGetNextFunction", P, P)
valName = _f("LLVMGetValueName2", S, P, C.POINTER(C.c_size_t))
isDecl = _f("LLVMIsDeclaration", C.c_int, P)
countParams = _f("LLVMCountParams", C.c_uint, P)
getParam = _f("LLVMGetParam", P, P, C.c_uint)
firstBB = _f("LLVMGetFirstBasicBlock", P, P)
nextBB = _f("LLVMGetNextBasicBlock", P, P)
firstI = _f("LLVMGetFirstInstruction", P, P)
nextI = _f("LLVMGetNextInstruction", P, P)
opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
numOps = _f("LLVMGetNumOperands", C.c_int, P)
getOp = _f("LLVMGetOperand", P, P, C.c_uint)
typeOf = _f("LLVMTypeOf", P, P)
typeKind = _f("LLVMGetTypeKind", C.c_int, P)
intWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
icmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
fcmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
gepSrc = _f("LLVMGetGEPSourceElementType", P, P)
called = _f("LLVMGetCalledValue", P, P)
numArgOps = _f("LLVMGetNumArgOperands", C.c_uint, P)
countInc = _f("LLVMCountIncoming", C.c_uint, P)
incVal = _f("LLVMGetIncomingValue", P, P, C.c_uint)
incBB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
valAsBB = _f("LLVMValueAsBasicBlock", P, P)
numSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
getSucc = _f("LLVMGetSuccessor", P, P, C.c_uint)
isCond = _f("LLVMIsConditional", C.c_int, P)
allocTy = _f("LLVMGetAllocatedType", P, P)
numIdx = _f("LLVMGetNumIndices", C.c_uint, P)
getIdx = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
valueKind = _f("LLVMGetValueKind", C.c_int, P)
constInt = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
constReal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
isNull = _f("LLVMIsNull", C.c_int, P)
constOp = _f("LLVMGetConstOpcode", C.c_int, P)
getInit = _f("LLVMGetInitializer", P, P)
globVT = _f("LLVMGlobalGetValueType", P, P)
dataLayout = _f("LLVMGetModuleDataLayout", P, P)
abiSize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
offElem = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
elemTy = _f("LLVMGetElementType", P, P)
arrLen = _f("LLVMGetArrayLength", C.c_uint, P)
vecLen = _f("LLVMGetVectorSize", C.c_uint, P)
cntStruct = _f("LLVMCountStructElementTypes", C.c_uint, P)
structElt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
cdsElem = _f("LLVMGetElementAsConstant", P, P, C.c_uint)
fnType = _f("LLVMGetCalledFunctionType", P, P)
isVarArg = _f("LLVMIsFunctionVarArg", C.c_int, P)
unwindD = _f("LLVMGetUnwindDest", P, P)
normalD = _f("LLVMGetNormalDest", P, P)
firstG = _f("LLVMGetFirstGlobal", P, P)
nextG = _f("LLVMGetNextGlobal", P, P)
maskN = _f("LLVMGetNumMaskElements", C.c_uint, P)
maskV = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
rmwOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)

OPN = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul",
       14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext",
       32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast",
       42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg",
       57: "atomicrmw", 58: "resume", 59: "landingpad", 68: "freeze", 60: "addrspacecast"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule",
        38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord",
        8: "uno", 9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# LLVMValueKind
VK = {0: "arg", 1: "bb", 5: "function", 6: "galias", 8: "gvar", 9: "blockaddress",
      10: "cexpr", 11: "carray", 12: "cstruct", 13: "cvector", 14: "undef",
      15: "caggzero", 16: "cdarray", 17: "cdvector", 18: "cint", 19: "cfp",
      20: "cnull", 21: "ctoken", 22: "metadata", 23: "inlineasm", 24: "instr", 25: "poison"}


def name_of(v):
    n = C.c_size_t()
    s = valName(v, C.byref(n))
    return s[:n.value].decode() if s else ""


class Module:
    def __init__(self, path):
        self.ctx = ctxCreate()
        buf, msg = P(), S()
        if memBufFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = P()
        if parseIR(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.dl = dataLayout(m)
        self.fns = {}
        f = firstFn(m)
        while f:
            self.fns[name_of(f)] = f
            f = nextFn(f)
        self._tsz = {}

    def size(self, ty):
        s = self._tsz.get(ty)
        if s is None:
            s = self._tsz[ty] = abiSize(self.dl, ty)
        return s

    def ty(self, t):
        """('i',w) ('f',64) ('p',) ('v',) ('s',[..]) ('a',t,n) ('vec',t,n)"""
        k = typeKind(t)
        if k == 8:
            return ("i", intWidth(t))
        if k == 3:
            return ("f", 64)
        if k == 2:
            return ("f", 32)
        if k == 4:
            return ("f", 80)
        if k == 12:
            return ("p",)
        if k == 0:
            return ("v",)
        if k == 10:
            return ("s", t)
        if k == 11:
            return ("a", t)
        if k == 13:
            return ("vec", t)
        return ("?", k)
