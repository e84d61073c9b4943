"""LLVM bitcode/IR reader: loads a module through the LLVM-C API (ctypes) into plain Python data.

Types:  ('void',) ('i',n) ('f',32|64) ('ptr',) ('vec',n,elt) ('arr',n,elt) ('st',(elts),packed)
Operands: ('loc', id)        SSA value (argument or instruction)
          ('ci', n, width)   integer constant
          ('cf', float, 32|64)
          ('null',) ('undef', ty) ('zero', ty) ('agg', ty, [ops])
          ('glob', name) ('fn', name) ('blk', id)
          ('cgep', base_op, byte_offset)
"""
import ctypes as C

OPC = {1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',
 13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',
 23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',
 33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',
 41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',50:'extractelement',51:'insertelement',
 52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',66:'fneg',68:'freeze',59:'landingpad',58:'resume'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',
 11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

_lib = None
def lib():
    global _lib
    if _lib is None:
        for p in ('/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so', 'libLLVM-18.so'):
            try:
                _lib = C.CDLL(p); break
            except OSError:
                continue
        if _lib is None:
            raise RuntimeError('libLLVM-18 not found')
        L = _lib
        vp = C.c_void_p
        def sig(name, res, *args):
            f = getattr(L, name); f.restype = res; f.argtypes = list(args)
        sig('LLVMContextCreate', vp)
        sig('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(vp), C.POINTER(C.c_char_p))
        sig('LLVMParseIRInContext', C.c_int, vp, vp, C.POINTER(vp), C.POINTER(C.c_char_p))
        for n in ('LLVMGetFirstFunction','LLVMGetNextFunction','LLVMGetFirstBasicBlock','LLVMGetNextBasicBlock',
                  'LLVMGetFirstInstruction','LLVMGetNextInstruction','LLVMGetFirstGlobal','LLVMGetNextGlobal',
                  'LLVMTypeOf','LLVMGetElementType','LLVMGlobalGetValueType','LLVMGetInitializer','LLVMGetCalledValue',
                  'LLVMGetAllocatedType','LLVMGetGEPSourceElementType','LLVMGetCalledFunctionType','LLVMGetReturnType',
                  'LLVMValueAsBasicBlock'):
            sig(n, vp, vp)
        sig('LLVMGetParam', vp, vp, C.c_uint); sig('LLVMCountParams', C.c_uint, vp)
        sig('LLVMGetValueName2', C.c_char_p, vp, C.POINTER(C.c_size_t))
        sig('LLVMGetInstructionOpcode', C.c_int, vp)
        sig('LLVMGetConstOpcode', C.c_int, vp)
        sig('LLVMGetNumOperands', C.c_int, vp)
        sig('LLVMGetOperand', vp, vp, C.c_uint)
        sig('LLVMGetValueKind', C.c_int, vp)
        sig('LLVMGetTypeKind', C.c_int, vp)
        sig('LLVMGetIntTypeWidth', C.c_uint, vp)
        sig('LLVMGetVectorSize', C.c_uint, vp)
        sig('LLVMGetArrayLength', C.c_uint, vp)
        sig('LLVMCountStructElementTypes', C.c_uint, vp)
        sig('LLVMStructGetTypeAtIndex', vp, vp, C.c_uint)
        sig('LLVMIsPackedStruct', C.c_int, vp)
        sig('LLVMConstIntGetZExtValue', C.c_ulonglong, vp)
        sig('LLVMConstRealGetDouble', C.c_double, vp, C.POINTER(C.c_int))
        sig('LLVMGetAggregateElement', vp, vp, C.c_uint)
        sig('LLVMGetICmpPredicate', C.c_int, vp); sig('LLVMGetFCmpPredicate', C.c_int, vp)
        sig('LLVMCountIncoming', C.c_uint, vp); sig('LLVMGetIncomingValue', vp, vp, C.c_uint)
        sig('LLVMGetIncomingBlock', vp, vp, C.c_uint)
        sig('LLVMGetNumIndices', C.c_uint, vp); sig('LLVMGetIndices', C.POINTER(C.c_uint), vp)
        sig('LLVMGetNumMaskElements', C.c_uint, vp); sig('LLVMGetMaskValue', C.c_int, vp, C.c_uint)
        sig('LLVMIsDeclaration', C.c_int, vp); sig('LLVMIsGlobalConstant', C.c_int, vp)
        sig('LLVMValueIsBasicBlock', C.c_int, vp); sig('LLVMBasicBlockAsValue', vp, vp)
        sig('LLVMPrintValueToString', C.c_void_p, vp)
    return _lib


class Inst:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'x2')
    def __repr__(self):
        return '%s = %s %s %s %s' % (self.id, self.op, self.ty, self.ops, self.x)

class Block:
    __slots__ = ('id', 'insts', 'name')

class Func:
    __slots__ = ('name', 'params', 'ptypes', 'ret', 'blocks', 'entry', 'decl', 'loops', 'parsed', 'v', 'mod')
    def __init__(self): self.blocks = {}; self.loops = None; self.parsed = False

def sizeof(t):
    k = t[0]
    if k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t[1], (t[1] + 7) // 8)
    if k == 'f': return t[1] // 8
    if k == 'ptr': return 8
    if k == 'vec':
        n = t[1] * sizeof(t[2])
        p = 1
        while p < n: p *= 2
        return p
    if k == 'arr': return t[1] * sizeof(t[2])
    if k == 'st':
        off = 0; al = 1
        for e in t[1]:
            a = 1 if t[2] else alignof(e)
            al = max(al, a); off = (off + a - 1) // a * a; off += sizeof(e)
        return (off + al - 1) // al * al
    raise ValueError(t)

def alignof(t):
    k = t[0]
    if k == 'arr': return alignof(t[2])
    if k == 'st': return 1 if t[2] else max([alignof(e) for e in t[1]] or [1])
    return sizeof(t)

def stoff(t, i):
    off = 0
    for k, e in enumerate(t[1]):
        a = 1 if t[2] else alignof(e)
        off = (off + a - 1) // a * a
        if k == i: return off
        off += sizeof(e)
    raise IndexError


class Module:
    def __init__(self, path):
        L = lib(); self.L = L
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p(); err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError('IR parse: %s' % err.value)
        self.m = m
        self.tcache = {}
        self.funcs = {}; self.globals = {}
        self.ids = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            fn = Func(); fn.name = self.name(f); fn.decl = bool(L.LLVMIsDeclaration(f)); fn.v = f; fn.mod = self
            fty = L.LLVMGlobalGetValueType(f)
            fn.ret = self.ty(L.LLVMGetReturnType(fty))
            n = L.LLVMCountParams(f)
            fn.params = [self.id(L.LLVMGetParam(f, i)) for i in range(n)]
            fn.ptypes = [self.ty(L.LLVMTypeOf(L.LLVMGetParam(f, i))) for i in range(n)]
            self.funcs[fn.name] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            nm = self.name(g)
            self.globals[nm] = dict(name=nm, ty=self.ty(L.LLVMGlobalGetValueType(g)), const=bool(L.LLVMIsGlobalConstant(g)),
                                    init=None if L.LLVMIsDeclaration(g) else self.operand(L.LLVMGetInitializer(g)))
            g = L.LLVMGetNextGlobal(g)

    def name(self, v):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(v, C.byref(n))
        return s.decode() if s else ''

    def id(self, v):
        r = self.ids.get(v)
        if r is None:
            r = len(self.ids); self.ids[v] = r
        return r

    def ty(self, t):
        r = self.tcache.get(t)
        if r is not None: return r
        L = self.L; k = L.LLVMGetTypeKind(t)
        if k == 0: r = ('void',)
        elif k == 2: r = ('f', 32)
        elif k == 3: r = ('f', 64)
        elif k == 4: r = ('f', 80)
        elif k == 8: r = ('i', L.LLVMGetIntTypeWidth(t))
        elif k == 10: r = ('st', tuple(self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(L.LLVMCountStructElementTypes(t))), bool(L.LLVMIsPackedStruct(t)))
        elif k == 11: r = ('arr', L.LLVMGetArrayLength(t), self.ty(L.LLVMGetElementType(t)))
        elif k == 12: r = ('ptr',)
        elif k == 13: r = ('vec', L.LLVMGetVectorSize(t), self.ty(L.LLVMGetElementType(t)))
        else: r = ('other', k)
        self.tcache[t] = r
        return r

    def operand(self, v):
        L = self.L
        if L.LLVMValueIsBasicBlock(v): return ('blk', self.id(L.LLVMValueAsBasicBlock(v)))
        k = L.LLVMGetValueKind(v)
        # LLVMValueKind: 0 Argument,1 BasicBlock,2 MemUse,3 MemDef,4 MemPhi,5 Function,6 GlobalAlias,7 IFunc,8 GlobalVariable,
        # 9 BlockAddress,10 ConstantExpr,11 ConstArray,12 ConstStruct,13 ConstVector,14 Undef,15 AggZero,16 DataArray,
        # 17 DataVector,18 Int,19 FP,20 PtrNull,21 TokenNone,22 Metadata,23 InlineAsm,24 Instruction,25 Poison
        if k in (0, 24): return ('loc', self.id(v))
        if k == 5: return ('fn', self.name(v))
        if k == 8: return ('glob', self.name(v))
        if k == 18:
            t = self.ty(L.LLVMTypeOf(v)); return ('ci', L.LLVMConstIntGetZExtValue(v), t[1])
        if k == 19:
            t = self.ty(L.LLVMTypeOf(v)); lost = C.c_int()
            return ('cf', L.LLVMConstRealGetDouble(v, C.byref(lost)), t[1])
        if k == 20: return ('null',)
        if k in (14, 25): return ('undef', self.ty(L.LLVMTypeOf(v)))
        if k == 15: return ('zero', self.ty(L.LLVMTypeOf(v)))
        if k in (11, 12, 13, 16, 17):
            t = self.ty(L.LLVMTypeOf(v))
            n = len(t[1]) if t[0] == 'st' else t[1]
            if n > 4096: return ('undef', t)
            return ('agg', t, [self.operand(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        if k == 10:
            op = L.LLVMGetConstOpcode(v)
            if op == 29:
                base = self.operand(L.LLVMGetOperand(v, 0))
                t = self.ty(L.LLVMGetGEPSourceElementType(v))
                off = 0
                for i in range(1, L.LLVMGetNumOperands(v)):
                    o = self.operand(L.LLVMGetOperand(v, i)); n = o[1]
                    if n >= 1 << (o[2] - 1): n -= 1 << o[2]
                    if i == 1: off += n * sizeof(t)
                    elif t[0] == 'st': off += stoff(t, n); t = t[1][n]
                    else: t = t[2]; off += n * sizeof(t)
                return ('cgep', base, off)
            return ('cexpr', op)
        return ('unk', k)

    def parse(self, fn):
        if fn.parsed: return fn
        L = self.L; fn.parsed = True
        b = L.LLVMGetFirstBasicBlock(fn.v); first = None
        while b:
            B = Block(); B.id = self.id(b); B.insts = []
            B.name = self.name(L.LLVMBasicBlockAsValue(b))
            if first is None: first = B.id
            fn.blocks[B.id] = B
            i = L.LLVMGetFirstInstruction(b)
            while i:
                B.insts.append(self.inst(i))
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        fn.entry = first
        return fn

    def inst(self, v):
        L = self.L; I = Inst(); I.id = self.id(v); I.x = I.x2 = None
        oc = L.LLVMGetInstructionOpcode(v); I.op = OPC.get(oc, 'op%d' % oc)
        I.ty = self.ty(L.LLVMTypeOf(v))
        n = L.LLVMGetNumOperands(v)
        if I.op == 'phi':
            I.ops = [(self.operand(L.LLVMGetIncomingValue(v, k)), self.id(L.LLVMGetIncomingBlock(v, k))) for k in range(L.LLVMCountIncoming(v))]
            return I
        raw = [L.LLVMGetOperand(v, k) for k in range(n)]
        I.ops = [self.operand(o) for o in raw]
        if I.op == 'icmp': I.x = ICMP[L.LLVMGetICmpPredicate(v)]; I.x2 = self.ty(L.LLVMTypeOf(raw[0]))
        elif I.op == 'fcmp': I.x = FCMP[L.LLVMGetFCmpPredicate(v)]; I.x2 = self.ty(L.LLVMTypeOf(raw[0]))
        elif I.op == 'alloca': I.x = self.ty(L.LLVMGetAllocatedType(v))
        elif I.op == 'gep': I.x = self.ty(L.LLVMGetGEPSourceElementType(v))
        elif I.op == 'call':
            I.x = I.ops[-1]; I.ops = I.ops[:-1]
        elif I.op in ('extractvalue', 'insertvalue'):
            p = L.LLVMGetIndices(v); I.x = [p[k] for k in range(L.LLVMGetNumIndices(v))]
        elif I.op == 'shufflevector':
            I.x = [L.LLVMGetMaskValue(v, k) for k in range(L.LLVMGetNumMaskElements(v))]
            I.x2 = self.ty(L.LLVMTypeOf(raw[0]))
        elif I.op in ('store',): I.x = self.ty(L.LLVMTypeOf(raw[0]))
        elif I.op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'extractelement', 'insertelement'):
            I.x = self.ty(L.LLVMTypeOf(raw[0]))
        return I


def loop_info(fn):
    """Natural loops: {header: set(blocks)} via dominators."""
    if fn.loops is not None: return fn.loops
    succ = {}; pred = {b: [] for b in fn.blocks}
    for b, B in fn.blocks.items():
        t = B.insts[-1]
        s = [o[1] for o in t.ops if o[0] == 'blk']
        succ[b] = s
        for x in s: pred[x].append(b)
    order = []; seen = set()
    stack = [(fn.entry, iter(succ[fn.entry]))]; seen.add(fn.entry)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x); stack.append((x, iter(succ[x]))); break
        else:
            order.append(b); stack.pop()
    order.reverse()
    dom = {b: None for b in order}; dom[fn.entry] = {fn.entry}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b == fn.entry: continue
            ps = [dom[p] for p in pred[b] if p in dom and dom[p] is not None]
            if not ps: continue
            d = set.intersection(*ps) | {b}
            if d != dom[b]: dom[b] = d; changed = True
    loops = {}
    for b in order:
        for s in succ[b]:
            if dom[b] and s in dom[b]:
                body = {s, b}; w = [b] if b != s else []
                while w:
                    x = w.pop()
                    for p in pred[x]:
                        if p in seen and p not in body: body.add(p); w.append(p)
                loops.setdefault(s, set()).update(body)
    fn.loops = loops
    return loops
