"""LLVM bitcode -> plain Python objects (via the LLVM-C API of the installed libLLVM-18)."""
import ctypes as C, ctypes.util, re, os
from functools import lru_cache

_LIB = None
for cand in ("/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so", "/usr/lib/llvm-18/lib/libLLVM-18.so.1",
             "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"):
    if os.path.exists(cand):
        _LIB = C.CDLL(cand)
        break
if _LIB is None:
    raise RuntimeError("libLLVM-18 not found")
_cxx = C.CDLL("libstdc++.so.6")
_cxx.__cxa_demangle.restype = C.c_void_p
_cxx.__cxa_demangle.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.POINTER(C.c_int)]
_libc = C.CDLL("libc.so.6"); _libc.free.argtypes = [C.c_void_p]


@lru_cache(maxsize=None)
def demangle(n):
    st = C.c_int(0)
    r = _cxx.__cxa_demangle(n.encode(), None, None, C.byref(st))
    if not r or st.value != 0:
        return n
    s = C.string_at(r).decode(); _libc.free(r)
    return s


P = C.c_void_p
def _f(name, res, *args):
    f = getattr(_LIB, name); f.restype = res; f.argtypes = list(args); return f

ctx_create = _f("LLVMContextCreate", P)
membuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
parse_bc = _f("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
mod_dl = _f("LLVMGetModuleDataLayout", P, P)
first_fn = _f("LLVMGetFirstFunction", P, P); next_fn = _f("LLVMGetNextFunction", P, P)
first_gl = _f("LLVMGetFirstGlobal", P, P); next_gl = _f("LLVMGetNextGlobal", P, P)
gl_init = _f("LLVMGetInitializer", P, P)
gl_const = _f("LLVMIsGlobalConstant", C.c_int, P)
gl_linkage = _f("LLVMGetLinkage", C.c_int, P)
def gl_own(g): return gl_linkage(g) in (8, 9)          # internal or private: every translation unit has its own
first_al = _f("LLVMGetFirstGlobalAlias", P, P); next_al = _f("LLVMGetNextGlobalAlias", P, P)
aliasee = _f("LLVMAliasGetAliasee", P, P)
is_decl = _f("LLVMIsDeclaration", C.c_int, P)
first_bb = _f("LLVMGetFirstBasicBlock", P, P); next_bb = _f("LLVMGetNextBasicBlock", P, P)
first_in = _f("LLVMGetFirstInstruction", P, P); next_in = _f("LLVMGetNextInstruction", P, P)
opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
val_name = _f("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
n_ops = _f("LLVMGetNumOperands", C.c_int, P); op_at = _f("LLVMGetOperand", P, P, C.c_uint)
type_of = _f("LLVMTypeOf", P, P); type_kind = _f("LLVMGetTypeKind", C.c_int, P)
int_width = _f("LLVMGetIntTypeWidth", C.c_uint, P)
val_kind = _f("LLVMGetValueKind", C.c_int, P)
zext_val = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
real_val = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
const_opcode = _f("LLVMGetConstOpcode", C.c_int, P)
n_params = _f("LLVMCountParams", C.c_uint, P); param = _f("LLVMGetParam", P, P, C.c_uint)
called = _f("LLVMGetCalledValue", P, P); n_args = _f("LLVMGetNumArgOperands", C.c_uint, P)
callfnty = _f("LLVMGetCalledFunctionType", P, P)
ret_type = _f("LLVMGetReturnType", P, P)
icmp_pred = _f("LLVMGetICmpPredicate", C.c_int, P); fcmp_pred = _f("LLVMGetFCmpPredicate", C.c_int, P)
n_inc = _f("LLVMCountIncoming", C.c_uint, P); inc_v = _f("LLVMGetIncomingValue", P, P, C.c_uint); inc_b = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
n_succ = _f("LLVMGetNumSuccessors", C.c_uint, P); succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
is_cond = _f("LLVMIsConditional", C.c_int, P)
term = _f("LLVMGetBasicBlockTerminator", P, P)
normal_dest = _f("LLVMGetNormalDest", P, P); unwind_dest = _f("LLVMGetUnwindDest", P, P)
gep_ty = _f("LLVMGetGEPSourceElementType", P, P)
abi_size = _f("LLVMABISizeOfType", C.c_ulonglong, P, P); off_of = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
store_size = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
struct_el = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
elem_ty = _f("LLVMGetElementType", P, P); arr_len = _f("LLVMGetArrayLength", C.c_uint, P)
n_idx = _f("LLVMGetNumIndices", C.c_uint, P); idxs = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
ordering = _f("LLVMGetOrdering", C.c_int, P); rmw_op = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
cas_s = _f("LLVMGetCmpXchgSuccessOrdering", C.c_int, P); cas_f = _f("LLVMGetCmpXchgFailureOrdering", C.c_int, P)
is_exact = _f("LLVMGetExact", C.c_int, P)
is_weak = _f("LLVMGetWeak", C.c_int, P); is_volatile = _f("LLVMGetVolatile", C.c_int, P)
alloc_ty = _f("LLVMGetAllocatedType", P, P)
dbg_line = _f("LLVMGetDebugLocLine", C.c_uint, P)
dbg_file = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(C.c_uint)); dbg_dir = _f("LLVMGetDebugLocDirectory", P, P, C.POINTER(C.c_uint))
n_struct = _f("LLVMCountStructElementTypes", C.c_uint, P)
struct_name = _f("LLVMGetStructName", C.c_char_p, P)
print_type = _f("LLVMPrintTypeToString", P, P)
as_string = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t)); is_cstring = _f("LLVMIsConstantString", C.c_int, P)
print_val = _f("LLVMPrintValueToString", P, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg", 8: "add", 9: "fadd", 10: "sub", 11: "fsub",
       12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and",
       24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi",
       35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp",
       44: "phi", 45: "call", 46: "select", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
ORD = {0: "na", 1: "unordered", 2: "relaxed", 4: "acquire", 5: "release", 6: "acq_rel", 7: "seq_cst"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax", 10: "umin"}


def print_val_s(v): return C.string_at(print_val(v)).decode()


SKIP = ("llvm.dbg.", "llvm.lifetime.", "llvm.experimental.noalias", "llvm.invariant.")

class Inst:
    __slots__ = ("op", "id", "a", "ty", "x", "loc", "fn", "bb", "uid")
    def __repr__(self): return "<%s %%%s>" % (self.op, self.id)

class Block:
    __slots__ = ("name", "insts", "succs", "preds", "phis", "livein", "idx", "nonphi", "loops")

class Func:
    __slots__ = ("name", "dname", "nparams", "blocks", "entry", "defined", "rty", "_an", "mod", "ptrs", "headers", "loopbody")
    def __repr__(self): return self.dname


class Ty:
    """k: void int ptr float struct array other"""
    __slots__ = ("k", "w", "size", "fields", "name", "n", "el")
    def __repr__(self): return "%s%s" % (self.k, self.w or "")


class Module:
    unwind = False
    def __init__(self, path):
        self.path = path
        ctx = ctx_create()
        buf = P(); err = C.c_char_p()
        if membuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        m = P()
        if parse_bc(ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m; self.dl = mod_dl(m)
        self._ty = {}
        self.fns = {}; self.globs = {}; self.bydname = {}
        self._ninst = 0
        f = first_fn(m)
        while f:
            fn = Func(); fn.name = self.vname(f); fn.dname = demangle(fn.name); fn.defined = not is_decl(f)
            fn.nparams = n_params(f); fn.blocks = None; fn._an = f; fn.mod = self
            self.fns[fn.name] = fn
            self.bydname.setdefault(fn.dname, fn)
            f = next_fn(f)
        a = first_al(m)
        self.aliases = {}
        while a:
            t = aliasee(a)
            self.aliases[self.vname(a)] = self.vname(t)
            a = next_al(a)
        g = first_gl(m)
        while g:
            self.globs[self.vname(g)] = g
            g = next_gl(g)
        self._ginit = {}

    def vname(self, v):
        n = C.c_size_t(); p = val_name(v, C.byref(n))
        return C.string_at(p, n.value).decode() if p else ""

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None: return r
        k = type_kind(t)
        r = Ty(); r.k = "other"; r.w = None; r.size = 0; r.fields = None; r.name = None; r.n = 0; r.el = None
        if k == 0: r.k = "void"
        elif k == 8:
            r.k = "int"; r.w = int_width(t); r.size = store_size(self.dl, t)
        elif k == 12: r.k = "ptr"; r.w = 64; r.size = 8
        elif k in (2, 3, 4, 1): r.k = "float"; r.size = store_size(self.dl, t); r.w = r.size * 8
        elif k == 10:
            r.k = "struct"
            nm = struct_name(t); r.name = nm.decode() if nm else None
            n = n_struct(t)
            try: r.size = abi_size(self.dl, t)
            except Exception: r.size = 0
            r.fields = [(off_of(self.dl, t, i), self.ty(struct_el(t, i))) for i in range(n)]
        elif k == 11:
            r.k = "array"; r.n = arr_len(t); r.el = self.ty(elem_ty(t)); r.size = r.n * max(1, abi_size(self.dl, elem_ty(t)))
        elif k in (13, 18):
            r.k = "vector"; r.size = store_size(self.dl, t)
        self._ty[t] = r
        return r

    # ---- constants -------------------------------------------------------
    def const(self, v, k=None):
        """returns a python description of a constant:
           int | ('f',x) | ('g',name,off) | ('fn',name) | ('undef',) | ('agg',(..)) | ('zero',ty)"""
        k = val_kind(v) if k is None else k
        if k == 18: return zext_val(v)            # ConstantInt
        if k == 20: return 0                      # null pointer
        if k == 5: return ("fn", self.vname(v))
        if k == 8: return ("g", self.vname(v), 0)
        if k == 6:
            t = self.aliases.get(self.vname(v), self.vname(v))
            if t in self.fns: return ("fn", t)
            return ("g", t, 0)
        if k in (14, 25): return ("undef",)       # undef / poison
        if k == 19:
            l = C.c_int(); return ("f", real_val(v, C.byref(l)))
        if k == 15: # aggregate zero
            return ("zero", self.ty(type_of(v)))
        if k == 10:                               # constant expr
            oc = OPC.get(const_opcode(v))
            if oc == "getelementptr":
                base = self.const(op_at(v, 0))
                off, dyn = self.gep_parts(v, const=True)
                if isinstance(base, tuple) and base[0] == "g": return ("g", base[1], base[2] + off)
                return base
            if oc in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "trunc", "zext", "sext"):
                return self.const(op_at(v, 0))
            if oc in ("add", "sub"):
                a, b = self.const(op_at(v, 0)), self.const(op_at(v, 1))
                if isinstance(a, int) and isinstance(b, int): return a + b if oc == "add" else a - b
            return ("undef",)
        if k in (11, 12, 13):
            n = n_ops(v); t = self.ty(type_of(v))
            return ("agg", tuple(self.const(op_at(v, i)) for i in range(n)))
        return ("undef",)

    def ginit(self, name):
        """flattened {offset: (size, const)} of a global's initialiser, or None"""
        if name in self._ginit: return self._ginit[name]
        g = self.globs.get(name); r = None
        if g:
            i = gl_init(g)
            if i:
                r = {}
                self._flat(i, 0, r)
        self._ginit[name] = r
        return r

    def cstring(self, name):
        """text of a constant C string, or None"""
        g = self.globs.get(name)
        if not g or not gl_const(g): return None
        i = gl_init(g)
        if not i: return None
        k = val_kind(i)
        if k == 15: return ""
        if k != 16 or not is_cstring(i): return None
        n = C.c_size_t(0); p = as_string(i, C.byref(n))
        b = C.string_at(p, n.value)
        return b[:-1].decode("latin1") if b.endswith(b"\0") else None

    def _flat(self, v, off, out):
        k = val_kind(v); t = type_of(v); ty = self.ty(t)
        if ty.k == "struct" and k not in (15, 14, 25):
            for i in range(n_ops(v)): self._flat(op_at(v, i), off + ty.fields[i][0], out)
        elif ty.k == "array" and k == 11:
            es = ty.size // max(1, ty.n)
            for i in range(n_ops(v)): self._flat(op_at(v, i), off + i * es, out)
        elif ty.k in ("int", "ptr", "float"):
            out[off] = (ty.size, self.const(v, k))
        elif k == 15:
            self._zero(ty, off, out)

    def _zero(self, ty, off, out):
        if ty.k == "struct":
            for o, f in ty.fields: self._zero(f, off + o, out)
        elif ty.k == "array":
            if ty.n <= 64:
                es = ty.size // max(1, ty.n)
                for i in range(ty.n): self._zero(ty.el, off + i * es, out)
        elif ty.size: out[off] = (ty.size, 0)

    # ---- functions -------------------------------------------------------
    def gep_parts(self, v, const=False, val=None):
        """constant byte offset, [(index operand, scale)]"""
        srct = gep_ty(v); n = n_ops(v)
        off = 0; dyn = []
        cur = None
        for i in range(1, n):
            o = op_at(v, i)
            kk = val_kind(o)
            if i == 1:
                sz = abi_size(self.dl, srct); cur = srct
                if kk == 18: off += zext_val(o) * sz
                else: dyn.append((o, sz))
            else:
                tk = type_kind(cur)
                if tk == 10:
                    ix = zext_val(o); off += off_of(self.dl, cur, ix); cur = struct_el(cur, ix)
                else:
                    cur = elem_ty(cur); sz = abi_size(self.dl, cur)
                    if kk == 18: off += zext_val(o) * sz
                    else: dyn.append((o, sz))
        return off, dyn

    def body(self, fn):
        if fn.blocks is not None or not fn.defined: return fn
        f = fn._an
        ids = {}
        for i in range(fn.nparams): ids[param(f, i)] = ("v", i)
        nid = fn.nparams
        bbs = []
        b = first_bb(f); bmap = {}
        while b:
            blk = Block(); blk.idx = len(bbs); blk.insts = []; blk.preds = []; blk.succs = []; blk.livein = None; blk.loops = ()
            bmap[b] = blk; bbs.append((b, blk))
            i = first_in(b)
            while i:
                ids[i] = ("v", nid); nid += 1
                i = next_in(i)
            b = next_bb(b)
        fn.rty = self.ty(ret_type(_glob_fnty(f)))
        locs = {}
        def opv(v):
            k = val_kind(v)
            if v in ids: return ids[v]
            if k in (1, 22, 24): return ("undef",)
            c = self.const(v, k)
            if isinstance(c, int): return c
            return ("c", c)
        for b, blk in bbs:
            i = first_in(b)
            while i:
                if opcode(i) == 45 and val_kind(called(i)) == 5 and self.vname(called(i)).startswith(SKIP):
                    i = next_in(i); continue
                ins = Inst(); ins.op = OPC.get(opcode(i), "other"); ins.id = ids[i][1]; ins.x = None; ins.fn = fn; ins.bb = blk
                self._ninst += 1; ins.uid = "%s#%d" % (fn.name, ins.id)
                ins.ty = self.ty(type_of(i))
                ins.loc = _loc(i)
                op = ins.op
                if op == "phi":
                    ins.a = [opv(inc_v(i, j)) for j in range(n_inc(i))]
                    ins.x = [bmap[inc_b(i, j)].idx for j in range(n_inc(i))]
                elif op in ("call", "invoke"):
                    na = n_args(i)
                    ins.a = [opv(op_at(i, j)) for j in range(na)]
                    cv = called(i); kk = val_kind(cv)
                    ck = opv(cv) if kk != 23 else ("c", ("asm",))
                    ins.x = dict(callee=ck, dest=bmap[normal_dest(i)].idx if op == "invoke" else None,
                                 unwind=bmap[unwind_dest(i)].idx if op == "invoke" and self.unwind else None,
                                 aty=[self.ty(type_of(op_at(i, j))) for j in range(na)])
                    if kk == 5 and self.vname(cv).endswith("type.test"): ins.x["meta"] = print_val_s(i)
                elif op == "br":
                    if is_cond(i):
                        ins.a = [opv(op_at(i, 0))]; ins.x = [bmap[succ(i, 0)].idx, bmap[succ(i, 1)].idx]
                    else:
                        ins.a = []; ins.x = [bmap[succ(i, 0)].idx]
                elif op == "switch":
                    n = n_ops(i)
                    ins.a = [opv(op_at(i, 0))]
                    cases = []
                    for j in range(2, n, 2): cases.append((zext_val(op_at(i, j)), bmap[succ(i, j // 2)].idx))
                    ins.x = (bmap[succ(i, 0)].idx, cases)
                elif op == "getelementptr":
                    off, dyn = self.gep_parts(i)
                    ins.a = [opv(op_at(i, 0))] + [opv(o) for o, _ in dyn]
                    ins.x = (off, [s for _, s in dyn])
                elif op == "icmp":
                    ins.a = [opv(op_at(i, 0)), opv(op_at(i, 1))]; ins.x = (IPRED[icmp_pred(i)], self.ty(type_of(op_at(i, 0))))
                elif op == "fcmp":
                    ins.a = [opv(op_at(i, 0)), opv(op_at(i, 1))]; ins.x = fcmp_pred(i)
                elif op in ("extractvalue", "insertvalue"):
                    ins.a = [opv(op_at(i, j)) for j in range(n_ops(i))]
                    p = idxs(i); ins.x = [p[j] for j in range(n_idx(i))]
                elif op == "load":
                    ins.a = [opv(op_at(i, 0))]; ins.x = (ORD[ordering(i)], bool(is_volatile(i)))
                elif op == "store":
                    ins.a = [opv(op_at(i, 0)), opv(op_at(i, 1))]; ins.x = (ORD[ordering(i)], self.ty(type_of(op_at(i, 0))), bool(is_volatile(i)))
                elif op == "atomicrmw":
                    ins.a = [opv(op_at(i, 0)), opv(op_at(i, 1))]; ins.x = (RMW.get(rmw_op(i), "other"), ORD[ordering(i)])
                elif op == "cmpxchg":
                    ins.a = [opv(op_at(i, j)) for j in range(3)]
                    ins.x = (ORD[cas_s(i)], ORD[cas_f(i)], bool(is_weak(i)), self.ty(type_of(op_at(i, 1))))
                elif op == "alloca":
                    ins.a = []; ins.x = self.ty(alloc_ty(i))
                else:
                    ins.a = [opv(op_at(i, j)) for j in range(n_ops(i))] if op not in ("landingpad",) else []
                    if op in ("udiv", "sdiv", "lshr", "ashr"): ins.x = ("exact",) if is_exact(i) else None
                    if op in ("trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "ptrtoint", "inttoptr"):
                        ins.x = self.ty(type_of(op_at(i, 0)))
                blk.insts.append(ins)
                i = next_in(i)
        blocks = [b for _, b in bbs]
        for blk in blocks:
            t = blk.insts[-1]
            if t.op == "br": s = list(t.x)
            elif t.op == "switch": s = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == "invoke": s = [t.x["dest"]] + ([t.x["unwind"]] if self.unwind else [])
            else: s = []
            blk.succs = list(dict.fromkeys(s))
            blk.phis = [i for i in blk.insts if i.op == "phi"]
            blk.nonphi = len(blk.phis)
        for blk in blocks:
            for s in blk.succs: blocks[s].preds.append(blk.idx)
        fn.blocks = blocks
        self._liveness(fn); self._loops(fn)
        return fn

    def _liveness(self, fn):
        B = fn.blocks
        use = []; dfn = []
        for b in B:
            u = set(); d = set()
            for i in b.insts:
                if i.op != "phi":
                    ops = list(i.a)
                    if i.op in ("call", "invoke"): ops.append(i.x["callee"])
                    for o in ops:
                        if isinstance(o, tuple) and o[0] == "v" and o[1] not in d: u.add(o[1])
                d.add(i.id)
            use.append(u); dfn.append(d)
        live = [set() for _ in B]
        ch = True
        while ch:
            ch = False
            for b in reversed(B):
                out = set()
                for s in b.succs:
                    out |= live[s]
                    for ph in B[s].phis: out.discard(ph.id)
                    for ph in B[s].phis:
                        for v, pb in zip(ph.a, ph.x):
                            if pb == b.idx and isinstance(v, tuple) and v[0] == "v": out.add(v[1])
                n = use[b.idx] | (out - dfn[b.idx])
                if n != live[b.idx]: live[b.idx] = n; ch = True
        for b in B: b.livein = frozenset(live[b.idx] | {p.id for p in b.phis})

    def _loops(self, fn):
        B = fn.blocks; n = len(B)
        # reachable + dominators (simple iterative)
        order = []; seen = set()
        def dfs(i):
            st = [(i, iter(B[i].succs))]; seen.add(i)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(B[s].succs))); break
                else:
                    order.append(x); st.pop()
        dfs(0); order.reverse()
        dom = {i: set(order) for i in order}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in order[1:]:
                ps = [dom[p] for p in B[i].preds if p in dom]
                nd = set.intersection(*ps) | {i} if ps else {i}
                if nd != dom[i]: dom[i] = nd; ch = True
        fn.headers = {}
        for i in order:
            for s in B[i].succs:
                if s in dom[i]:
                    body = fn.headers.setdefault(s, {s})
                    st = [i]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x); st += [p for p in B[x].preds if p in dom]
        for i in order:
            B[i].loops = tuple(h for h, body in fn.headers.items() if i in body)


_gvt = _f("LLVMGlobalGetValueType", P, P)
def _glob_fnty(f): return _gvt(f)


_lc = {}
def _loc(i):
    l = dbg_line(i)
    if not l: return None
    n = C.c_uint(); p = dbg_file(i, C.byref(n)); f = C.string_at(p, n.value).decode() if p else ""
    if not f.startswith("/"):
        p = dbg_dir(i, C.byref(n)); d = C.string_at(p, n.value).decode() if p else ""
        f = os.path.join(d, f)
    r = _lc.get(f)
    if r is None: r = _lc[f] = os.path.normpath(f)
    return (r, l)
