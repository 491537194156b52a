"""Models of what lies outside the analysed library: allocation, reference counts, strings, containers, C functions.

A handler takes (ex, st, ins, fn, args) and returns None (not handled), "end" (the path ends) or a list of Outcome.
"""
import math
from values import *
from explore import Outcome, INF
import names

# C functions (and members) that do not write through their pointer arguments
PURE_C = {"pthread_self", "sysconf", "sched_get_priority_min", "sched_get_priority_max", "strlen", "memcmp", "strcmp", "sched_getcpu", "fprintf", "printf",
          "fputs", "puts", "sem_post", "sem_wait", "sem_trywait", "sem_timedwait", "sem_destroy", "sem_close", "sem_unlink", "sem_open", "pthread_join",
          "pthread_detach", "pthread_cancel", "pthread_setname_np", "pthread_setaffinity_np", "pthread_setschedprio", "fwrite", "__errno_location", "syscall", "sched_yield"}
NORETURN = {"abort", "exit", "_exit", "__cxa_throw", "__cxa_rethrow", "std::terminate", "__clang_call_terminate", "__cxa_bad_cast", "_Unwind_Resume", "__assert_fail",
            "__cxa_call_unexpected", "__cxa_pure_virtual", "std::rethrow_exception"}
EMPTY = ('P', 0, ())  # never used as a value


def O(ret=None, assume=(), writes=(), tag=None): return [Outcome(ret, assume, writes, tag)]


def VOID(*_): return O(None)


class Models:
    def __init__(self, mod, rule):
        self.mod = mod; self.rule = rule
        self.tab = dict(TABLE)
        self.pre = list(PREFIX)
        for k, h in getattr(rule, "models", {}).items():
            if k.endswith("*") and len(k) > 1: self.pre.insert(0, (k[:-1], h))
            else: self.tab[k] = h
        self.seq = getattr(rule, "sequential", False)   # nobody else accesses the state: atomics are ordinary memory
        self.cache = {}

    def handler(self, fn):
        r = self.cache.get(fn.name, 0)
        if r == 0:
            b = names.base(fn.dname)
            r = self.tab.get(b)
            if r is None:
                for p, h in self.pre:
                    if b.startswith(p): r = h; break
            if r is None and b.startswith("std::__throw_"): r = h_noreturn
            if r is None and b in NORETURN: r = h_noreturn
            self.cache[fn.name] = r
        return r

    def atomic_load(self, ex, st, ins, p, v, pre):
        b, o = split_ptr(p)
        if self.seq or b is not None and SYM[b][0][0] == 'al': return pre
        f = getattr(self.rule, "atomic_value", None)
        if f is not None: return f(ex, st, ins, p, v, pre)
        return None

    def call(self, ex, st, ins, fn, args):
        h = self.handler(fn)
        if h is not None:
            return h(ex, st, ins, fn, args)
        return None

    def extern(self, ex, st, ins, fn, args):
        if fn.name.startswith("llvm."): return h_intrinsic(ex, st, ins, fn, args)
        return default_extern(ex, st, ins, fn, args)


def default_extern(ex, st, ins, fn, args):
    b = names.base(fn.dname)
    ps = names.params(fn.dname)
    r = m_round(ex, st, ins, fn, args)
    if r is not None: return r
    if b not in PURE_C:
        off = 0
        k = ins.x["callee"]
        # parameters of the demangled name do not include this / the hidden result
        if ps is not None: off = len(args) - len([p for p in ps if p not in ("void", "...")])
        for i, a in enumerate(args):
            if not is_num(a) or isinstance(a, int): continue
            base, o = split_ptr(a)
            if base is None: continue
            const = False
            if ps is not None:
                if i < off: const = " const" == fn.dname[-6:] and i == off - 1
                elif i - off < len(ps):
                    q = ps[i - off]
                    const = ("const" in q and (q.endswith("const&") or q.endswith("const*"))) or not (q.endswith("&") or q.endswith("*"))
            if const: continue
            kd = SYM[base][0][0]
            if kd in ('fn', 'gl') and kd == 'fn': continue
            tag = ex.fresh(st, ins, "w%d" % i)
            st.havoc(a, only_sym(tag), kd in ('al',) and o == 0)
    ret = ex.fresh(st, ins, "ret", ins.ty.k == "ptr") if ins.ty.k != "void" else None
    if ret is not None and ins.ty.k in ("struct", "array"): ret = ('U',)
    if ret is not None and ins.ty.k == "int" and ins.ty.w == 1: ret = NOT(eq(ret, 0))
    bump(ex, st, ins)
    return O(ret)


def bump(ex, st, ins):
    """unknown code ran: containers reachable from elsewhere may have changed"""
    for k in [k for k in st.mon if isinstance(k, tuple) and k[0] == 'q']:
        b, _ = split_ptr(k[1])
        if b is not None and SYM[b][0][0] == 'al': continue
        st.mon[k] = ex.fresh(st, ins, "ver")


def h_noreturn(ex, st, ins, fn, args):
    ex.ev(st, "call", dict(fn=fn, name=names.base(fn.dname), args=args, ret=None, ins=ins, tag="noreturn"))
    return "end"


def h_intrinsic(ex, st, ins, fn, args):
    n = fn.name
    if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"): return m_memcpy(ex, st, ins, fn, args)
    if n.startswith("llvm.memset"): return m_memset(ex, st, ins, fn, args)
    if n.startswith("llvm.trap"): return "end"
    if n.startswith("llvm.expect"): return O(args[0])
    if n.startswith("llvm.assume"):
        c = args[0]
        return O(None, [(c, True)]) if is_num(c) or c[0] == 'B' else O(None)
    for m, f in (("llvm.smin", "min"), ("llvm.smax", "max"), ("llvm.umin", "min"), ("llvm.umax", "max")):
        if n.startswith(m):
            a, b = num(args[0]), num(args[1])
            c = ge(b, a)
            lo, hi = (a, b) if f == "min" else (b, a)
            return [Outcome(lo, [(c, True)]), Outcome(hi, [(c, False)])]
    r = m_round(ex, st, ins, fn, args)
    if r is not None: return r
    if ins.ty.k == "void": return O(None)
    if n.startswith("llvm.") and "with.overflow" in n:
        a, b = num(args[0]), num(args[1])
        v = add(a, b) if "add" in n else sub(a, b) if "sub" in n else mul(a, b)
        return O(('A', (v, 0)))
    return O(S(('op', n.split(".")[1], ins.ty.w) + tuple(args)))


ROUND = {"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), "rint": round, "nearbyint": round, "fabs": abs}
def m_round(ex, st, ins, fn, args):
    """rounding of a floating point constant"""
    n = names.base(fn.dname).replace("std::", "")
    if n.startswith("llvm."): n = n.split(".")[1]
    if n in ("fmuladd", "fma", "fmaf") and len(args) == 3:
        v = [('F', float(a)) if isinstance(a, int) else a for a in args]
        if not all(isinstance(a, tuple) and a[0] == 'F' for a in v): return None
        from fractions import Fraction
        from explore import fround
        x, y, z = [a[1] for a in v]; w = ins.ty.w
        if not all(math.isfinite(q) for q in (x, y, z)): return None
        out = {fround(float(Fraction(x) * Fraction(y) + Fraction(z)), w)}       # fused, or rounded in between
        if n == "fmuladd": out.add(fround(fround(x * y, w) + z, w))
        return [Outcome(('F', r)) for r in sorted(out)]
    l = None
    for p in ("ll", "l"):
        if n.startswith(p) and n[len(p):].rstrip("fl") in ("round", "rint"): l = n[len(p):].rstrip("fl"); break
    k = l or (n if n in ROUND else n[:-1] if n[:-1] in ROUND and n[-1] in "fl" else None)
    if k is None or len(args) != 1: return None
    a = args[0]
    if isinstance(a, int) and ins.ty.k == "float": a = ('F', float(a))
    if not (isinstance(a, tuple) and a[0] == 'F'): return O(S(('op', n, ins.ty.w, a)) if a != ('U',) else ('U',))
    v = ROUND[k](a[1])
    return O(int(v) if ins.ty.k == "int" else ('F', float(v)))


def m_memcpy(ex, st, ins, fn, args):
    d, s, n = args[0], args[1], args[2]
    n = st.simp(num(n)) if is_num(n) else n
    if not isinstance(n, int) or d == ('U',) or s == ('U',) or n > 65536:
        st.havoc(d, only_sym(ex.fresh(st, ins, "mc")), True)
        return O(None if ins.ty.k == "void" else d)
    copy_range(ex, st, ins, d, s, n)
    return O(None if ins.ty.k == "void" else d)


def copy_range(ex, st, ins, d, s, n):
    db, do = st.addr(d); sb, so = st.addr(s)
    src = {}
    c = st.mem.get(sb, {})
    for o, e in c.items():
        r = sub(o, so)
        if isinstance(r, int) and 0 <= r and r + e[0] <= n: src[r] = e
    if sb is not None and SYM[sb][0][0] == 'gl' and sb not in st.mem:
        g = st.gl(SYM[sb][0][1])
        if g:
            for o, (sz, v) in g.items():
                r = o - so if isinstance(so, int) else None
                if r is not None and 0 <= r and r + sz <= n: src.setdefault(r, (sz, st.constv(v)))
    # the rest, word by word
    o = 0
    while o < n:
        hit = [r for r in src if r <= o < r + src[r][0]]
        if hit: o = hit[0] + src[hit[0]][0]; continue
        nxt = min([r for r in src if r > o] + [n])
        w = 8 if o % 8 == 0 and nxt - o >= 8 else 4 if o % 4 == 0 and nxt - o >= 4 else 1
        if n > 256: break
        src[o] = (w, st.read(add(s, o), w, False)); o += w
    if n > 256:
        st.havoc(d, only_sym(ex.fresh(st, ins, "mc")), n > 64 and False)
    for r, (sz, v) in src.items(): st.write(add(d, r), sz, v)


def m_memset(ex, st, ins, fn, args):
    d, v, n = args[0], args[1], args[2]
    n = st.simp(num(n)) if is_num(n) else n
    if isinstance(n, int) and isinstance(v, int) and n <= 4096:
        byte = v & 255; o = 0
        while o < n:
            w = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
            x = int.from_bytes(bytes([byte]) * w, "little", signed=True)
            st.write(add(d, o), w, x); o += w
    elif d != ('U',): st.havoc(d, only_sym(ex.fresh(st, ins, "ms")), True)
    return O(None if ins.ty.k == "void" else d)


# ---- allocation ------------------------------------------------------------
def m_new(ex, st, ins, fn, args):
    n = args[0]
    k = 0
    # one symbol per allocation site and call context; numbered if an older one is still in use
    d = ('hp', "site", (st.fr.ctx, ins.uid))
    live = None
    while True:
        s = sym(d + (k,), True)
        if (d + (k,), True) not in st.alloc: break
        if live is None: live = ex.gc(st)
        if s not in live: ex.forget(st, s); break
        k += 1
        if k > 40: raise RuntimeError("unbounded allocations")
    st.alloc.add((d + (k,), True))
    st.mem.pop(s, None)
    return [Outcome(P_of(s), (), (), ("new", n))]


# ---- shared_ptr -------------------------------------------------------------
def pi_copy(ex, st, ins, fn, args):
    """__shared_count / __weak_count copy construction and assignment"""
    ps = names.params(fn.dname) or []
    if len(args) >= 2 and ps and (ps[0].startswith("std::__shared_count<") or ps[0].startswith("std::__weak_count<")) and "&&" not in ps[0]:
        v = st.read(args[1], 8, True)
        st.write(args[0], 8, v)
        return O(args[0] if ins.ty.k == "ptr" else None)
    return None


def esft_count(ex, st, ins, fn, args): return O(S(('usecount', args[0])))


# ---- strings ------------------------------------------------------------------
def sget(st, p): return st.read(p, 32, False)
def sset(st, p, v): st.write(p, 32, v)
def slen(st, c):
    c = num(c)
    if c == 0: return 0
    s = only_sym(c)
    if s is not None and SYM[s][0][0] == 'str':
        d = SYM[s][0]
        if d[1] == 'cat': return add(slen(st, d[2]), slen(st, d[3]))
        if d[1] == 'lit' and isinstance(d[3], int): return d[3]
    l = S(('slen', c))
    t = (((only_sym(l),), 1),)
    if t not in st.facts: st.facts[t] = (0, INF, ())
    return l


def cat(a, b):
    if a == 0: return b
    if b == 0: return a
    return S(('str', 'cat', a, b))


def lit(ex, st, p):
    """content of a C string"""
    s = only_sym(p) if is_num(p) else None
    if s is not None and SYM[s][0][0] == 'cstr': return SYM[s][0][1]
    if is_num(p) and not isinstance(p, int):
        b, o = split_ptr(p)
        if b is not None and SYM[b][0][0] == 'gl' and o == 0:
            t = ex.mod.cstring(SYM[b][0][1])
            if t is not None:
                return S(('str', 'lit', t, len(t))) if t else 0
        if b is not None and o == 0:
            # not known whether it is empty
            return S(('str', 'at', p))
    return S(('str', 'of', p))


def strarg(ex, st, typ, v):
    """content denoted by an argument of the given (demangled) type"""
    if typ.startswith("char const*") or typ.startswith("char*"): return lit(ex, st, v)
    if typ == "char": return S(('str', 'chr', v))
    if "basic_string<" in typ or typ.startswith("std::string"): return sget(st, v)
    return None


def m_string(ex, st, ins, fn, args):
    b = names.base(fn.dname); n = b.split("::")[-1]
    ps = names.params(fn.dname) or []
    if n == "basic_string":
        a = [p for p in ps]
        if not a or (len(a) == 1 and "allocator" in a[0] and "basic_string<" not in a[0].split("std::allocator")[0]): v = 0
        else:
            v = strarg(ex, st, a[0], args[1])
            if v is None or len(a) > 1 and "allocator" not in a[1]: v = ex.fresh(st, ins, "str")
            if "&&" in a[0]: sset(st, args[1], S(('moved', v)) if v != 0 else 0)
        sset(st, args[0], v); return O(None)
    if n == "~basic_string": return O(None)
    if n == "operator=" or n == "assign":
        v = strarg(ex, st, ps[0], args[1]) if ps else None
        if v is None or len(ps) > 1: v = ex.fresh(st, ins, "str")
        if ps and "&&" in ps[0] and args[0] != args[1]: sset(st, args[1], S(('moved', v)) if v != 0 else 0)
        sset(st, args[0], v); return O(args[0])
    if n in ("operator+=", "append", "push_back"):
        v = strarg(ex, st, ps[0], args[1]) if ps else None
        if v is None or len(ps) > 1: v = ex.fresh(st, ins, "str")
        sset(st, args[0], cat(num(sget(st, args[0])), num(v))); return O(args[0] if ins.ty.k == "ptr" else None)
    if n == "insert" and len(ps) == 2 and len(args) == 3 and args[1] == 0:
        v = strarg(ex, st, ps[1], args[2])
        if v is not None:
            sset(st, args[0], cat(num(v), num(sget(st, args[0])))); return O(args[0])
    if n == "swap":
        a, c = sget(st, args[0]), sget(st, args[1]); sset(st, args[0], c); sset(st, args[1], a); return O(None)
    if n == "clear": sset(st, args[0], 0); return O(None)
    if n == "empty": return O(eq(slen(st, sget(st, args[0])), 0))
    if n in ("length", "size"): return O(slen(st, sget(st, args[0])))
    if n in ("c_str", "data"): return O(S(('cstr', sget(st, args[0])), True))
    if n in ("operator[]", "at", "front", "back"): return O(S(('chrp', sget(st, args[0]), tuple(args[1:]), n == "back"), True))
    if n in ("begin", "cbegin"): return O(S(('cstr', sget(st, args[0])), True))
    if n in ("end", "cend"): return O(S(('cstrend', sget(st, args[0])), True))
    if n in ("find", "rfind", "compare", "find_first_of", "find_last_of", "find_first_not_of"): return O(S(('strop', n, sget(st, args[0])) + tuple(args[1:])))
    if n in ("reserve", "shrink_to_fit"): return O(None)
    if n == "substr":
        sset(st, args[0], ex.fresh(st, ins, "str")); return O(None)
    sset(st, args[0], ex.fresh(st, ins, "str"))
    return O(ex.fresh(st, ins, "ret", ins.ty.k == "ptr") if ins.ty.k != "void" else None)


def m_strplus(ex, st, ins, fn, args):
    ps = names.params(fn.dname) or []
    if not any("basic_string<" in p for p in ps): return None
    vs = [strarg(ex, st, p, a) for p, a in zip(ps, args[1:])]
    v = ex.fresh(st, ins, "str") if any(x is None for x in vs) else cat(num(vs[0]), num(vs[1]))
    sset(st, args[0], v); return O(None)


def m_streq(ex, st, ins, fn, args):
    ps = names.params(fn.dname) or []
    if not any("basic_string<" in p for p in ps): return None
    vs = [strarg(ex, st, p, a) for p, a in zip(ps, args)]
    if any(x is None for x in vs): return O(NOT(eq(ex.fresh(st, ins, "cmp"), 0)))
    c = eq(vs[0], vs[1]) if vs[0] == vs[1] else eq(slen(st, vs[0]), 0) if vs[1] == 0 else eq(slen(st, vs[1]), 0) if vs[0] == 0 else NOT(eq(S(('strcmp', vs[0], vs[1])), 0))
    return O(c if names.base(fn.dname).endswith("==") else NOT(c))


def m_tostring(ex, st, ins, fn, args):
    sset(st, args[0], S(('str', 'num', args[1]))); return O(None)


# ---- vector: iteration is inlined; changes are opaque --------------------------------------
VEC_OPAQUE = {"push_back", "emplace_back", "reserve", "resize", "clear", "insert", "emplace", "erase", "pop_back", "assign", "~vector", "operator=", "swap", "_M_realloc_insert",
              "shrink_to_fit", "_M_realloc_append", "_M_erase", "_M_insert_rval"}
VEC_GROW = {"push_back", "emplace_back", "resize", "insert", "emplace", "assign", "_M_realloc_insert", "_M_realloc_append", "_M_insert_rval"}
VEC_SHRINK = {"clear", "erase", "pop_back", "resize", "_M_erase"}


def m_vector(ex, st, ins, fn, args):
    n = names.base(fn.dname).split("::")[-1]
    ps = names.params(fn.dname) or []
    if n == "vector":
        if not ps or "allocator" in ps[0] and "vector<" not in ps[0]:
            return None
        if "vector<" in ps[0] and "&&" in ps[0]: return None
    elif n not in VEC_OPAQUE: return None
    if n == "~vector": return O(None)
    v = args[0] if not (n in ("insert", "erase", "emplace") and False) else args[0]
    if n == "reserve":
        f = ex.fresh(st, ins, "cap", True)
        for o in (0, 8, 16): pass
        return O(None)
    if n == "clear":
        st.write(add(v, 8), 8, st.read(v, 8, True)); return O(None)
    for o in ((8,) if n in ("push_back", "emplace_back") and False else (0, 8, 16)):
        st.write(add(v, o), 8, ex.fresh(st, ins, "vec%d" % o, True))
    if n == "operator=" and "&&" in (ps[0] if ps else ""):
        for o in (0, 8, 16): st.write(add(args[1], o), 8, 0)
    if n in ("push_back", "emplace_back") and ps and ps[0].endswith("&&") and len(args) == 2:
        # the element takes what its source owned
        if ps[0].startswith("std::unique_ptr<"): st.write(args[1], 8, 0)
        elif ps[0].startswith("std::shared_ptr<") or ps[0].startswith("oqpi::task_handle"):
            st.write(args[1], 8, 0); st.write(add(args[1], 8), 8, 0)
    return O(ex.fresh(st, ins, "ret", ins.ty.k == "ptr") if ins.ty.k != "void" else None)


# ---- queues: opaque, with a memoised size ---------------------------------------------------
def qver(st, q): return st.mon.get(('q', q), 0)


def qsize(st, q):
    s = S(('qsize', q, qver(st, q)))
    t = (((only_sym(s),), 1),)
    if t not in st.facts: st.facts[t] = (0, INF, ())
    return s


def m_queue(ex, st, ins, fn, args):
    n = names.base(fn.dname).split("::")[-1]
    q = args[0]
    if n in ("queue", "deque", "priority_queue", "stack", "list"):
        ps = names.params(fn.dname) or []
        st.mon[('q', q)] = ex.fresh(st, ins, "ver")
        if not ps or "&&" not in ps[0] and "&" not in ps[0]:
            st.assume(eq(qsize(st, q), 0))
        return O(None)
    if n.startswith("~"): return O(None)
    if n in ("empty",): return O(eq(qsize(st, q), 0))
    if n in ("size",): return O(qsize(st, q))
    if n in ("front", "back", "begin", "top", "cbegin", "end", "operator[]", "at"):
        return O(S(('elem', n, q, qver(st, q)) + tuple(args[1:]), True)) if ins.ty.k == "ptr" else default_extern(ex, st, ins, fn, args)
    if n in ("push", "emplace", "push_back", "emplace_back", "push_front", "emplace_front"):
        st.mon[('q', q)] = ex.fresh(st, ins, "ver"); st.assume(ge(qsize(st, q), 1))
        return O(ex.fresh(st, ins, "ret", True) if ins.ty.k == "ptr" else None)
    if n in ("pop", "pop_front", "pop_back", "erase", "clear", "swap", "operator=", "insert", "resize"):
        st.mon[('q', q)] = ex.fresh(st, ins, "ver")
        if n == "clear": st.assume(eq(qsize(st, q), 0))
        if n in ("swap",) or n == "operator=": st.mon[('q', args[1])] = ex.fresh(st, ins, "ver2")
        return O(args[0] if n == "operator=" else (ex.fresh(st, ins, "ret", True) if ins.ty.k == "ptr" else None))
    return default_extern(ex, st, ins, fn, args)


# ---- errno, guards, mutexes -------------------------------------------------------------------
ERRNO = ('errno',)
def m_errno(ex, st, ins, fn, args): return O(S(ERRNO, True))


def set_errno(ex, st, ins, tag="errno"):
    v = ex.fresh(st, ins, tag)
    st.write(S(ERRNO, True), 4, v)
    return v


def m_guard_acquire(ex, st, ins, fn, args): return O(1)


def m_lock_ok(ex, st, ins, fn, args): return O(0)


def m_trylock(ex, st, ins, fn, args): return [Outcome(0, tag="ok"), Outcome(16, tag="busy")]


def m_assert(ex, st, ins, fn, args):
    """a failed runtime check: the program is broken, nothing is required from there on"""
    ex.stats["asserted"] += 1
    return "end"


def m_swapbytes(ex, st, ins, fn, args): return None


def ret0(ex, st, ins, fn, args): return O(0)


def m_now(ex, st, ins, fn, args):
    v = ex.fresh(st, ins, "now")
    return O(v)


def m_string_other(ex, st, ins, fn, args): return default_extern(ex, st, ins, fn, args)


TABLE = {
    "operator new": m_new, "operator new[]": m_new, "malloc": m_new,
    "std::__shared_count::__shared_count": pi_copy, "std::__weak_count::__weak_count": pi_copy,
    "std::__shared_count::operator=": pi_copy, "std::__weak_count::operator=": pi_copy,
    "std::__shared_count::~__shared_count": VOID, "std::__weak_count::~__weak_count": VOID,
    "std::_Sp_counted_base::_M_add_ref_copy": VOID, "std::_Sp_counted_base::_M_release": VOID, "std::_Sp_counted_base::_M_weak_release": VOID,
    "std::_Sp_counted_base::_M_weak_add_ref": VOID, "std::_Sp_counted_base::_M_add_ref_lock": VOID, "std::_Sp_counted_base::_M_get_use_count": esft_count,
    "std::__cxx11::to_string": m_tostring, "std::to_string": m_tostring, "std::operator+": m_strplus, "std::operator==": m_streq, "std::operator!=": m_streq,
    "__errno_location": m_errno, "__cxa_guard_acquire": m_guard_acquire, "__cxa_guard_release": VOID, "__cxa_guard_abort": VOID, "__cxa_atexit": ret0,
    "pthread_mutex_lock": m_lock_ok, "pthread_mutex_unlock": m_lock_ok, "pthread_mutex_trylock": m_trylock,
    "pthread_rwlock_wrlock": m_lock_ok, "pthread_rwlock_rdlock": m_lock_ok, "pthread_rwlock_unlock": m_lock_ok,
    "oqpi::assert_function": m_assert, "oqpi::assert_and_return_false": m_assert, "oqpi::assert_and_return_true": m_assert, "oqpi::debugger_break": m_assert,
    "std::this_thread::sleep_for": default_extern, "std::chrono::_V2::system_clock::now": m_now, "std::chrono::_V2::steady_clock::now": m_now,
    "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset,
    "std::allocator::allocator": VOID, "std::allocator::~allocator": VOID, "std::__new_allocator::__new_allocator": VOID,
}
PREFIX = [
    ("std::__cxx11::basic_string::", m_string), ("std::basic_string::", m_string),
    ("std::vector::", m_vector),
    ("std::queue::", m_queue), ("std::deque::", m_queue), ("std::__cxx11::list::", m_queue), ("std::priority_queue::", m_queue),
    ("std::basic_ostream::", default_extern), ("std::operator<<", default_extern),
]
