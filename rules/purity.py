"""P37: what a check evaluates has no effect, the macros evaluate what they document, nothing else depends on checks being enabled."""
import re, os, hashlib
from lib import *

SHADOW = os.path.join(HERE, "witness", "shadow", "checks.hpp")
TUS = ("core.cpp", "contexts.cpp", "helpers.cpp", "loops.cpp", "results.cpp", "sync.cpp", "threads.cpp", "uses_algorithms.cpp", "uses_scheduling.cpp", "uses_sync.cpp", "uses_threads.cpp")
WPV = ("-flto", "-fwhole-program-vtables", "-fvisibility=hidden")
LOCAL, CONST, UNK = "local", "const", "unknown"

# functions of the C library and of the runtime: parameters they write through
EXTERN = {"strlen": (), "strcmp": (), "strncmp": (), "memcmp": (), "memchr": (), "strchr": (), "strstr": (), "bcmp": (), "getpid": (), "gettid": (), "pthread_self": (), "pthread_equal": (),
          "sched_get_priority_min": (), "sched_get_priority_max": (), "sysconf": (), "getenv": (), "isalnum": (), "isalpha": (), "isdigit": (), "isspace": (), "abs": (), "geteuid": (), "getuid": (),
          "memcpy": (0,), "memmove": (0,), "memset": (0,), "strcpy": (0,), "strncpy": (0,), "snprintf": (0,), "vsnprintf": (0,), "sem_getvalue": (1,), "clock_gettime": (1,), "gettimeofday": (0,), "getrlimit": (1,),
          "pthread_getschedparam": (1, 2), "pthread_getaffinity_np": (2,), "sched_getaffinity": (2,), "pthread_getname_np": (1,), "getrusage": (1,), "sched_getcpu": (), "get_nprocs": (), "pthread_attr_getdetachstate": (1,),
          "__errno_location": (), "__cxa_guard_acquire": (), "__cxa_guard_release": (), "__cxa_guard_abort": (), "__cxa_begin_catch": (), "__cxa_end_catch": (), "__clang_call_terminate": (), "__cxa_pure_virtual": (),
          "__dynamic_cast": (), "__cxa_bad_cast": (), "__cxa_bad_typeid": (), "__gxx_personality_v0": (), "verif_dyn": (), "verif_shared": ()}
FRESH = ("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "malloc", "calloc")
FREE = ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "free")
SHARED = re.compile(r"^std::(__)?(shared_ptr|weak_ptr|shared_count|weak_count|_Sp_counted|enable_shared)|^std::(__shared_ptr|__shared_count|__weak_ptr|__weak_count|_Sp_)")


def strip_ret(d):
    """a demangled function without the return type that template instances show"""
    depth = 0; cut = 0
    for i, ch in enumerate(d):
        if ch in "<(": 
            if ch == "(" and depth == 0: break
            depth += 1
        elif ch in ">)": depth -= 1
        elif ch == " " and depth == 0: cut = i + 1
    return d[cut:] if "operator" not in d[:cut] else d


def params(d):
    """the demangled types of the parameters"""
    e = d.rfind(")")
    if e < 0: return []
    depth = 0; i = e
    while i >= 0:
        if d[i] in ")>" and not (d[i] == ">" and d[i - 1] == "-"): depth += 1
        elif d[i] in "(<":
            depth -= 1
            if depth == 0: break
        i -= 1
    out = []; cur = ""; depth = 0
    for ch in d[i + 1:e]:
        if ch in "<(": depth += 1
        elif ch in ">)": depth -= 1
        if ch == "," and depth == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


class Effects:
    """for every function: the parameters it writes through, its other effects, and what its result may point to"""
    def __init__(self, mod, vtypes):
        self.mod = mod; self.sum = {}; self.vtypes = vtypes; self.busy = set(); self.dirty = False; self.analysed = set()

    def of(self, name):
        if name in self.sum and name not in self.redo: return self.sum[name]
        return self.compute(name)

    def root(self, name):
        """summary of a function, at the fixed point"""
        while True:
            self.dirty = False; self.redo = set(self.sum); r = self.compute(name)
            if not self.dirty: return r

    redo = frozenset()

    def compute(self, name):
        if name in self.busy: return self.sum.setdefault(name, (frozenset(), frozenset()))
        self.redo = set(self.redo) - {name}
        self.busy.add(name)
        fn = self.mod.fns[name]
        ext = self.external(fn)
        new = ext if ext is not None else self.analyse(fn)
        self.busy.discard(name)
        old = self.sum.get(name, (frozenset(), frozenset()))
        new = (old[0] | new[0], old[1] | new[1])
        if new != old: self.dirty = True
        self.sum[name] = new
        return new

    def external(self, fn):
        """known functions: (effects, roots of the result), None: analyse the body"""
        n = fn.name; d = strip_ret(fn.dname); unk = frozenset([UNK])
        W = lambda *i: frozenset(('p', j) for j in i)
        if n.startswith("llvm."):
            if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")): return W(0), frozenset()
            return frozenset(), unk
        if n in FRESH: return frozenset(), frozenset([LOCAL])
        if n in FREE: return W(0), frozenset()
        if n in EXTERN: return W(*EXTERN[n]), unk
        if n.startswith(("_ZSt", "_ZNSt")) and "__throw_" in n: return frozenset(), frozenset()
        if n.startswith(("_ZSt9terminatev", "_ZN9__gnu_cxx")) and not fn.defined: return frozenset(), unk
        if d.startswith("verif_sink"): return frozenset(), frozenset()
        if SHARED.match(d):
            w = set()
            ps = params(fn.dname)
            static = 0
            if not n.startswith("_ZNK") and n.startswith("_ZN"): w.add(0)
            for i, p in enumerate(ps):
                if p.endswith("&&") or (n.find("swap") >= 0): w.add(i + 1)
            return W(*w), None and unk or self.ret_only(fn)
        if d.startswith("std::") or n.startswith(("_ZNSt", "_ZNKSt", "_ZNSs", "_ZNKSs", "_ZSt")):
            if fn.defined: return None
            if n.startswith("_ZNK"): return frozenset(), unk
            if n.startswith("_ZN"): return W(0), frozenset([('p', 0)])
            return frozenset([('x', "calls %s" % d, None)]), unk
        if fn.defined: return None
        return frozenset([('x', "calls %s" % d, None)]), unk

    def ret_only(self, fn):
        return self.analyse(fn)[1] if fn.defined and fn.name not in self.sum else frozenset([UNK])

    def targets(self, ins, val):
        """functions a virtual call can reach: [names] or None. The type is the one tested on the table the slot was loaded from."""
        c = ins.x["callee"]
        if not (isinstance(c, tuple) and c[0] == 'v'): return None
        df = self.defs
        ld = df.get(c[1])
        if ld is None or ld.op != "load": return None
        g = df.get(ld.a[0][1]) if isinstance(ld.a[0], tuple) and ld.a[0][0] == 'v' else None
        off = 0; vt = ld.a[0]
        if g is not None and g.op == "getelementptr" and not g.x[1]: off = g.x[0]; vt = g.a[0]
        ty = None
        for i in self.insts:
            if i.op == "call" and i.x.get("meta") and i.a and i.a[0] == vt:
                m = re.search(r'!"(_ZTS[^"]*)"', i.x["meta"])
                if m: ty = m.group(1)
        if ty is None: return None
        out = set()
        for gname, types in self.vtypes.items():
            for a, t in types:
                if t != ty: continue
                init = self.mod.ginit(gname) or {}
                x = init.get(a + off)
                if x is None or not (isinstance(x[1], tuple) and x[1][0] == "fn"): return None
                out.add(x[1][1])
        return sorted(out) or None

    def analyse(self, fn):
        """Roots of a pointer: an object of this function (a, id), memory it allocated (local), what a parameter points to (p, i), what is
        reachable from there (d, i), a global (g, name), constants, anything (unknown). Effects: writing through (p, i) or (d, i),
        storing a pointer there (s, i, root), others (x, text, location)."""
        self.mod.body(fn); self.analysed.add(fn.dname)
        save = getattr(self, "defs", None), getattr(self, "insts", None)
        insts = [i for b in fn.blocks for i in b.insts]
        defs = {i.id: i for i in insts}
        R = {}; content = {}; eff = set(); ret = set()
        guarded = any(i.op in ("call", "invoke") and i.x["callee"] == ("c", ("fn", "__cxa_guard_acquire")) for i in insts)
        def kind(r): return r[0] if isinstance(r, tuple) else r
        def roots(o):
            if isinstance(o, tuple):
                if o[0] == 'v':
                    if o[1] < fn.nparams: return frozenset([('p', o[1])])
                    return frozenset(R.get(o[1], ()))
                if o[0] == 'c':
                    c = o[1]
                    if c[0] == 'g': return frozenset([('g', c[1])])
                    return frozenset([CONST])
            return frozenset([CONST])
        def below(rs):
            """what is stored in the memory the roots name"""
            out = set()
            for r in rs:
                k = kind(r)
                if k in ('a', LOCAL): out |= content.get(r, set())
                elif k in ('p', 'd'): out.add(('d', r[1]))
                elif k != CONST: out.add(UNK)
            return out
        def deep(rs):
            """all that is reachable from there"""
            out = set(); todo = list(below(rs))
            while todo:
                r = todo.pop()
                if r not in out: out.add(r); todo += below([r])
            return out
        def write(rs, what, loc):
            for r in rs:
                k = kind(r)
                if k in ('a', LOCAL, CONST): continue
                if k in ('p', 'd'): eff.add(r)
                elif k == 'g':
                    if guarded and r[1].startswith("_ZZ") or r[1].startswith("_ZGV"): continue
                    eff.add(('x', "%s %s" % (what, ir.demangle(r[1])), loc))
                else: eff.add(('x', what + " memory it does not own", loc))
        def put(rs, vals):
            for r in rs:
                k = kind(r)
                if k in ('a', LOCAL): content.setdefault(r, set()).update(v for v in vals if v != CONST)
                elif k in ('p', 'd'):
                    for v in vals:
                        if v != CONST and v != ('d', r[1]): eff.add(('s', r[1], LOCAL if kind(v) == 'a' else UNK if kind(v) == 'g' else v))
        while True:
            before = (sum(len(x) for x in R.values()), sum(len(x) for x in content.values()), len(eff), len(ret))
            for i in insts:
                new = set()
                if i.op == "alloca": new.add(('a', i.id))
                elif i.op == "load":
                    if i.ty.k != "int" or i.ty.w == 64: new |= below(roots(i.a[0]))
                    if i.x[1]: eff.add(('x', "reads volatile memory", i.loc))
                elif i.op == "store":
                    write(roots(i.a[1]), "writes", i.loc)
                    if i.x[1].k != "int" or i.x[1].w == 64: put(roots(i.a[1]), roots(i.a[0]))
                elif i.op in ("atomicrmw", "cmpxchg"):
                    write(roots(i.a[0]), "modifies", i.loc)
                    for o in i.a[1:]: put(roots(i.a[0]), roots(o))
                    new |= below(roots(i.a[0]))
                elif i.op in ("getelementptr", "bitcast", "addrspacecast", "freeze", "inttoptr", "ptrtoint"): new |= roots(i.a[0])
                elif i.op == "phi":
                    for o in i.a: new |= roots(o)
                elif i.op == "select": new |= roots(i.a[1]) | roots(i.a[2])
                elif i.op in ("insertvalue", "add", "sub"): new |= roots(i.a[0]) | roots(i.a[1])
                elif i.op == "extractvalue": new |= roots(i.a[0])
                elif i.op in ("call", "invoke"):
                    c = i.x["callee"]
                    if isinstance(c, tuple) and c[0] == 'c' and c[1][0] == 'fn': fs = [c[1][1]]
                    elif isinstance(c, tuple) and c[0] == 'c' and c[1][0] == 'asm': eff.add(('x', "executes assembly code", i.loc)); continue
                    else:
                        self.defs, self.insts = defs, insts
                        fs = self.targets(i, c)
                    if fs is None: eff.add(('x', "calls a function that is not known", i.loc)); new.add(UNK)
                    at = lambda j: roots(i.a[j]) if j < len(i.a) else frozenset([UNK])
                    def image(r):
                        k = kind(r)
                        return at(r[1]) if k == 'p' else deep(at(r[1])) if k == 'd' else {r}
                    for n in fs or ():
                        e, rr = self.of(n); w = "writes (%s)" % names.base(self.mod.fns[n].dname)
                        for x in e:
                            if x[0] == 'p':
                                write(at(x[1]), w, i.loc)
                            elif x[0] == 'd': write(deep(at(x[1])), w, i.loc)
                            elif x[0] == 's': put(set(at(x[1])) | deep(at(x[1])), image(x[2]))
                            else: eff.add((x[0], x[1], x[2] or i.loc))
                        if n.startswith("llvm.mem") and len(i.a) > 1: put(roots(i.a[0]), below(roots(i.a[1])))
                        if not self.mod.fns[n].defined and not n.startswith("llvm.") and n not in FREE and n not in EXTERN:
                            for x in e:
                                if x[0] == 'p': put(at(x[1]), {LOCAL} if n.startswith(("_ZN", "_ZS")) else {UNK})
                        for r in rr: new |= set(image(r))
                elif i.op == "ret" and i.a:
                    for r in roots(i.a[0]): ret.add(LOCAL if kind(r) == 'a' else r)
                if i.ty.k in ("int", "float"): new.discard(UNK)
                if new: R.setdefault(i.id, set()).update(new)
            if before == (sum(len(x) for x in R.values()), sum(len(x) for x in content.values()), len(eff), len(ret)): break
        self.defs, self.insts = save
        return frozenset(eff), frozenset(ret)


def vtable_types(mod):
    """{table: [(offset, type)]} from the type metadata of the tables"""
    ll = mod.path + ".ll"
    rc, o = sh(["/usr/lib/llvm-18/bin/llvm-dis", mod.path, "-o", ll])
    if rc: raise BuildError(o)
    txt = open(ll).read(); os.unlink(ll)
    md = {m.group(1): (int(m.group(2)), m.group(3)) for m in re.finditer(r'^!(\d+) = !\{i64 (\d+), !"(_ZTS[^"]*)"\}', txt, re.M)}
    out = {}
    for m in re.finditer(r'^@"?([^" =]+)"? = [^\n]*?((?:, !type !\d+)+)', txt, re.M):
        out[m.group(1)] = [md[x] for x in re.findall(r"!type !(\d+)", m.group(2)) if x in md]
    return out


def job_pure(ck, tu, nd):
    mod = ck.mod(tu, nd, ("-include", SHADOW) + WPV)
    ef = Effects(mod, vtable_types(mod))
    n = 0
    for name, fn in list(mod.fns.items()):
        if not fn.defined: continue
        d = strip_ret(fn.dname)
        m = re.match(r"verif_(cond|args)<", d)
        if not m: continue
        n += 1; ck.obligation(None)
        eff, _ = ef.root(name)
        mod.body(fn)
        # where the function called is defined
        site = None
        for b in fn.blocks:
            for i in b.insts:
                if i.op in ("call", "invoke") and i.x["callee"][0] == 'c' and i.x["callee"][1][0] == 'fn':
                    g = mod.fns[i.x["callee"][1][1]]
                    if g.defined and "operator()" in g.dname:
                        mod.body(g); ls = [j.loc for bb in g.blocks for j in bb.insts if j.loc and j.loc[0].startswith(INC)]
                        if ls: site = ls[0]
        ck.sites.add("%s:%s" % (os.path.relpath(site[0], REPO), site[1]) if site else d[:80])
        if not site or not site[0].startswith(INC): continue
        for e in sorted(eff, key=str):
            if e[0] == 's': continue
            what = "%s %s" % ("the condition of a check" if m.group(1) == "cond" else "the message of a check", e[1] if e[0] == 'x' else "writes memory it does not own")
            ck.violation(("effect", os.path.relpath(site[0], REPO), m.group(1), e[1] if e[0] == "x" else "captures"), "%s [%s]" % (what, mod.label), e[2] if e[0] == 'x' and e[2] else site, [(site, "evaluated only when checks are enabled%s" % ("" if m.group(1) == "cond" else " and fail"))])
    ck.funcs |= ef.analysed
    ck.count("conditions_and_messages", n); ck.roots.append("%s: conditions and messages" % mod.label)


# ---- nothing else depends on the configuration -----------------------------------------------------------------------------
def ll_functions(tu, nd):
    out = os.path.join(tmpdir(), "%s.%d.ll" % (tu, nd))
    cmd = [CXX, "-std=gnu++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g0", "-w", "-I", INC, "-include", SHADOW] + (["-DNDEBUG"] if nd else []) + ["-S", "-emit-llvm", os.path.join(HERE, "witness", tu), "-o", out]
    rc, o = sh(cmd)
    if rc: raise BuildError("cannot compile %s: %s" % (tu, o[:2000]))
    return out


def split_ll(path):
    txt = open(path).read()
    strs = {}
    for m in re.finditer(r'^(@[.\w"$]+) = private [^\n]*?(c"[^\n]*?"|zeroinitializer), align', txt, re.M): strs[m.group(1)] = "@str<" + hashlib.md5(m.group(2).encode()).hexdigest()[:12] + ">"
    fns = {}
    for m in re.finditer(r'^define [^\n]*?(@[\w.$]+|@"[^"]+")\(.*?^\}', txt, re.M | re.S):
        t = re.sub(r"(, )?![\w.]+( !\d+)?", "", m.group(0)); t = re.sub(r" #\d+", "", t)
        t = re.sub(r'(%"?(?:struct|class|union)\.[^"\s,*)\]}]*?)\.\d+(?=["\s,*)\]}])', r"\1", t)
        t = re.sub(r'(%"(?:struct|class|union)\.[^"]*?)\.\d+"', r'\1"', t)
        t = re.sub(r'@\.str[.\w]*|@__PRETTY_FUNCTION__[.\w]*|@__const[.\w]*', lambda x: strs.get(x.group(0), x.group(0)), t)
        fns[m.group(1)] = t
    return fns, txt


def drop_unused(t, pure):
    """without the loads and the calls of functions without effect whose results are not used"""
    def fix(m):
        f = m.group(0); uses = {}
        for x in re.findall(r"%[\w.]+", f): uses[x] = uses.get(x, 0) + 1
        out = []
        for l in f.split("\n"):
            k = re.match(r"(\s*)(%[\w.]+) = load atomic ([^,]+), ", l)
            if k and uses[k.group(2)] == 1: l = "%s%s = freeze %s undef" % k.groups()
            k = re.match(r"(\s*)(%[\w.]+) = (?:tail |notail )?call ([^@(]*?)([\w%.\"]+|\{[^}]*\}) @([\w.$]+)\(", l)
            if k and uses[k.group(2)] == 1 and pure(k.group(5)): l = "%s%s = freeze %s undef" % (k.group(1), k.group(2), k.group(4))
            out.append(l)
        return "\n".join(out)
    return re.sub(r"^define .*?^\}", fix, t, flags=re.M | re.S)


def job_same(ck, tu):
    a, b = ll_functions(tu, False), ll_functions(tu, True)
    fa, _ = split_ll(a); fb, _ = split_ll(b)
    def differ(fa, fb): return sorted(n for n in set(fa) | set(fb) if fa.get(n) != fb.get(n))
    df = differ(fa, fb)
    if df:
        # without the calls that end the program when a condition of assert() does not hold, and what only they used
        mod = ck.mod(tu, False, ("-include", SHADOW) + WPV); ef = Effects(mod, vtable_types(mod)); memo = {}
        def pure(n):
            if n not in memo: memo[n] = n in mod.fns and mod.fns[n].defined and "verif_" not in mod.fns[n].dname and not ef.root(n)[0]
            return memo[n]
        for p in (a, b):
            t = open(p).read()
            t = re.sub(r"^\s*(call|invoke) void @__assert_fail\(.*$", "", t, flags=re.M)
            open(p, "w").write(t)
            rc, o = sh([OPT, "-S", "-passes=function(sroa,simplifycfg,instcombine,early-cse)", p, "-o", p])
            if rc: raise Incomplete("opt: " + o[:300])
            for _ in range(3):
                t = open(p).read()
                t = re.sub(r"^\s*(tail )?call void @llvm\.assume\(.*$", "", t, flags=re.M)
                open(p, "w").write(drop_unused(t, pure))
                rc, o = sh([OPT, "-S", "-passes=function(instcombine,early-cse,adce,simplifycfg,instcombine,adce)", p, "-o", p])
                if rc: raise Incomplete("opt: " + o[:300])
        fa, _ = split_ll(a); fb, _ = split_ll(b); df = differ(fa, fb)
    ck.obligation(None); ck.count("functions_compared", len(fa))
    for n in fa:
        d = ir.demangle(n.strip('@"'))
        if "oqpi" in d: ck.funcs.add(d)
    for n in df:
        d = ir.demangle(n.strip('@"'))
        # functions of one configuration only matter if others call them, which then differ
        if n in fa and n in fb:
            ck.violation(("differs", strip_ret(d)), "%s does something else when checks are disabled, not counting the conditions of checks [%s]" % (d, tu), (d, 0))
    ck.roots.append("%s: both configurations" % tu)


# ---- the macros ------------------------------------------------------------------------------------------------------------
class RMacro(Mon):
    """conditions evaluated, messages evaluated, failures reported"""
    def __init__(self, kind, debug): 
        self.kind = kind; self.debug = debug; self.collect = True
        self.models = {"verif_c1": self.m_c, "verif_c2": self.m_c, "verif_arg": self.m_arg, "verif_after": self.m_after, "oqpi::assert_function": self.m_fail, "oqpi::debugger_break": self.m_brk, "oqpi::assert_and_return_false": self.inline, "oqpi::assert_and_return_true": self.inline}
    def init(self, st): st.mon["c"] = (); st.mon["msg"] = 0; st.mon["fail"] = 0; st.mon["after"] = 0
    def m_c(self, ex, st, ins, fn, args):
        n = fn.name[-1]
        return [Outcome(1, tag=(n, 1)), Outcome(0, tag=(n, 0))]
    def m_arg(self, ex, st, ins, fn, args): return [Outcome(ex.fresh(st, ins, "arg"), tag=("arg",))]
    def m_after(self, ex, st, ins, fn, args): return [Outcome(None, tag=("after",))]
    def m_fail(self, ex, st, ins, fn, args): return [Outcome(ex.fresh(st, ins, "answer"), tag=("fail",))]
    def inline(self, ex, st, ins, fn, args): return None
    def m_brk(self, ex, st, ins, fn, args): return [Outcome(None, tag=("brk",))]
    def event(self, ex, st, kind, e):
        if kind == "call" and e.get("tag"):
            t = e["tag"]
            if t[0] in "12": st.mon["c"] = st.mon["c"] + (t,)
            elif t[0] == "arg": st.mon["msg"] = 1
            elif t[0] == "fail": st.mon["fail"] = min(2, st.mon["fail"] + 1)
            elif t[0] == "after": st.mon["after"] = min(2, st.mon["after"] + 1)
        elif kind == "store" and not st.mon["fail"]:
            b, o = split_ptr(e["addr"])
            if SYM[b][0][0] == 'gl': self.bad(ex, st, "writes", "a check that holds writes static memory")
    def finish(self, ex, st, ret):
        c, msg, fail, after = st.mon["c"], st.mon["msg"], st.mon["fail"], st.mon["after"]
        k = self.kind; base = k.split("_")[0]; f = base.endswith("f"); b0 = base[:-1] if f and base not in ("verif",) else base
        evald = self.debug or b0 == "verify"
        v = dict(c)
        shape = k.split("_")[1] if "_" in k else ""
        if shape == "": need = [("1",)]; holds = v.get("1")
        elif shape == "or": need = [("1",), ("1", "2")]; holds = v.get("1") or v.get("2")
        else: need = [("1",), ("1", "2")]; holds = v.get("2") if v.get("1") else 1
        seq = tuple(x[0] for x in c)
        if not evald:
            if seq: return self.bad(ex, st, "evaluated", "the condition is evaluated with checks disabled")
            holds = 1
        else:
            exp = ("1",)
            if shape == "or" and not v.get("1"): exp = ("1", "2")
            if shape == "ternary" and v.get("1"): exp = ("1", "2")
            if seq != exp: return self.bad(ex, st, "times", "the condition is evaluated as %s where %s was written" % (seq or "nothing", exp))
        if after != 1: return self.bad(ex, st, "after", "the code after the check is executed %s" % ("more than once" if after else "on no account"))
        if holds:
            if msg: return self.bad(ex, st, "msg", "the message of a check that holds is evaluated")
            if fail: return self.bad(ex, st, "fails", "a check that holds fails")
        elif self.debug and not fail: return self.bad(ex, st, "silent", "a check that does not hold is not reported with checks enabled")
        if b0 in ("ensure", "failed") and (holds or self.debug):
            exp = bool(holds) ^ (b0 == "failed") ^ bool(shape)
            for s2, t in cases(ex, st, ret):
                if t != exp: self.bad(ex, s2, "value", "the value is %s when the condition %s" % (t, "holds" if holds else "does not hold"))


def job_macro(ck, k, nd):
    mod = ck.mod("checks.cpp", nd)
    def setup(st):
        for g in mod.globs:
            if g.startswith("_ZZ") and not ir.gl_const(mod.globs[g]):
                for off, (size, v) in (mod.ginit(g) or {}).items():
                    if isinstance(v, int): st.write(add(S(('gl', g), True), off), size, v)
    ck.obligation(k)
    ck.explore(mod, "k_" + k, RMacro(k, not nd), setup=setup)


OUTPUT = ("__ostream_insert", "operator<<", "write", "fwrite", "puts", "fputs", "printf", "fprintf", "vprintf", "vfprintf", "dprintf", "syslog", "put", "putchar", "perror", "print", "vprint_unicode", "vprint_nonunicode")


class RReport(Mon):
    """a failed check is written out on every path that returns from the report"""
    def __init__(self): self.models = {"oqpi::assert_function": lambda *a: None, "verif_after": self.m_after}
    def init(self, st): st.mon["out"] = 0
    def m_after(self, ex, st, ins, fn, args): return [Outcome(None, tag=("after",))]
    def event(self, ex, st, kind, e):
        if kind == "call" and e["name"].split("::")[-1].split("<")[0].strip() in OUTPUT: st.mon["out"] = 1
        elif kind == "enter" and ir.demangle(e["fn"].name).find("operator<<") >= 0: st.mon["out"] = 1
    def finish(self, ex, st, ret):
        if not st.mon["out"]: self.bad(ex, st, "quiet", "a check that does not hold is not written out")


def job_report(ck):
    mod = ck.mod("checks.cpp", False); ck.obligation("report")
    ck.explore(mod, "k_report", RReport())


MACROS = ("check", "checkf", "verify", "verifyf", "ensure", "ensuref", "failed", "failedf", "check_or", "checkf_or", "verify_or", "ensure_or", "ensuref_or", "failed_or", "failedf_or", "check_ternary", "ensure_ternary", "failed_ternary")


def run_P37(ck):
    ck.explanation = "the conditions and messages of all checks of the library, each made a function of its own and summarised by an interprocedural effect analysis; the macros, on all paths; all functions of the library compiled with and without NDEBUG once the macros are taken out"
    ck.rule_text = "conditions and messages that are not evaluated in every configuration write nothing but their temporaries; macros evaluate their condition once, or not at all where documented, and messages only on failure; functions are the same in both configurations but for their checks"
    ck.configs = ["checks enabled", "NDEBUG"]
    jobs = [("macro " + k, job_macro, (k, nd)) for k in MACROS for nd in CONFIGS] + [("report", job_report, ())]
    jobs += [(tu, job_same, (tu,)) for tu in TUS] + [(tu, job_pure, (tu, False)) for tu in TUS]
    ck.parts(jobs, tus=("checks.cpp",))
