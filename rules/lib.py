"""Common machinery of the checks: building the analysed modules, locating the state of the library through its public
interface, running an exploration, and reporting."""
import os, sys, subprocess, tempfile, time, json, hashlib, shutil, atexit
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "engine"))
import ir, explore, models, names, values
from values import *
from explore import Outcome, Incomplete, Rule, Explorer, INF

REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "include")
CXX = "/usr/bin/clang++"
OPT = "/usr/lib/llvm-18/bin/opt"
_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="oqpi-verif-")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


class BuildError(Exception): pass


class Unusable(Exception):
    """a use of the public interface that the property speaks of does not compile, although the headers do"""
    def __init__(self, tu, out):
        Exception.__init__(self, tu); self.tu = tu; self.out = out
        e = [l for l in out.split("\n") if "error:" in l] or [out[:200]]
        self.what = e[0].strip()
    def into(self, ck): ck.violation(("unusable", self.tu.split(" ")[0]), "a use of the public interface that this property speaks of does not compile [%s]: %s" % (self.tu, self.what.split("error:")[-1].strip()), (self.what.split(":") + ["", ""])[:2], [(None, l) for l in self.out.split("\n")[:40]])


# witnesses that only use what every user of the library uses
PUBLIC = ("loops.cpp", "results.cpp", "helpers.cpp", "contexts.cpp", "sync.cpp", "threads.cpp")
def usable(ndebug):
    t = os.path.join(tmpdir(), "plain%d.%d.cpp" % (int(ndebug), os.getpid()))
    with open(t, "w") as f: f.write('#include <cstdarg>\n#include "oqpi.hpp"\nint main() {}\n')
    rc, _ = sh([CXX, "-std=gnu++17", "-w", "-I", INC, "-fsyntax-only"] + (["-DNDEBUG"] if ndebug else []) + [t])
    return rc == 0


def sh(cmd, timeout=300):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


_mods = {}
def build(tu, ndebug=False, flags=(), unwind=False):
    key = (tu, ndebug, tuple(flags), unwind)
    if key in _mods: return _mods[key]
    src = os.path.join(HERE, "witness", tu)
    out = os.path.join(tmpdir(), "%s.%d.%d.%d.bc" % (os.path.basename(tu), int(ndebug), len(_mods), os.getpid()))
    cmd = [CXX, "-std=gnu++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-w", "-I", INC] + (["-DNDEBUG"] if ndebug else []) + list(flags) + ["-c", "-emit-llvm", src, "-o", out + ".0"]
    rc, o = sh(cmd)
    if rc and tu in PUBLIC and usable(ndebug): raise Unusable(tu + (" (NDEBUG)" if ndebug else ""), o)
    if rc: raise BuildError("cannot compile %s%s:\n%s" % (tu, " -DNDEBUG" if ndebug else "", o[:3000]))
    rc, o = sh([OPT, "-passes=function(sroa,early-cse,simplifycfg,tailcallelim,simplifycfg)", out + ".0", "-o", out])
    if rc: raise BuildError(o)
    m = ir.Module(out); m.unwind = unwind
    m.label = tu + (" (NDEBUG)" if ndebug else "")
    m.ndebug = ndebug
    _mods[key] = m
    return m


def m_dyn(ex, st, ins, fn, args):
    """verif_dyn(object, &typeid(T)): the dynamic type of the object is T"""
    b, o = split_ptr(args[1])
    n = SYM[b][0][1]
    assert n.startswith("_ZTI"), n
    vt = "_ZTV" + n[4:]
    if vt not in ex.mod.globs or ex.mod.ginit(vt) is None: raise Incomplete("no virtual table for " + n)
    st.write(args[0], 8, add(S(('gl', vt), True), 16))
    return models.O(None, [(eq(args[0], 0), False)])


def m_shared(ex, st, ins, fn, args):
    """verif_shared(enable_shared_from_this subobject, object): the object is owned by a shared pointer"""
    st.write(args[0], 8, args[1])
    st.write(add(args[0], 8), 8, S(('ctrl', args[1]), True))
    return models.O(None)


def m_user(ex, st, ins, fn, args):
    """a member of a user supplied part (declared only): touches nothing of the library"""
    if fn.defined: return None
    ret = ex.fresh(st, ins, "ret", ins.ty.k == "ptr") if ins.ty.k != "void" else None
    if names.base(fn.dname).endswith("operator="): ret = args[0]
    if ret is not None and ins.ty.k == "int" and ins.ty.w == 1: ret = NOT(eq(ret, 0))
    return models.O(ret)


def m_tryPop(ex, st, ins, fn, args):
    """Q::tryPop(handle&): true with a valid handle, or false and nothing changed"""
    t = ex.fresh(st, ins, "task", True); c = ex.fresh(st, ins, "ctrl", True)
    return [Outcome(0, tag="empty"), Outcome(1, [(eq(t, 0), False)], [(args[1], 8, t), (add(args[1], 8), 8, c)], tag=("pop", t))]


USER = {"WC::*": m_user, "TC::*": m_user, "GC::*": m_user, "Th::*": m_user, "Nf::*": m_user, "Ev::*": m_user, "Q::*": m_user, "Q::tryPop": m_tryPop,
        "FnI::*": m_user, "FnV::*": m_user, "verif_thread_begin": m_user, "verif_thread_end": m_user}


class ProbeRule(Rule):
    def __init__(self): self.evs = []
    def event(self, ex, st, kind, e):
        if kind in ("load", "store", "rmw", "cas", "vcall", "call", "div"): self.evs.append((kind, e))


class Check:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.viol = {}          # key -> dict
        self.cnt = {}
        self.funcs = set(); self.roots = []
        self.paths = 0; self.calls = 0; self.events = 0; self.steps = 0
        self.sites = set()
        self.t0 = time.time()
        self.notes = []
        self.data = []          # what the parts hand back to the check
        self._probe = {}
        self.errors = []; self.explanation = ""; self.rule_text = ""; self.configs = []

    def count(self, what, n=1): self.cnt[what] = self.cnt.get(what, 0) + n

    def obligation(self, site=None):
        self.count("obligations")
        if site: self.sites.add(site)

    def violation(self, key, msg, loc=None, trace=(), stack=()):
        if key not in self.viol: self.viol[key] = dict(key=key, msg=msg, loc=loc, trace=list(trace), stack=list(stack))

    def mod(self, tu, ndebug=False, flags=(), unwind=False): return build(tu, ndebug, flags, unwind)

    # ---- independent parts, in parallel ----
    def parts(self, jobs, procs=8, tus=()):
        """jobs: (label, function, args): each called with a fresh Check first; results are merged. tus: what they analyse, built once beforehand"""
        for tu in tus:
            for nd in CONFIGS: self.mod(tu, nd)
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        q = [(self.pid, self.tier, j) for j in jobs]
        _JOBS[:] = q
        if len(q) == 1 or os.environ.get("VERIF_SERIAL"): res = [_job(i) for i in range(len(q))]
        else:
            import concurrent.futures as cf
            with cf.ProcessPoolExecutor(min(procs, len(q)), ctx) as pool: res = list(pool.map(_job, range(len(q))))
        for r in res:
            for k, v in r["viol"].items(): self.viol.setdefault(k, v)
            for k, v in r["cnt"].items(): self.count(k, v)
            self.funcs |= r["funcs"]; self.roots += r["roots"]; self.sites |= r["sites"]
            for n in ("paths", "calls", "events", "steps"): setattr(self, n, getattr(self, n) + r[n])
            self.errors += r["errors"]; self.data += r["data"]

    def scratch(self):
        """a check whose results do not count"""
        if not hasattr(self, "_scr"): self._scr = Check(self.pid, self.tier)
        return self._scr

    # ---- probes ----
    def probe(self, mod, root, args=None, st=None):
        k = (mod.path, root)
        if args is None and k in self._probe: return self._probe[k]
        r = ProbeRule(); explore._MOD[0] = mod
        r.models = {"verif_dyn": m_dyn, "verif_shared": m_shared}
        ex = Explorer(mod, models.Models(mod, r), r)
        ex.collect = True
        ex.start(root, args, st)
        res = (r.evs, ex.finals, ex)
        if args is None: self._probe[k] = res
        return res

    def arg(self, root, i, ptr=True): return S(('arg', i, root), ptr)

    def fields(self, mod, root, kinds=("load", "rmw", "cas", "store"), nth=0):
        """addresses, relative to the first parameter, accessed by a probe"""
        evs, fin, ex = self.probe(mod, root)
        a = self.arg(root, 0)
        out = []
        for k, e in evs:
            if k in kinds:
                d = sub(e["addr"], a)
                if isinstance(d, int) and d not in out: out.append(d)
        return out

    def field(self, mod, root, kinds=("load", "rmw", "cas", "store")):
        o = self.fields(mod, root, kinds)
        if len(o) != 1: raise Incomplete("%s: expected one field, found %s" % (root, o))
        return o[0]

    def slot(self, mod, root):
        evs, fin, ex = self.probe(mod, root)
        s = {e["slot"] for k, e in evs if k == "vcall"}
        if len(s) != 1 or None in s: raise Incomplete("%s: no virtual call found" % root)
        return s.pop()

    def retval(self, mod, root):
        evs, fin, ex = self.probe(mod, root)
        v = {f[1] for f in fin}
        if len(v) != 1: raise Incomplete("%s: several values" % root)
        return v.pop()

    # ---- exploration ----
    def explore(self, mod, root, rule, args=None, setup=None, opts=None):
        explore._MOD[0] = mod
        rule.check = self; rule.root = root; rule.mod = mod
        tab = {"verif_dyn": m_dyn, "verif_shared": m_shared}
        tab.update(USER)
        tab.update(getattr(rule, "models", {}))
        rule.models = tab
        o = dict(max_time=400, max_states=400000, max_steps=8000000)
        o.update(opts or {})
        ex = Explorer(mod, models.Models(mod, rule), rule, o)
        ex.collect = getattr(rule, "collect", False)
        st = None
        if setup:
            st = explore.State(); st.mem = {}; st.ep = {}; st.facts = {}; st.mon = {}; st.trace = None; st.alloc = set(); st.steps = 0; st.dead = False; st.fr = None
            rule.init(st); setup(st)
        ex.start(root, args, st)
        if not ex.stats["paths"]: raise Incomplete("no path of %s was followed to its end" % root)
        self.funcs |= ex.stats["functions"]; self.roots.append("%s:%s" % (mod.label, root))
        self.paths += ex.stats["paths"]; self.calls += ex.stats["calls"]; self.events += ex.stats["events"]; self.steps += ex.stats["steps"]
        for k, (msg, loc, trace, stack) in ex.violations.items():
            kk = (root,) + (k if isinstance(k, tuple) else (k,))
            self.violation(kk, "%s [%s, %s]" % (msg, root, mod.label), loc, trace, stack)
        return ex


_JOBS = []
def _job(i):
    import traceback
    pid, tier, (label, fn, args) = _JOBS[i]
    ck = Check(pid, tier)
    try: fn(ck, *args)
    except Unusable as e: e.into(ck)
    except (Incomplete, BuildError) as e: ck.errors.append("%s: %s: %s" % (label, type(e).__name__, e))
    except Exception: ck.errors.append("%s: %s" % (label, traceback.format_exc()))
    return dict(viol=ck.viol, cnt=ck.cnt, funcs=ck.funcs, roots=ck.roots, sites=ck.sites, paths=ck.paths, calls=ck.calls, events=ck.events, steps=ck.steps, errors=ck.errors, data=ck.data)


def prune(ex, st, key, obj=lambda x: x[0]):
    """forget the entries about objects nothing but the monitor still refers to"""
    v = st.mon.get(key)
    if not v: return
    st.mon[key] = ()
    live = ex.gc(st)
    st.mon[key] = tuple(x for x in v if all(s in live or ex.base_live(s, live) for s in deps(obj(x))))


def cases(ex, st, c):
    """[(state, truth)]: the possible truths of a condition at the end of a path"""
    if isinstance(c, int): return [(st, bool(c & 1))]
    if c is None or c == ('U',): raise Incomplete("undefined condition")
    if c[0] == 'P': c = NOT(eq(c, 0))
    return ex.fork_cond(st.copy(), c)


class Mon(Rule):
    """base of the rules: helpers on states and events"""
    def init(self, st): pass
    def finish(self, ex, st, ret): pass
    def bad(self, ex, st, key, msg): ex.report(st, key, msg)
    def note(self, ex, st, txt): ex.note(st, txt)


def loaded_from(v):
    """address a pointer value was read from, or None"""
    s = only_sym(v) if is_num(v) else None
    if s is not None and SYM[s][0][0] == 'm': return SYM[s][0][1]
    return None


_LAY = {}
def layout(ck, mod):
    l = _LAY.get(mod.path)
    if l is None: l = _LAY[mod.path] = Layout(ck, mod)
    return l


REL = ("release", "acq_rel", "seq_cst"); ACQ = ("acquire", "acq_rel", "seq_cst")


class Layout:
    """where the library keeps its state, found by analysing the public accessors"""
    def __init__(self, ck, mod):
        self.ck = ck; self.mod = mod
        f = lambda r, *k: ck.field(mod, r, *k)
        self.grab = f("p_tryGrab", ("cas", "rmw", "store"))
        self.done = f("p_isDone", ("load",))
        self.prio = f("p_getPriority", ("load",))
        self.priosize = [e["size"] for k, e in ck.probe(mod, "p_getPriority")[0] if k == "load" and sub(e["addr"], ck.arg("p_getPriority", 0)) == self.prio][0]
        self.parent = sub(ck.retval(mod, "p_getParent"), ck.arg("p_getParent", 0))
        self.uid = f("p_getUID", ("load",))
        self.hptr = f("p_hvalid", ("load",))
        self.hsize = ck.retval(mod, "z_handle"); self.qsize = ck.retval(mod, "z_queue")
        self.wtask = f("p_available", ("load",))
        self.slots = {}
        for n in ("execute", "executeST", "wait", "activeWait", "addTask", "oneTaskDone", "empty", "wstart", "wstop", "wjoin", "wwait", "wtryWait", "wnotify"):
            self.slots[n] = ck.slot(mod, "s_" + n)
        self.wprio = [o for o in ck.fields(mod, "p_can", ("load",))]
        self.canexpr = ck.retval(mod, "p_can")

    def handle_ptr(self, st, h): return st.read(add(h, self.hptr), 8, True)

    def can(self, st, w, p):
        """condition: worker w may run priority p"""
        mp = {only_sym(self.ck.arg("p_can", 1, False)): num(p)}
        c = self.canexpr
        w0 = self.ck.arg("p_can", 0)
        # read the fields of w the condition depends on
        for o in self.wprio:
            for d in deps(c):
                ds = SYM[d][0]
                if ds[0] == 'm' and ds[1] == add(w0, o):
                    mp[d] = num(st.read(add(w, o), ds[2], False))
        return simpc(subst_cond(c, mp))


def subst_cond(c, mp):
    return subst(c, mp)


def simpc(c):
    """re-evaluate a condition after a substitution"""
    if isinstance(c, int): return c
    if c[0] == 'B':
        if c[1] == 'not': return NOT(simpc(c[2]))
        if c[1] == 'and': return AND(simpc(c[2][0]), simpc(c[2][1]))
        if c[1] == 'or': return OR(simpc(c[2][0]), simpc(c[2][1]))
        x = simpv(c[2])
        return eq(x, 0) if c[1] == 'eq' else ge(x, 0)
    return simpv(c)


def simpv(v):
    """fold the operations on constants that a substitution uncovered"""
    if isinstance(v, int): return v
    r = v[1]
    for m, k in v[2]:
        p = k
        for s in m: p = mul(p, simps(s))
        r = add(r, p)
    return r


def simps(s):
    d, ptr = SYM[s]
    if d[0] == 'op':
        a = [simpv(x) if is_num(x) else x for x in d[3:]]
        op, w = d[1], d[2]
        if all(isinstance(x, int) for x in a):
            x = a[0]; y = a[1] if len(a) > 1 else 0
            if op == 'shl': return explore.wrap(x << y, w)
            if op == 'and': return x & y
            if op == 'or': return x | y
            if op == 'xor': return x ^ y
            if op in ('lshr', 'ashr'): return x >> y
        if op == 'shl' and isinstance(a[1], int): return mul(a[0], 1 << a[1])
        if op in ('and', 'or', 'xor'):
            x, y = a
            if isinstance(x, int): x, y = y, x
            elif not isinstance(y, int) and repr(x) > repr(y): x, y = y, x
            if op == 'and' and y == 0: return 0
            a = [x, y]
        return S(('op', op, w) + tuple(a), ptr)
    if d[0] == 'val':
        return num(simpc(d[1]))
    return P_of(s)


CONFIGS = (False, True)
