"""Compile-time properties: every header and every public operation compiles in every configuration (P34), misuses do not
compile (P35), run-time checks have no effects (P37, in purity.py)."""
import os, re, subprocess
from lib import *

CCS = {"clang++": "/usr/bin/clang++", "g++": "/usr/bin/g++"}
STD = "-std=gnu++17"
USES = ("uses_sync.cpp", "uses_threads.cpp", "uses_scheduling.cpp", "uses_algorithms.cpp")
WIN = re.compile(r"(^|/)win(/|_)")


def run(cmd, text=None, timeout=600):
    p = subprocess.run(cmd, input=text.encode() if text is not None else None, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def compile_text(cc, text, flags=(), mode=("-fsyntax-only",), inc=None):
    return run([CCS[cc], STD, "-w", "-I", inc or INC] + list(flags) + list(mode) + ["-x", "c++", "-"], text)


def first_error(out):
    for l in out.splitlines():
        m = re.match(r"(.*?):(\d+):(\d+)?:?.*?(?:fatal )?error: (.*)", l)
        if m: return (os.path.relpath(m.group(1), REPO) if m.group(1).startswith(REPO) else m.group(1), int(m.group(2))), m.group(4)
    m = re.search(r"error: (.*)", out)
    return None, (m.group(1) if m else out[-300:])


def headers():
    out = []
    for d, _, fs in os.walk(INC):
        for f in fs:
            h = os.path.relpath(os.path.join(d, f), INC)
            if f.endswith((".hpp", ".h")) and not WIN.search(h): out.append(h)
    return sorted(out)


def conf(cc, nd): return "%s%s" % (cc, " -DNDEBUG" if nd else "")
def nds(nd): return ["-DNDEBUG"] if nd else []


def job_header(ck, h, cc, nd):
    """the header alone, and included twice"""
    for dflt in ((), ("-DOQPI_USE_DEFAULT",)):
        rc, o = compile_text(cc, '#include "%s"\n#include "%s"\nint main() {}\n' % (h, h), nds(nd) + list(dflt))
        ck.obligation(h)
        if rc:
            loc, msg = first_error(o)
            ck.violation(("alone", h), "%s cannot be included on its own: %s [%s]" % (h, msg, conf(cc, nd)), loc, [(None, x) for x in o.splitlines()[:40]])
            return
    ck.roots.append("%s (%s)" % (h, conf(cc, nd)))


def symbols(obj):
    rc, o = run(["/usr/bin/nm", obj])
    if rc: raise Incomplete("nm: " + o[:300])
    out = []
    for l in o.splitlines():
        p = l.split()
        if len(p) >= 2: out.append((p[-2], p[-1]))
    return out


def ours(n):
    return ir.demangle(n), "4oqpi" in n or "16concurrent_queue" in n


def job_uses(ck, w, cc, nd):
    src = os.path.join(HERE, "witness", w); obj = os.path.join(tmpdir(), "%s.%s.%d.o" % (w, cc, nd))
    rc, o = run([CCS[cc], STD, "-w", "-I", INC] + nds(nd) + ["-c", src, "-o", obj])
    ck.obligation(w)
    if rc:
        loc, msg = first_error(o)
        ck.violation(("use", w), "a public operation cannot be used: %s [%s, %s]" % (msg, w, conf(cc, nd)), loc, [(None, x) for x in o.splitlines()[:60]])
        return
    syms = symbols(obj); defined = {n for t, n in syms if t not in "U"}
    for t, n in syms:
        d, our = ours(n)
        if not our: continue
        if t == "U":
            if n not in defined: ck.violation(("undefined", d), "%s is declared but defined nowhere [%s, %s]" % (d, w, conf(cc, nd)), (w, 0))
        elif t in "WVwtT" and re.match(r"_ZNK?(4oqpi|16concurrent_queue)", n):
            ck.funcs.add(d); ck.obligation()
    os.unlink(obj)
    ck.roots.append("%s (%s)" % (w, conf(cc, nd)))


def job_link(ck, cc, nd):
    """what the headers define can be defined in several translation units"""
    text = "#define OQPI_USE_DEFAULT\n" + "".join('#include "%s"\n' % h for h in headers())
    obj = os.path.join(tmpdir(), "all.%s.%d.o" % (cc, nd))
    rc, o = compile_text(cc, text, nds(nd), ("-c", "-o", obj))
    if rc:
        loc, msg = first_error(o); ck.violation(("alone", "all"), "the headers cannot be included together: %s [%s]" % (msg, conf(cc, nd)), loc); return
    ck.obligation("all")
    for t, n in symbols(obj):
        if t in "TDBRSGC": ck.violation(("strong", ir.demangle(n)), "%s is defined anew by every translation unit that includes its header: two of them cannot be linked together [%s]" % (ir.demangle(n), conf(cc, nd)), (ir.demangle(n), 0))
    ck.roots.append("all headers (%s)" % conf(cc, nd)); os.unlink(obj)


def sane(ck):
    for cc in CCS:
        rc, o = compile_text(cc, "#include <string>\nint main() { std::string s; }\n")
        if rc: raise Incomplete("%s does not work: %s" % (cc, o[:300]))


def run_P34(ck):
    ck.explanation = "each header outside the Windows implementation, alone and twice, with and without the default aliases, and programs using every public operation of every class with default and least user supplied parts, type-checked and instantiated by two compilers with checks enabled and disabled; the symbols of the results"
    ck.rule_text = "everything compiles, every function of the library that is used is defined, and no definition of a header is exclusive to one translation unit"
    ck.configs = [conf(c, n) for c in CCS for n in CONFIGS]
    sane(ck)
    hs = headers()
    if len(hs) < 20: raise Incomplete("headers not found")
    tmpdir()
    jobs = [(w, job_uses, (w, cc, nd)) for w in USES for cc in CCS for nd in CONFIGS]
    jobs += [("link", job_link, (cc, nd)) for cc in CCS for nd in CONFIGS]
    jobs += [(h, job_header, (h, cc, nd)) for h in hs for cc in CCS for nd in CONFIGS]
    ck.parts(jobs)


# ---- P35 -----------------------------------------------------------------------------------------------------------------
PRE = """#define OQPI_USE_DEFAULT
#include "oqpi.hpp"
#include "oqpi/concurrent_queue.hpp"
using namespace oqpi;
using OPT = sync_object_creation_options;
template<typename B> struct local_layer : local_sync_object<B> { template<typename... A> local_layer(A &&...a) : local_sync_object<B>(std::forward<A>(a)...) {} };
template<typename B> struct global_layer : global_sync_object<B> { template<typename... A> global_layer(A &&...a) : global_sync_object<B>(std::forward<A>(a)...) {} };
template<typename B> struct thread_layer : B { thread_layer() = default; thread_layer(thread_layer &&o) : B(std::move(o)) {} thread_layer &operator=(thread_layer &&o) { B::operator=(std::move(o)); return *this; } };
struct Fn { int operator()() { return 1; } };
template<typename T> struct queue_ok { queue_ok() {} void push(const T &) {} bool tryPop(T &) { return false; } bool empty() const { return true; } };
template<typename T> struct queue_arg { queue_arg(int) {} void push(const T &) {} bool tryPop(T &) { return false; } bool empty() const { return true; } };
template<typename T> struct queue_del { queue_del() = delete; void push(const T &) {} bool tryPop(T &) { return false; } bool empty() const { return true; } };
template<typename T> struct queue_prv { void push(const T &) {} bool tryPop(T &) { return false; } bool empty() const { return true; } private: queue_prv() {} };
using SC = scheduler<concurrent_queue>;
"""
LOCAL = {"auto reset event": "auto_reset_event", "manual reset event": "manual_reset_event", "semaphore": "semaphore", "mutex": "mutex_interface<>",
         "layered auto reset event": "auto_reset_event_interface<local_layer>", "layered manual reset event": "manual_reset_event_interface<local_layer>",
         "layered semaphore": "semaphore_interface<local_layer>", "layered mutex": "mutex_interface<local_layer>"}
GLOBAL = {"auto reset event": "global_auto_reset_event", "manual reset event": "global_manual_reset_event", "semaphore": "global_semaphore", "mutex": "global_mutex",
          "layered auto reset event": "auto_reset_event_interface<global_layer>", "layered manual reset event": "manual_reset_event_interface<global_layer>",
          "layered semaphore": "semaphore_interface<global_layer>", "layered mutex": "mutex_interface<global_layer>"}


def misuses():
    """(what, program that has to compile, program that must not)"""
    out = []
    for k, T in LOCAL.items():
        good = "%s o;" % T
        bads = [("naming", '%s o("name");' % T), ("naming with a string", 'std::string n("name"); %s o(n);' % T), ("giving a creation option", 'std::string n("name"); %s o(n, OPT::open_or_create);' % T),
                ("opening", '%s o("name", OPT::open_existing);' % T), ("creating on the heap with a name", 'auto o = std::make_unique<%s>("name");' % T), ("assigning one with a name", '%s o; o = %s("name");' % (T, T))]
        if "semaphore" in k: bads += [("counts and a name", 'std::string n("name"); %s o(n, 1, 2);' % T), ("counts, option and a name", 'std::string n("name"); %s o(n, OPT::create_if_nonexistent, 1, 2);' % T)]
        if "mutex" in k: bads += [("naming and locking", 'std::string n("name"); %s o(n, OPT::create_if_nonexistent, true);' % T)]
        for w, b in bads: out.append(("%s a local %s" % (w, k), good, b))
    for k, T in GLOBAL.items():
        bads = [("leaving unnamed", "%s o;" % T), ("leaving unnamed on the heap", "auto o = std::make_unique<%s>();" % T), ("leaving unnamed a temporary", "%s().isValid();" % T)]
        if "semaphore" in k: bads += [("leaving unnamed with counts", "%s o(1, 2);" % T)]
        for w, b in bads: out.append(("%s a global %s" % (w, k), '%s o(std::string("name")); std::string n; %s p(n, OPT::open_or_create);' % (T, T), b))
    for d in (LOCAL, GLOBAL):
        for k, T in d.items():
            if "auto reset" in k:
                out.append(("resetting (%s)" % T, "%s *p = nullptr; p->notify();" % T, "%s *p = nullptr; p->reset();" % T))
                out.append(("resetting by member pointer (%s)" % T, "auto f = &%s::notify;" % T, "auto f = &%s::reset; (void)f;" % T))
    things = [(T, T) for d in (LOCAL, GLOBAL) for T in d.values()]
    things += [(t, t) for t in ("oqpi::thread", "thread_interface<>", "thread_interface<thread_layer>")]
    for ty in ("waitable", "fire_and_forget"): things.append(("a %s task" % ty, "task<task_type::%s, manual_reset_event, empty_task_context, Fn>" % ty))
    things.append(("a task with a user supplied event", "task<task_type::waitable, auto_reset_event, task_context_container<task_context_base>, Fn>"))
    for g in ("parallel_group", "sequence_group"):
        for ty in ("waitable", "fire_and_forget"): things.append(("a %s %s" % (ty, g), "%s<SC, task_type::%s, empty_group_context>" % (g, ty)))
    things += [("a worker", "worker<oqpi::thread, semaphore, SC, empty_worker_context>"), ("a scheduler", "SC"), ("a scheduler with a user supplied queue", "scheduler<queue_ok>")]
    for k, T in things:
        good = "using T = %s; T *a = nullptr; T *b = a; (void)b;" % T
        movable = "group" not in k and k not in ("a worker", "a scheduler", "a scheduler with a user supplied queue")
        cg = "using T = %s; T *a = nullptr; T b(std::move(*a));" % T if movable else good
        ag = "using T = %s; T *a = nullptr, *b = nullptr; *b = std::move(*a);" % T if movable else good
        out.append(("copying %s" % k, cg, "using T = %s; T *a = nullptr; T b(*a);" % T))
        out.append(("copying a constant %s" % k, cg, "using T = %s; const T *a = nullptr; T b(*a);" % T))
        out.append(("copy assigning %s" % k, ag, "using T = %s; T *a = nullptr, *b = nullptr; *b = *a;" % T))
        out.append(("copy assigning a constant %s" % k, ag, "using T = %s; const T *a = nullptr; T *b = nullptr; *b = *a;" % T))
        out.append(("copying %s on the heap" % k, good, "using T = %s; const T *a = nullptr; new T(*a);" % T))
    for B in ("task_base", "task_group_base", "worker_base"):
        out.append(("copy assigning a %s" % B, "%s *a = nullptr, *b = a; (void)b;" % B, "%s *a = nullptr, *b = nullptr; *b = *a;" % B))
        out.append(("copying a %s into one derived from it" % B, "struct D : %s { using %s::%s; }; (void)sizeof(D);" % (B, B, B), "struct D : %s { D(%s &o) : %s(o) {} }; (void)sizeof(D);" % (B, B, B)))
        out.append(("copying a constant %s into one derived from it" % B, "struct D : %s { using %s::%s; }; (void)sizeof(D);" % (B, B, B), "struct D : %s { D(const %s &o) : %s(o) {} }; (void)sizeof(D);" % (B, B, B)))
    for q in ("queue_arg", "queue_del", "queue_prv"):
        for w, t in (("declaring", "scheduler<%s> s;"), ("allocating", "auto p = new scheduler<%s>();"), ("measuring", "(void)sizeof(scheduler<%s>);")):
            out.append(("%s a scheduler with a %s" % (w, q), t % "queue_ok", t % q))
        out.append(("helpers with a %s" % q, "helpers<scheduler<queue_ok>>::scheduler().isIdle();", "helpers<scheduler<%s>>::scheduler().isIdle();" % q))
    return out


def job_good(ck, cc, nd):
    body = "".join("void use%d() { %s }\n" % (i, g) for i, (w, g, b) in enumerate(misuses()))
    rc, o = compile_text(cc, PRE + body, nds(nd))
    if rc: raise Incomplete("the correct uses do not compile [%s]: %s %s" % ((conf(cc, nd),) + first_error(o)))
    ck.count("correct_programs", len(misuses()))


def job_bad(ck, chunk, cc, nd):
    ms = misuses()
    pch = _PCH.get((cc, nd))
    for i in chunk:
        w, g, b = ms[i]
        if pch: rc, o = run([CCS[cc], STD, "-w", "-I", INC] + nds(nd) + ["-fsyntax-only", "-include-pch", pch, "-x", "c++", "-"], "void use() { %s }\n" % b)
        else: rc, o = compile_text(cc, PRE + "void use() { %s }\n" % b, nds(nd))
        ck.obligation(w); ck.roots.append("%s (%s)" % (w, conf(cc, nd)))
        if rc == 0: ck.violation(("accepted", w), "%s compiles [%s]: %s" % (w, conf(cc, nd), b), ("misuse", i))
        elif "error:" not in o: raise Incomplete("%s: %s" % (w, o[:300]))


_PCH = {}
def run_P35(ck):
    ck.explanation = "programs that misuse the interface, each next to a program that differs only by not doing so; all are type-checked by two compilers with checks enabled and disabled"
    ck.rule_text = "every program using the interface correctly compiles, none of the programs misusing it does"
    sane(ck)
    pre = os.path.join(tmpdir(), "pre.hpp"); open(pre, "w").write(PRE)
    for nd in CONFIGS:
        out = os.path.join(tmpdir(), "pre%d.pch" % nd)
        rc, o = run([CCS["clang++"], STD, "-w", "-I", INC] + nds(nd) + ["-x", "c++-header", pre, "-o", out])
        if rc: raise Incomplete("the headers do not compile: %s %s" % first_error(o))
        _PCH[("clang++", nd)] = out
    n = len(misuses()); ids = list(range(n))
    jobs = [("good", job_good, (cc, nd)) for cc in CCS for nd in CONFIGS]
    k = 12
    jobs += [("bad", job_bad, (ids[i::k], "clang++", nd)) for nd in CONFIGS for i in range(k)]
    if ck.tier == "thorough": jobs += [("bad", job_bad, (ids[i::24], "g++", nd)) for nd in CONFIGS for i in range(24)]
    ck.parts(jobs)
