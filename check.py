#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of /repo's current source by static analysis."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "rules")); sys.path.insert(0, os.path.join(HERE, "engine"))
sys.dont_write_bytecode = True
import lib

PROPS = {}
def reg(mod, *ids):
    for i in ids: PROPS[i] = mod
reg("tasks", "P01", "P04", "P05")
reg("results", "P06", "P38", "P39")
reg("groups", "P07", "P08", "P09", "P10")
reg("sched", "P02", "P03", "P11", "P12", "P17")
reg("hooks", "P13", "P14")
reg("cqueue", "P15")
reg("access", "P16")
reg("loops", "P18", "P19", "P20")
reg("sync", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28")
reg("moves", "P29")
reg("threads", "P30", "P31", "P32", "P33")
reg("helpers", "P36")
reg("config", "P34", "P35")
reg("purity", "P37")
reg("workers","P41"); reg("life","P42")


def key_str(k):
    return "|".join(str(x) for x in k) if isinstance(k, tuple) else str(k)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    t0 = time.time()
    ck = lib.Check(pid, tier)
    err = None
    try:
        m = importlib.import_module(PROPS[pid])
        getattr(m, "run_" + pid)(ck)
    except lib.Unusable as e:
        e.into(ck)
    except (lib.Incomplete, lib.BuildError) as e:
        err = "%s: %s" % (type(e).__name__, e)
    except Exception:
        err = traceback.format_exc()
    ck.errors = sorted({e if len(e) < 700 else e[:200] + " ... " + e[-450:] for e in ck.errors})
    if ck.errors: err = "\n".join(ck.errors + ([err] if err else []))
    if not err and (not ck.cnt.get("obligations") or not ck.roots): err = "nothing was analysed"
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid and k["status"] == "known"]
    new, old = [], []
    for k, v in sorted(ck.viol.items(), key=lambda x: key_str(x[0])):
        ks = key_str(k)
        hit = [f for f in known if f["key"] == ks]
        (old if hit else new).append((ks, v, hit[0] if hit else None))
    for f in known:
        if any(h is f for _, _, h in old):
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    ev = dict(property=pid, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2),
              coverage=dict(explanation=ck.explanation, rule=ck.rule_text, obligations=ck.cnt.get("obligations", 0),
                            roots=len(set(ck.roots)), functions_analysed=len(ck.funcs), paths_ended=ck.paths, call_sites_interpreted=ck.calls,
                            events_judged=ck.events, instructions_interpreted=ck.steps, counts=ck.cnt, root_list=sorted(set(ck.roots))[:200],
                            functions=sorted(ck.funcs)[:300], known_findings=[k for k, _, _ in old], configurations=ck.configs, errors=err),
              violations=[dict(key=k, message=v["msg"], location=v["loc"]) for k, v, _ in new])
    path = os.path.join(HERE, "evidence", pid + ".json")
    json.dump(ev, open(path, "w"), indent=1, default=str)
    rep = os.path.join("evidence", pid + ".violation.txt")
    full = os.path.join(HERE, rep)
    if os.path.exists(full): os.remove(full)
    if new:
        with open(full, "w") as f:
            f.write("property %s\n%s\n\n" % (pid, ck.rule_text))
            for k, v, _ in new:
                f.write("VIOLATION %s\n  %s\n  at %s\n  in %s\n" % (k, v["msg"], v["loc"], " < ".join(v["stack"][:12])))
                for l, t in v["trace"][-80:]: f.write("    %s  %s\n" % ("%s:%s" % (l[0], l[1]) if l else "-", t))
                f.write("\n")
            f.write("reproduce: cd %s && python3 check.py %s --tier %s\n" % (HERE, pid, tier))
        for k, v, _ in new[:20]:
            print("  %s  at %s" % (v["msg"], "%s:%s" % (v["loc"][0], v["loc"][1]) if v["loc"] else "-"))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        sys.exit(1)
    if err:
        print("ERROR property=%s the analysis is not conclusive:\n%s" % (pid, err[:4000])); sys.exit(2)
    print("OK property=%s obligations=%d functions=%d paths=%d events=%d %.1fs" % (pid, ck.cnt.get("obligations", 0), len(ck.funcs), ck.paths, ck.events, time.time() - t0))


if __name__ == "__main__": main()
