#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the LLVM IR of /repo's headers (typestate / effect automaton over all paths)"
CLAIMED = {}
def c(pid, tech, note): CLAIMED[pid] = (tech, note)
TR = (" Trusts: the interpreter in engine/ (path sensitive, loop invariants by widening, atomics read as unknown values), clang 18's translation to IR, the models of libstdc++ and libc calls in engine/models.py, "
      "and the witness translation units, which instantiate the templates with declared-only user parts; both NDEBUG settings are analysed.")
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
na = []
for p in props:
    if p["id"] not in CLAIMED:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "the check for this property is not built yet")))
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.exit(0)' && /usr/bin/clang++ --version && test -x /usr/lib/llvm-18/bin/opt",
         checks=[dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
                      technique=CLAIMED[p][0], level="other", level_note=CLAIMED[p][1]) for p in sorted(CLAIMED)],
         not_applicable=na,
         notes="No hooks: the analysed code is /repo's headers as they are. Every check compiles /verif/witness/*.cpp against /repo/include into a temporary directory on each run and analyses the IR; nothing of oqpi is executed.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
import subprocess
