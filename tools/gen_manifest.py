"""Writes /verif/MANIFEST.json from the checks that exist (checks/<ID>.py with CLAIM = True)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    f = os.path.join(ROOT, "checks", p["id"] + ".py")
    if p["id"] in NA or not os.path.exists(f):
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")))
        continue
    src = open(f).read()
    env = {}
    for k in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
        m = re.search(r"^%s = (\((?:.|\n)*?\n?\)|\[(?:.|\n)*?\]|\".*\")\s*$" % k, src, re.M)
        env[k] = eval(m.group(1)) if m else ""
    note = "Holds for every value of the symbolic inputs within the bounds: %s. Outside: %s. Assumes: %s." % (env["BOUNDS"], env["OUTSIDE"], "; ".join(env["ASSUMPTIONS"]) if env["ASSUMPTIONS"] else "nothing further")
    note += " Trusted: clang's IR at -O1, the IR and Python symbolic executors in sympic/ (counterexamples and sampled witnesses are replayed on the real build), z3; real arithmetic stands for floating point."
    checks.append(dict(property=p["id"], quick_cmd="/opt/venv/bin/python run.py %s" % p["id"], thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % p["id"],
                       technique="symbolic execution of the real Python and C (LLVM IR) code with z3 deciding branches and assertions; counterexamples replayed on the real build",
                       level="model_checking", level_note=note, evidence_file="evidence/%s.json" % p["id"]))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy'", hooks=dict(guard="none", enable="no hooks: the checks read /repo's sources directly", source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
