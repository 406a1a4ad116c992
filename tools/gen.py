#!/usr/bin/env python3
# Regenerates properties.jsonl, checks.json and MANIFEST.json from tools/spec_*.py.
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import lib
for f in sorted(glob.glob(here + "/spec_*.py")):
    importlib.import_module(os.path.basename(f)[:-3])
root = os.path.dirname(here)
def line(p):
    return dict(id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
with open(root + "/properties.jsonl", "w") as f:
    for p in sorted(lib.PROPS + lib.NA, key=lambda p: p["id"]):
        f.write(json.dumps(line(p)) + "\n")
checks = {}
man = dict(version=1, setup_cmd="bash /verif/setup.sh", checks=[], not_applicable=[])
for p in sorted(lib.PROPS, key=lambda p: p["id"]):
    c = dict(module=p["module"], harness=p["harness"], assumptions=p["assumptions"])
    if p["models"]: c["models"] = p["models"]
    if p["rewrite"]: c["rewrite"] = p["rewrite"]
    c.update(p["extra"])
    checks[p["id"]] = c
    man["checks"].append(dict(property=p["id"], quick_cmd="bash /verif/check.sh %s quick" % p["id"],
        thorough_cmd="bash /verif/check.sh %s thorough" % p["id"],
        technique="symbolic execution of the Go SSA of the real code with z3 deciding every branch and assertion; counterexamples replayed on the compiled code",
        level="model_checking",
        level_note="bounded: " + "; ".join(h["bounds"] for h in p["harness"])))
for p in lib.NA:
    man["not_applicable"].append(dict(property=p["id"], reason=p["reason"]))
json.dump(checks, open(root + "/checks.json", "w"), indent=1)
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(root + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
except ImportError:
    pass
print(len(lib.PROPS), "checks", len(lib.NA), "not applicable")
