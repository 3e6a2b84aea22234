#!/usr/bin/env python3-vt
import sys, os, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "vc"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3-vt vc/setup.py", hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: the verifier reads /repo's sources as they are", source_commits=[]), checks=[], not_applicable=[])
for i in ids:
    c = props.PROPS.get(i)
    if c is None:
        m["not_applicable"].append(dict(property=i, reason=getattr(props, "NA", {}).get(i, "contract not written yet (work in progress)"))); continue
    lv = c.get("level", "proof")
    m["checks"].append(dict(property=i, quick_cmd="python3-vt vc/check.py %s --tier quick" % i, thorough_cmd="python3-vt vc/check.py %s --tier thorough" % i,
        technique=c.get("technique", props.TECH), level=lv, level_note=c.get("note", "all obligations of the listed functions are discharged on the unchanged tree: " + ", ".join(c.get("fns", []) + [n for t in c.get("tasks", []) if t[2] == "task" for n in (t[3][0] if t[3] else [])]) if lv == "proof" else "contract written, not all obligations within the verifier's reach; decided by the bounded stand-in (differential runs of the real code against the contract)")))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
