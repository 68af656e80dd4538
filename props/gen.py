#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props/meta.py and props/spec.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta, spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for m in meta.META:
        d = dict(id=m["id"], title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["forall"]),
                 why_tests_cant=m["why"], anchors=dict(files=m["files"], mechanism=[dict(name=a, where=b) for a, b in m["mech"]]))
        if m.get("observe"):
            d["anchors"]["observe_at"] = m["observe"]
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for m in meta.META:
    p = m["id"]
    if p not in spec.PROPS:
        na.append(dict(property=p, reason=m["na"]))
        continue
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                       evidence_file="evidence/%s.json" % p,
                       technique="symbolic execution of the compiled LLVM IR of the real code, every branch and assertion decided for all values of the symbolic input by a byte-domain procedure and z3; models replayed natively",
                       level="model_checking",
                       level_note="Exhaustive within stated bounds: " + spec.PROPS[p]["bounds"] + " Nothing is claimed outside them. Trusted: rustc's lowering to LLVM IR, the engine (cross-validated against native runs on sampled paths on every run), z3" +
                       (", and these stand-ins: " + "; ".join(spec.PROPS[p]["assumptions"]) if spec.PROPS[p].get("assumptions") else "") + "."))
m = dict(version=1, setup_cmd="python3 check.py build", checks=checks, not_applicable=na, notes=meta.NOTES)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
