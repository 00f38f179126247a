"""Writes MANIFEST.json: a property is claimed when it has contracts and a concrete search."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
meta = json.load(open(os.path.join(HERE, "props", "meta.json")))
NOTE = ("Every obligation of the property's contracts, generated from /repo's current source by symbolic execution "
        "of the real functions (loops cut by inductive invariants, no bound), is discharged by z3 or cvc5. "
        "Floating point is treated as real arithmetic except where stated; lsst.geom is replaced by a stand-in, "
        "coordinate systems and sky coordinates by uninterpreted functions; pyvc itself is trusted. ")
checks, na = [], []
for p in props:
    i = p["id"]
    m = meta.get(i, {})
    f = i.lower() + ".py"
    if not m.get("skip") and os.path.exists(os.path.join(HERE, "props", f)) and os.path.exists(os.path.join(HERE, "oracle", f)):
        checks.append({
            "property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
            "technique": m.get("technique", "contract-based deductive verification: contracts on the real functions, "
                               "obligations from symbolic execution of the instrumented source, loop invariants "
                               "inferred and proved, z3/cvc5; failing inputs replayed on the unmodified code"),
            "level": m.get("level", "proof"), "level_note": NOTE + m.get("note", "")})
    else:
        na.append({"property": i, "reason": m.get("skip", "contracts not written yet")})
out = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
       "notes": "See DESIGN.md.  No hooks in /repo: the source is instrumented mechanically when it is imported."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as g:
    json.dump(out, g, indent=1)
    g.write("\n")
print(len(checks), "claimed;", len(na), "not")
