#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of built checks.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
MON="runtime monitoring: "
C={
"C01":(MON+"invariant monitor on every colour produced under generated and exhaustive inputs","exploration"),
"C02":(MON+"online comparison with a floating-point reference over the exhaustive 8-bit cube and random values","exploration"),
"C03":(MON+"online comparison with a floating-point reference, idempotence monitor","exploration"),
"C04":(MON+"online comparison of blends with the formulas in floating point","exploration"),
"C05":(MON+"online comparison of blends with the HSV/HSL definitions in floating point","exploration"),
"C06":(MON+"online comparison with Porter-Duff formulas, frequency monitor for Dissolve","exploration"),
"C07":(MON+"differential monitor over colour representations, panic monitor","exploration"),
"C08":(MON+"random operation histories against an executable model of the pixel store","exploration"),
"C09":(MON+"Opaque compared with the observed alphas","exploration"),
"C10":(MON+"flattened pixels compared with a reference fold over the layers","exploration"),
"C11":(MON+"differential monitor of sub-image and original, with later writes and snapshots","exploration"),
"C12":(MON+"online comparison with the opacity and mask formula","exploration"),
"C30":(MON+"name table monitor over defined and undefined values","exploration"),
}
exec(open(os.path.join(here,"tools","claims.py")).read()) if os.path.exists(os.path.join(here,"tools","claims.py")) else None
note_core="Held on the executions generated, which the evidence file counts; trusts the harness's own floating-point models and generators. Black box through the exported API, no hooks."
m={"version":1,
"setup_cmd":"./setup.sh",
"hooks":{"guard":"none","enable":"no hooks: the checks build /repo as it is and observe it through its exported API","source_commits":[]},
"checks":[],"not_applicable":[]}
for p in props:
    if p in C:
        c=C[p]
        m["checks"].append({"property":p,"quick_cmd":"./check.sh %s quick"%p,"thorough_cmd":"./check.sh %s thorough"%p,"evidence_file":"evidence/%s.json"%p,"technique":c[0],"level":c[1],"level_note":c[2] if len(c)>2 else note_core})
    else:
        m["not_applicable"].append({"property":p,"reason":"check not built yet"})
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
print(len(m["checks"]),"claimed")
