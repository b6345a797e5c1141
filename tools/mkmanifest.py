#!/usr/bin/env python3
# writes MANIFEST.json from checks.json and properties.jsonl
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks=json.load(open(V+"/checks.json"))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NA={"C03":"the parts are proved (C02 user data, C04 segmentation, C05/C07/C09 codecs, C26 choice of alphabet) but not their composition: it needs a contract for sms.Decode with a recursive text specification over an unbounded list of segments, including the surrogate carried from one segment to the next, and that contract was not built",
 "C10":"needs the contract of sms.Decode over an unbounded list of segments (a recursive text specification with the carried half of a surrogate pair), which was not built; per-segment decoding and its safety and frame are covered under C01, C07, C09 and C23",
 "C18":"needs an invariant over histories: that the count kept for a buffer equals the number of its filled slots, and that the arrays of different buffers do not overlap; the verifier has no ownership of slices held behind pointers in a map and rejects the store, so the completing step cannot be proved. The rejecting steps are decided under C19",
 "C27":"data-race freedom and linearisability quantify over goroutine interleavings; the contracts here describe one call at a time, the verifier has no permission or thread model, and no installed deductive verifier for Go has one either"}
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in checks and i not in NA:
        c=checks[i]
        m["checks"].append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
          "technique":"contract-based deductive verification of the Go source (verification conditions from go/ssa, discharged by z3)",
          "level":"proof","level_note":c.get("note") or "every obligation of the functions under contract is discharged for all inputs; trusted: the condition generator govc, z3, the Go toolchain, and the assumptions listed in the evidence file"})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check has been built for it yet")})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
