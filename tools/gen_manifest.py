#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the analyser's property table (bin/analyze -list)."""
import json, subprocess
ids = subprocess.run(["/verif/bin/analyze", "-list"], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {
 "C31": "GeDoubleScalarMultVartime is unused by the library's own API; its sliding-window recoding makes the loop's control and table indices depend on 256-bit scalars in a way no static summary in reach bounds (the digit/weight relation is a data-dependent invariant over both scalars), and running it on samples would be a test.",
 "C32": "Whether a call returns in bounded time depends on the remote side, the operating system's sockets and the child process; no argument over the source bounds it, and the code sets no deadline that could be checked.",
}
TECH = {
 "default": "abstract interpretation of go/ssa with gated value numbering: function summaries compared with a specification, joined at merge points",
}
NOTE = "Holds for all inputs of the analysed shapes (listed per unit in the evidence), given the models of library calls in analyzer/spec/models and analyzer/in_*.go and the faithfulness of go/ssa; anything the analysis cannot decide is reported as a violation, not skipped."
extra = json.load(open("/verif/tools/notes.json"))
checks = []
for p in props:
    if p["id"] in ids:
        e = extra.get(p["id"], {})
        checks.append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
          "evidence_file": "evidence/%s.json" % p["id"], "technique": e.get("technique", TECH["default"]), "level": "other",
          "level_note": (e.get("note", "") + " " + NOTE).strip()})
na = [{"property": p["id"], "reason": NA.get(p["id"], "the check is not built yet")} for p in props if p["id"] not in ids]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "Every check is one run of analyzer/ (built by setup.sh from committed, vendored sources) over /repo's current source; see DESIGN.md."},
  open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
