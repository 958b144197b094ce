#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {
 "C90": "Pure function of one tag string: no scheduling, time, I/O or faults for a simulator to vary.",
 "C91": "Pure function of one pointer value: no scheduling, time, I/O or faults for a simulator to vary.",
 "C92": "Pure function of pattern and path: no scheduling, time, I/O or faults for a simulator to vary (its shared cache is covered by C14/C15).",
 "C93": "Pure encode/decode of one value: no scheduling, time, I/O or faults for a simulator to vary.",
}
done = set(re.findall(r'ID: "(C\d\d)"', "".join(open(V + "/sim/" + f).read() for f in os.listdir(V + "/sim") if f.startswith("p_"))))
NOTE = {
 "default": "Seeded search: no proof. The whole program and library run for real on a virtual kernel; trusted are the virtual kernel, the simulated go list and the reference model.",
 "C11": "Every journalled operation of the sampled runs (and partial writes) is a crash point; power loss is modelled as a prefix of metadata operations plus any subset of unsynced data. Projects and schedules are sampled.",
 "C14": "Seeded interleavings at statement granularity, plus Go's race detector on the real code for finer ones; sampled, no proof.",
}
checks = []
na = [{"property": k, "reason": v} for k, v in NA.items()]
for i in ids:
    if i in NA:
        continue
    if i not in done:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": NOTE.get(i, NOTE["default"]),
    })
m = {"version": 1,
     "setup_cmd": "python3 tools/build.py --race",
     "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: all instrumentation is done with go build -overlay from /repo's working tree (tools/build.py)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
