#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
src = open(os.path.join(root, "sim/src/props/mod.rs")).read()
have = [m.upper() for m in re.findall(r"(c\d\d)::PROPERTY", src)]
LEVEL = {}
for c in have:
    s = open(os.path.join(root, f"sim/src/props/{c.lower()}.rs")).read()
    LEVEL[c] = re.search(r'level: "(\w+)"', s).group(1)
TECH = {
 "C01": "deterministic simulation: resolver with drifting, hostile answers; ground-truth history oracle",
 "C02": "deterministic simulation: resolver refusal at every call, recovery on the same parser",
 "C03": "deterministic simulation: injected crash at the k-th callback, interleaved survivors",
 "C04": "deterministic simulation: seeded interleaving of tasks at callbacks, nested operations, solo-run oracle",
 "C05": "deterministic simulation: log-level flips and differential error handlers",
 "C06": "deterministic simulation: failing and torn sink writes, prefix oracle",
 "C07": "deterministic simulation: transfers cut at any point, ground-truth prefix oracle",
 "C08": "deterministic simulation: storage and transport corruption, conservation oracle by re-scan",
 "C09": "deterministic simulation: consumer failure at every callback",
 "C10": "deterministic simulation: scripted consumer against a tree model",
 "C11": "deterministic simulation: interleaved editors with crashes, reference edit model",
 "C12": "deterministic simulation: paused, copied and resumed pulls against a reference sequence",
 "C13": "deterministic simulation: storing with crashes, reload and re-store histories",
 "C14": "deterministic simulation: stack exhaustion fault (small stacks) with extreme nesting",
 "C17": "deterministic simulation: tags lost, repeated, renamed, moved and exchanged under consumers with programs of their own; independent pairing oracle",
 "C18": "deterministic simulation: events left unread by an earlier stage at any place, under consumers with programs of their own; differential oracle with text in their place",
 "C16": "deterministic simulation: failing and panicking callbacks, repeated and ever different histories, accounting allocator",
 "C15": "deterministic simulation: loss, duplication and reordering of tags, reference pairing model",
}
NOTE = "Seeded search, not exhaustive: a clean batch is evidence, not proof. Trusts the generator's ground truth, rustc and std. "
NOTES = {
 "C03": "Callback panics unwind (panic=unwind builds only). ",
 "C04": "Interleavings are decided at callbacks; the library has no synchronisation in between, so preemption elsewhere is not simulated. ",
 "C16": "Memory is counted per thread by the simulator's global allocator; bounds on proportion are about ten times what the present code needs. ",
 "C14": "Stack use is bounded by running on small stacks; sizes are sampled. Four known findings, all about parsing nested included sections and declaration subsets (see known-findings.txt). ",
}
NA = "a pure function of its input text: no callback, schedule, fault or history of any party takes part in it, so simulation and fault injection decide nothing about it"
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"./check.sh {p['id']} quick",
   "thorough_cmd": f"./check.sh {p['id']} thorough",
   "technique": TECH[p["id"]],
   "level": LEVEL[p["id"]],
   "level_note": NOTE + NOTES.get(p["id"], ""),
 } for p in props if p["id"] in have],
 "not_applicable": [{"property": p["id"], "reason": NA if p["id"][0] == "N" else "the check is under construction"} for p in props if p["id"] not in have],
 "notes": "No hooks in /repo: every source of nondeterminism is behind an existing seam (resolver closures, error handler type, logger, fmt::Write, serde visitors, iterators). One violation's replay: ./check.sh replay FILE. Same-seed repeatability: ./check.sh determinism ID.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks")
