#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (kept in one place so that they stay in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state: a["state"] = state
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
               "why_tests_cant": why, "anchors": a}, technique, note))
COMMON = " Strength: sampled executions of the real code (enumerated where the evidence says so), not a proof; trusts the independent reference in harness/src and the fixed seed."

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, _, _ in P: f.write(json.dumps(p) + "\n")
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "--cfg av1enc_verif (rustc cfg flag)",
           "enable": "RUSTFLAGS=\"--cfg av1enc_verif\" when building /verif/harness (path dependency on /repo); see lib.sh",
           "source_commits": HOOK_COMMITS},
 "checks": [{"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
             "technique": t, "level": "exploration", "level_note": n + COMMON} for p, t, n in P],
 "not_applicable": NOT_APPLICABLE,
 "notes": "KNOWN_FINDINGS.txt lists repaired defects and any recorded finding. Every check rebuilds its monitor from /repo's working tree (content-hashed) with the hooks on.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
