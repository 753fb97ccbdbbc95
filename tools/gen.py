#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The data is here so that both stay in step."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BC, BG, ES, SYS = "crates/bls-crypto/src/", "crates/bls-gadgets/src/", "crates/epoch-snark/src/", "crates/bls-snark-sys/src/"
HOOK_COMMITS = ["582d1c04389e7dfa3dffb4139398e178d25d7530", "100e6bc7ad98d4193c08b623a7486b544f91b028"]
P = []
def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"], "thorough_cmd": "bash run.sh %s thorough" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
     "hooks": {"guard": "cfg(verif_hooks)", "enable": "the build.rs of the wrapper crates in harness/crates/bls-gadgets* and epoch-snark* emits cargo:rustc-cfg=verif_hooks", "source_commits": HOOK_COMMITS},
     "not_applicable": [], "notes": NOTES}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
