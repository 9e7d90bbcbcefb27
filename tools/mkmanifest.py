"""Writes MANIFEST.json from the table of checks below."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
TECH = {}
exec(open(os.path.join(V, "tools", "checks_table.py")).read())
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=cfg(thiserror_verif) hook"],
                      capture_output=True, text=True).stdout.split()
m = dict(version=1, setup_cmd="sh tools/setup.sh",
         hooks=dict(guard="thiserror_verif",
                    enable="RUSTFLAGS=--cfg=thiserror_verif on harness/inproc, which builds /repo/impl/src/lib.rs as an ordinary "
                           "library; generated programs use the unmodified derive with the guard off",
                    source_commits=hook),
         checks=[dict(property=i, quick_cmd=f"python3 tools/check_{i.lower()}.py",
                      thorough_cmd=f"python3 tools/check_{i.lower()}.py",
                      evidence_file=f"evidence/{i}.json", technique=TECH[i][0], level="model_checking", level_note=TECH[i][1])
                 for i in IDS if i in TECH],
         not_applicable=[dict(property=i, reason="check not built yet") for i in IDS if i not in TECH])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
