#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list of properties the harness implements."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
have = set(subprocess.run([f"{root}/target/debug/vp", "list"], capture_output=True, text=True, check=True).stdout.split())
tech = json.load(open(f"{root}/tools/technique.json"))
assert have <= {p["id"] for p in props}, have
default_note = ("Bounded random exploration: the real contract code runs on a simulated chain, every generated step is "
    "compared with an independent oracle; no proof of absence. Trusts the simulated chain (bank, messages, replies, "
    "hooks, rollback) and the harness's own reference arithmetic.")
checks = [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
    "evidence_file": f"evidence/{p['id']}.json",
    "technique": tech.get(p["id"], "stateful property-based testing (proptest histories) against a reference model"),
    "level": "exploration", "level_note": default_note} for p in props if p["id"] in have]
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in have]
hook_commits = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True, check=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
json.dump({"version": 1, "setup_cmd": "bash run.sh build",
    "hooks": {"guard": "cfg(vp_hooks)", "enable": "RUSTFLAGS=--cfg vp_hooks (exported by run.sh)", "source_commits": hook_commits}, "checks": checks, "not_applicable": na,
    "notes": "All checks run one binary (harness/, path dependencies on /repo's crates) rebuilt from /repo's working tree. Genuine defects found so far, fixed or recorded, are in known_findings.json."},
    open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
