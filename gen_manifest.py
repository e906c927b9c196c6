#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py."""
import json, os
import registry
m = {"version": 1,
     "setup_cmd": "python3 check.py --warm",
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in registry.NOT_APPLICABLE.items()],
     "hooks": {"guard": "verif", "enable": "none needed: /repo contains no hooks, contracts are kept in /verif/tool and keyed by function", "source_commits": []},
     "notes": "See DESIGN.md. Every check rebuilds the verifier and the code under test from /repo's working tree."}
for k, p in registry.PROPS.items():
    m["checks"].append({"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k,
                        "evidence_file": "evidence/%s.json" % k, "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(registry.VERIF, "MANIFEST.json"), "w"), indent=1)
