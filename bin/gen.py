#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props as P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(P.PROPS.values(), key=lambda p: p["id"]):
        if not p["ready"]: continue
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "observe_at": [p["observe"]]}}) + "\n")
    for (i, t, s, o, q, w, fl, m, r) in P.NA:
        f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": o, "text": q}, "why_tests_cant": w, "anchors": {"files": fl, "mechanism": [{"name": a, "where": b} for a, b in m]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/build.py --all",
     "hooks": {"guard": "none (no hooks were needed in /repo: the seams are the public stream/bitmap/site interfaces, link-time wrapping and compiler instrumentation)", "enable": "python3 bin/build.py builds /repo/Src with its own flags; nothing to enable", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py %s quick" % p["id"], "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]} for p in sorted(P.PROPS.values(), key=lambda p: p["id"]) if p["ready"]],
     "not_applicable": [{"property": x[0], "reason": x[8]} for x in P.NA],
     "notes": "See DESIGN.md. KNOWN_FINDINGS.txt lists the defects found (all repaired by fix: commits in /repo)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
