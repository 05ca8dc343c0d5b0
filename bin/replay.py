#!/usr/bin/env python3
"""replay.py <replay.json> : rebuild from /repo's working tree and re-execute exactly the recorded choices. Prints the outcome and the event trace."""
import sys, os, json, tempfile, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
j = json.load(open(sys.argv[1])); exe = B.build(j["variant"]); d = tempfile.mkdtemp()
open(d + "/c", "w").write(" ".join(map(str, j["choices"])))
r = json.loads(subprocess.run([exe, "replay", "--prop", j["property"], "--choices", d + "/c", "--out", d], stdout=subprocess.PIPE, text=True).stdout)
shutil.rmtree(d)
print(r["trace"]); print("status", r["status"], "class", r["cls"], "hash", r["hash"]); print(r["msg"])
same = r["status"] == 2 and r["cls"] == j["class"] and r["hash"] == j["hash"]
print("REPRODUCED EXACTLY" if same else "NOT REPRODUCED")
sys.exit(1 if r["status"] == 2 else 0)
