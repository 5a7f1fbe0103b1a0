#!/usr/bin/env python3
"""known/findings.json from /repo's fix commits (known/fixes.txt: property|beginning of the subject) and known/open.json"""
import subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tab = [l.rstrip("\n").split("|", 1) for l in open(V + "/known/fixes.txt") if "|" in l]
out = json.load(open(V + "/known/open.json")) if os.path.exists(V + "/known/open.json") else []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [p for p, t in tab if s[5:].startswith(t)]
    if not m:
        print("no property for", l)
        continue
    out.append({"property": m[0], "status": "fixed", "what": "fixed: property=%s %s %s" % (m[0], h, s[5:])})
json.dump(out, open(V + "/known/findings.json", "w"), indent=1)
