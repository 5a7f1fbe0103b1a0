#!/usr/bin/env python3
"""print replay files readably: tools/show.py PID [n...]"""
import sys, json, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import web
for n in sys.argv[2:] or ["1"]:
    d = json.load(open("/verif/replay/%s/v%s.json" % (sys.argv[1], n)))
    r = d["replay"]
    print("==", n, d["what"][:60], "event", r["event"])
    for i, e in enumerate(r["trace"]):
        print("  >>" if i == r["event"] else "    ", str(web.show(e))[:int(os.environ.get("W", "1500"))])
    if os.environ.get("SC"): print(r["scenario"])
