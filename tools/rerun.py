#!/usr/bin/env python3
"""run the scenario of a replay file again, with its diagnostics: tools/rerun.py exe PID n"""
import sys, json, subprocess, os
exe, pid, n = sys.argv[1:4]
exe = os.path.abspath(exe)
r = json.load(open("/verif/replay/%s/v%s.json" % (pid, n)))["replay"]
open("/tmp/rr.in", "w").write("S 0\n" + "\n".join(r["scenario"]) + "\nE\n")
e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77", VH_TIMEOUT="20", ONION_LOG="noinfo nodebug nocolor")
p = subprocess.run([exe, "/tmp/rr.in", "/tmp/rr.out"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd="/tmp")
print(p.stdout[:6000])
