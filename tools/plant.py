"""plant(id, prop, file, old, new, needs, breaks, demo): make seeded/<id>"""
import subprocess, os, shutil
V = "/verif"
def plant(bid, prop, edits, needs, breaks, demo, sh=None, ldflags="", extra=()):
    for f, old, new in edits:
        p = "/repo/src/onion/" + f if not f.startswith("tools/") else "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (bid, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = V + "/seeded/" + bid
    subprocess.run([V + "/tools/mkbug.sh", bid, prop, needs, breaks], check=True)
    if demo is not None:
        open(d + "/demo.c", "w").write(demo)
        for h in ("demo_http.h",) + tuple(extra):
            if h in demo:
                shutil.copy(V + "/tools/" + h, d)
    if sh:
        open(d + "/demo.sh", "w").write(sh)
    if ldflags:
        s = open(d + "/demo.sh").read().replace("libonion_static.a \\", "libonion_static.a %s \\" % ldflags)
        open(d + "/demo.sh", "w").write(s)
    print("planted", bid)
