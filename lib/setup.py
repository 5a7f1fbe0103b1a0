import vp, shutil, sys
for t in ("cmake", "ninja", "gcc", "java"):
    if not shutil.which(t):
        print("missing", t); sys.exit(1)
vp.build("asan"); vp.build("plain")
print("setup ok")
