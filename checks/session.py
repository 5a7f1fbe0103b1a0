import vp, sessl


def check(c):
    mul = 8 if vp.THOROUGH else 1
    c.add_model("Sess: isolation of the sessions of two clients, all histories", sessl.model())
    sc = []
    for i, (n, num) in enumerate(((2, 150), (4, 300), (10, 250), (25, 60))):
        g = sessl.gen(num * mul, n, vp.SEED * 10 + i, 2 if n < 5 else 3)
        c.add_model("SessGen simulation: %d requests" % n, g)
        for j, b in enumerate(g.behaviours):
            sc.append(sessl.scenario(b, c.rng, (0, 0, 1, 2)[j % 4]))
    x = sessl.exe()
    c.judge("SessTrace", sc, lambda s: vp.run_scenarios(x, s), name="session histories")
    st = vp.harness("store", "asan", ["h_store.c", "memcount.c"], ldflags=["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free strdup strndup".split())])
    c.judge("StoreTrace", [["procs 60 3", "end"], ["procs 1 200", "end"], ["procs 100 1", "end"]], lambda s: vp.run_scenarios(st, s), name="identifiers of processes started apart")


if __name__ == "__main__":
    vp.main(check, "C12")
