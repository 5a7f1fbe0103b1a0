import vp, codecs_ as cd

CFG = "SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = %d\n Ids = {%s}\n Vals = {%s}\n Sim = %s\n"
IDS = [b"a", b"A", b"id with spaces", b"x'y\"z;--", b"%s%b%n", b"", b"\xc3\xa9", b"a%00b", b"SESSIONS", b"x" * 300, b"\r\n*1\r\n$4\r\nPING", b"*", b"a\\"]


def nums(n):
    return ",".join(map(str, range(1, n + 1)))


def scenario(rng, ops, stores, ids, vals, probe):
    """ids, vals: what the numbers of the specification stand for"""
    out = ["open " + stores]
    gets = ["get %s -1" % i for i in ids.values()]
    for o in ops:
        if o["op"] == "save":
            out.append("save %s -1 %s" % (ids[o["id"]], vals[o["v"]]))
        elif o["op"] == "remove":
            out.append("remove %s -1" % ids[o["id"]])
        else:
            out.append("reopen")
        if probe:
            out += gets if probe > 1 else [rng.choice(gets)]
    return out + gets + ["end"]


def check(c):
    mul = 8 if vp.THOROUGH else 1
    rng = c.rng
    n = 5 if vp.THOROUGH else 4
    c.add_model("Store: last operation decides, all histories", vp.model_check("StoreGen", CFG % (6 if vp.THOROUGH else 5, nums(2), nums(2), "FALSE") + "INVARIANT LastWins\n"))
    sc = []
    # every history of n operations on two identifiers and two values
    g = vp.generate("StoreGen", CFG % (n, nums(2), nums(2), "FALSE") + "CONSTRAINT Emit\n")
    c.add_model("StoreGen: all histories of %d operations" % n, g)
    for b in g.behaviours:
        i = rng.sample(IDS, 2)
        v = [[], ["s", "6b", "76"]] if rng.random() < .3 else [cd.rdict(rng, 2, rng.choice([0, 1, 2, 3]), [b"k", b"l"]) for _ in range(2)]
        sc.append(scenario(rng, b["ops"], "0 1 2", {1: cd.hx(i[0]), 2: cd.hx(i[1])}, {1: " ".join(v[0]), 2: " ".join(v[1])}, 1))
    # longer ones, on more of them, also with two objects of the same file and of the same server
    g = vp.generate("StoreGen", CFG % (25, nums(4), nums(5), "TRUE") + "CONSTRAINT Emit\n", simulate=150 * mul, depth=27, seed=vp.SEED)
    c.add_model("StoreGen simulation: 25 operations", g)
    for b in g.behaviours:
        i = rng.sample(IDS, 4)
        sc.append(scenario(rng, b["ops"], rng.choice(["0 1 2", "0 1 2", "1 1 2 2", "0 1"]), {k + 1: cd.hx(i[k]) for k in range(4)},
                           {k: " ".join(cd.rdict(rng, 3, rng.choice([0, 1, 3, 8, 20]), [b"k", b"l", b"a", b"", b"K"])) for k in range(1, 6)}, 2))
    # stores that share a medium: what one does the other sees
    for _ in range(60 * mul):
        out = ["open 1 1 2 2"]
        i = [cd.hx(x) for x in rng.sample(IDS, 3)]
        for _ in range(20):
            k, s = rng.choice(i), rng.randrange(4)
            out.append(rng.choice(["save %s %d s 6b %s" % (k, s, cd.hx(cd.text(rng, 4))), "remove %s %d" % (k, s), "get %s -1" % k, "get %s %d" % (k, s)]))
        sc.append(out + ["get %s -1" % k for k in i] + ["end"])
    # identifiers issued by the store
    for _ in range(30 * mul):
        out = ["open 0 1 2"]
        for k in range(rng.randint(1, 6)):
            out += ["create -1"]
        for k in range(15):
            j = rng.randrange(3)
            out.append(rng.choice(["get @%d -1" % j, "save @%d -1 s 61 %s" % (j, cd.hx(cd.text(rng, 3))), "remove @%d -1" % j, "create -1", "reopen"]))
        sc.append(out + ["get @%d -1" % k for k in range(3)] + ["end"])
    for _ in range(2 * mul):
        sc.append(["procs 30 5", "end"])
    # a store that can not be opened, a server that fails
    sc += [["bad 1", "open 0 1", "save 61 -1 s 6b 76", "get 61 -1", "end"], ["bad 2", "open 2", "save 61 -1", "get 61 -1", "end"]]
    for kind in (1, 2):
        for at in range(1, 7):
            sc.append(["open 0 1 2", "save 61 -1 s 6b 76", "fault %d %d" % (at, kind), "get 61 -1", "save 62 -1 s 6b 76 d 6c s 6d 6e u", "remove 61 -1", "get 62 -1", "create -1", "get 61 -1", "reopen", "get 62 -1", "end"])
    x = vp.harness("store", "asan", ["h_store.c", "memcount.c"], ldflags=["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free strdup strndup".split())])
    c.judge("StoreTrace", sc, lambda s: vp.run_scenarios(x, s), name="store histories")


if __name__ == "__main__":
    vp.main(check, "C13")
