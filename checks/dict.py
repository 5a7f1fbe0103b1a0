import vp
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free strdup strndup".split())]
GENCFG = """SPECIFICATION GSpec
CONSTRAINTS Bound Emit
CHECK_DEADLOCK FALSE
CONSTANTS Bases = %(bases)s
 Vals = %(vals)s
 MaxObj = %(obj)d
 MaxEnt = %(ent)d
 Depth = %(depth)d
 Record = TRUE
"""
MCCFG = """SPECIFICATION GSpec
CONSTRAINTS Bound
VIEW NoHist
INVARIANTS Sorted RefCount NoDangling
CHECK_DEADLOCK FALSE
CONSTANTS Bases = {1}
 Vals = {"a"}
 MaxObj = %d
 MaxEnt = %d
 Depth = 0
 Record = FALSE
"""


def exe(variant="asan"):
    return vp.harness("dict", variant, ["h_dict.c", "memcount.c"], ldflags=WRAP + ["-Wl,--wrap=strcmp,--wrap=strcasecmp"])


def b2(x):
    return "1" if x else "0"


def cmds(beh, maxfree=True):
    out = []
    for o in beh["ops"]:
        op = o["op"]
        if op == "new":
            out.append("new " + b2(o["ic"]))
        elif op == "add":
            out.append("add %d %d %d %s %s %s" % (o["o"], o["k"][0], o["k"][1], o["s"], b2(o["rep"]), o["m"]))
        elif op in ("give", "copy"):
            out.append("%s %d %d %d %d %s" % (op, o["o"], o["k"][0], o["k"][1], o["c"], b2(o["rep"])))
        elif op in ("remove", "get"):
            out.append("%s %d %d %d" % (op, o["o"], o["k"][0], o["k"][1]))
        elif op in ("dup", "hdup", "count", "list"):
            out.append("%s %d" % (op, o["o"]))
        elif op == "free":
            out.append("free %d %s" % (o["o"], b2(o["alive"])))
        elif op == "merge":
            out.append("merge %d %d" % (o["o"], o["p"]))
        elif op in ("rget", "rgetd"):
            out.append("%s %d %d %s" % (op, o["o"], len(o["ks"]), " ".join("%d %d" % tuple(k) for k in o["ks"])))
    for i, n in enumerate(beh["own"]):
        out += ["free %d 0" % (i + 1)] * n
    out.append("end")
    return out


def generate(seed, num, depth, bases, vals, obj, ent):
    cfg = GENCFG % dict(bases="{" + ",".join(map(str, bases)) + "}", vals="{" + ",".join('"%s"' % v for v in vals) + "}", obj=obj, ent=ent, depth=depth)
    g = vp.generate("DictGen", cfg, simulate=num, depth=depth + 1, seed=seed)
    g.behaviours = vp.one_per_prefix(g.behaviours, lambda b: b["ops"])
    return g


def big(rng, n, ops, ic, order):
    """growing and shrinking large dictionaries: ordering, counts and the cost of lookups"""
    out = ["new " + b2(ic), "chk 0"]
    keys = [(b, rng.randint(0, 1)) for b in range(1, n + 1)]
    if order == "asc":
        pass
    elif order == "desc":
        keys.reverse()
    else:
        rng.shuffle(keys)
    for k in keys:
        out.append("add 1 %d %d v%d 1 dup" % (k[0], k[1], k[0]))
    out.append("list 1")
    live = list(keys)
    for k in rng.sample(keys, min(25, n)):
        out.append("get 1 %d %d" % k)
    for i in range(ops):
        r = rng.random()
        if r < .7 and live:
            k = live.pop(rng.randrange(len(live)) if order == "rnd" else 0)
            out.append("remove 1 %d %d" % k)
        else:
            k = (rng.randint(1, n), rng.randint(0, 1))
            live = [x for x in live if not (x == k or (ic and x[0] == k[0]))] + [k]
            out.append("add 1 %d %d w%d 1 own" % (k[0], k[1], i))
        if rng.random() < .3:
            k = rng.choice(keys)
            out.append("get 1 %d %d" % k)
        if i % 60 == 59:
            out += ["count 1", "list 1"]
    out += ["count 1", "list 1"]
    for k in rng.sample(keys, min(40, n)):
        out.append("get 1 %d %d" % k)
    out += ["free 1 0", "end"]
    return out


def check(c):
    for obj, ent in ((2, 2), (3, 1)) + (((2, 3),) if vp.THOROUGH else ()):
        t = vp.model_check("DictGen", MCCFG % (obj, ent), timeout=800)
        c.add_model("Dict: nesting, sharing and refcounts, %d objects, %d entries" % (obj, ent), t)
    sc = []
    mul = 8 if vp.THOROUGH else 1
    for i, (depth, bases, vals, obj, ent, num) in enumerate([
            (14, [1, 2, 3], ["a", "b"], 9, 6, 120), (40, [1, 2, 3, 4, 5], ["a", "b", "c", "d"], 14, 12, 120),
            (90, [1, 2, 3, 4, 5, 6, 7], ["a", "b", "c"], 8, 30, 60)]):
        g = generate(vp.SEED * 100 + i, num * mul, depth, bases, vals, obj, ent)
        c.add_model("DictGen simulation %d" % i, g)
        sc += [cmds(b) for b in g.behaviours]
    for i in range(12 * mul):
        sc.append(big(c.rng, c.rng.choice([10, 30, 80, 200]), c.rng.choice([20, 100]), c.rng.random() < .4, ["asc", "desc", "rnd"][i % 3]))
    # many equal keys, removed one by one
    for i in range(40 * mul):
        out = ["new " + b2(c.rng.random() < .5)]
        for j in range(c.rng.randint(3, 14)):
            out.append("add 1 %d %d v%d %s %s" % (c.rng.randint(1, 3), c.rng.randint(0, 1), j, b2(c.rng.random() < .15), c.rng.choice(["dup", "own", "static"])))
        for j in range(c.rng.randint(3, 16)):
            out.append("remove 1 %d %d" % (c.rng.randint(1, 3), c.rng.randint(0, 1)))
            out.append("get 1 %d %d" % (c.rng.randint(1, 3), c.rng.randint(0, 1)))
        out += ["count 1", "free 1 0", "end"]
        sc.append(out)
    x = exe()
    c.judge("DictTrace", sc, lambda s: vp.run_scenarios(x, s), name="dict calls")


if __name__ == "__main__":
    vp.main(check, "C14")
