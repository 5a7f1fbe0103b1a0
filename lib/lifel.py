"""Lives of servers: models, generated histories, schedules."""
import vp, schedl


def models(c):
    t = vp.THOROUGH
    c.add_model("LifeMC: start, stop and end of a server, all interleavings", vp.model_check("LifeMC", "SPECIFICATION MSpec\nINVARIANTS Closed Freed Once\nCONSTANTS Stoppers = {%s}\n MaxStop = %d\n MaxListen = %d\n" % ("a, b, d" if t else "a, b", 5 if t else 4, 3 if t else 2)))


def ops(o, base):
    def one(x):
        j = x["j"] + (base if x["t"] in "CQqX" else 0)
        return "%s%d%s" % (x["t"], j, ".%d" % x["a"] if x["a"] >= 0 else "." + x["h"] if x["h"] else "")
    return ",".join(one(x) for x in o) or "Z1"


def scenario(b, rng):
    f = b["cfg"]
    mode = rng.choice([(0, 2), (0, 5), (0, 20), (0, 100), (1, 1), (1, 3), (1, 6), (1, 20), (2, 2), (2, 5), (2, 20), (3, 1), (3, 3), (3, 10), (3, 30)])
    out = ["sched %d %d %d" % (rng.randrange(1, 1 << 30), *mode), "new %d %d %d" % (f["mode"] | f["det"], f["th"], f["tmo"])]
    kinds = list(f["lps"])
    out += ["lp %d %d" % (i, k) for i, k in enumerate(kinds)]
    n = len(kinds)
    for e, x in enumerate(b["ep"]):
        base = e * 8
        if x["pre"]:
            out.append("actors " + " ".join(ops(a, base) for a in x["pre"]))
        out.append("listen")
        if x["pre"]:
            out.append("join")
        if x["calm"]:
            out.append("quiet")
        if e == len(b["ep"]) - 1 and x["by"] == "n" and f["det"]:
            out += ["do " + ops(x["last"][0], base)] + ["free", "end"]
            return out
        for p in x["ph"]:
            out += ["actors " + " ".join(ops(a, base) for a in p["actors"]), "join", "quiet"]
            if p["sleep"]:
                out.append("sleep %d" % p["sleep"])
        if x["by"] == "a":
            out += ["actors S " + " ".join(ops(a, base) for a in x["last"]), "join"]
        elif x["by"] == "t":
            out += ["actors S S " + " ".join(ops(a, base) for a in x["last"]), "join"]
        elif x["by"] == "h":
            out += ["actors C%d.%d,Q%d.%s " % (base + 7, x["hp"] % n, base + 7, x["hz"]) + " ".join(ops(a, base) for a in x["last"]), "join"]
            if rng.random() < .3 and f["det"]:
                out += ["quiet", "sleep 1000"]
        out += ["quiet"] if x["by"] != "c" or not x["calm"] or rng.random() < .5 else []
        out += ["quiet", "do S", "quiet", "joinl", "do " + ",".join("P%d" % i for i in range(n)), "quiet"]
        if x["rel"]:
            out.append("release")
        if 0 <= x["hold"] < n and kinds[x["hold"]] == 0:
            out.append("hold %d" % x["hold"])
    return out + ["free", "end"]


def run(c, shapes, seed, name):
    sc = []
    for i, (ne, num, per) in enumerate(shapes):
        g = vp.generate("LifeGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS NE = %d\n" % ne, simulate=num, depth=ne + 2, seed=seed + i)
        c.add_model("LifeGen simulation: %d listenings" % ne, g)
        for b in g.behaviours:
            for _ in range(per):
                sc.append(scenario(b, c.rng))
    x = schedl.exe("life")
    c.judge("LifeTrace", sc, lambda s: vp.run_scenarios(x, s), name=name)
