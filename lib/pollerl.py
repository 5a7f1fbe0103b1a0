"""Pollers: models, generated programs, schedules."""
import vp, schedl


def models(c):
    t = vp.THOROUGH
    c.add_model("PollerMC: threads, removal and reuse of a slot, all interleavings", vp.model_check("PollerMC", "SPECIFICATION MSpec\nINVARIANTS Exclusive ShutOnce NoLate NotLost Released\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads = {%s}\n MaxReady = %d\n MaxUse = %d\n" % (("1, 2, 3, 4", 4, 4) if t else ("1, 2, 3", 3, 3))))


def timer_model(c):
    t = vp.THOROUGH
    c.add_model("TimerMC: one timer for several limits, all histories", vp.model_check("TimerMC", "SPECIFICATION TMSpec\nINVARIANTS NotEarly NotLate\nCHECK_DEADLOCK FALSE\nCONSTANTS Slots = {%s}\n Tmos = {1, 2, 4}\n Horizon = %d\n" % ("1, 2, 3", 12 if t else 9)))


def ops(o):
    return ",".join("%s%d" % (x["t"], x["i"]) for x in o)


def scenario(b, rng, timed):
    np = b["pollers"]
    mode = rng.choice([(0, 2), (0, 5), (0, 20), (0, 100), (1, 1), (1, 3), (1, 6), (1, 20), (2, 2), (2, 5), (2, 20), (3, 1), (3, 3), (3, 10), (3, 30)])
    out = ["sched %d %d %d %d" % (rng.randrange(1, 1 << 30), *mode, rng.choice([0, 0, 1, 500, 999, rng.randrange(1000)])), "pollers %d %d" % (np, b["q"])]
    for i, f in enumerate(b["fds"]):
        acts = [a["rd"] + ",".join(([ops(a["ops"])] if a["ops"] else []) + (["-"] if a["no"] else [])) for a in f["acts"]]
        out.append("fd %d %d %d %d %d %s" % (i, f["k"] % np, f["tmo"], 1 if f["sd"] or f["ty"] == 2 else 0, f["ty"], " ".join(acts)))
    for k in range(np):       # these stop the poller from inside a callback
        for j in range(6):
            out.append("fd %d %d -1 1 1 aS%d" % (40 + k * 6 + j, k, k))
    out.append("do " + ",".join(["A%d" % i for i in range(b["init"])] + ["A%d" % (40 + k * 6 + j) for k in range(np) for j in range(6)]))
    start = ["poll %d %d" % (k, b["th"][k]) for k in range(np)]
    out += start + ["quiet"]
    stops = 0
    for p in b["ph"]:
        out.append("actors " + " ".join(ops(a) for a in p["actors"]))
        out += ["join", "quiet"]
        if p["sleep"]:
            out.append("sleep %d" % p["sleep"])
        if p["restart"] and stops < 5:
            acts = []
            for k in range(np):
                acts += {1: ["S%d" % k], 2: ["W%d" % (40 + k * 6 + stops)], 3: ["S%d" % k, "S%d" % k]}[p["by"]]
            stops += 1
            out += ["actors " + " ".join(acts + [ops(a) for a in p["actors"][:1]]), "join"]
            out += ["joinp"] + start + ["quiet"]
    out += ["sleep 12000"] if timed else []
    out += ["do " + ",".join("S%d" % k for k in range(np)), "joinp"] + ["free %d" % k for k in range(np)] + ["end"]
    return out


def run(c, shapes, seed, name):
    sc = []
    for i, (nf, np, timed, num, per) in enumerate(shapes):
        g = vp.generate("PollerGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS NF = %d\n NP = %d\n Timed = %s\n" % (nf, np, "TRUE" if timed else "FALSE"), simulate=num, depth=nf + np + 2, seed=seed + i)
        c.add_model("PollerGen simulation: %d descriptors, %d phases" % (nf, np), g)
        for b in g.behaviours:
            for _ in range(per):
                sc.append(scenario(b, c.rng, timed))
    x = schedl.exe("poller")
    c.judge("PollerTrace", sc, lambda s: vp.run_scenarios(x, s), name=name)
