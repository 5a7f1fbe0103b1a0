"""Requests that run at once: models, generated programs, schedules."""
import vp, schedl


def models(c):
    t = vp.THOROUGH
    c.add_model("ConcMC: requests sharing sessions, all interleavings", vp.model_check("ConcMC", "SPECIFICATION MSpec\nINVARIANTS Kept Alive\nCHECK_DEADLOCK FALSE\nCONSTANTS Th = {%s}\n MaxReq = %d\n Atomic = TRUE\n" % ("u, v, w", 2 if t else 1)))


def op(o):
    t = o["t"]
    if t in "SG":
        return t + "+".join("%s%d" % (x["k"], x["v"]) for x in o["kv"])
    if t in "DM":
        return t + o["k"]
    if t in "YCW":
        return "%s%d" % (t, o["n"])
    return t


def scenario(b, backend, rng):
    mode = rng.choice([(0, 2), (0, 5), (0, 20), (1, 3), (1, 10), (2, 2), (2, 2), (2, 5), (2, 5), (2, 20), (2, 20), (3, 1), (3, 2), (3, 4), (3, 10), (3, 10), (3, 30)])
    out = ["sched %d %d %d %d %d" % (rng.randrange(1, 1 << 30), *mode, b["drift"], b["calm"]), "new %d" % backend]
    out += [] if b["cold"] else ["mimes"]
    out += ["slot " + " ".join(s) for s in b["slots"]]
    for i, t in enumerate(b["th"]):
        rs = []
        for j, r in enumerate(t):
            tag = r["file"] if r["kind"] == "f" else "T%dR%d" % (i, j) + "z" * r["fill"]
            rs.append("%s:%d:%s:%d:%s" % (r["kind"], r["slot"], tag, r["close"], ",".join(op(o) for o in r["ops"] if o["t"] != "F" or r["slot"] != 3)[:120] if r["kind"] in "EPAa" else ""))
        out.append("th " + ";".join(rs))
    return out + ["go", "dump", "end"]


def run(c, shapes, seed, name):
    sc = []
    for i, (prof, nth, backend, num, per) in enumerate(shapes):
        g = vp.generate("ConcGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS NTh = %d\n Prof = \"%s\"\n" % (nth, prof), simulate=num, depth=nth + 2, seed=seed + i)
        c.add_model("ConcGen simulation: %d threads, %s" % (nth, prof), g)
        for b in g.behaviours:
            for _ in range(per):
                sc.append(scenario(b, backend, c.rng))
    x = schedl.exe("conc")
    c.judge("ConcTrace", sc, lambda s: vp.run_scenarios(x, s), name=name)
