import vp, codecs_ as cd


def check(c):
    mul = 8 if vp.THOROUGH else 1
    c.add_model("laws of the JSON definitions: texts", cd.laws(["text"], 3))
    c.add_model("laws of the JSON definitions: objects", cd.laws(["json"], 5 if vp.THOROUGH else 4))
    cmds = []
    for kind, n in (("json", 4 if vp.THOROUGH else 3), ("juq", 4 if vp.THOROUGH else 3), ("text", 2)):
        g = cd.gen([kind], n)
        c.add_model("CodecGen: all texts of up to %d tokens, %s" % (n, kind), g)
        for b in g.behaviours:
            if kind == "text":
                cmds += ["jq " + cd.hx(b["s"]), "tojson s %s %s" % (cd.hx(b["s"]), cd.hx(b["s"])), "tojson d %s s 6b %s u" % (cd.hx(b["s"]), cd.hx(b["s"]))]
            else:
                cmds.append("%s %s" % ({"json": "fromjson"}.get(kind, kind), cd.hx(b["s"])))
    for kind, n, num in (("json", 14, 800), ("json", 40, 500), ("juq", 12, 500)):
        g = cd.gen([kind], n, leaves=True, sim=num * mul, seed=vp.SEED * 10 + n)
        c.add_model("CodecGen simulation: %s, %d tokens" % (kind, n), g)
        cmds += ["%s %s" % ({"json": "fromjson"}.get(kind, kind), cd.hx(b["s"])) for b in g.behaviours]
    cmds += cd.json_inputs(c.rng, mul)
    for a in range(1, 256):
        cmds += ["jq " + cd.hx([a]), "tojson s %s %s" % (cd.hx([a]), cd.hx([97, a])), "juq " + cd.hx([34, a, 34]), "juq " + cd.hx([34, 92, a, 34])]
    keys = [b"k", b"l", b"a", b"", b"K"]
    for _ in range(500 * mul):
        cmds.append(" ".join(["tojson"] + cd.rdict(c.rng, c.rng.choice([0, 1, 2, 3, 5]), c.rng.choice([0, 1, 2, 3, 6]), keys)))
    c.rng.shuffle(cmds)
    x = cd.exe()
    c.judge("CodecTrace", cd.pack(cmds), lambda s: vp.run_scenarios(x, s), name="JSON calls")


if __name__ == "__main__":
    vp.main(check, "C15")
