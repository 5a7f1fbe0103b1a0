import vp, codecs_ as cd


def check(c):
    mul = 8 if vp.THOROUGH else 1
    c.add_model("laws of the codec definitions, all texts of up to 3 bytes of 21 classes", cd.laws(["text"], 3))
    cmds = cd.b64_inputs(c.rng, mul) + cd.text_inputs(c.rng, mul)
    for kinds, n in ((["b64d"], 4), (["unq"], 4), (["text"], 3 if vp.THOROUGH else 2)):
        g = cd.gen(kinds, n)
        c.add_model("CodecGen: all texts of up to %d tokens, %s" % (n, kinds[0]), g)
        for b in g.behaviours:
            if b["k"] == "text":
                cmds += ["%s %s" % (f, cd.hx(b["s"])) for f in ("quo", "cq", "html", "b64e")]
                if c.rng.random() < .2:
                    cmds += ["cqm %s %d" % (cd.hx(b["s"]), m) for m in range(3, 16)] + ["quom %s %d" % (cd.hx(b["s"]), m) for m in range(1, 9)]
            elif b["k"] == "unq" or c.rng.random() < .5:
                cmds.append("%s %s" % (b["k"], cd.hx(b["s"])))
    x = cd.exe()
    c.judge("CodecTrace", cd.pack(cmds), lambda s: vp.run_scenarios(x, s), name="codec calls")


if __name__ == "__main__":
    vp.main(check, "C16")
