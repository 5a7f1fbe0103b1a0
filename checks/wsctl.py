import vp, wsl


def check(c):
    mul = 8 if vp.THOROUGH else 1
    c.add_model("Ws: encodings, masks and splits of all sequences of two small frames", wsl.laws())
    sc = []
    for i, (mode, n, num) in enumerate((("ctl", 1, 120), ("ctl", 2, 200), ("ctl", 4, 300), ("ctl", 9, 150), ("data", 4, 60))):
        g = wsl.gen(mode, num * mul, n, vp.SEED * 100 + i)
        c.add_model("WsGen simulation: %s, %d frames" % (mode, n), g)
        sc += [wsl.scenario(b, c.rng) for b in g.behaviours]
    # handshakes, proper and not
    for _ in range(120 * mul):
        sc.append(wsl.scenario(wsl.simple([(1, 3)]), c.rng, good=c.rng.random() < .35))
    for r in wsl.bad_heads():
        s = wsl.scenario(wsl.simple([(1, 3)]), c.rng)
        sc.append(s[:-2] + ["go " + r.hex(), "end"])
    # a control frame of every length between two data frames, cut at every byte
    for op in (8, 9, 10):
        for n in range(0, 130, 1 if vp.THOROUGH else 4):
            sc.append(wsl.scenario(wsl.simple([(1, 3), (op, n), (2, 5)], rs=c.rng.choice([[], [1], [2, 3, 1]])), c.rng))
        b = wsl.simple([(1, 3), (op, 4), (1, 2), (op, 2), (1, 1)])
        for cut in range(1, 50):
            for ops in ([dict(t="R")], [dict(t="r", n=9)]):
                sc.append(wsl.scenario(dict(b, cut=cut, gs=[dict(st=0, ops=ops)] * 3, rs=c.rng.choice([[], [1], [3]])), c.rng))
    # refusals at every point, with every status, having read all or part of the frame
    for st in (-2, -500, 2, 3, 0, -501):
        for ops in ([], [dict(t="R")], [dict(t="r", n=2)], [dict(t="x")], [dict(t="u"), dict(t="r", n=1), dict(t="x")], [dict(t="r", n=9)]):
            for pre in (0, 1, 2):
                s = wsl.scenario(wsl.simple([(1, 5), (9, 2), (2, 4), (1, 6), (8, 2)], [dict(st=0, ops=[dict(t="r", n=3)])] * pre + [dict(st=st or 99, ops=ops)], h=[dict(t="u")]), c.rng)
                sc.append([x.replace("k 99", "k 0") for x in s])
    x = wsl.exe()
    c.judge("WsTrace", sc, lambda s: vp.run_scenarios(x, s), name="websocket connections")


if __name__ == "__main__":
    vp.main(check, "C22")
