import vp, wsl


def check(c):
    mul = 8 if vp.THOROUGH else 1
    c.add_model("Ws: encodings, masks and splits of all sequences of two small frames", wsl.laws())
    sc = []
    for i, (mode, n, num) in enumerate((("data", 1, 120), ("data", 3, 250), ("data", 8, 200), ("ctl", 5, 100))):
        g = wsl.gen(mode, num * mul, n, vp.SEED * 10 + i)
        c.add_model("WsGen simulation: %s, %d frames" % (mode, n), g)
        sc += [wsl.scenario(b, c.rng) for b in g.behaviours]
    W = lambda n, o=2: dict(st=0, ops=[dict(t="R"), dict(t="w", op=o, n=n, b=n, s=1)])
    # lengths around every encoding and buffer boundary, both ways
    edge = [0, 1, 124, 125, 126, 127, 255, 256, 511, 512, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 4096, 8192, 65534, 65535, 65536, 65537]
    for n in edge + ([66560, 70000, 131072] if vp.THOROUGH else []):
        sc.append(wsl.scenario(wsl.simple([(1, 1)], [W(n)]), c.rng))
        sc.append(wsl.scenario(wsl.simple([(2, n), (1, 3)], rs=[1, 1, 1, 1, 1, 1, 1] + [5000]), c.rng))
        if n < 5000:
            sc.append(wsl.scenario(wsl.simple([(2, n), (1, 3)], [dict(st=0, ops=[dict(t="r", n=k)]) for k in (1, 3, 200)], rs=[2, 3, 7]), c.rng))
            sc.append(wsl.scenario(wsl.simple([(1, 2)], [dict(st=0, ops=[dict(t="R"), dict(t="w", op=1, n=n, b=5, s=1)])], ws=[1, 2, 3, 5, 1000, 1]), c.rng))
    # formatted messages with zero bytes in them
    for n in (1, 2, 100, 255, 256, 510, 511, 512, 513, 600, 1500):
        for b in (0, 1, 255, 200, 37):
            sc.append(wsl.scenario(wsl.simple([(1, 1)], [dict(st=0, ops=[dict(t="R"), dict(t="p", op=2, n=n, b=b, s=1)])]), c.rng))
    x = wsl.exe()
    c.judge("WsTrace", sc, lambda s: vp.run_scenarios(x, s), name="websocket connections")


if __name__ == "__main__":
    vp.main(check, "C21")
