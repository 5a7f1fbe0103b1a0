import vp, web


def check(c):
    x = web.exe()
    rng = c.rng
    mul = 8 if vp.THOROUGH else 1
    run = lambda s: vp.run_scenarios(x, s)
    progs = [web.fill(p) for p in web.programs(c, 260 * mul, maxops=6, seed=3)]
    sc = []
    for i, p in enumerate(progs):
        req = web.methods(rng)
        # short writes only
        script = [rng.choice([1, 2, 3, 5, 7, 100, 500, 1000, 1499, 1500]) for _ in range(rng.choice([1, 3, 10, 40, 400]))]
        sc.append(web.ops(p) + ["w " + " ".join(map(str, script)), web.seg(0, req), "end"])
        # an error (or a write of nothing) at some write, possibly after short ones, everything accepted again afterwards
        k = rng.randrange(8)
        script = [rng.choice([1, 3, 50, 1000, 100000]) if rng.random() < .4 else 100000 for _ in range(k)] + [rng.choice([-1, -1, 0])]
        if rng.random() < .4:
            script += [-1] * 30
        sc.append(web.ops(p) + (["stopfail"] if rng.random() < .5 else []) + ["w " + " ".join(map(str, script)), web.seg(0, req), web.seg(0, b"GET /2 HTTP/1.1\r\n\r\n"), "end"])
    # one byte at a time, and an error after every possible number of writes, for one program of each framing
    for v, pre in (("1.1", []), ("1.0", []), ("1.1", [("length", 3100)]), ("1.1", [("headers",)])):
        for hd in ("GET", "HEAD"):
            p = pre + [("write", web.blob(1600)), ("flush",), ("write", web.blob(1400, 2)), ("write", web.blob(100, 4)), ("flush",)]
            req = ("%s / HTTP/%s\r\n\r\n" % (hd, v)).encode()
            sc.append(web.ops(p) + ["w " + " ".join(["1"] * 9000), web.seg(0, req), "end"])
            for k in range(14):
                for e in (-1, 0):
                    sc.append(web.ops(p) + ["w " + " ".join(["100000"] * k + [str(e)]), web.seg(0, req), "end"])
                sc.append(web.ops(p) + ["w " + " ".join(["700"] * k + ["-1"]), web.seg(0, req), "end"])
    c.judge("HttpTrace", sc, run, name="short writes and errors")


if __name__ == "__main__":
    vp.main(check, "C06")
