import vp, web


def check(c):
    x = web.exe()
    rng = c.rng
    mul = 6 if vp.THOROUGH else 1
    run = lambda s: vp.run_scenarios(x, s)
    kinds = ["none", "form", "mp", "mp", "data", "put"]
    reqs = [r[0] for k in kinds for r in web.requests(c, 6 * mul, kinds=[k], seed=31 + kinds.index(k) * 3)]
    big = [r[0] for k in ("mp", "put") for r in web.requests(c, 3 * mul, kinds=[k], seed=61, big=True)]
    sc = []
    # cut off after every byte: the client closes, the read fails, the server drops the connection
    for r in reqs:
        b = r["b"]
        n = len(b)
        for i in range(1, n + 1):
            end = ["eof 0 0", "eof 0 1", "cut 0", None][rng.randrange(4)]
            seg = web.seg(0, b[:i], rng.choice([[], [1] * i, [max(1, i - 1)], web.cuts(rng, i)]))
            sc.append([seg] + ([end] if end else []) + ["endr"])
    for r in big:
        b = r["b"]
        n = len(b)
        for i in sorted(set(list(range(n - r["body"], n, 13)) + [n - 3, n - 2, n - 1, n])):
            sc.append([web.seg(0, b[:i], rng.choice([[], [1000] * 20])), rng.choice(["eof 0 0", "cut 0"]), "endr"])
    c.judge("HttpTrace", sc, run, name="cut off connections")
    # sequences of complete requests with all kinds of responses, failing writes, no place for temporary files, limits
    sc = []
    progs = [web.fill(p) for p in web.programs(c, 200 * mul, maxops=5, style="err", seed=8)]
    seqs = web.requests(c, 140 * mul, per=3, seed=33, big=True)
    for reqs in seqs:
        b = b"".join(r["b"] for r in reqs)
        s = []
        for _ in reqs:
            s += web.ops(rng.choice(progs))
        k = rng.randrange(6)
        if k == 0:
            s += ["w " + " ".join(["100000"] * rng.randrange(12) + ["-1"] * 50)]
        elif k == 1:
            s += ["mkfail %d" % rng.choice([1, 2, 1000])]
        elif k == 2:
            s += ["max %d %d" % (rng.choice([5, 40, 200, 5000]), rng.choice([5, 40, 200, 5000]))]
        elif k == 3:
            s += ["w " + " ".join(["3"] * 3000)]
        s.append(web.seg(0, b, web.cuts(rng, len(b))))
        if rng.random() < .3:
            s.append("eof 0 %d" % rng.randrange(2))
        sc.append(s + ["endr"])
    c.judge("HttpTrace", sc, run, name="complete connections")


if __name__ == "__main__":
    vp.main(check, "C20")
