import vp, web


def check(c):
    x = web.exe()
    rng = c.rng
    mul = 6 if vp.THOROUGH else 1
    run = lambda s: vp.run_scenarios(x, s)
    sc = []

    def progs(n):
        out = []
        for _ in range(n):
            k = rng.randrange(12)
            out += web.ops([[], [("write", b"ok")], [("write", web.blob(1600))], [("code", 204)], [("ret", 0)], [("ret", -500)], [("length", 3), ("write", b"abc")], [("headers",), ("write", b"z")],
                            [("write", b"a"), ("flush",), ("write", b"b")], [("gethdr", b"X-A"), ("gethdr", b"cookie"), ("write", b"h")], [("nokeep",)] if rng.random() < .3 else [], [("gethdr", b"Host"), ("ret", -502)]][k])
        return out
    seqs = web.requests(c, 110 * mul, per=2, seed=11) + web.requests(c, 60 * mul, per=3, seed=12) + web.requests(c, 30 * mul, per=5, seed=13)
    for reqs in seqs:
        b = b"".join(r["b"] for r in reqs)
        n = len(b)
        # all in one piece, every request in one, byte by byte, random, and cuts around the borders of the requests
        p = progs(len(reqs))
        sc.append(p + [web.seg(0, b), "end"])
        sc.append(p + [web.seg(0, b, [len(r["b"]) for r in reqs]), "end"])
        sc.append(p + [web.seg(0, b, [1] * n), "end"])
        sc.append(p + [web.seg(0, b, web.cuts(rng, n, "rand")), "end"])
        sc.append(p + [web.seg(0, b, web.cuts(rng, n, "big")), "end"])
        e = len(reqs[0]["b"])
        for d in (-3, -2, -1, 1, 2, 5):
            sc.append(p + [web.seg(0, b, [max(1, e + d)]), "end"])
    # two connections, interleaved segment by segment
    for a, b in zip(seqs[0::2], seqs[1::2]):
        A, Bb = b"".join(r["b"] for r in a), b"".join(r["b"] for r in b)
        s = progs(len(a) + len(b))
        ia = ib = 0
        while ia < len(A) or ib < len(Bb):
            k = rng.choice([1, 7, 40, 200])
            if rng.random() < .5 and ia < len(A):
                s.append(web.seg(0, A[ia:ia + k])); ia += k
            elif ib < len(Bb):
                s.append(web.seg(1, Bb[ib:ib + k])); ib += k
        sc.append(s + ["end"])
    c.judge("HttpTrace", sc, run, name="connections", timeout=800)


if __name__ == "__main__":
    vp.main(check, "C04")
