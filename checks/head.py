import vp, web


def long_heads(rng):
    """heads near the sizes that must be accepted"""
    out = []
    for n in (1400, 4000, 8150, 8180, 8189, 8190):
        out.append(b"GET /" + b"p" * (n - 1) + b" HTTP/1.1\r\nHost: x\r\n\r\n")
        out.append(b"GET /?k=" + b"v" * (n - 4) + b" HTTP/1.1\r\nHost: x\r\n\r\n")
        out.append(b"GET / HTTP/1.1\r\n" + b"n" * n + b": v\r\nHost: x\r\n\r\n")
    for n in (1400, 4000, 8000, 8140):
        out.append(b"GET / HTTP/1.1\r\nX:" + b" " * 3 + b"w" * n + b"\r\nHost: x\r\n\r\n")
        out.append(b"GET / HTTP/1.1\r\nX: " + b"w" * (n // 2) + b"\r\n\t" + b"u" * (n // 2 - 5) + b"\r\nHost: x\r\n\r\n")
    out.append(b"GET / HTTP/1.1\r\n" + b"".join(b"H%d: value %d\r\n" % (i % 70, i) for i in range(220)) + b"\r\n")
    return out


def check(c):
    x = web.exe()
    rng = c.rng
    mul = 6 if vp.THOROUGH else 1
    c.add_model("HttpMC", vp.model_check("HttpMC", 'SPECIFICATION Spec\nINVARIANT Roundtrip\nCHECK_DEADLOCK FALSE\nCONSTANTS BK={"none","form"}\n'))
    reqs = [r[0] for r in web.requests(c, 320 * mul, kinds=["none", "none", "form"], seed=1)]
    sc = []
    for r in reqs:
        for mode in ("one", "bytes", "rand"):
            sc.append([web.seg(0, r["b"], web.cuts(rng, len(r["b"]), mode)), "end"])
    # every single cut position, and pairs of cuts
    for r in rng.sample(reqs, min(len(reqs), 36 * mul)):
        n = len(r["b"])
        sc += [[web.seg(0, r["b"], [i]), "end"] for i in range(1, n)]
        sc += [[web.seg(0, r["b"], [i, 1 + rng.randrange(4)]), "end"] for i in range(1, n - 1, 4)]
    for b in long_heads(rng):
        sc += [[web.seg(0, b, s), "end"] for s in ([], [len(b) - 3], web.cuts(rng, len(b), "big"))]
    c.judge("HttpTrace", sc, lambda s: vp.run_scenarios(x, s), name="request heads")


if __name__ == "__main__":
    vp.main(check, "C01")
