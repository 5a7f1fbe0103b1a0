import vp, web


def check(c):
    x = web.exe()
    rng = c.rng
    mul = 6 if vp.THOROUGH else 1
    c.add_model("HttpMC", vp.model_check("HttpMC", 'SPECIFICATION Spec\nINVARIANT Roundtrip\nCHECK_DEADLOCK FALSE\nCONSTANTS BK={"data","put","mp"}\n'))
    kinds = ["form", "mp", "mp", "data", "put"]
    small = [r[0] for k in kinds for r in web.requests(c, 50 * mul, kinds=[k], seed=len(k) + kinds.index(k))]
    big = [r[0] for k in ("mp", "put", "data") for r in web.requests(c, 14 * mul, kinds=[k], seed=50 + len(k), big=True)]
    sc = []
    for r in small:
        n = len(r["b"])
        for mode in ("one", "bytes", "rand"):
            sc.append([web.seg(0, r["b"], web.cuts(rng, n, mode)), "end"])
        # the head alone, then the body
        sc.append([web.seg(0, r["b"], [n - r["body"]]), "end"])
    for r in big:
        n = len(r["b"])
        sc.append([web.seg(0, r["b"]), "end"])
        for _ in range(4):
            sc.append([web.seg(0, r["b"], [n - r["body"]] + web.cuts(rng, r["body"], "big")), "end"])
        sc += [[web.seg(0, r["b"], [k] * 5000), "end"] for k in (1, 7, 512, 1023, 1024, 1025)]
    # every cut position
    for r in rng.sample(small, min(len(small), 45 * mul)):
        n = len(r["b"])
        sc += [[web.seg(0, r["b"], [i]), "end"] for i in range(n - r["body"], n)]
        # and pairs of cuts close to each other
        sc += [[web.seg(0, r["b"], [i, 1 + rng.randrange(4)]), "end"] for i in range(n - r["body"], n - 1, 3)]
    c.judge("HttpTrace", sc, lambda s: vp.run_scenarios(x, s), name="request bodies")


if __name__ == "__main__":
    vp.main(check, "C02")
