import vp, davl


def check(c):
    x = davl.exe()
    mul = 8 if vp.THOROUGH else 1
    c.add_model("DavMC", vp.model_check("DavMC", "SPECIFICATION Spec\nINVARIANT Inv\nCONSTANT N=%d\nCHECK_DEADLOCK FALSE\n" % (3 if vp.THOROUGH else 2)))
    sc = []
    for i, (nodes, reqs, num, faults) in enumerate(((3, 8, 300, False), (10, 12, 300, False), (6, 8, 160, True))):
        for b in davl.gen(c, num * mul, nodes, reqs, seed=i):
            sc.append(davl.scenario(b, c.rng, faults))
    # paths that are longer than buffers: nothing else may be meant
    base = [davl.mk([b"w"], dict(t="dir")), davl.mk([b"w", b"sub"], dict(t="dir"))]
    for L in (200, 201, 100, 101):
        base.append("mkfile %s %s 0 1000000000" % (vp.enc(b"w/" + b"a" * L), vp.enc(b"content")))
    for m in ("DELETE", "GET", "PUT", "MOVE", "PROPFIND", "MKCOL", "PROPPATCH"):
        for lo in range(0, 60, 10):
            s = base + ["share %s - 0" % vp.enc(b"w")]
            for k in range(lo, lo + 10):
                for L in (200, 201):
                    s.append(davl.request(m, b"./" * (120 + k) + b"a" * (L + 10), b"new%d-%d" % (k, L), c.rng, b""))
                    if m == "MOVE":
                        s.append(davl.request(m, b"a" * 100, b"./" * (120 + k) + b"a" * (L + 10), c.rng, b""))
            sc.append(s + ["end"])
    c.judge("DavTrace", sc, lambda s: vp.run_scenarios(x, s), name="WebDAV histories")


if __name__ == "__main__":
    vp.main(check, "C11")
