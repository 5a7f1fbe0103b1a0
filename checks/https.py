import os, shutil
import vp, web
CFG = vp.TRACECFG.replace("TraceSpec", "STraceSpec")


def certificate():
    d = vp.scratch("cert")
    r = vp.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "30", "-subj", "/CN=localhost", "-keyout", d + "/key.pem", "-out", d + "/cert.pem"])
    if r.returncode:
        raise vp.CheckError("no certificate: " + r.stdout[-500:])
    return d


def check(c):
    x = web.exe(name="tls")
    rng = c.rng
    mul = 6 if vp.THOROUGH else 1
    d = certificate()
    run = lambda s: vp.run_scenarios(x, s, env={"VP_CERT": d + "/cert.pem", "VP_KEY": d + "/key.pem"}, timeout=40)
    try:
        sc = []

        def progs(n):
            out = []
            for _ in range(n):
                k = rng.randrange(9)
                out += web.ops([[], [("write", b"ok")], [("write", web.blob(1600))], [("write", web.blob(16384 + rng.randrange(3) - 1)), ("write", web.blob(5000))], [("length", 3), ("write", b"abc")], [("write", web.blob(40000))],
                                [("write", b"a"), ("flush",), ("write", b"b")], [("ret", -500)], [("nokeep",), ("write", b"z")]][k])
            return out

        def tseg(b, piece, sizes):
            return "tseg 0 %s %d %s" % (vp.enc(b), piece, " ".join(map(str, sizes)))
        seqs = web.requests(c, 40 * mul, per=1, seed=41, big=True) + web.requests(c, 32 * mul, per=2, seed=42) + web.requests(c, 28 * mul, per=4, seed=43, big=True)
        for reqs in seqs:
            b = b"".join(r["b"] for r in reqs)
            n = len(b)
            whole = [n]
            each = [len(r["b"]) for r in reqs]
            for sizes, piece in ((whole, 0), (each, 0), (rng.choice([[1500], [1499], [1501], [3000], [2999, 1]]), 0), ([rng.choice([1, 2, 7, 100])] if n < 900 else [200], 0), (rng.choice([whole, each, [700]]), rng.choice([1, 3, 20, 500]) if n < 1500 else 400),
                                 (web.cuts(rng, n, "big") or [n], rng.choice([0, 0, 900]))):
                s = progs(len(reqs)) + [tseg(b, piece, sizes)]
                if rng.random() < .5:
                    s.append("tgot 0")
                if rng.random() < .3:
                    s.append("teof 0 %d" % rng.randrange(2))
                sc.append(s + ["endr"])
        # several clients at once, and something else than TLS at the port
        for a, b in zip(seqs[0::3], seqs[1::3]):
            A, B = b"".join(r["b"] for r in a), b"".join(r["b"] for r in b)
            k = rng.randrange(1, len(A))
            sc.append(progs(len(a) + len(b)) + ["tseg 0 %s 0" % vp.enc(A[:k]), "plain " + vp.enc(rng.choice([b"GET / HTTP/1.0\r\n\r\n", b"", b"\x16\x03\x01\x00\x05hello", bytes(rng.randrange(256) for _ in range(40))])),
                      "tseg 1 %s 0 %d" % (vp.enc(B), rng.choice([50, 5000])), "tseg 0 %s 0" % vp.enc(A[k:]), "tgot 1", "tgot 0", "endr"])
        c.judge("HttpsTrace", sc, run, name="TLS connections", cfg=CFG, timeout=800)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    vp.main(check, "C27")
