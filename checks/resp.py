import vp, web


def check(c):
    x = web.exe()
    rng = c.rng
    mul = 8 if vp.THOROUGH else 1
    c.add_model("RespMC", vp.model_check("RespMC", "SPECIFICATION Spec\nINVARIANT Recovers\nCHECK_DEADLOCK FALSE\n"))
    run = lambda s: vp.run_scenarios(x, s)
    sc = []
    for i, p in enumerate(web.programs(c, 550 * mul, maxops=8, seed=1) + web.programs(c, 150 * mul, maxops=3, seed=2)):
        lie = rng.choice([0, 1, 5, 1500, 100000]) if i % 25 == 0 else None
        # a second request on the same connection tells whether the response ended where it should
        req = web.methods(rng)
        sc.append(web.ops(web.fill(p, lie)) + web.ops([("write", b"second")]) + [web.seg(0, req), web.seg(0, b"GET /2 HTTP/1.1\r\nConnection: close\r\n\r\n"), "end"])
    # one write of every size around the buffer limits, after headers of different sizes
    for pad in (0, 1, 200, 1300, 1400):
        for n in list(range(1494, 1506)) + [2998, 2999, 3000, 3001, 3002, 6000]:
            for v in ("1.1", "1.0"):
                conn = "Connection: keep-alive\r\n" if rng.random() < .5 else ""
                pre = [("header", b"X-Pad", web.blob(pad))] if pad else []
                how = rng.choice([[("write", web.blob(n, 1))], [("write", web.blob(n - 1, 1)), ("write", b"Z")], [("write", b"Y"), ("write", web.blob(n - 1, 1))],
                                  [("length", n), ("write", web.blob(n, 1))], [("headers",), ("write", web.blob(n, 1))], [("write", web.blob(n, 1)), ("flush",)]])
                sc.append(web.ops(pre + how) + [web.seg(0, ("GET / HTTP/%s\r\n%s\r\n" % (v, conn)).encode()), "end"])
    # more or less than announced, after the head is out
    for n in (0, 1, 10, 1499, 1500, 1501, 3000):
        for m in (0, 1, 9, 10, 11, 1500, 1600, 2999, 3001):
            for how in ([("headers",)], [("write", b"x"), ("flush",)]):
                if n != m or how[0][0] != "headers":
                    sc.append(web.ops([("length", n + (how[0][0] == "write"))] + how + ([("write", web.blob(m, 2))] if m else [])) + web.ops([("write", b"second")])
                              + [web.seg(0, web.methods(rng)), web.seg(0, b"GET /2 HTTP/1.1\r\nConnection: close\r\n\r\n"), "end"])
    c.judge("HttpTrace", sc, run, name="responses")


if __name__ == "__main__":
    vp.main(check, "C05")
