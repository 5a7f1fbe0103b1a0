import vp, web


def check(c):
    x = web.exe()
    rng = c.rng
    mul = 8 if vp.THOROUGH else 1
    run = lambda s: vp.run_scenarios(x, s)
    sc = []
    tail = [web.seg(0, b"GET /2 HTTP/1.1\r\nConnection: close\r\n\r\n"), "end"]
    second = web.ops([("write", b"second")])
    # every result x what was written before x method x error handler
    pre = [[], [("write", b"partial")], [("write", web.blob(1499))], [("write", web.blob(1500))], [("write", web.blob(1600))], [("code", 201), ("header", b"X-A", b"1")],
           [("write", b"x"), ("flush",)], [("length", 10), ("write", b"0123456789")], [("headers",)], [("code", 500)], [("header", b"Content-Type", b"text/plain"), ("write", b"t")]]
    eh = [None, [("write", b"custom page"), ("ret", 2)], [("code", 410), ("write", web.blob(1700)), ("ret", 2)], [("ret", 0)], [("code", 503), ("ret", -500)], [("ret", -2)], [("write", b"p"), ("ret", 0)]]
    for st in (2, 0, -500, -501, -502, -2, 3, 1):
        for p in pre:
            for e in eh:
                if e is not None and rng.random() < .5 and not vp.THOROUGH:
                    continue
                req = web.methods(rng)
                s = [] if e is None else ["errh"] + [o.replace("p ", "ep ", 1) for o in web.ops(e)[1:]]
                sc.append(s + web.ops(p + [("ret", st)]) + second + [web.seg(0, req)] + tail)
    # sequences of results on one connection
    for i in range(150 * mul):
        sts = [rng.choice([0, -500, -501, -502, 2]) for _ in range(3)]
        s = [] if rng.random() < .7 else ["errh"] + [o.replace("p ", "ep ", 1) for o in web.ops(rng.choice(eh[1:]))[1:]]
        for st in sts:
            s += web.ops(rng.choice([[], [("write", b"partial")], [("code", 201)]]) + [("ret", st)])
        sc.append(s + second + [web.seg(0, ("%s /%d HTTP/1.%d\r\n%s\r\n" % (rng.choice(["GET", "HEAD", "POST"]), k, v, "" if v else "Connection: keep-alive\r\n")).encode())
                                for k, v in enumerate([rng.choice([1, 1, 0]) for _ in sts])] + tail)
    # random programs with error results
    for p in web.programs(c, 150 * mul, maxops=5, style="err", seed=4):
        sc.append(web.ops(web.fill(p)) + second + [web.seg(0, web.methods(rng))] + tail)
    # shortcuts
    texts = [b"", b"hello", web.blob(1499), web.blob(1500), web.blob(4000), b"<b>&\xc3\xa9</b>"]
    for m in range(3 * mul):
        for t in texts:
            for kind in (1, 4):
                for code in (200, 201, 403, 404, 500, 503):
                    sc.append(web.ops([("shortcut", kind, t, code)]) + second + [web.seg(0, web.methods(rng))] + tail)
        for u in (b"/", b"/a/b?c=d", b"http://other/x", b"x"):
            sc.append(web.ops([("shortcut", 0, u)]) + second + [web.seg(0, web.methods(rng))] + tail)
        for u in (b"/new", b"other/path", b"x y"):
            for st in (2, 0, -500):
                sc.append(web.ops([("shortcut", 3, u), ("ret", st)]) + web.ops([("write", b"inner"), ("ret", st)]) + second + [web.seg(0, web.methods(rng))] + tail)
    c.judge("HttpTrace", sc, run, name="handler results")


if __name__ == "__main__":
    vp.main(check, "C08")
