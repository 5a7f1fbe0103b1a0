import vp, web

ALIVE = b"GET /alive HTTP/1.1\r\nHost: x\r\n\r\n"


def form(n):
    return b"POST /f HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n" % n


def mp(parts, bd=b"XY"):
    b = b""
    for name, fn, v in parts:
        b += b"--" + bd + b"\r\nContent-Disposition: form-data; name=\"" + name + b"\"" + (b"; filename=\"" + fn + b"\"" if fn is not None else b"") + b"\r\n\r\n" + v + b"\r\n"
    b += b"--" + bd + b"--\r\n"
    return b"POST /m HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=" + bd + b"\r\nContent-Length: %d\r\n\r\n" % len(b) + b


def check(c):
    x = web.exe()
    rng = c.rng
    mul = 8 if vp.THOROUGH else 1
    c.add_model("HttpMC", vp.model_check("HttpMC", 'SPECIFICATION Spec\nINVARIANT Limits\nCHECK_DEADLOCK FALSE\nCONSTANTS BK={"form","data","put","mp"}\n'))
    run = lambda s: vp.run_scenarios(x, s)
    # ---- sizes around the limits
    sc = []
    follow = [web.seg(0, ALIVE), web.seg(5, ALIVE), "end"]

    def segs(b, head):
        n = len(b)
        yield []
        yield [head]
        yield [1] * n if n < 600 else [max(1, n // 60)] * 61
        yield [head + 1, max(1, n - head - 2)]
        yield web.cuts(rng, n, "rand") if n < 1500 else web.cuts(rng, n, "big")

    def add(post, file, b):
        head = b.find(b"\r\n\r\n") + 4
        for s in segs(b, head):
            sc.append(["max %d %d" % (post, file), web.seg(0, b, s)] + follow)
    for lim in (1, 10, 100, 1500, 3000):
        for d in (-1, 0, 1, 2, lim, 5 * lim):
            n = lim + d
            body = (b"a=" + web.blob(n))[:n] if n > 2 else b"a" * n
            add(lim, 9000, form(n) + body)
            add(lim, 9000, b"%s /d HTTP/1.1\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n" % (rng.choice([b"POST", b"PROPFIND", b"GET"]), n) + web.blob(n))
            add(9000, lim, b"PUT /u HTTP/1.1\r\nContent-Length: %d\r\n\r\n" % n + web.blob(n))
            if lim >= 10:
                # files and values of multipart bodies; several of them add up
                add(6000, lim, mp([(b"v", None, b"x"), (b"f", b"n", web.blob(n))]))
                add(6000, lim, mp([(b"f", b"n", web.blob(n // 2)), (b"w", None, b"y"), (b"g", b"n", web.blob(n - n // 2, 3))]))
                add(lim, 9000, mp([(b"v", None, web.blob(n))]))
                add(lim, 9000, mp([(b"v", None, web.blob(n // 2)), (b"f", b"n", web.blob(70)), (b"w", None, web.blob(n - n // 2, 2))]))
    # the announced length lies, in every way
    for cl in (b"-1", b"-5", b"+5", b"5x", b"", b" ", b"0x10", b"1e3", b"2147483647", b"2147483648", b"4294967295", b"4294967296", b"4294967297", b"4294967300", b"9223372036854775807",
               b"9223372036854775808", b"18446744073709551615", b"18446744073709551616", b"99999999999999999999999", b"00000000000000000000005", b"5, 5", b"1000001", b"1048577"):
        for h in (b"POST /f HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n", b"POST /d HTTP/1.1\r\n", b"PUT /u HTTP/1.1\r\n", b"GET /g HTTP/1.1\r\n",
                  b"POST /m HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=XY\r\n"):
            for tail in (b"", b"a=bcd", web.blob(3000)):
                b = h + b"Content-Length: " + cl + b"\r\n\r\n" + tail
                for m in ("max 1048576 1073741823", "max 100 100"):
                    sc.append([m, web.seg(0, b, rng.choice([[], web.cuts(rng, len(b), "big")])), web.seg(5, ALIVE), "end"])
    # missing lengths
    for h in (b"POST /f HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n", b"PUT /u HTTP/1.1\r\n\r\n", b"POST /m HTTP/1.0\r\nContent-Type: multipart/form-data; boundary=XY\r\n\r\n",
              b"POST /d HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nabcde\r\n0\r\n\r\n"):
        for s in ([], [1] * len(h)):
            sc.append([web.seg(0, h, s), web.seg(5, ALIVE), "end"])
    c.judge("HttpTrace", sc, run, name="limits")

    # ---- long tokens
    sc = []
    for n in (8100, 8180, 8188, 8189, 8190, 8191, 8192, 8193, 8300, 20000):
        t = web.blob(n)
        for b in (t + b" / HTTP/1.1\r\n\r\n", b"GET /" + t[1:] + b" HTTP/1.1\r\n\r\n", b"GET /?" + t[2:] + b" HTTP/1.1\r\n\r\n", b"GET / " + t + b"\r\n\r\n",
                  b"GET / HTTP/1.1\r\n" + t + b": v\r\n\r\n", b"GET / HTTP/1.1\r\nX: " + t + b"\r\nY: z\r\n\r\n", b"GET / HTTP/1.1\r\nX: a\r\n " + t[:4000] + b"\r\n " + t[4000:] + b"\r\nY: z\r\n\r\n",
                  t, b"GET /" + t[1:], b"GET / HTTP/1.1\r\n" + t,
                  mp([(t[:n // 2], b"f" + t[n // 2:], b"v")]), mp([(b"a", None, b"v"), (b"b", t, b"v")]),
                  b"POST / HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=" + t + b"\r\nContent-Length: 20\r\n\r\n--" + t[:18]):
            for s in ([], [1] * len(b), [1500] * 20, [8191, 1, 1, 1, 1], [rng.randint(1, n)] + [rng.randint(1, 900) for _ in range(30)]):
                sc.append([web.seg(0, b, s), web.seg(5, ALIVE), "end"])
    c.judge("HttpTrace", sc, run, name="long tokens")

    # ---- broken requests: mutations of good ones
    good = [r[0]["b"] for r in web.requests(c, 260 * mul, seed=21)]
    bits = [b"\r\n", b"\n", b"\r", b"\0", b" ", b"\t", b":", b"%", b"%0", b"%zz", b"?", b"&", b"=", b"\xff", b"\x7f", b"\x01", b"\r\n\r\n", b"\n\n", b"HTTP/1.1", b"--", b"\"", b";", b"Content-Length: 3\r\n", b"name=\"",
            b"filename=\"", b"boundary=", b"boundary", b"GET / HTTP/1.1\r\n\r\n", b"\r\n--X--", b"PUT ", b"POST ", b"0", b"99999999999", b"Expect: 100-continue\r\n", b"Connection: close\r\n", b"Upgrade: websocket\r\n", b"Transfer-Encoding: chunked\r\n"]

    def mutate(b):
        b = bytearray(b)
        for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
            i = rng.randrange(len(b) + 1)
            j = min(len(b), i + rng.choice([1, 1, 2, 4, 10, 30]))
            k = rng.randrange(7)
            if k == 0:
                del b[i:j]
            elif k == 1:
                b[i:i] = rng.choice(bits)
            elif k == 2:
                b[i:j] = rng.choice(bits)
            elif k == 3:
                b[i:i] = b[i:j]
            elif k == 4 and i < len(b):
                b[i] = rng.randrange(256)
            elif k == 5:
                o = rng.choice(good)
                p = rng.randrange(len(o))
                b[i:j] = o[p:p + rng.choice([1, 5, 20, 100])]
            elif k == 6 and rng.random() < .4:
                del b[i:]
        return bytes(b) or b"\0"
    sc = []
    for _ in range(2000 * mul):
        b = mutate(rng.choice(good))
        s = [["max 60 80"] if rng.random() < .2 else [], [web.seg(0, b, web.cuts(rng, len(b)))]]
        s = s[0] + s[1]
        if rng.random() < .3:
            s.append(web.seg(0, ALIVE))
        if rng.random() < .2:
            s.append("eof 0")
        sc.append(s + [web.seg(5, ALIVE), "endr"])
    # plain noise
    for _ in range(300 * mul):
        b = bytes(rng.choice([rng.randrange(256), rng.choice(b"\r\n :/?&=%-GETPOSHTP1.0\0")]) for _ in range(rng.choice([1, 3, 10, 50, 200])))
        sc.append([web.seg(0, b, web.cuts(rng, len(b))), web.seg(5, ALIVE), "endr"])
    c.judge("HttpTrace", sc, run, name="malformed requests")


if __name__ == "__main__":
    vp.main(check, "C03")
