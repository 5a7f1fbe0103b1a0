import base64
import vp, sessl
from sessl import hx

CFG = "CHECK_DEADLOCK FALSE\nCONSTANTS MaxReqs = %d\n MaxIds = %d\n"
USERS = [b"ann", b"bob", b"", b"j\xc3\xb6rg", b"a b", b"u" * 300, b"eve", b"\"x\\"]


def verdict(rng):
    """what the service says at its three steps: success, or any other of its codes at one of them"""
    if rng.random() < 0.5:
        return (0, 0, 0)
    k = rng.randrange(1, 31)
    return rng.choice([(0, 0, k), (0, k, 0), (0, 0, k), (0, k, 0), (rng.choice([1, 4, 5, 26, k]), 0, 0)])


def accounts(rng):
    out = {}
    for u in USERS:
        out[u] = (rng.choice([b"pw", b"", b"p:w:", b":", b"\xff\xfe", b"p" * 250, b"a\"b%s", u]), verdict(rng), rng.choice([1, 1, 2]))
    return out


def authorization(r, acc, rng):
    u = USERS[r["u"]]
    p = acc[u][0] if r["p"] else rng.choice([b"no", b"", acc[u][0] + b"x", acc[u][0][:-1], b"pW"])
    e = base64.b64encode
    good = e(u + b":" + p)
    f = r["au"]
    if f <= 4:
        return None
    if f <= 18:
        return b"Basic " + good
    return {19: lambda: rng.choice([b"basic ", b"BASIC ", b"Basic  ", b"Basic\t", b" Basic "]) + good,
            20: lambda: rng.choice([b"Bearer ", b"Digest ", b"Basi ", b"Basicx ", b"Basic", b"Basic:", b"Basicx", b"BasicBasic ", b"X-Basic "]) + good,
            21: lambda: rng.choice([b"Basic", b"Basic ", b"", b"B", b"Basic =", b"Basic ==", b"Basic ====", b"Basic ===", b"Basic :", b"Basic ann:pw"]),
            22: lambda: b"Basic " + good[:-rng.choice([1, 2, 3])],
            23: lambda: b"Basic " + good + rng.choice([b"=", b"A", b"AAAA", b"====", b"*", b" A", b", x"]),
            24: lambda: b"Basic " + e(u),
            25: lambda: b"Basic " + e(u + b":" + p + b"\0"),
            26: lambda: b"Basic " + e(u + b"\0:" + p),
            27: lambda: b"Basic " + e(u + b":" + p + b"\0junk"),
            28: lambda: b"Basic " + rng.choice([b"\x80\x81\x82\x83", b"*" * 8, b"-_-_", b"Z" * 4000, b"Z" * 3999, b"!"]),
            29: lambda: b"Basic " + good[:4] + rng.choice([b" ", b"  "]) + good[4:],
            30: lambda: b"Basic " + e(b"u" * rng.choice([1, 254, 255, 256, 1000, 2500]) + b":" + b"p" * rng.choice([0, 255, 256]))}[f]()


def scenario(b, rng):
    acc = accounts(rng)
    realm = rng.choice([b"R", b"Test realm", b"", b"r" * rng.choice([200, 239, 240, 241, 242, 243, 256, 600]), b"%s%n", b"\xc3\xa9"])
    out = ["auth %s %s" % (hx(realm), hx(rng.choice([b"login", b"onion", b"s" * 100])))]
    for u, (p, v, m) in acc.items():
        out.append("acct %s %s %d %d %d %d" % (hx(u), hx(p), *v, m))
    for i, r in enumerate(b["reqs"]):
        m = [b"GET", b"GET", b"GET", b"HEAD", b"POST", b"PUT"][r["m"] - 1]
        body = b"a=b" if m in (b"POST", b"PUT") else b""
        ps = [m + b" /%d HTTP/" % i + (b"1.0" if r["v10"] else b"1.1") + b"\r\nHost: a\r\n"]
        if body:
            ps.append(b"Content-Length: 3\r\n")
        ck = {1: None, 2: None, 3: ["@o"], 4: ["@o"], 5: ["@a%d" % r["k"]], 6: [bytes(rng.choice(b"abcdefXYZ0123") for _ in range(32))]}[r["ck"]]
        if ck:
            ps += [b"Cookie: sessionid="] + ck + [b"\r\n"]
        a = authorization(r, acc, rng)
        if a is not None:
            ps += [b"Authorization: " + a + b"\r\n"]
        ps.append(b"\r\n" + body)
        out.append("rq %d %d %d " % (r["conn"], r["c"], (1 if r["close"] else 0) + (2 if r["logout"] else 0)) + " ".join(p if isinstance(p, str) else hx(p) for p in ps if p))
    return out + ["end"]


def check(c):
    mul = 10 if vp.THOROUGH else 1
    c.add_model("Auth: only accepted credentials let a client pass, all histories", vp.model_check("AuthGen", "SPECIFICATION AMSpec\nINVARIANTS Authorised LoggedOk\n" + CFG % (4 if vp.THOROUGH else 3, 4)))
    sc = []
    for i, (n, num) in enumerate(((1, 400), (3, 300), (12, 200), (40, 40))):
        g = vp.generate("AuthGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\n" + CFG % (n, 0), simulate=num * mul, depth=n + 2, seed=vp.SEED * 10 + i)
        c.add_model("AuthGen simulation: %d requests" % n, g)
        sc += [scenario(b, c.rng) for b in g.behaviours]
    for step in range(3):       # every code of the service at every step
        for k in range(1, 33):
            v = [0, 0, 0]
            v[step] = k
            sc.append(["auth %s %s" % (hx(b"R"), hx(b"login")), "acct %s %s %d %d %d 1" % (hx(b"ann"), hx(b"pw"), *v), "rq 0 0 0 " + hx(b"GET /0 HTTP/1.1\r\nHost: a\r\nAuthorization: Basic " + base64.b64encode(b"ann:pw") + b"\r\n\r\n"), "end"])
    x = vp.harness("auth", "asan", ["h_auth.c", "memcount.c"], ldflags=sessl.WRAP)
    c.judge("AuthTrace", sc, lambda s: vp.run_scenarios(x, s), name="protected requests")


if __name__ == "__main__":
    vp.main(check, "C23")
