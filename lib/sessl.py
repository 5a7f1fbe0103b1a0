"""Sessions and cookies."""
import vp
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free strdup strndup mkstemp time".split())]


def exe():
    return vp.harness("sess", "asan", ["h_sess.c", "memcount.c"], ldflags=WRAP)


def hx(b):
    return bytes(b).hex() or "-"


def request(conn, client, close, parts, v="1.1", path=b"/"):
    """parts: bytes, or '@..' references to identifiers"""
    ps = [b"GET " + path + b" HTTP/" + v.encode() + b"\r\nHost: a\r\n"]
    if parts is not None:
        ps += [b"Cookie: "] + list(parts) + [b"\r\n"]
    ps.append(b"\r\n")
    return "rq %d %d %d " % (conn, client, close) + " ".join(p if isinstance(p, str) else hx(p) for p in ps if p)


CFG = "CHECK_DEADLOCK FALSE\nCONSTANTS Clients = {%s}\n MaxReqs = %d\n MaxIds = %d\n"


def model():
    t = vp.THOROUGH
    return vp.model_check("SessGen", "SPECIFICATION SMSpec\nINVARIANTS Isolated Belongs NotForged NoEmpty\n" + CFG % ("1, 2", 5 if t else 4, 3))


def gen(num, n, seed, clients=3):
    return vp.generate("SessGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\n" + CFG % (", ".join(map(str, range(1, clients + 1))), n, 0), simulate=num, depth=n + 2, seed=seed)


def cookie(r, rng):
    """the Cookie header of a request, as parts; None for none"""
    f, A, Bv = r["form"], "@a%d" % r["a"], "@a%d" % r["b"]
    forged = bytes(rng.choice(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(32))
    own = "@o"
    return {1: None, 2: [b"sessionid=", own], 3: [b"sessionid=", own], 4: [b"sessionid=", own], 5: [b"sessionid=", own], 6: [b"sessionid=", A], 7: [b"sessionid=", forged],
            8: [b"a=b; sessionid=", own, b"; c=d"], 9: [b"sessionid=", forged, b"; sessionid=", own], 10: [b"sessionid=", A, b"; sessionid=", Bv],
            11: [rng.choice([b"xsessionid=", b"x_sessionid=", b"x-sessionid=", b"a=sessionid=", b"a= sessionid=", b"a=b sessionid=", b"sessionid2=", b"SESSIONID=", b"sessionid ", b"x.sessionid="]), A],
            12: [b"sessionid=", A, rng.choice([b"x", b"%", b" x", b"=", b"\""])], 13: [b"sessionid=" + rng.choice([b"", b"x", b"../", b"'", b"%s", b"\"", b"sessions"]), rng.choice([b"", A])],
            14: [b"a=1;sessionid=", own, b";b=2"], 15: [b"sessionid=; sessionid=", A], 16: [b"a; ; sessionid=", own]}[f]


def scenario(b, rng, backend):
    out = ["backend %d" % backend] if backend else []
    for r in b["reqs"]:
        out.append("prog")
        for o in r["ops"]:
            k, v = hx(b"k%d" % o["k"]), hx(rng.choice([b"v%d" % o["v"], b"v%d" % o["v"], b"", b"\xc3\xa9\"\\\x01" + b"x" * o["v"] * 30]))
            out.append({"sget": "p sget", "s1": "p s1 " + k, "sset": "p sset %s %s" % (k, v), "sdel": "p sdel " + k, "sfree": "p sfree", "write": "p write 6f6b", "flush": "p flush"}[o["t"]])
        out.append("p ret #%d" % r["ret"])
    for i, r in enumerate(b["reqs"]):
        out.append(request(r["conn"], r["c"], 1 if r["close"] else 0, cookie(r, rng), "1.0" if r["v10"] else "1.1", b"/%d" % i))
    return out + ["end"]
