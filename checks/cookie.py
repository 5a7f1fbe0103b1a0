import itertools
import vp, sessl
from sessl import hx

GEN = "SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxToks = %d\n Sim = %s\n"


def addc(n, v, t=-1, path=None, dom=None, f=0):
    return "p addc %s %s #%d %s %s #%d" % (hx(n), hx(v), t, "#-1" if path is None else hx(path), "#-1" if dom is None else hx(dom), f)


def pack(reqs, n=25):
    """reqs: (program, parts of the Cookie header or None)"""
    for i in range(0, len(reqs), n):
        out = []
        for ops, _ in reqs[i:i + n]:
            out += ["prog"] + ops + ["p write 6f6b", "p ret #2"]
        for k, (_, parts) in enumerate(reqs[i:i + n]):
            out.append(sessl.request(k % 3, 0, 0, parts, path=b"/%d" % k))
        yield out + ["end"]


def check(c):
    mul = 8 if vp.THOROUGH else 1
    rng = c.rng
    c.add_model("Cookie: properly joined cookies are read as joined", vp.model_check("CookieGen", "SPECIFICATION MSpec\nINVARIANT Joined\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxToks = %d\n Sim = FALSE\n" % (3 if vp.THOROUGH else 2)))
    look = ["p ck 61", "p ck 62", "p ck 63", "p ck 64", "p ck 20" + "61", "p ck 41"]
    reqs = []
    g = vp.generate("CookieGen", GEN % (4 if vp.THOROUGH else 3, "FALSE"))
    c.add_model("CookieGen: all headers of %d pieces" % (4 if vp.THOROUGH else 3), g)
    hs = [bytes(b["s"]) for b in g.behaviours]
    for n, num in ((6, 250), (12, 150)):
        g = vp.generate("CookieGen", GEN % (n, "TRUE"), simulate=num * mul, depth=n + 2, seed=vp.SEED + n)
        c.add_model("CookieGen simulation: %d pieces" % n, g)
        hs += [bytes(b["s"]) for b in g.behaviours]
    for h in hs:
        h = h.strip(b" ") or b"x"
        reqs.append((rng.choice([["p cks"], ["p cks"] + rng.sample(look, 2), rng.sample(look, 3) + ["p cks"]]), [h]))
    for _ in range(150 * mul):     # proper ones, many and long
        k = rng.choice([1, 2, 3, 10, 40])
        names = [b"n%d" % i for i in range(k)]
        rng.shuffle(names)
        cs = [(x, bytes(rng.choice(b"abcXYZ019=%+/\"'!#$&()*,-.:<>?@[]^_`{|}~\xc3\xa9") for _ in range(rng.choice([0, 1, 3, 20, 60])))) for x in names]
        h = b"".join((rng.choice([b"; ", b";", b";  "]) if i else b"") + a + b"=" + b for i, (a, b) in enumerate(cs))
        reqs.append((["p cks"] + ["p ck " + hx(rng.choice(names)) for _ in range(3)], [h[:4000]]))
    reqs.append((["p cks", "p ck 61"], None))
    rng.shuffle(reqs)
    sc = list(pack(reqs))
    # cookies set: all attribute combinations
    reqs = []
    for f, t, p, d in itertools.product([a | b for a in range(4) for b in (0, 16, 32, 64, 48, 112, 80)], [-1, 0, 1, 60, 86400, 3000000, 400000000], [None, b"/", b"/a/b"], [None, b"example.org"]):
        if vp.THOROUGH or rng.random() < .25:
            reqs.append(([addc(b"key", b"value", t, p, d, f)], None))
    for _ in range(150 * mul):     # several
        ops = []
        for i in range(rng.choice([2, 2, 3, 5, 9])):
            v = bytes(rng.choice(b"abcXYZ019=%+/\"'!#$&()*.:<>?@[]^_`{|}~ \xc3\xa9") for _ in range(rng.choice([0, 1, 3, 20, 200]))).strip()
            ops.append(addc(b"k%d" % (i if rng.random() < .9 else 0), v, rng.choice([-1, -1, 0, rng.randint(1, 400000000)]), rng.choice([None, b"/"]), rng.choice([None, b".a.b"]), rng.choice([0, 1, 2, 3, 16, 33, 64])))
            if rng.random() < .3:
                ops.append("p header %s %s" % (hx(b"X-%d" % i), hx(b"y")))
        reqs.append((ops, None))
    rng.shuffle(reqs)
    sc += pack(reqs)
    reqs = []
    for n in [500, 1000, 1400, 2000, 3000, 3700, 3790] + list(range(3990, 4110, 4 if vp.THOROUGH else 9)) + [4200, 5000, 9000, 20000]:
        for a in ([addc(b"k", b"v" * n)], [addc(b"k", b"v" * (n - 200), 60, b"/p" * 40, b"d" * 60, 3 | 64)], [addc(b"k" * (n // 2), b"v" * (n // 2), 0)], [addc(b"k", b"v", 0, b"/" * n)], [addc(b"k", b"v", 50, None, b"d" * n, 1)],
                  [addc(b"a", b"b"), addc(b"k", b"v" * n), addc(b"c", b"d")]):
            if vp.THOROUGH or rng.random() < .5:
                reqs.append((a, None))
    sc += pack(reqs, 6)
    x = sessl.exe()
    c.judge("CookieTrace", sc, lambda s: vp.run_scenarios(x, s), name="cookies")
    # other time zones
    tz = [["tz " + z, "prog", addc(b"k", b"v", 60), "p write 6f6b", "p ret #2", sessl.request(0, 0, 0, None), "end"] for z in ("XXX-3", "YYY5", "ZZZ-0:30")]
    c.judge("CookieTrace", tz, lambda s: vp.run_scenarios(x, s), name="cookies with a local time zone", known=zone)


def zone(scenario, trace, evno):
    """the finding: the date is local time, under the name of the zone.  Anything else is another violation"""
    import re
    from datetime import datetime, timedelta
    off = {"XXX-3": ("XXX", 10800), "YYY5": ("YYY", -18000), "ZZZ-0:30": ("ZZZ", 1800)}[scenario[0].split()[1]]
    out = b"".join(bytes(e["d"]) for e in trace if e["e"] == "out")
    t = datetime(1970, 1, 1) + timedelta(seconds=1700000000 + 60 + off[1])
    want = "Set-Cookie: k=v; expires=" + t.strftime("%a, %d %b %Y %H:%M:%S ") + off[0]
    return "C24-expires-local" if re.search(re.escape(want.encode()) + rb"\r\n", out) else None


if __name__ == "__main__":
    vp.main(check, "C24")
