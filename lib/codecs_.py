"""Inputs for the codec harness; what they denote is decided by Codec.tla and JsonText.tla."""
import vp, base64
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free strdup strndup".split())]
CFG = """SPECIFICATION GSpec
CONSTRAINTS Emit
CHECK_DEADLOCK FALSE
CONSTANTS Kinds = %s
 MaxToks = %d
 Leaves = %s
"""
LAWS = """SPECIFICATION GSpec
INVARIANTS Laws JLaws
CHECK_DEADLOCK FALSE
CONSTANTS Kinds = %s
 MaxToks = %d
 Leaves = FALSE
"""


def exe(variant="asan"):
    return vp.harness("codec", variant, ["h_codec.c", "memcount.c"], ldflags=WRAP)


def hx(b):
    return bytes(b).hex() or "-"


def gen(kinds, n, leaves=False, sim=None, seed=1):
    ks = "{" + ",".join('"%s"' % k for k in kinds) + "}"
    return vp.generate("CodecGen", CFG % (ks, n, "TRUE" if leaves else "FALSE"), simulate=sim, depth=n + 2, seed=seed, workers=1)


def laws(kinds, n):
    return vp.model_check("CodecGen", LAWS % ("{" + ",".join('"%s"' % k for k in kinds) + "}", n))


def pack(cmds, n=60):
    return [cmds[i:i + n] + ["end"] for i in range(0, len(cmds), n)]


def text(rng, n, zero=False):
    r = rng.random()
    if r < .3:
        return bytes(rng.randint(0 if zero else 1, 255) for _ in range(n))
    if r < .6:
        return bytes(rng.choice(b"abz09AZ ._-~/?&=%+<>\"'\\\n\r\t\x01\x7f\x80\xff;#") for _ in range(n))
    return bytes(rng.choice(b"ab<>&\"'\\\n\x80") for _ in range(n))


def ws(rng, t, p):
    out = b""
    for i in range(len(t)):
        if rng.random() < p:
            out += rng.choice([b"\n", b"\r\n", b" ", b"\n\n"])
        out += t[i:i + 1]
    return out + (rng.choice([b"", b"\n", b"\r\n", b"\n\n", b" ", b" \r\n \n"]) if p else b"")


def b64_inputs(rng, mul):
    out = []
    for n in list(range(0, 175)) + [227, 228, 229, 284, 285, 286, 570, 571, 1000]:
        for _ in range(mul):
            out.append("b64e " + hx(bytes(rng.randint(0, 255) for _ in range(n))))
    for a in range(256):
        out.append("b64e " + hx([a]))
        out.append("b64e " + hx([a, rng.randint(0, 255)]))
        out.append("b64e " + hx([rng.randint(0, 255), rng.randint(0, 255), a]))
    for _ in range(500 * mul):
        d = bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 20, 56, 57, 58, 60, 114, 115])))
        t = base64.b64encode(d)
        t = ws(rng, t, rng.choice([0, 0, .05, .3, 1]))
        r = rng.random()
        if r < .35 and t:
            i = rng.randrange(len(t))
            t = rng.choice([t[:i] + bytes([rng.randint(1, 255)]) + t[i + 1:], t[:i] + t[i + 1:], t[:i], t[:i] + b"=" + t[i:], t[:i] + b"==" + t[i:], t + t, t[:i] + b"-" + t[i + 1:]])
        out.append("b64d " + hx(t))
    for a in range(1, 256):     # every byte, in every place of a group
        for p in range(4):
            t = bytearray(b"QUJD")
            t[p] = a
            out.append("b64d " + hx(t))
            if rng.random() < .3 * mul:
                out.append("b64d " + hx(b"QUJD" + bytes(t) + b"QQ=="))
    return out


def text_inputs(rng, mul):
    out = []
    for a in range(1, 256):
        for f in ("quo", "cq", "html"):
            out.append("%s %s" % (f, hx([a])))
            out.append("%s %s" % (f, hx([97, a, 98])))
        for t in ([37, a], [37, a, 97], [37, 97, a], [97, 37, 52, a, 98], [a]):
            out.append("unq " + hx(t))
    for _ in range(350 * mul):
        t = text(rng, rng.choice([0, 1, 2, 3, 5, 8, 20, 60, 200]))
        for f in ("quo", "cq", "html"):
            out.append("%s %s" % (f, hx(t)))
        u = b"".join(rng.choice([b"%%%02x" % rng.randint(0, 255), b"%%%02X" % rng.randint(0, 255), b"+", b"a", b"%", b"%4", b"%zz", b"/", b"\xc3"]) for _ in range(rng.randint(0, 12)))
        out.append("unq " + hx(u))
        t = text(rng, rng.choice([0, 1, 2, 3, 5, 8, 12, 30]))
        out.append("quom %s %d" % (hx(t), rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, len(t), len(t) + 1, 3 * len(t), 3 * len(t) + 1, 3 * len(t) + 2]) or 1))
        out.append("cqm %s %d" % (hx(t), rng.choice([3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, len(t) + 3, len(t) + 4, 5 * len(t) + 3, 5 * len(t) + 4])))
    return out


def rdict(rng, depth, n, keys):
    out = []
    for _ in range(n):
        k = rng.choice(keys) if rng.random() < .6 else text(rng, rng.choice([0, 1, 2, 5, 17]))
        if depth and rng.random() < .35:
            out += ["d", hx(k)] + rdict(rng, depth - 1, rng.choice([0, 1, 2, 3]), keys) + ["u"]
        else:
            out += ["s", hx(k), hx(text(rng, rng.choice([0, 0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 100, 300])))]
    return out


def jstr(rng):
    o = '"'
    for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
        o += rng.choice(["a", "b", "\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u20ac", "\\ud83d\\ude00", "\\uFFFF", "\\u0001", "\xc3\xa9", "{", "}", ":", ",", "'", " "])
    return o + '"'


def jobj(rng, d):
    sp = lambda: rng.choice(["", "", "", " ", "\n", "\t ", "\r\n"])
    o = sp() + "{" + sp()
    ps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        v = jobj(rng, d - 1) if d and rng.random() < .4 else rng.choice([jstr(rng), jstr(rng), str(rng.randint(0, 10**rng.choice([1, 3, 12])))])
        ps.append(sp() + (jstr(rng) if rng.random() < .6 else rng.choice(['"k"', '"l"'])) + sp() + ":" + sp() + v + sp())
    return o + ",".join(ps) + "}" + sp()


def json_inputs(rng, mul):
    out = []
    for _ in range(400 * mul):
        t = jobj(rng, rng.choice([0, 1, 2, 4])).encode("latin1")
        out.append("fromjson " + hx(t))
        for _ in range(2):
            i = rng.randrange(len(t))
            j = rng.randrange(len(t))
            out.append("fromjson " + hx(rng.choice([t[:i], t[i:], t[:i] + t[i + 1:], t[:i] + rng.choice([b'"', b"{", b"}", b",", b":", b"\\", b"u", b"0", b"\x01", b"\xff", b"x", b"[", b"1"]) + t[i:],
                                                    t[:min(i, j)] + t[max(i, j):], t + t, t + t[i:], t[:i] + bytes([rng.randint(1, 255)]) + t[i + 1:]])))
    t = jobj(rng, 3).encode("latin1")
    out += ["fromjson " + hx(t[:i]) for i in range(len(t))]
    return out
