"""Websocket scenarios from behaviours of WsGen."""
import vp, web
KEYS = [b"dGhlIHNhbXBsZSBub25jZQ==", b"x", b"My-key", b"AAAAAAAAAAAAAAAAAAAAAA==", b"a" * 60, b"b" * 19, b"c" * 83]


def exe(variant="asan"):
    return web.exe(variant, name="ws")


def fill(b, s, n):
    return bytes((b + i * s) % 256 for i in range(n))


def frame(f, rng):
    d = fill(f["b"], f["s"], f["n"])
    m = bytes(rng.randint(0, 255) for _ in range(4)) if f["mask"] else b""
    o = bytes([f["op"] | (128 if f["fin"] else 0)])
    n, e, k = len(d), f["enc"], 128 if f["mask"] else 0
    if n > 65535 or e == 2:
        o += bytes([127 | k]) + n.to_bytes(8, "big")
    elif n > 125 or e == 1:
        o += bytes([126 | k]) + n.to_bytes(2, "big")
    else:
        o += bytes([n | k])
    return o + m + (bytes(c ^ m[i % 4] for i, c in enumerate(d)) if m else d)


def op(o, rng):
    t = o["t"]
    if t == "R":
        return "R #0 #%d" % rng.choice([0, 0, 4, 11])
    if t == "r":
        return "r #%d #%d" % (o["n"], rng.choice([0, 0, 4, 11]))
    if t in "wp":
        return "%s #%d %s" % (t, o["op"], fill(o["b"], o["s"], o["n"]).hex() or "-")
    if t == "x":
        return "x " + rng.choice(["03e8", "03e9", "0fa0", "0000"])
    if t == "cb":
        return "cb #%d" % o["k"]
    return t


BAD = [b"websocke", b"websocket2", b"h2c", b"12", b"8", b"0", b"131", b"14", b"26", b"-13", b"1", b"3", b"x", b"foo"]


def bad_heads():
    """requests that lack one part of the upgrade, or have it wrong"""
    h = [b"Upgrade: websocket", b"Connection: Upgrade", b"Sec-WebSocket-Key: " + KEYS[0], b"Sec-WebSocket-Version: 13", b"Host: a"]
    for i in (0, 2, 3):
        for v in [None, b""] + (BAD if i != 2 else []):
            g = list(h)
            g[i] = b"X: y" if v is None else h[i].split(b":")[0] + b": " + v
            yield b"GET /ws HTTP/1.1\r\n" + b"\r\n".join(g) + b"\r\n\r\n"


def handshake(rng, good=True):
    h = [b"Upgrade: " + rng.choice([b"websocket", b"WebSocket", b"WEBSOCKET"]), b"Connection: " + rng.choice([b"Upgrade", b"keep-alive, Upgrade", b"upgrade"]),
         b"Sec-WebSocket-Key: " + rng.choice(KEYS), b"Sec-WebSocket-Version: 13", b"Host: a"]
    if rng.random() < .2:
        h.append(b"Sec-WebSocket-Protocol: " + rng.choice([b"chat", b"x1"]))
    if rng.random() < .3:
        h = [x.replace(b"Sec-WebSocket", b"sec-websocket") for x in h]
    if not good:
        i = rng.randrange(4)
        h[i] = rng.choice([b"X: y", h[i].split(b":")[0] + b": " + rng.choice(BAD + [b""])])
    rng.shuffle(h)
    return b"GET /ws HTTP/1.1\r\n" + b"\r\n".join(h) + b"\r\n\r\n"


def scenario(b, rng, good=None):
    s = b"".join(frame(f, rng) for f in b["fr"])
    if b["cut"] and b["cut"] < len(s):
        s = s[:b["cut"]]
    out = ["stream %s %d" % (s.hex() or "-", 1 if b["err"] else 0)]
    if b["rs"]:
        out.append("rs " + " ".join(map(str, b["rs"])))
    if b["ws"]:
        out.append("w " + " ".join(map(str, [5000] + b["ws"])))
    if b["nocb"]:
        out.append("nohs")
    out += ["h " + op(o, rng) for o in b["h"]]
    cont = any(f["op"] == 0 for f in b["fr"])
    over = any(o["t"] == "r" for g in b["gs"] for o in g["ops"])
    for g in b["gs"]:
        out.append("k %d" % (g["st"] or 1))
        read = False
        for o in g["ops"]:
            if o["t"] in "wp" and o["op"] < 0 and (cont or over):
                o = dict(o, op=1)
            if o["t"] in "wpx" and read and over:      # the other side may have said goodbye meanwhile
                continue
            out.append("o " + op(o, rng))
            read = read or o["t"] in "rR"
    return out + ["go " + handshake(rng, True if good is None else good).hex(), "end"]


def gen(mode, num, frames, seed):
    return vp.generate("WsGen", 'SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxFrames = %d\n Mode = "%s"\n' % (frames, mode),
                       simulate=num, depth=frames + 3, seed=seed)


def laws():
    return vp.model_check("WsMC", "SPECIFICATION Spec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxFrames = 2\n Ops = {%s}\n" % ("0, 1, 2, 8, 9, 10" if vp.THOROUGH else "0, 1, 8, 9"))


def simple(frames, groups=(), **kw):
    b = dict(fr=[dict(op=f[0], n=f[1], fin=True, enc=0, mask=f[2] if len(f) > 2 else True, b=i * 7 + 1, s=3) for i, f in enumerate(frames)], gs=list(groups),
             h=[], rs=[], ws=[], err=False, cut=0, nocb=False)
    b.update(kw)
    return b
