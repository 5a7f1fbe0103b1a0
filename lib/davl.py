"""WebDAV scenarios from behaviours of DavGen."""
import vp, web
EXTRA = ["-Wl,--wrap=write,--wrap=rename,--wrap=chmod"]
KNOWN = ["resourcetype", "getcontentlength", "getlastmodified", "creationdate", "getetag", "getcontenttype", "displayname", "executable"]
SAFE = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~/<&>"


def exe():
    return web.exe(name="dav", extra=EXTRA)


def join(p):
    return b"/".join(bytes(x) for x in p)


def data(k, n):
    return bytes((k * 7 + i * (1 + k % 5) + i // 256) % 256 for i in range(n))


def mk(p, nd):
    p = vp.enc(join(p))
    if nd["t"] == "dir":
        return "mkdir " + p
    if nd["t"] == "file":
        return "mkfile %s %s %d %d" % (p, vp.enc(data(nd["k"], nd["n"])), nd["x"], nd["m"])
    return "mklink %s %s" % (p, vp.enc(bytes(nd["to"])))


def quote(b, rng, all=False):
    return b"".join(bytes([c]) if c in SAFE and rng.random() > .05 else b"%%%02X" % c for c in b)


def gen(c, num, nodes, reqs, seed=0):
    import concurrent.futures as cf
    cfg = "SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxNodes=%d\n MaxReqs=%d\n" % (nodes, reqs)
    with cf.ThreadPoolExecutor(vp.NCPU) as ex:
        gs = list(ex.map(lambda i: vp.generate("DavGen", cfg, simulate=(num + 7) // 8, depth=nodes + reqs + 2, seed=vp.SEED * 7919 + seed * 101 + i, mem="1g"), range(vp.NCPU)))
    out = []
    for g in gs:
        c.states += g.states
        out += g.behaviours
    return out


def propfind(want, rng):
    a, b = rng.choice([("<propfind xmlns=\"DAV:\"><prop>", "</prop></propfind>"), ("<?xml version=\"1.0\"?>\n<D:propfind xmlns:D=\"DAV:\">\n <D:prop>\n", "</D:prop>\n</D:propfind>")])
    d = "D:" if "D:" in a else ""
    return (a + "".join("<%s%s/>" % (d, w) for w in want) + b).encode()


def request(m, path, dst, rng, mount):
    """the request as a command"""
    t = b"/" + mount + quote(path, rng)
    h, body, kind, depth, x, keep, want, dv = b"", b"", "none", -1, 0, 0, [], "none"
    if m == "PUT":
        body = data(rng.randint(0, 9999), rng.choice([0, 1, 10, 100, 1000, 4095, 4096, 4097, 9000]))
        kind = "put"
    elif m == "MOVE":
        if rng.random() > .04:
            p = b"/" + mount + quote(dst, rng)
            k = rng.random()
            if k < .06:
                p = rng.choice([b"/elsewhere/", b"/da", b"/", b"/dav", b"/davx/"]) + quote(dst, rng)
            v = rng.choice([b"http://localhost", b"https://h:8080", b"http://[::1]:80", b""]) + p
            if k > .97:
                v = rng.choice([b"", b"x", b"http://", b"http:/", b"//", b"http://host"])
            h += b"Destination: " + v + b"\r\n"
            dv = vp.enc(v)
        if rng.random() < .4:
            keep = rng.randint(0, 1)
            h += b"Overwrite: " + (b"F" if keep else b"T") + b"\r\n"
    elif m == "PROPFIND":
        depth = rng.choice([0, 1, 1, 1, 0, 2, -1]) if rng.random() < .5 else rng.randint(0, 1)
        if depth >= 0:
            h += b"Depth: " + (b"infinity" if depth == 2 else b"%d" % depth) + b"\r\n"
        k = rng.random()
        if k < .75:
            kind, want = "props", [w for w in KNOWN if rng.random() < .5] or ["getetag"]
            body = propfind(want + (["quota"] if rng.random() < .2 else []), rng)
        elif k < .85:
            kind, body = "all", b'<propfind xmlns="DAV:"><allprop/></propfind>'
        elif k < .93:
            kind = "none"
        else:
            kind, body = "bad", rng.choice([b"<propfind", b"garbage", b"<a/>", b"<propfind xmlns='DAV:'/>", b"<?xml version='1.0'?>", b"\x00\x01"])
    elif m == "PROPPATCH":
        x = rng.randint(0, 1)
        k = rng.random()
        kind = "set" if k < .7 else "other"
        v = rng.choice(["T", "true"]) if x else rng.choice(["F", "false"])
        body = ('<D:propertyupdate xmlns:D="DAV:" xmlns:a="http://apache.org/dav/props/"><D:set><D:prop>%s</D:prop></D:set></D:propertyupdate>'
                % ("<a:executable>%s</a:executable>" % v if kind == "set" else rng.choice(["<a:executable/>", "<D:displayname>x</D:displayname>", ""]))).encode()
        if k > .92:
            body = rng.choice([b"", b"<x", b"<propertyupdate/>"])
    if body or m == "PUT":
        h += b"Content-Length: %d\r\n" % len(body)
        if m != "PUT":
            h += b"Content-Type: text/xml\r\n"
    head = m.encode() + b" " + t + b" HTTP/1.1\r\nHost: x\r\n" + h + b"\r\n"
    return "dav %s %s %s %s %s %d %d %s %d %s" % (m, vp.enc(t), vp.enc(head), vp.enc(body), kind, depth, x, dv, keep, " ".join(want))


def scenario(b, rng, faults=False):
    s = [mk(x["p"], x["nd"]) for x in b["cmds"]]
    if rng.random() < .2:
        s.append("mkfile %s %s 0 1700000000 %d" % (vp.enc(b"w/big"), vp.enc(b"B"), rng.choice([2147483647, 2147483648, 5000000000])))
    mount = rng.choice([b"", b"dav/", b"d/"])
    s.append("share %s %s %d" % (vp.enc(b"w"), vp.enc(mount), rng.random() < .3))
    if faults:
        s.append("exdev 1")
        s.append("wshort %d" % rng.choice([0, 0, 1, 100, 4095, 1000]))
    for r in b["reqs"]:
        if faults:
            s.append("wfail %d" % rng.choice([-1, 0, 1, 9, 100, 4095, 4096, 5000]))
        s.append(request(r["m"], bytes(r["p"]), bytes(r["dst"]), rng, mount))
    s.append("end")
    return s
