"""Scenarios of exported directories and files."""
import vp, web
EXTRA = ["-Wl,--wrap=write,--wrap=read,--wrap=sendfile,--wrap=fopen"]
MIMES = [b"", b"text/html html htm\ntext/css css\nimage/jpeg jpg jpeg JPG\napplication/gzip gz tgz\n",
         b"# comment\n\ntext/markdown\tmd markdown\napplication/x-very-long-type-name verylongext gz\ntext/plain\nimage/png png # pictures\napplication/manifest+json webmanifest html\n",
         b"application/" + b"x" * 130 + b" toolong\ntext/html html htm\nx/y txt gz css\n"]
INM = {1: b"@ETAG@", 2: b"@ETAG@x", 3: b"*", 4: b'"@ETAG@"', 5: b"zz, @ETAG@"}


def exe():
    return web.exe(name="file", extra=EXTRA)


def join(p):
    return b"/".join(bytes(x) for x in p)


def mk(p, nd):
    p = vp.enc(join(p))
    if nd["t"] == "dir":
        return "mkdir " + p
    if nd["t"] == "file":
        return "mkfile %s %d %d %d" % (p, nd["id"], nd["size"], nd["mtime"])
    if nd["t"] == "link":
        return "mklink %s %s" % (p, vp.enc(bytes(nd["to"])))
    return "mkfifo " + p


def behaviours(c, mode, num, nodes, reqs, seed=0):
    import concurrent.futures as cf
    cfg = 'SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxNodes=%d\n MaxReqs=%d\n Mode="%s"\n' % (nodes, reqs, mode)
    with cf.ThreadPoolExecutor(vp.NCPU) as ex:
        gs = list(ex.map(lambda i: vp.generate("FileGen", cfg, simulate=(num + 7) // 8, depth=nodes + reqs + 2, seed=vp.SEED * 7919 + seed * 101 + i, mem="1g"), range(vp.NCPU)))
    out = []
    for g in gs:
        c.states += g.states
        out += g.behaviours
    return out


def scenario(b, rng, mode, send=False, faults=False, exact=None):
    s = [mk(x["p"], x["nd"]) for x in b["cmds"]]
    if rng.random() < .8:
        s.append("mime " + vp.enc(rng.choice(MIMES)))
    if rng.random() < .3:
        s.append("mimeup %s %s" % (vp.enc(rng.choice(["html", "txt", "gz", "zzz"])), vp.enc(rng.choice(["text/x-new", "a/b", ""]))))
    s.append(("export " if mode == "export" else "sfile ") + vp.enc(join(b["base"])))
    if send:
        s.append("sendfile")
    files = [x for x in b["cmds"] if x["nd"]["t"] == "file"]
    base = next((x["nd"] for x in files if x["p"] == b["base"]), None)
    for r in b["reqs"]:
        if r["touch"] == 1 and (mode == "file" or files):
            x = rng.choice(files) if mode == "export" else {"p": b["base"], "nd": base}
            nd = dict(x["nd"])
            if rng.random() < .6:
                nd["size"] = rng.choice([nd["size"], nd["size"] + 1, nd["size"] + 256, 0, 33, 1500, 4046, 20000])
            nd["mtime"] = rng.choice([nd["mtime"], nd["mtime"] + 1, 1234567890, nd["mtime"] + 256, nd["mtime"] + 65536, nd["mtime"] + (1 << 24), nd["mtime"] ^ 512])
            nd["id"] = rng.choice([40, 41, 42])
            if nd["size"] != x["nd"]["size"] or nd["mtime"] != x["nd"]["mtime"]:
                x["nd"] = nd
                if mode == "file":
                    base = nd
                s.append(mk(x["p"], nd))
        h = b""
        if r["range"]:
            h += b"Range: " + bytes(r["range"]) + b"\r\n"
        if r["inm"]:
            h += b"If-None-Match: " + INM[r["inm"]] + b"\r\n"
        if rng.random() < .2:
            h += b"Connection: close\r\n"
        if faults and rng.random() < .6:
            if rng.random() < .25:
                s.append("shrink %d" % rng.choice([0, 1, 50, 1500, 4046, 5000, 16384, 30000]))
            else:
                w = [rng.choice([1, 7, 100, 1000, 1500, 4000, 16384, 9999]) for _ in range(rng.randint(1, 12))]
                if rng.random() < .5:
                    w[-1] = rng.choice([0, -1])
                s.append("w " + " ".join(map(str, w)))
        elif rng.random() < .3:
            s.append("w " + " ".join(str(rng.choice([1, 3, 500, 1499, 1500, 4046])) for _ in range(rng.randint(1, 12))))
        s.append("req " + vp.enc(("%s " % r["m"]).encode() + bytes(r["path"]) + (" HTTP/%s\r\n" % r["v"]).encode() + b"Host: x\r\n" + h + b"\r\n"))
    s.append("end")
    return s
