"""Shared by the checks that drive an in-process server with bytes."""
import vp, random
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "malloc calloc realloc free strdup strndup mkstemp time".split())]
KINDS = ["none", "form", "mp", "data", "put"]


def exe(variant="asan", name="http", extra=()):
    return vp.harness(name, variant, ["h_%s.c" % name, "memcount.c"], ldflags=WRAP + list(extra))


def requests(c, num, per=1, kinds=KINDS, seed=0, big=False):
    """random requests of the specification's grammar; list of lists of dicts(b=bytes, body=length, k=kind)"""
    cfg = "SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxReqs=%d\n Kinds={%s}\n Big=%s\n" % (per, ",".join('"%s"' % k for k in kinds), "TRUE" if big else "FALSE")
    n = max(1, min(vp.NCPU, num // 40))
    out = []
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(n) as ex:
        for g in ex.map(lambda i: vp.generate("HttpGen", cfg, simulate=(num + n - 1) // n, depth=per + 1, seed=vp.SEED * 7919 + seed * 101 + i, mem="1g"), range(n)):
            c.states += g.states
            out += g.behaviours
    for b in out:
        for r in b["reqs"]:
            r["b"] = bytes(r["b"])
    return [b["reqs"] for b in out]


def cuts(rng, n, mode=None):
    """sizes of the reads"""
    mode = mode or rng.choice(["one", "bytes", "rand", "rand", "big", "two"])
    if mode == "one" or n <= 1:
        return []
    if mode == "bytes":
        return [1] * n
    if mode == "two":
        return [rng.randint(1, n - 1)]
    if mode == "big":
        return [rng.randint(1, max(1, n // 2)) for _ in range(4)]
    out, left = [], n
    while left > 0:
        k = rng.choice([1, 1, 2, 3, 5, 8, 13, 40, 100])
        out.append(k)
        left -= k
    return out


def seg(conn, data, sizes=()):
    return "seg %d %s %s" % (conn, vp.enc(data), " ".join(map(str, sizes)))


def ops(program):
    """program: list of tuples; ints are numbers, bytes/str are byte strings"""
    out = ["prog"]
    for o in program:
        out.append("p " + o[0] + "".join(" #%d" % a if isinstance(a, int) else " " + vp.enc(a) for a in o[1:]))
    return out


def show(e):
    e = dict(e)
    for k, v in e.items():
        if isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            e[k] = bytes(v).decode("latin-1")
        elif isinstance(v, list):
            e[k] = [show(x) if isinstance(x, dict) else x for x in v]
    return e


def pretty(trace, upto=None):
    return "\n".join(str(show(e)) for e in trace[:upto])


def programs(c, num, maxops=8, style="plain", seed=0):
    """random response programs (see RespGen); the lengths announced are right unless lie is wanted"""
    import concurrent.futures as cf
    cfg = 'SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps=%d\n Style="%s"\n' % (maxops, style)
    n = max(1, min(vp.NCPU, num // 100))
    out = []
    with cf.ThreadPoolExecutor(n) as ex:
        for g in ex.map(lambda i: vp.generate("RespGen", cfg, simulate=(num + n - 1) // n, depth=maxops + 2, seed=vp.SEED * 7919 + seed * 101 + i, mem="1g"), range(n)):
            c.states += g.states
            out += [b["prog"] for b in g.behaviours]
    return out


def blob(n, k=0):
    return bytes(97 + (i * 7 + k) % 25 for i in range(n))


def fill(prog, lie=None):
    """program of RespGen -> operations"""
    # cut after the first ret
    p = []
    for o in prog:
        p.append(o)
        if o["op"] == "ret":
            break
    total = sum(o["n"] for o in p if o["op"] in ("write", "write0", "printf"))
    ops, k = [], 0
    for o in p:
        k += 3
        if o["op"] in ("write", "write0", "printf"):
            ops.append((o["op"], blob(o["n"], k)))
        elif o["op"] == "header":
            v = {"Content-Type": b"text/plain", "ETag": b"\"e\""}.get(o["k"], b"")
            ops.append(("header", o["k"].encode(), v + blob(o["n"], k)))
        elif o["op"] == "length":
            ops.append(("length", lie if lie is not None else total))
        elif o["op"] in ("code", "ret"):
            ops.append((o["op"], o["n"]))
        else:
            ops.append((o["op"],))
    return ops


def methods(rng):
    m = rng.choice(["GET", "GET", "GET", "POST", "HEAD", "HEAD", "OPTIONS"])
    v = rng.choice(["1.1", "1.1", "1.0"])
    conn = rng.choice(["", "", "Connection: close\r\n", "Connection: keep-alive\r\n", "connection: Keep-Alive\r\n", "Connection: CLOSE\r\n"])
    return ("%s /p HTTP/%s\r\nHost: x\r\n%s\r\n" % (m, v, conn)).encode()
