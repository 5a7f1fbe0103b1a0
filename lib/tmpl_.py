"""Templates and packed files: sources, compilation with the tools of the repository, scenarios."""
import os, random, shutil, subprocess, concurrent.futures as cf
import vp, web
BS = b"\\"


def text(k, rng):
    """literal text number k"""
    fixed = {1: b"<p>", 2: b"\n", 3: b"a\nb\n\nc\n", 4: b'say "hi"\n', 5: b"it's 100% & more", 6: b"back\\slash \\n \\x41 \\", 7: b"{ x } }} %} #} % }", 8: b"??=??/??'??(", 9: b"\t\r\n\x01\x7f",
             10: bytes(range(1, 256)).replace(b"{", b"").replace(b"}", b""), 11: b"caf\xc3\xa9 \xe2\x82\xac", 12: b"%s%d%n%%", 13: b"\n\n\n\n", 14: b"*/ /* //", 15: b"\\0123\x013", 16: b"\x0212 \x0fab",
             17: b"end{ ", 18: b"a{b{c", 19: b"\n#line 7 \"x\"\n", 20: b"}}", 21: b"\r\n", 22: b" ", 23: b"x" * 600, 24: b"long " * 900, 25: b"q\"" * 1100, 26: b"\\" * 1030, 27: b"l\n" * 700, 28: b"\x80\xff\xfe" * 40,
             29: b"\x07f\x08f\x0bf\x1bf", 30: b"0" * 4090, 31: b"?", 32: b"\\\n", 33: b"end\\"}
    if k in fixed:
        return fixed[k]
    n = rng.choice([1, 2, 3, 8, 20, 60])
    return bytes(rng.choice([rng.randrange(1, 256), 34, 92, 10, 37, 48, 97]) for _ in range(n)).replace(b"{", b"(")


LITS = {"1": b"1", "2": b"", "3": b"100% <b>\\ ok", "4": b"two words"}
TRANS = [b"", b"hello", b"say 100%", b"back\\slash", b"a b", b"50%% of <b>"]
COMMENTS = [b"", b" a # b ", b"##", b"#", b" {{ a }} ", b" {% if %} ", b"}#%", b"x ##"]
KEYS = ["a", "b", "c", "s", "l", "x", "y", "e"]


def name(i, style):
    return (["f%d.html", "9t-%d.txt", "page.%d.html", "t%d"][style] % i).encode()


def source(files, style, rng):
    out = []
    sp = lambda: rng.choice([b" ", b" ", b"  ", b"\t", b"\n", b""])
    gap = lambda: rng.choice([b" ", b" ", b"  ", b"\t", b" \n"])
    for i, toks in enumerate(files):
        s = b""
        loaded = False
        for t in toks:
            k, a, b = t["t"], t["a"].encode(), t["b"].encode()

            def tag(*words):
                return b"{%" + sp() + gap().join(words) + rng.choice([b" ", b"  ", b"\t", b"\n", b""]) + b"%}"
            if k == "text":
                x = text(int(a), rng)
            elif k == "var":
                x = b"{{" + b" " * rng.randrange(3) + a.replace(b".", rng.choice([b".", b".", b" . "])) + b" " * rng.randrange(3) + b"}}"
            elif k == "comment":
                x = b"{#" + COMMENTS[int(a) - 1] + b"#}"
            elif k == "trans":
                x = (b"" if loaded else tag(b"load", rng.choice([b"i18n", b'"i18n"']))) + tag(b"trans", b'"' + TRANS[int(a) - 1] + b'"')
                loaded = True
            elif k == "if1":
                x = tag(b"if", a)
            elif k == "if3":
                w = [b'"' + LITS[v[1:-1].decode()] + b'"' if v.startswith(b'"') else v for v in (a, t["c"].encode())]
                x = tag(b"if", w[0], b, w[1])
            elif k == "for":
                x = tag(b"for", a, b"in", b)
            elif k == "block":
                x = tag(b"block", a)
            elif k in ("include", "extends"):
                x = tag(k.encode(), b'"' + name(int(a), style) + b'"')
            elif k == "else":
                x = tag(b"else")
            else:
                x = tag({"if": b"endif", "else": b"endif", "for": b"endfor", "block": b"endblock"}[t["a"]])
            # two pieces of text must not make a tag together
            if s.endswith(b"{") and x[:1] in (b"{", b"%", b"#"):
                x = b" " + x
            s += x
        if rng.random() < .1:
            s += b"{"
        out.append(s)
    return out


def value(rng):
    return rng.choice([b"1", b"false", b"<script>alert('x')</script>", b"a&b \"q\"", b"100% <b>\\ ok", b"two words", b"plain", b"2", b"\xc3\xa9\x01", b"x" * 300, b"no"])


def context(rng, depth=0, keys=KEYS):
    out = []
    for k in keys:
        r = rng.random()
        if r < .25:
            continue
        if k in ("s", "l", "e", "t") or (depth and r > .9 and depth < 3):
            sub = ["a", "b", "t"] if k in ("s", "t") else [] if k == "e" else rng.sample(["0", "1", "2", "10", "9", "k", "Z", "a b"], rng.randrange(0, 5))
            out.append("d %s %s u" % (vp.enc(k), " ".join(context(rng, depth + 1, sub))) if depth < 3 else "s %s %s" % (vp.enc(k), vp.enc(b"deep")))
            if k == "l" and rng.random() < .5:
                out[-1] = "d %s %s u" % (vp.enc(k), " ".join("d %s %s u" % (vp.enc(q), " ".join(context(rng, depth + 2, ["a", "t"]))) for q in sub))
        else:
            out.append("s %s %s" % (vp.enc(k), vp.enc(value(rng))))
    return out


NAMES = [b"a.txt", b"b.html", b"x", b"index.html", b"sp ace.css", b'quo"te.txt', b"back\\slash.js", b"per%41cent.txt", b"caf\xc3\xa9.png", b".hidden", b"old.txt~", b"~", b"a", b"0", b"c++.html",
         b"UPPER.TXT", b"tr??=i.txt", b"%s%n.txt", b"new\nline.txt", b"plus+&=.txt", b"q?m.txt", b"ha#sh.gz", b"it's.txt", b"n.JPG"]
DIRS = [b"sub", b"d2", b"we ird", b'q"d', b"ba\\ck", b".git", b"bak~", b"a"]


def fn(prefix, nm):
    s = b"opack_" + prefix + (b"_" if prefix and nm else b"") + nm
    return "".join(chr(c) if chr(c).isalnum() and c < 128 else "_" for c in s)


def left(p):
    return any(x.startswith(b".") or x.endswith(b"~") for x in p)


def tree(nodes, root, taken):
    """nodes of the generator -> {path tuple: bytes} without clashes of names; taken: function names in use"""
    out = {}
    dirs = set()
    for nd in nodes:
        p = tuple(DIRS[x] for x in nd["d"]) + (NAMES[nd["k"]],)
        if p in out or p in dirs or any(p[:i] in out for i in range(1, len(p))):
            continue
        new = {fn(b"/".join((root,) + p[:-1]), p[-1]): p}
        for i in range(1, len(p)):
            if p[:i] not in dirs:
                f = fn(b"/".join((root,) + p[:i]), b"")
                if f in new:
                    new = None
                    break
                new[f] = p[:i]
        if new is None or any(f in taken or f + "_length" in taken for f in new):
            continue
        taken |= set(new) | {f + "_length" for f in new}
        dirs |= {p[:i] for i in range(1, len(p))}
        out[p] = nd["z"]
    return out


def content(z, rng):
    return bytes(rng.choice([rng.randrange(256), 0, 34, 10]) for _ in range(z)) if z < 200 else (bytes(rng.randrange(256) for _ in range(97)) * (z // 97 + 1))[:z]


# ---------------------------------------------------------------- compilation
_tools = None


def tools():
    global _tools
    if not _tools:
        b = vp.build("asan", ("onion_static", "opack", "otemplate", "i18n"))
        _tools = b
    return _tools


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", ONION_LOG="noinfo nodebug", LC_ALL="C.UTF-8")


def sh(cmd, cwd):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired:
        return "timeout"
    return None if r.returncode == 0 else r.stdout.decode("latin-1")[-600:] or "failed"


def compile_(d, cs):
    return sh(["gcc", "-shared", "-fPIC", "-O0", "-w", "-fsanitize=address", "-D_GNU_SOURCE", "-DHAVE_PTHREADS", "-I" + vp.REPO + "/src", "-I" + tools() + "/src", "-o", "t.so"] + cs, d)


def prepare(sc, d):
    """make the shared object of a scenario in d"""
    t = tools()
    os.makedirs(d)
    cs = []
    for line in sc:
        w = line.split(" ")
        if w[0] == "tfile":
            nm = bytes.fromhex(w[1])
            with open(os.path.join(d.encode(), nm), "wb") as f:
                f.write(b"" if w[2] == "-" else bytes.fromhex(w[2]))
            c = "t%d.c" % len(cs)
            e = sh([t + "/tools/otemplate/otemplate", "-t", t + "/tools/otemplate/templatetags", "-a", "assets.h"] + (["-n"] if w[3:4] == ["n"] else []) + [nm, c], d)
            if e:
                return "template compiler: " + e
            cs.append(c)
        elif w[0] in ("pdir", "pone"):
            nm = bytes.fromhex(w[1])
            if w[0] == "pone":
                with open(os.path.join(d.encode(), nm), "wb") as f:
                    f.write(b"" if w[2] == "-" else bytes.fromhex(w[2]))
            else:
                base = os.path.join(d.encode(), nm)
                os.makedirs(base, exist_ok=True)
                i = 2
                while i < len(w):
                    k = int(w[i])
                    p = [bytes.fromhex(x) for x in w[i + 1:i + 1 + k]]
                    data = w[i + 1 + k]
                    os.makedirs(os.path.join(base, *p[:-1]), exist_ok=True)
                    with open(os.path.join(base, *p), "wb") as f:
                        f.write(b"" if data == "-" else bytes.fromhex(data))
                    i += k + 2
            cs.append(nm)
    if not cs:
        return None
    if not isinstance(cs[0], str):
        e = sh([t + "/tools/opack/opack"] + cs + ["-o", "p.c", "-a", "assets.h"], d)
        if e:
            return "packer: " + e
        cs = ["p.c"]
    e = compile_(d, cs)
    return "generated code: " + e if e else None


def exe():
    lib = vp.build("asan") + "/src/onion/libonion_static.a"
    return vp.harness("tmpl", "asan", ["h_tmpl.c", "memcount.c"], objs=["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"], ldflags=web.WRAP + ["-rdynamic", "-ldl"])


def runner(x):
    tools()

    def run(scenarios):
        base = vp.scratch("tmpl")
        try:
            with cf.ThreadPoolExecutor(vp.NCPU) as ex:
                errs = list(ex.map(lambda i: prepare(scenarios[i], os.path.join(base, str(i))), range(len(scenarios))))
            out = []
            for i, s in enumerate(scenarios):
                if errs[i]:
                    out.append(["fail " + errs[i].replace("\n", "|").replace(" ", "_")] + ["end"])
                else:
                    out.append((["so %s/%d/t.so" % (base, i)] if os.path.exists("%s/%d/t.so" % (base, i)) else []) + s)
            return vp.run_scenarios(x, out)
        finally:
            shutil.rmtree(base, ignore_errors=True)
    return run


def behaviours(c, mode, num, files, toks, seed=0):
    cfg = 'SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS Mode="%s"\n MaxFiles=%d\n MaxToks=%d\n' % (mode, files, toks)
    with cf.ThreadPoolExecutor(vp.NCPU) as ex:
        gs = list(ex.map(lambda i: vp.generate("TmplGen", cfg, simulate=(num + 7) // 8, depth=files * (toks + 8) + 2, seed=vp.SEED * 7919 + seed * 101 + i, mem="1g"), range(vp.NCPU)))
    out = []
    for g in gs:
        c.states += g.states
        out += [b["fs"] for b in g.behaviours]
    return out


def template_scenario(files, rng, renders=4):
    style = rng.randrange(4)
    src = source(files, style, rng)
    s = ["tfile %s %s%s" % (vp.enc(name(i + 1, style)), vp.enc(x), " n" if rng.random() < .3 else "") for i, x in enumerate(src)]
    for _ in range(renders):
        i = rng.choice([len(src), len(src), rng.randint(1, len(src))])
        how = rng.choice([0, 1, 1, 2, 3]) if rng.random() < .9 else 0
        s.append("render %s %d %s" % (vp.enc(name(i, style)), how, "" if how == 3 else " ".join(context(rng))))
    return s + ["end"]


def pack_scenario(fs, rng):
    taken = set()
    s, gets = [], []
    for j, nodes in enumerate(fs):
        if rng.random() < .25:
            nm = rng.choice([x for x in NAMES[:8] + NAMES[11:] if x != b"~"])
            f = fn(b"", nm)
            if f in taken:
                continue
            taken |= {f, f + "_length"}
            d = content(nodes[0]["z"], rng)
            s.append("pone %s %s" % (vp.enc(nm), vp.enc(d)))
            gets += ["pget %s %s - %d" % (vp.enc(nm), f, h) for h in (0, 1)]
            continue
        root = [b"root", b"static", b"www", b"r-4"][j % 4]
        f = fn(root, b"")
        if f in taken:
            continue
        taken.add(f)
        t = tree(nodes, root, taken)
        line = "pdir " + vp.enc(root)
        ask = {(), (b"no",)}
        for p, z in t.items():
            line += " %d %s %s" % (len(p), " ".join(vp.enc(x) for x in p), vp.enc(content(z, rng)))
            ask |= {p, p[:-1], p[:-1] + (b"",), p + (b"",), p[:-1] + (b"no",), p[:-1] + (p[-1][:-1],), p[:-1] + (p[-1] + b"x",), (b"..", root) + p, p[1:]}
            if len(p) > 1:
                ask |= {p[:-2] + (p[-2] + b"x", p[-1]), p[:-2] + (p[-2][:-1], p[-1]), (b"",) + p}
        s.append(line)
        ask = sorted({b"/".join(p) for p in ask})
        good = [b"/".join(p) for p in t]
        for p in good + rng.sample(ask, min(len(ask), 14)):
            gets.append("pget %s %s %s %d" % (vp.enc(root), f, vp.enc(p), rng.random() < .3))
    # the library's own handler of one packed file
    nm, d = rng.choice([b"logo.png", b"a/b c.css", b"hx"]), content(rng.choice([0, 1, 3, 4, 700]), rng)
    s.append("hand %s %s" % (vp.enc(nm), vp.enc(d)))
    for p in (nm, nm + b"x", nm[:-1], b"", b"no/" + nm):
        gets.append("pget %s - %s %d %s %d" % (vp.enc(nm), vp.enc(p), rng.random() < .3, vp.enc(d), rng.random() < .7))
    rng.shuffle(gets)
    return s + gets + ["end"]
