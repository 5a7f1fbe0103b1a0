import vp, web, json, re
CLS = {"dig": "[0-9]", "word": "[0-9a-z]", "noslash": "[^/]", "any": "."}


def number(p, n):
    """assign the numbers of the groups, in the order of their opening parenthesis"""
    for it in p:
        if it["t"] in ("grp", "alt"):
            n[0] += 1
            it["n"] = n[0]
            for q in ([it["p"]] if it["t"] == "grp" else it["ps"]):
                number(q, n)


def regex(p):
    out = ""
    for it in p:
        if it["t"] == "lit":
            out += re.sub(r"([.\[\]()*+?^$|{}\\])", r"\\\1", bytes(it["b"]).decode())
        elif it["t"] == "cls":
            out += CLS[it["c"]] + ("+" if it["min"] else "*")
        elif it["t"] == "grp":
            out += "(" + regex(it["p"]) + ")" + ("?" if it["opt"] else "")
        elif it["t"] == "alt":
            out += "(" + "|".join(regex(q) for q in it["ps"]) + ")"
        else:
            out += "$"
    return out


class Table:
    def __init__(s, tab, rng):
        s.rng, s.ids = rng, 0
        s.tok = s.chain(tab)
        s.tab = s.strip(tab)

    def chain(s, hs):
        return "( " + " ".join(s.h(h) for h in hs) + " )"

    def h(s, h):
        if h["t"] == "leaf":
            s.ids += 1
            h["id"] = s.ids
            return "L %d %d" % (h["id"], h["st"])
        if h["t"] == "static":
            return "T %s %d" % (vp.enc(bytes(h["text"])), h["code"])
        if h["t"] == "path":
            number(h["pat"], [0])
            return "P %s %s" % (vp.enc("^" + regex(h["pat"])), s.chain(h["hs"]))
        out = []
        for r in h["rules"]:
            if r["bad"]:
                out.append("X " + vp.enc(s.rng.choice(["^(a", "^[a", "^a)\\", "^*)("])))
                continue
            if r["re"]:
                number(r["pat"], [0])
            pat = "^" + regex(r["pat"]) if r["re"] else bytes(r["str"])
            one = r["hs"][0]
            if len(r["hs"]) == 1 and one["t"] in ("leaf", "static", "url"):
                out.append("N %s %s" % (vp.enc(pat), s.h(one)))
            else:
                out.append("R %s %s" % (vp.enc(pat), s.chain(r["hs"])))
        return "U ( " + " ".join(out) + " )"

    def strip(s, hs):
        for h in hs:
            if h["t"] == "url":
                h["rules"] = [r for r in h["rules"] if not r["bad"]]
                for r in h["rules"]:
                    s.strip(r["hs"])
            elif h["t"] == "path":
                s.strip(h["hs"])
        return hs


def check(c):
    x = web.exe(name="route")
    mul = 10 if vp.THOROUGH else 1
    c.add_model("RouteMC", vp.model_check("RouteMC", "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", workers=8))
    import concurrent.futures as cf
    num = 250 * mul
    with cf.ThreadPoolExecutor(vp.NCPU) as ex:
        gs = list(ex.map(lambda i: vp.generate("RouteGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxReqs=7\n", simulate=num, depth=9, seed=vp.SEED * 7919 + i, mem="1g"), range(vp.NCPU)))
    sc = []
    for g in gs:
        c.states += g.states
        for b in g.behaviours:
            t = Table(b["tab"], c.rng)
            sc.append(["table %s %s" % (vp.enc(json.dumps(t.tab)), t.tok)] + ["get " + vp.enc(bytes(p)) for p in b["paths"]] + ["end"])
    c.judge("RouteTrace", sc, lambda s: vp.run_scenarios(x, s), name="routes")


if __name__ == "__main__":
    vp.main(check, "C07")
