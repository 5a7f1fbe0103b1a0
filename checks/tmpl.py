import vp, tmpl_ as T


def check(c):
    mul = 8 if vp.THOROUGH else 1
    rng = c.rng
    c.add_model("Tmpl: every pair of templates of a few tokens", vp.model_check("TmplMC", "SPECIFICATION MSpec\nINVARIANT MInv\nCHECK_DEADLOCK FALSE\nCONSTANT MaxLen=%d\n" % (4 if vp.THOROUGH else 3), timeout=3000))
    run = T.runner(T.exe())
    for files, toks, num in ((1, 6, 64), (2, 7, 112), (3, 7, 72), (4, 9, 40)):
        sc = [T.template_scenario(b, rng) for b in T.behaviours(c, "tmpl", num * mul, files, toks, seed=files)[:num * mul]]
        c.judge("TmplTrace", sc, run, name="templates, %d files" % files)
    sc = [T.pack_scenario(b, rng) for n in (1, 3) for b in T.behaviours(c, "pack", 56 * mul, n, 8, seed=20 + n)[:56 * mul]]
    c.judge("TmplTrace", sc, run, name="packed files")


if __name__ == "__main__":
    vp.main(check, "C25")
