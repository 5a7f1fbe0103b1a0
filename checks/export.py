import vp, files


def check(c):
    x = files.exe()
    mul = 8 if vp.THOROUGH else 1
    c.add_model("FileMC", vp.model_check("FileMC", "SPECIFICATION Spec\nINVARIANT Contained\nCHECK_DEADLOCK FALSE\n"))
    sc = []
    for i, (nodes, num) in enumerate(((5, 300), (12, 300))):
        for b in files.behaviours(c, "export", num * mul, nodes, 8, seed=i):
            sc.append(files.scenario(b, c.rng, "export"))
    c.judge("FileTrace", sc, lambda s: vp.run_scenarios(x, s), name="exports")


if __name__ == "__main__":
    vp.main(check, "C09")
