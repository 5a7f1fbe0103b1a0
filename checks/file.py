import vp, files


def check(c):
    x = files.exe()
    mul = 8 if vp.THOROUGH else 1
    c.add_model("FileMC", vp.model_check("FileMC", "SPECIFICATION Spec\nINVARIANT Contained\nCHECK_DEADLOCK FALSE\n"))
    sc = []
    for i, (send, faults, num) in enumerate(((False, False, 350), (True, False, 150), (False, True, 150), (True, True, 150))):
        for b in files.behaviours(c, "file", num * mul, 2, 8, seed=i):
            sc.append(files.scenario(b, c.rng, "file", send, faults))
    c.judge("FileTrace", sc, lambda s: vp.run_scenarios(x, s), name="files")


if __name__ == "__main__":
    vp.main(check, "C10")
