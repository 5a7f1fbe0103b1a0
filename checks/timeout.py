import vp, pollerl


def check(c):
    m = 8 if vp.THOROUGH else 1
    pollerl.timer_model(c)
    pollerl.run(c, [(2, 3, True, 300 * m, 3), (5, 5, True, 300 * m, 3), (8, 10, True, 100 * m, 2)], vp.SEED * 100 + 50, "timeouts")


if __name__ == "__main__":
    vp.main(check, "C18")
