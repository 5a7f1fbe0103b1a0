import vp, pollerl


def check(c):
    m = 8 if vp.THOROUGH else 1
    pollerl.models(c)
    pollerl.run(c, [(2, 2, False, 250 * m, 5), (4, 3, False, 250 * m, 5), (8, 5, False, 150 * m, 4), (24, 3, False, 250 * m, 6)], vp.SEED * 100, "polling schedules")


if __name__ == "__main__":
    vp.main(check, "C17")
