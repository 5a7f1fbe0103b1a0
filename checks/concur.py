import vp, concl


def check(c):
    m = 10 if vp.THOROUGH else 1
    concl.models(c)
    concl.run(c, [("mix", 2, 0, 150 * m, 6), ("mix", 3, 0, 100 * m, 6), ("mix", 4, 0, 60 * m, 4), ("mix", 3, 1, 60 * m, 4), ("ends", 2, 0, 200 * m, 20), ("ends", 3, 0, 150 * m, 16), ("ends", 2, 1, 40 * m, 8), ("door", 3, 0, 100 * m, 10), ("clock", 3, 0, 50 * m, 12), ("files", 3, 0, 40 * m, 12)], vp.SEED * 100, "requests at once")


if __name__ == "__main__":
    vp.main(check, "C26")
