import vp, lifel


def check(c):
    m = 8 if vp.THOROUGH else 1
    lifel.models(c)
    lifel.run(c, [(1, 150 * m, 4), (2, 150 * m, 4), (3, 60 * m, 4)], vp.SEED * 100, "lives of servers")


if __name__ == "__main__":
    vp.main(check, "C19")
