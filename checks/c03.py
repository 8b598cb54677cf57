"""C03: the MNS2016 one-sided algorithm (translated polynomials)."""
import common, c02


def main():
    chk = common.Check("C03", c02.RULE)
    t = chk.thorough
    return c02.onesided(chk, "b.mns", "B.mns", [1500, 1000] + ([3000, 2000] if t else []),
                        list(range(120, 132)) + [255, 256, 257, 400, 512], [6500, 5000, 3000, 2000, 1000, 300] + ([20000, 12000, 8000] if t else []))
