import vf


def main():
    c = vf.Check("C17", "exploration",
                 "a case is one lane-moving op of one vector type with one amount, index vector (complete up to 4 lanes, affine, xor and one/two-lane variations beyond) or mask (all masks up to 16 lanes; intervals, pairs and every 8-lane group pattern beyond), pairwise distinct lane contents in three fillings, with and without garbage beyond partial vectors; every output lane is compared")
    c.simd_units("swiz", "swiz.cc", parts=range(8))
    c.run_units()
    c.finish()
