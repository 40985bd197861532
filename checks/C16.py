import vf


def main():
    c = vf.Check("C16", "exploration",
                 "a case is one memory op of one vector type with one placement relative to inaccessible pages and one count (0..2N+1 and huge), mask (all up to 8 lanes, thorough 16; all intervals, pairs and complements beyond) or index vector (complete for up to 4 lanes, affine families beyond, and up to the largest index); after each store the whole page is compared byte by byte")
    c.simd_units("mem", "mem.cc", parts=range(3))
    c.run_units()
    c.finish()
