import vf


def main():
    c = vf.Check("C22", "exploration",
                 "a case is one algorithm on one lane and vector type with one count (all of 0..4N+3, thorough 6N+5), placement flush with or near an inaccessible page, and pattern of selected or equal elements (all patterns of up to 11 (14) elements; every single, complement, prefix, suffix and periodic pattern beyond); arrays, end pointers and indices compared with scalar loops, and the whole page with its previous contents")
    c.simd_units("algo", "algo.cc", parts=range(3))
    c.run_units()
    c.finish()
