import vf


def main():
    c = vf.Check("C25", "exploration",
                 "a case is one function, one input (or pair): all patterns of sign, exponent and 16 leading mantissa bits with three trailing patterns (float32; thorough: all 2^32), of sign, exponent and 9 leading mantissa bits with five trailing patterns (float64; thorough: 16), and 19 neighbours of every multiple of pi/4 and ln2/2, power of two, and branch constant; error against the C library at the next wider precision; every lane with special values in the others")
    c.simd_units("math", "math.cc", parts=range(8), flags="-O2", repo_srcs=["hwy/targets.cc", "hwy/per_target.cc", "hwy/abort.cc"])
    c.run_units()
    c.finish()
