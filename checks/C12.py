import vf


def main():
    c = vf.Check("C12", "exploration",
                 "a case is one lane of one floating-point vector op fed one input tuple; unary inputs cover every sign/exponent with boundary mantissas (thorough: all 2^32 floats), binary and ternary ones all tuples over boundary alphabets incl. zeros, subnormals, infinities and NaNs; each in every lane position, for every vector size of every target")
    c.simd_units("flt", "flt.cc", parts=range(2))
    c.run_units()
    c.finish()
