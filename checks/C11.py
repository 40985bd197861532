import vf


def main():
    c = vf.Check("C11", "exploration",
                 "a case is one lane of one vector op fed one input tuple; 8-bit tuples are complete, 16-bit complete in one operand against boundary values of the other, wider ones all tuples over boundary alphabets; each in every lane position, for every vector size of every target")
    c.simd_units("arith", "arith.cc", parts=range(4))
    c.run_units()
    c.finish()
