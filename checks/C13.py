import vf


def main():
    c = vf.Check("C13", "exploration",
                 "a case is one lane of one shift, rotate, logical or bit-manipulation op fed one input: every 8- and 16-bit value and boundary alphabets of wider lanes, with every count in [0, bits) for constant, uniform and per-lane shifts (all pairs for 8 bits), in every lane position, for every vector size of every target")
    c.simd_units("shift", "shift.cc", parts=range(3))
    c.run_units()
    c.finish()
