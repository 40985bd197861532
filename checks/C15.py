import vf


def main():
    c = vf.Check("C15", "exploration",
                 "a case is one lane of one conversion fed one input: every 8- and 16-bit input, every 20-bit (32-bit lanes) or 23-bit (64-bit lanes) leading bit pattern and its neighbours plus boundary alphabets and rounding ties (thorough: all 2^32), in every lane position for the alphabets, for every vector size of every target; scalar float16/bfloat16 conversions likewise")
    c.simd_units("conv", "conv.cc", parts=range(3))
    c.run_units()
    c.finish()
