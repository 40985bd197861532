import vf


def main():
    c = vf.Check("C14", "exploration",
                 "a case is one lane of a comparison or selection fed one input tuple, or one mask operation on one mask: all masks of up to 16 lanes; for 32 and 64 lanes every 16-lane pattern at every aligned position over both backgrounds, all intervals and all masks with up to 3 odd ones out; each result is observed through every mask query")
    c.simd_units("mask", "mask.cc", parts=range(4))
    c.run_units()
    c.finish()
