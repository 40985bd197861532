import vf


def main():
    c = vf.Check("C23", "exploration",
                 "a case is one packer width (8: all, 16: all, 32: all, 64: all) and vector size with one set of raw values: every single bit set and clear in every lane of every vector, all values of up to 16 bits per vector with three backgrounds, runs of bits, pairs of bits; with six frames of reference; buffers flush with inaccessible pages, and all bytes around them compared")
    c.simd_units("bitpack", "bitpack.cc", parts=range(4))
    c.run_units()
    c.finish()
