import vf


def main():
    c = vf.Check("C19", "exploration",
                 "a case is one AES or carry-less multiply operation of one vector size on one input: every value of every state byte on four backgrounds and two keys, every key bit, pairs of bytes, all pairs of values of neighbouring bytes, all 256 round constants; every pair of 64-bit patterns with one run of ones or two neighbouring bits, boundary values, all byte pairs at 16 (64) shifts; all blocks compared with a reference computed from the definitions in FIPS-197 and GF(2)[x], itself run on the FIPS-197 example")
    c.simd_units("crypto", "crypto.cc", parts=range(2))
    # the emulation on wide vectors
    c.simd_units("crypto_emu", "crypto.cc", targets=["AVX3", "AVX2", "SSE4"], parts=range(2), flags="-DHWY_DISABLE_PCLMUL_AES")
    c.run_units()
    c.finish()
