import os
import vf


def main():
    c = vf.Check("C07", "exploration",
                 "CPUID/XGETBV of hwy/targets.cc answered by a processor model: for 11 feature profiles every set of up to 3 (thorough: 4) flipped features, every maximum leaf 1..0x26 with 3 behaviours of missing leaves, every XCR0 state of 10 bits, 14 AVX10 versions, 6 vendors, unrelated bits; every subset of 17 SSE/AVX and of 19 AVX-512/AVX10 features")
    for n, fl in (("cpuid", ""), ("cpuid_nobmi", "-DHWY_DISABLE_BMI2_FMA"), ("cpuid_nof16c", "-DHWY_DISABLE_F16C")):
        c.unit(n, "cpuid.cc", cxx=os.path.join(vf.V, "seq/stubcxx.sh"), flags="-DHWY_DYN " + fl,
               repo_srcs=["hwy/targets.cc", "hwy/abort.cc"], timeout=3000 if c.thorough else 400)
    c.run_units()
    c.finish()
