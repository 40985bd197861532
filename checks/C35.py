import vf


def main():
    c = vf.Check("C35", "exploration",
                 "a case is one lane value printed into a guarded buffer and parsed back (all values of 8/16-bit types, alphabets and a lattice of the wide ones), or one window of one array or vector (every first lane and lane count around every array length, every vector size of every target) whose header and lanes were all compared")
    src = ["hwy/print.cc", "hwy/abort.cc", "hwy/targets.cc", "hwy/per_target.cc"]
    c.unit("print.values", "print.cc", "SSE2", flags="-DPART=0", repo_srcs=src)
    c.unit("print.values.portable", "print.cc", "SSE2", flags="-DPART=0 -DHWY_HAVE_SCALAR_F16_TYPE=0 -DHWY_HAVE_SCALAR_BF16_TYPE=0", repo_srcs=src)
    c.simd_units("print", "print.cc", parts=[1], repo_srcs=src)
    c.run_units()
    c.finish()
