import vf


def main():
    c = vf.Check("C18", "exploration",
                 "a case is one reduction or widening sum of one vector type on one input: all tuples of boundary values in the lanes of each output lane's group (all byte pairs for pairs of bytes), all tuples for whole-vector reductions of up to 4 lanes, every lane and every pair of lanes perturbed on four backgrounds beyond, all masks up to 16 lanes, with and without garbage beyond partial vectors; every output lane is compared")
    c.simd_units("reduce", "reduce.cc", parts=range(9))
    c.run_units()
    c.finish()
