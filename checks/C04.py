import vf


def main():
    c = vf.Check("C04", "model_checking",
                 "every interleaving of 1-3 waiters with a writer storing every value sequence up to length 3, every kernel/monitor early return and stale read within the deviation bound; DetectSpin under every combination of vendor, leaf limits, feature bits and disable masks")
    c.assumptions = ["the x86 monitor instructions behave as documented (wake on a store to the armed line; a load after arming is coherent)",
                     "only the Linux futex path is compiled"]
    b = c.mc_build("c04", "c04.cc", "hwy/abort.cc", "-DHWY_COMPILE_ONLY_STATIC")
    c.mc_run(b, "--thorough" if c.thorough else "")
    c.finish()
