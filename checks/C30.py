import vf


def main():
    c = vf.Check("C30", "model_checking",
                 "every history of 5 (6) operations out of installing/removing warn and abort handlers, warning and querying; every message length 0..2400; aborts in a forked child; and all interleavings (with stale loads) of 2-3 threads each installing or warning up to 3 times, checked for linearizability")
    c.unit("handlers", "handlers.cc", repo_srcs=["hwy/abort.cc"])
    c.run_units()
    b = c.mc_build("c30", "c30.cc", "hwy/abort.cc")
    c.mc_run(b, "--thorough" if c.thorough else "")
    c.finish()
