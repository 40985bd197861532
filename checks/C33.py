import os
import vf


def main():
    c = vf.Check("C33", "exploration",
                 "a case is one program history run in a forked child on a virtual time stamp counter: all forests of up to 5 (thorough: 6) zones over 3-4 names (two with the same text) and duration patterns; timestamps at every power of two; 1..70 zones in 4 shapes (every phase of the write buffer), every number of zones within 20 of full storage in 4 nestings, up to 255 zones with any share of duplicate names; zones in the main and up to two other threads, in every interleaving of two threads' events")
    for p in range(4):
        c.unit(f"profiler.{p}", "profiler.cc", cxx=os.path.join(vf.V, "seq/stubcxx.sh"), flags=f"-DPART={p} -O2", repo_srcs=["hwy/abort.cc", "hwy/per_target.cc", "hwy/targets.cc"], timeout=800)
    c.run_units()
    c.finish()
