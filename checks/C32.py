import os
import vf


def main():
    c = vf.Check("C32", "exploration",
                 "RDTSC, RDTSCP, CPUID and the steady clock are answered by a virtual processor. A case is one pair of counter values, one set of CPUID answers, one clock rate/origin/step/disturbance of the frequency measurement, one cost and disturbance of the resolution measurement, or one benchmark: all input lists of up to 3 (thorough: 4) out of 4 inputs x 6 tables of durations x 4 parameter sets, and every phase of periodic disturbances")
    c.assumptions = ["the code under test reads time only through RDTSC/RDTSCP and clock_gettime"]
    for p in range(3):
        c.unit(f"timers.{p}", "timers.cc", cxx=os.path.join(vf.V, "seq/stubcxx.sh"), flags=f"-DPART={p} -O2", repo_srcs=["hwy/abort.cc", "hwy/per_target.cc", "hwy/targets.cc", "hwy/timer.cc", "hwy/nanobenchmark.cc"], timeout=800)
    c.run_units()
    c.finish()
