import os
import vf


def main():
    c = vf.Check("C34", "exploration",
                 "a case is one history of the counters' operations on a model of the kernel's perf events (groups of limited capacity, multiplexing, interruption, failure and truncation of each call), in a forked child: all sets of missing counters (quick: all of up to 2 or of 9 or more, a third of the rest) x 8 capacities, all histories of 5 (thorough: 6) operations on 6 systems, each single fault; every value compared with the model's count and times")
    c.assumptions = ["the code under test uses perf_event_open, read, ioctl, prctl, stat and uname"]
    for p in range(3):
        c.unit(f"perf.{p}", "perf.cc", cxx="bash " + os.path.join(vf.V, "seq/stubcxx.sh"), flags=f"-DPART={p}", repo_srcs=["hwy/abort.cc", "hwy/per_target.cc", "hwy/targets.cc", "hwy/timer.cc"], timeout=800)
    c.run_units()
    c.finish()
