import vf


def main():
    c = vf.Check("C26", "exploration",
                 "a case is one seed and thread number with one sequence of draws: all sequences of the given depth over 36 drawing methods and counts, each value and the whole state compared with the published generator, whose jumps are derived independently by squaring its transition matrix 128 and 192 times; allocations of exact size under AddressSanitizer")
    srcs = ["hwy/per_target.cc", "hwy/abort.cc", "hwy/targets.cc"]
    c.simd_units("random", "random.cc", flags="-fsanitize=address -g0", repo_srcs=srcs)
    c.simd_units("plain", "random.cc", repo_srcs=srcs)
    c.run_units()
    c.finish()
