import vf


def main():
    c = vf.Check("C28", "exploration",
                 "a case is one history of notifications and merges: all sequences of up to 6 (8) samples over five alphabets of 5 values, all partitions into up to three parts merged in three orders, repeated doubling to 2^40 samples; all sequences of up to 5 (7) histogram notifications, split at every point; all arrays of up to 7 (9) elements over 4 values for sorting, median, deviation and mode; compared with batch definitions in extended precision and 128-bit integers")
    c.unit("stats", "stats.cc", "SSE2", repo_srcs=["hwy/stats.cc", "hwy/abort.cc"])
    c.run_units()
    c.finish()
