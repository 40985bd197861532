import vf


def main():
    c = vf.Check("C05", "exploration",
                 "every cost sequence over small alphabets for 1-5 candidates and kMinSamples 1-5 (each sequence one distinct case, each measurement one evaluation), every removal order of the candidate ring, every sample sequence of the cost estimator up to length 8 (4 values) / 17 (2 values)")
    c.unit("tune", "tune.cc", flags="-ffunction-sections -O2", link="-Wl,--gc-sections", repo_srcs=["hwy/abort.cc", "hwy/per_target.cc", "hwy/targets.cc", "hwy/contrib/sort/vqsort.cc", "hwy/contrib/sort/vqsort_f64a.cc"])
    c.run_units()
    c.finish()
