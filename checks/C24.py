import vf


def main():
    c = vf.Check("C24", "exploration",
                 "a case is one dot product (element types, vector size, set of assumptions, length, placement against an inaccessible page, input), one matrix-vector product (shape, types, number of threads, input) or one unrolled loop (unit, type, length, placement): every length up to several unrolled iterations, with each single element carrying the result, and exactly representable sums")
    c.simd_units("dot", "dot.cc", parts=[0, 1, 4])
    c.simd_units("mat", "dot.cc", parts=[2, 3],
                 repo_srcs=["hwy/targets.cc", "hwy/per_target.cc", "hwy/abort.cc", "hwy/aligned_allocator.cc", "hwy/print.cc", "hwy/timer.cc", "hwy/stats.cc", "hwy/contrib/thread_pool/topology.cc"])
    c.run_units()
    c.finish()
