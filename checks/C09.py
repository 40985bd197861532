import vf


def main():
    c = vf.Check("C09", "exploration",
                 "every base address modulo 2048 x every cyclic offset x boundary sizes with a scripted allocator between guard pages; allocation failures; item counts around every overflow; all alloc/free histories over 4 slots to depth 8 (10 thorough); every small array shape; each is one distinct case")
    c.unit("alloc", "alloc.cc", repo_srcs=["hwy/aligned_allocator.cc", "hwy/abort.cc", "hwy/per_target.cc", "hwy/targets.cc"])
    c.run_units()
    c.finish()
