import vf


def main():
    c = vf.Check("C31", "exploration",
                 "the spaces of C11..C19, C20, C22..C24, C26 and C27 for the two WebAssembly targets, compiled by clang for wasm32 and run by node: per operation, lane type and vector size all (or all boundary) lane values, all masks, all small counts, offsets and indices; sorting, searching, packing, dot products and random numbers over the same inputs as on x86")
    c.assumptions = ["clang's WebAssembly back end and the engine implement the SIMD instructions", "invalid memory accesses are seen only if they change bytes that are compared"]
    W = list(vf.WASM)
    for f, n in [("swiz", 8), ("reduce", 9), ("arith", 4), ("flt", 2), ("shift", 3), ("mask", 4), ("conv", 3), ("mem", 3), ("crypto", 2), ("algo", 3), ("bitpack", 4)]:
        c.simd_units(f, f + ".cc", targets=W, parts=range(n))
    c.simd_units("dot", "dot.cc", targets=W, parts=[0, 1, 4])
    srcs = ["hwy/targets.cc", "hwy/per_target.cc", "hwy/abort.cc"]
    c.simd_units("random", "random.cc", targets=W, repo_srcs=srcs)
    for p in range(11):
        c.unit(f"sort.WASM.{p}", "sort.cc", "WASM", flags=f"-DPART={p} -DSELECT=0 -Wl,--unresolved-symbols=ignore-all", repo_srcs=srcs + ["hwy/aligned_allocator.cc", "hwy/print.cc"])
    for p in range(5):
        c.unit(f"scalar.WASM.{p}", "scalar.cc", "WASM", flags=f"-DPART={p}", repo_srcs=["hwy/print.cc", "hwy/abort.cc"])
    c.run_units()
    c.finish()
