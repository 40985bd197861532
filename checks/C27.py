import vf


def main():
    c = vf.Check("C27", "exploration",
                 "a case is one call of one scalar helper: all 2^32 floats (portable code) converted to float16 and bfloat16; all 65536 halves converted back, classified and compared; doubles at, between and at every power-of-two distance around all halves; all 8- and 16-bit integers and all wider ones with up to two (three) runs or set bits; all divisors below 2^21 and around powers of two with the dividends where rounding errors would show; compared with 128-bit integer arithmetic")
    for t in ("SSE2", "SPR"):
        if not vf.runnable(t):
            continue
        for p in range(10):
            if t == "SPR" and 0 < p < 8 and c.tier == "quick":
                continue  # the compiler's own conversions
            if t == "SSE2":  # the library's own conversions
                c.unit(f"scalar.portable.{p}", "scalar.cc", t, flags=f"-DPART={p} -DHWY_HAVE_SCALAR_F16_TYPE=0", repo_srcs=["hwy/print.cc", "hwy/abort.cc"])
            if t == "SPR" or p == 0 or p > 7 or c.thorough:
                c.unit(f"scalar.{t}.{p}", "scalar.cc", t, flags=f"-DPART={p}", repo_srcs=["hwy/print.cc", "hwy/abort.cc"])
    # the code for compilers without a 128-bit type
    c.unit("scalar.no128", "scalar.cc", "SSE2", flags="-DPART=9 -DHWY_HAVE_DIV128=0 -DVF_NO128", repo_srcs=["hwy/print.cc", "hwy/abort.cc"])
    c.run_units()
    c.finish()
