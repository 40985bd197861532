import vf

ALLTYPES = range(11)


def units(c, select):
    repo = ["hwy/targets.cc", "hwy/per_target.cc", "hwy/abort.cc", "hwy/aligned_allocator.cc", "hwy/print.cc"]
    for t in vf.ALL:
        if not vf.runnable(t):
            c.notes.append(f"target {t} skipped: CPU lacks it")
            continue
        parts = list(ALLTYPES)
        if t == "SPR":
            parts = parts + [11] if c.thorough else [0, 6, 10, 11]
        elif t in ("AVX3_DL", "SSSE3", "EMU128") and not c.thorough:
            parts = [1, 3, 5, 7, 9] if t == "SSSE3" else [0, 2, 6, 8] if t == "EMU128" else [4, 8]
        if t == "SCALAR":
            parts = [p for p in parts if p not in (9, 10)]
        for p in parts:
            c.unit(f"sort.{t}.{p}", "sort.cc", t, flags=f"-DPART={p} -DSELECT={select} -ffunction-sections -Wl,--gc-sections", repo_srcs=repo)
    # Same with the recursion limit reached (internal entry points; skipped if they are not there).
    for t in ("AVX3", "AVX2", "SSE2"):
        for p in ALLTYPES if c.thorough else {"AVX3": (1, 6, 9), "AVX2": (4, 10), "SSE2": (2, 8)}[t]:
            c.unit(f"sortdeep.{t}.{p}", "sort.cc", t, flags=f"-DPART={p} -DSELECT={select} -DDEEP -ffunction-sections -Wl,--gc-sections", repo_srcs=repo, optional=True)
