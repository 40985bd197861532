"""Scenario lists for the thread-pool checks (C01, C02, C03). See mc/tp.cc."""
SRCS = ("hwy/contrib/thread_pool/topology.cc hwy/abort.cc hwy/stats.cc hwy/timer.cc "
        "hwy/aligned_allocator.cc hwy/targets.cc hwy/per_target.cc "
        "hwy/contrib/sort/vqsort.cc hwy/contrib/sort/vqsort_f64a.cc")


def scenarios(thorough, stale):
    """stale: include explorations of stale atomic reads (C++ memory model)."""
    L = []
    T = thorough
    cap = 1800 if T else 25

    def add(name, t, hist, P=2, D=0, env=0, flags=0, c=None):
        L.append(f"{name} {t} {env} {flags} {P} {D} {c or cap} {hist}")

    # F1: every barrier policy under blocking waits
    for k in range(6):
        if k < 4:
            add(f"block_c{k}_t1", 1, f"r2*{k}[r3]", P=-1 if T or k == 0 else 3)
        add(f"block_c{k}_t2", 2, f"r3*{k}[r4]", P=3 if T else 2)
        add(f"block_c{k}_t3", 3, f"r3*{k}[r5]", P=2 if T else 1)
        add(f"block_c{k}_t4", 4, f"r3*{k}[r5]", P=1 if T else 0)
        add(f"block_c{k}_t7d", 7, f"r9*{k}[r10]", P=1002 if T else 1001)
        add(f"block_c{k}_t6rr", 6, f"r9*{k}[r9]", P=1302 if T else 1301)
    # F2: every wait x barrier policy when spinning; each spin instruction
    for k in range(12):
        add(f"spin_c{k}_t2", 2, f"Sr3*{k}[r4]", P=3 if T else 2 if k in (0, 2, 7) else 1)
        add(f"spin_c{k}_t3", 3, f"Sr3*{k}[r4]", P=1 if T else 0)
        if k not in (2, 3, 8, 9) or T:
            add(f"spin_c{k}_t5d", 5, f"Sr9*{k}[r7]", P=1001)
    for env in (1, 2):
        for k in range(24 if T else 14):
            add(f"spin_e{env}_c{k}_t2", 2, f"Sr3*{k}[r4]", P=2 if T else 1, env=env)
        add(f"spin_e{env}_faults", 2, "Sr3[r4]", P=1 if T else 0, D=1, env=env, flags=2)
        add(f"spin_e{env}_t1", 1, "S[r2r2]", P=3 if T else 2, D=1, env=env, flags=2)
    # F3: construction and destruction
    for t, P in ((1, -1), (2, 3 if T else 2), (3, 1)):
        add(f"ctor_dtor_t{t}", t, "[CD", P=P if T or t != 1 else 4)
        add(f"ctor_run_dtor_t{t}", t, "[r2D", P={1: 3, 2: 2, 3: 1}[t] if T else {1: 3, 2: 1, 3: 0}[t])
        add(f"ctor_spin_dtor_t{t}", t, "[SD", P=min(P, 2) if P > 0 else 3)
        add(f"dtor_after_runs_t{t}", t, "r3r3[D", P=P if P > 0 else 4)
    add("t0", 0, "[r0r1r5SBr3D", P=-1)
    add("ctor_faults_t2", 2, "[CD", P=1, D=1, flags=2)
    add("dtor_faults_t2", 2, "r3[D", P=1, D=1, flags=2)
    # F4: configuration changes between every pair of neighbouring policies
    for k in range(6):
        add(f"switch_SB_c{k}", 2, f"r3*{k}[SB]r3", P=2 if T else 1)
        add(f"switch_B_c{k}", 2, f"Sr3*{k}[B]r3", P=2)
    add("switch_S_run", 2, "[Sr3]r3", P=2 if T else 1)
    add("switch_B_run", 2, "Sr3[Br3]", P=2 if T else 1)
    # F5: ranges
    for n in range(0, 9):
        add(f"range{n}_t2", 2, f"r3[r{n}]r{n}", P=2 if n < 6 else 1)
        add(f"rangeR{n}_t3", 3, f"r3[R{n}]r{n}", P=1 if n < 5 or T else 0)
    # F6: tasks that can be descheduled; two loops back to back
    for k in (0, 2, 4):
        add(f"yield_c{k}_t2", 2, f"r3*{k}[r4]", P=2, flags=1)
        add(f"tworuns_c{k}_t2", 2, f"r3*{k}[r3r2]", P=2 if T else 1)
        add(f"tworuns_c{k}_t1", 1, f"r3*{k}[r3r2]", P=4 if T else 3)
    # F7: kernel may return EINTR or spuriously
    for k in (0, 1, 4):
        add(f"faults_c{k}_t2", 2, f"r3*{k}[r4]", P=1, D=2 if T else 1, flags=2)
        add(f"faults_c{k}_t3", 3, f"r3*{k}[r4]", P=0, D=2 if T else 1, flags=2)
    # F8: complete auto-tuning and all ranges, default schedules only
    for t in list(range(0, 16)) + [31, 60, 61, 62, 63]:
        for pol in (0, 100, 200, 300):
            big = t > 15
            h = "r5*12SBr9*30" if big else "r9*300Sr9*40Br3*5" if T or (t in (2, 5, 7) and pol in (0, 300)) else "r9*40Sr9*50Br3*5"
            L.append(f"hist_t{t}_p{pol} {t} 0 0 {1000 + pol} 0 {cap} {h} BIG")
        L.append(f"ranges_t{t} {t} 0 0 1300 0 {cap} {''.join(f'r{n}' for n in (list(range(0, 2 * t + 4)) if t < 16 else [0, 1, t - 1, t, t + 1, t + 2, 2 * t + 1, 3 * t]))} BIG")
    # F9: 61..63 threads, delays around configuration changes
    for t in (62, 63):
        for b in (1, 2):
            L.append(f"max_t{t}_b{b} {t} 0 0 1002 0 {600 if T else 4} r70*3B*{b}[r70]r70*2 BIG")
    if stale:
        for k in range(6):
            if k < 4:
                add(f"stale_c{k}_t1", 1, f"r2*{k}[r3]", P=2, D=2)
            add(f"stale_c{k}_t2", 2, f"r3*{k}[r4]", P=1, D=1 if not T else 2)
        for k in (0, 1, 2, 6):
            add(f"stale_spin_c{k}_t2", 2, f"Sr3*{k}[r4]", P=1, D=1)
        add("stale_ctor_t1", 1, "[r2D", P=1, D=1)
        add("stale_switch", 1, "r2[SBr2]", P=1, D=1)
    return L


def run(c, kinds, stale):
    import os
    L = scenarios(c.thorough, stale)
    small = [l for l in L if not l.endswith(" BIG")]
    big = [l[:-4] for l in L if l.endswith(" BIG")]
    # hook for debugging: VF_ONLY substring
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.mc_build, "tp", "tp.cc", SRCS, "-DHWY_COMPILE_ONLY_STATIC")
        f2 = ex.submit(c.mc_build, "tp66", "tp.cc", SRCS, "-DHWY_COMPILE_ONLY_STATIC -DMC_MAXT=66")
        b1, b2 = f1.result(), f2.result()
    for b, l in ((b1, small), (b2, big)):
        if not b:
            continue
        p = os.path.join(c.dir, os.path.basename(b) + ".list")
        open(p, "w").write("\n".join(l) + "\n")
        c.mc_run(b, f"--list {p} --kinds {kinds}")
