import vf


def main():
    c = vf.Check("C29", "exploration",
                 "the library's open, read, close, sysconf and sched_*affinity calls are answered by a simulated system: all assignments of up to 4 processors to package, core, L3 and node ids (5 without free choice of node), regular machines of every shape up to 3 (4) per level under four numberings, five list formats and six id styles, large systems around every limit, reported counts that differ from sysfs; every single fault and every pair of faults (interruption, error, short read) at every call, every one or two files missing, every byte of every file truncated or replaced, all node lists of up to 5 (7) characters; every cache geometry, order and sharing set, and their faults; all affinity sets of one, and boundary sets of more processors; compared with a direct reading of the description")
    for p in (6, 10, 11, 7, 8, 9, 0, 1, 2, 3, 4, 5):
        san = "-g -fsanitize=address -fno-omit-frame-pointer" if p in (6, 7, 9, 10, 11) else "-D_GLIBCXX_ASSERTIONS"
        c.unit(f"topology.{p}", "topology.cc", "SSE2", flags=f"-DPART={p} -O1 {san}", repo_srcs=["hwy/contrib/thread_pool/topology.cc", "hwy/abort.cc"])
    c.run_units()
    c.finish()
