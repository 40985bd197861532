import os
import vf


def main():
    c = vf.Check("C06", "model_checking",
                 "every history of up to 4 (thorough: 5) of 30 operations (disable, override, reset, query, dispatch through 7 translation units with different compiled targets) on 3 modelled CPUs, every subset of 12 targets disabled/supported/chosen; and all interleavings with stale loads of 2-3 threads making their first calls after a change of settings")
    q = [os.path.join(vf.V, "seq", "dispatch_%s.cc" % n) for n in ("all", "test", "few", "map", "base", "static", "scalar")]
    c.unit("dispatch", "dispatch.cc", cxx=os.path.join(vf.V, "seq/stubcxx.sh"), flags="-DHWY_DYN",
           repo_srcs=q + ["hwy/targets.cc", "hwy/per_target.cc", "hwy/abort.cc"], timeout=1200 if c.thorough else 300)
    c.run_units()
    for name, fl in (("c06", ""), ("c06map", "-std=c++14")):
        b = c.mc_build(name, "c06.cc", "hwy/targets.cc hwy/per_target.cc hwy/abort.cc", fl)
        c.mc_run(b, "--thorough" if c.thorough else "")
    c.finish()
