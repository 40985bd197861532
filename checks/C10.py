import vf


def main():
    c = vf.Check("C10", "exploration",
                 "every width to 300 (thorough: all; quick thins above 150) and height to 5, per pixel size and per vector size the build supports, with an allocator stand-in that gives exact blocks before guard pages; all strides to 20000; all rectangles and mirror coordinates in and across small borders; each is a distinct case")
    srcs = ["hwy/contrib/image/image.cc", "hwy/abort.cc", "hwy/per_target.cc", "hwy/targets.cc"]
    c.unit("dyn", "image.cc", flags="-DHWY_DYN", repo_srcs=srcs)
    c.unit("scalar", "image.cc", target="SCALAR", repo_srcs=srcs)
    c.run_units()
    c.finish()
