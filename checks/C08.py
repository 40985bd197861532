import vf


def main():
    c = vf.Check("C08", "exploration",
                 "states: all sets reachable over boundary index alphabets, every operation from each, plus every index, every pair of indices and every run of bits; a case is one state or transition whose observations were all compared with an ordinary set")
    c.unit("bits", "bits.cc")
    c.run_units()
    c.finish()
