import vf, sort_common


def main():
    c = vf.Check("C21", "exploration",
                 "a case is one key type and order with one k and one array of ranks, mapping of ranks to keys (whole range with both extremes, dense in the middle, at the bottom, at the top), placement flush with an inaccessible page or misaligned, and generator seed: all two- and four-valued arrays and permutations of small sizes, 22 structured arrays of every length up to several base cases, an outlier or NaN at every position, large arrays, first samples drawn from every pair of chunks; partial sort and select with all k for small sizes and 13 positions otherwise; the sorted array follows from counting ranks")
    sort_common.units(c, 1)
    c.run_units()
    c.finish()
