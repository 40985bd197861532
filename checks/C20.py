import vf, sort_common


def main():
    c = vf.Check("C20", "exploration",
                 "a case is one key type and order with one array of ranks, mapping of ranks to keys (whole range with both extremes, dense in the middle, at the bottom, at the top), placement flush with an inaccessible page or misaligned, and generator seed: all two- and four-valued arrays and permutations of small sizes, all two-valued columns and column counts of each sorting network size, 22 structured arrays of every length up to several base cases, an outlier or NaN at every position, large arrays, first samples drawn from every pair of chunks; the sorted array follows from counting ranks")
    sort_common.units(c, 0)
    c.run_units()
    c.finish()
