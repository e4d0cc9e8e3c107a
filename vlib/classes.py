"""Whole classes of curves with given gates: enumeration and enclosure of the minimal dilation by brute force."""
from fractions import Fraction as F
import itertools

from . import ref


def path_reps(dim, div, gates, p, max_cdist=None):
    """Paths of pattern p up to the isometries that keep its gate."""
    paths = ref.enum_paths(dim, div, gates, gates[p], max_cdist)
    stab = [i for i in ref.iso_all(dim) if ref.link_map(i, gates[p]) == gates[p]]
    return sorted({min(ref.path_map(i, div, x) for i in stab) for x in paths})


def size(dim, div, gates, max_cdist=None):
    specs = {}
    total = 1
    for p in range(len(gates)):
        s = 0
        for path in path_reps(dim, div, gates, p, max_cdist):
            n = 1
            for _, l in path:
                if l not in specs:
                    specs[l] = len(ref.specs_for_link(gates, l))
                n *= specs[l]
            s += n
        total *= s
    return total


def members(dim, div, gates, max_cdist=None):
    specs = {}
    per = []
    for p in range(len(gates)):
        opts = []
        for path in path_reps(dim, div, gates, p, max_cdist):
            for _, l in path:
                if l not in specs:
                    specs[l] = ref.specs_for_link(gates, l)
            for combo in itertools.product(*(specs[l] for _, l in path)):
                opts.append((tuple(c for c, _ in path), combo))
        per.append(opts)
    for pats in itertools.product(*per):
        yield ref.RefCurve(dim, div, pats)


def minimum(dim, div, gates, metric, max_cdist=None, tol=F(1, 100), rng=None):
    """(lo, up) enclosing the minimal dilation of the class."""
    best_lo, best_up = None, None
    ms = list(members(dim, div, gates, max_cdist))
    if rng is not None:
        rng.shuffle(ms)
    for c in ms:
        stop = None if best_up is None else best_up
        lo, up, _ = ref.dilation_enclosure(c, metric, tol, 6000, stop_above=stop, pts=ref.exact_points(c))
        if best_lo is None or lo < best_lo:
            best_lo = lo
        if best_up is None or up < best_up:
            best_up = up
    return best_lo, best_up
