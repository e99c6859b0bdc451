"""C11: the Hamiltonian of a rectangle is the extended t-J operator, entry by entry."""
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub
from . import _ham

RULE = "a rectangle cut in any way, a sector, ten coefficients (distinct non-zero ones, or with zeros and repeated values) and one of " \
    "the 64 selections; non-trivial when the dimension is at least 4 and the matrix has off-diagonal entries (diagonal ones when " \
    "no selected term moves anything); oracle: entry-by-entry reference model built from coordinates and occupation strings"


def matrix(case, ctx):
    lat = gens.lattice(case["g"])
    got = _ham.build(lat, case["sector"], case["c"], case["sel"])
    want = model.hamiltonian(lat, *case["sector"], None, gens.named(case["c"]), gens.selected(case["sel"]))
    _ham.compare(got, want, lat, case["sector"], "{} {} {}".format(case["g"], case["sector"], case["sel"]), _ham.tolerance(case["c"]))
    _ham.classify(ctx, lat, case["sector"], case["sel"], None, want)


def sweep(tier):
    """Every sector of every small shape, with all terms and distinct coefficients."""
    c = [1.0, 0.625, -2.25, 3.5, 4.75, -5.125, 6.375, 7.0, 8.5, -9.25]
    for g in gens.geometries("rect", 6 if tier == "quick" else 9):
        n = gens.lattice(g).n
        if g[3] > 1 or max(g[1], g[2]) == 1 or tier != "quick" or n <= 6:
            for sector in gens.sectors(n, 600):
                yield {"g": g, "sector": sector, "c": c, "sel": [1] * 6}


def selections(tier):
    c = [0.5, 1.25, 2.5, -3.75, 4.5, 5.25, -6.5, 7.75, 8.25, 9.5]
    for g, sector in (([["rect", 1, 1, 2], [1, 1]], [["rect", 3, 2, 1], [2, 2]], [["rect", 4, 1, 1], [2, 1]])):
        for mask in range(64):
            yield {"g": g, "sector": sector, "c": c, "sel": [mask >> k & 1 for k in range(6)]}


SUBS = [
    Sub("every-small-sector", matrix, sweep=sweep, shards=4),
    Sub("every-selection", matrix, sweep=selections, shards=2),
    Sub("matrices", matrix, lambda tier: _ham.system(tier), quick=1600, thorough=6000, shards=8),
    Sub("large", matrix, lambda tier: _ham.large_system(tier), quick=24, thorough=240, shards=8),
]
