"""C12: the same operator is built on embedded and on restricted lattices."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect
from . import _ham

RULE = "a block with its ring, two blocks side by side, or any lattice with a list of active sites (given in the configuration or to " \
    "the builder), a sector, coefficients and a selection; non-trivial as for C11; oracle: the reference model over coordinates, " \
    "with only active sites moved, flipped or repelling and only active holes modifying the couplings"


def embedded(case, ctx):
    lat = gens.lattice(case["g"])
    got = _ham.build(lat, case["sector"], case["c"], case["sel"], case["R"])
    want = model.hamiltonian(lat, *case["sector"], case["R"], gens.named(case["c"]), gens.selected(case["sel"]))
    _ham.compare(got, want, lat, case["sector"], "{} {} {} active {}".format(case["g"], case["sector"], case["sel"], case["R"]), _ham.tolerance(case["c"]))
    _ham.classify(ctx, lat, case["sector"], case["sel"], case["R"], want)


def argument(case, ctx):
    lat = gens.lattice(case["g"])
    R = case["R"] or list(range(lat.n))
    got = _ham.build(lat, case["sector"], case["c"], case["sel"], None, R)
    want = model.hamiltonian(lat, *case["sector"], R, gens.named(case["c"]), gens.selected(case["sel"]))
    _ham.compare(got, want, lat, case["sector"], "{} {} {} built for the active sites {}".format(case["g"], case["sector"], case["sel"], R), _ham.tolerance(case["c"]))
    if len(R) == lat.n:
        free = _ham.build(lat, case["sector"], case["c"], case["sel"])
        expect(np.allclose(got, free, rtol=0, atol=_ham.tolerance(case["c"])), "restricting to all the sites changes the matrix")
        ctx.tag("all sites")
    _ham.classify(ctx, lat, case["sector"], case["sel"], R, want)


SUBS = [
    Sub("embedded", embedded, lambda tier: _ham.system(tier, ("ring", "two")), quick=1050, thorough=4000, shards=7),
    Sub("restricted", embedded, lambda tier: _ham.system(tier, ("rect", "ring", "two"), restricted=True), quick=1200, thorough=4000, shards=8),
    Sub("restricted-by-argument", argument, lambda tier: _ham.system(tier, ("rect", "ring", "two"), restricted=True), quick=800, thorough=2500, shards=8),
    Sub("large", embedded, lambda tier: _ham.large_system(tier, ("rect", "ring", "two"), restricted=True), quick=24, thorough=240, shards=8),
]
