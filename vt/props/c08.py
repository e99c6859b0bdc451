"""C08: adjacency matrices are those of the drawn lattices."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "every geometry (sub-blocks horizontally, vertically, sites per side) up to a bound, for the rectangle, the ring alone, the " \
    "embedded block and two blocks, and drawn ones beyond it; non-trivial when the block has at least two sites; oracle: two " \
    "sites are linked exactly when their coordinates are at distance one"


def build(kind, nbh, nbv, nb):
    lF = repo.lF
    return {"rect": lF.build_rectangular_bond_matrix, "ring": lF.build_bond_matrix_neel_embedding,
            "two": lF.build_bond_matrix_block_embedding, "outer": lF.build_bond_matrix_neel_outer_lattice}[kind](nbh, nbv, nb)


def matrix(case, ctx):
    kind, nbh, nbv, nb = case["g"]
    lat = gens.lattice(case["g"])
    m = np.asarray(build(kind, nbh, nbv, nb))
    expect(m.shape == (lat.n, lat.n), "{} of {}: shape {} instead of {}", kind, case["g"], m.shape, (lat.n, lat.n))
    want = lat.adjacency()
    if not np.array_equal(m, want):
        a, b = np.argwhere(m != want)[0]
        expect(False, "{} {}: sites {} at {} and {} at {}: {} instead of {}", kind, case["g"], a, lat.pos[a], b, lat.pos[b], m[a, b], want[a, b])
    expect(np.array_equal(m, m.T) and not m.diagonal().any(), "not symmetric or not empty on the diagonal")
    ctx.tag(kind, "one-wide" if 1 in (lat.W, lat.H) else "square" if lat.W == lat.H else "oblong", "cut" if nbh * nbv > 1 else "uncut")
    ctx.interesting(lat.W * lat.H > 1)


def sweep(tier):
    top = 64 if tier == "quick" else 150
    for kind in ("rect", "ring", "outer", "two"):
        for g in gens.geometries(kind, top):
            yield {"g": g}


@st.composite
def case(draw):
    nb = draw(st.integers(1, 6))
    nbh, nbv = draw(st.integers(1, 24 // nb)), draw(st.integers(1, 24 // nb))
    return {"g": [draw(st.sampled_from(["rect", "ring", "outer", "two"])), nbh, nbv, nb]}


SUBS = [
    Sub("every-geometry", matrix, sweep=sweep, shards=4),
    Sub("large", matrix, lambda tier: case(), quick=160, thorough=3000, shards=4),
]
