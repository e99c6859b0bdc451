"""C26: static embedding between blocks adds the neighbours' mean field symmetrically."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import gens, model
from ..runner import Sub, expect
from . import _emb

RULE = "a rectangular block (a square one when four neighbours), sector, coefficients, selection, a random saved ground state, options " \
    "(reversed spins, one neighbour, previous Neel embedding), number of iterations and tolerance; non-trivial when the dressing is not a " \
    "constant and the block has holes and electrons; oracle: mean field of the reference computed on the coordinates of two blocks side " \
    "by side, summed over the quarter turns, in the states of the previous iteration"


def side_by_side(block):
    return model.Lattice("two", block.lat.nbh, block.lat.nbv, block.lat.nb)


def dressing(block, big, v, case):
    """Diagonal added by the neighbours of the block when they are in the state v."""
    one = block.field(big, block.probabilities(v, reverse=case["reverse"]), block.lat.n)
    return one if case["single"] else block.turned_sum(one)


def embed(block, case, iterations, tolerance=0.0, **kwargs):
    options = {"neel_embedding": case["neel"], "neighbor_embedding": case["single"]}
    if not case["reverse"] or case["seed"] % 2:
        options["reverse_spins"] = case["reverse"]   # True when not given
    options.update(kwargs)
    return _emb.embedding().embedding_blocks(block.data(), tolerance, iterations, **options)


def name(block, case, dynamic=False):
    return "tJHam{}{}{}-{}".format("-dyn" * dynamic, "-neel" * case["neel"], "-neigh" * case["single"], block.name[len("tJHam-"):])


def start(block, case):
    """Saves the isolated block, in a random state, where the embedding looks for it, and another one where it should not."""
    rng = np.random.default_rng(case["seed"])
    v = rng.normal(size=block.dim)
    v /= np.linalg.norm(v)
    energy = -1.5 * block.unit - block.scale
    if case["neel"]:
        block.save(v, energy, peripheral=True, others=case["seed"] % 3)
        block.save(np.roll(v, 1), energy - block.unit, H=2 * block.H + block.unit * np.eye(block.dim))
    else:
        block.save(v, energy, others=case["seed"] % 3)
        if case["seed"] % 5 == 0:
            block.save(np.roll(v, 1), energy - block.unit, H=2 * block.H + block.unit * np.eye(block.dim), peripheral=True)
            block.save(v, energy, others=case["seed"] % 3)
    return v


def chain(case, ctx):
    block = _emb.Block(case)
    big = side_by_side(block)
    first = v = start(block, case)
    before = sorted(os.listdir("initialComputations"))
    added = None
    for k in range(1, case["iterations"] + 1):
        what = "iteration {}".format(k)
        out = embed(block, case, k)
        d = dressing(block, big, v, case)
        added = d if added is None else added
        m = block.H + np.diag(d)
        got = out.hamiltonian.toarray()
        expect(got.shape == m.shape, "{}: a matrix {} instead of {}", what, got.shape, m.shape)
        wrong = np.abs(got - m)
        i, j = np.unravel_index(wrong.argmax(), wrong.shape)
        expect(wrong.max() < 1e-7 * block.scale, "{}: dressed Hamiltonian {} at ({}, {}) instead of {} ({} in the isolated block)", what, got[i, j], i, j, m[i, j], block.H[i, j])
        # the solver starts from the saved state, generic here
        _emb.check_pairs(m, out.eigenstates, 1, 1e-7 * block.scale, block.scale, what)
        expect(os.listdir("initialComputations/Embedding_blocks") == [name(block, case)], "saved in {} instead of {}", os.listdir("initialComputations/Embedding_blocks"), name(block, case))
        expect(sorted(set(os.listdir("initialComputations")) - {"Embedding_blocks"}) == [x for x in before if x != "Embedding_blocks"], "other files written")
        _emb.reload("Embedding_blocks/" + name(block, case), out, what)
        v = np.asarray(out.eigenstates.eigvects)[:, 0]
    ctx.tag("iterations={}".format(case["iterations"]), "one neighbour" if case["single"] else "four neighbours", "reversed" if case["reverse"] else "same spins",
            "after Neel" if case["neel"] else "isolated", "square" if block.lat.W == block.lat.H else "oblong", "one-wide" if 1 in (block.lat.W, block.lat.H) else "wide")
    ctx.interesting(0 < block.h < block.lat.n and np.ptp(added) > 0)


def stopping(case, ctx):
    """It ends on one of the iterations, early only when two consecutive states agree within the tolerance."""
    block = _emb.Block(case)
    before = start(block, case)
    steps = []
    for k in range(1, case["iterations"] + 1):
        out = embed(block, case, k)
        v = np.asarray(out.eigenstates.eigvects)[:, 0]
        gap = np.linalg.norm(v - before) / np.linalg.norm(before)
        steps.append((gap, out.eigenstates.eigvals[0], v, out.hamiltonian.toarray()))
        before = v
    tolerance = case["tolerance"]
    if case["near"]:
        tolerance = steps[case["near"] % len(steps)][0] * (1.01 if case["near"] % 2 else 0.99)
    if any(abs(s[0] - tolerance) < 1e-6 for s in steps):
        ctx.tag("on the edge")
        return
    wanted = next((k for k, s in enumerate(steps) if s[0] < tolerance), len(steps) - 1)
    out = embed(block, case, case["iterations"], tolerance)
    _, energy, v, m = steps[wanted]
    expect(abs(out.eigenstates.eigvals[0] - energy) < 1e-9 * block.scale and np.abs(out.hamiltonian.toarray() - m).max() < 1e-9 * block.scale
           and np.abs(np.asarray(out.eigenstates.eigvects)[:, 0] - v).max() < 1e-6,
           "tolerance {}: ends with the energy {} instead of iteration {}; energies {}, differences {}", tolerance, out.eigenstates.eigvals[0], wanted + 1,
           [s[1] for s in steps], [s[0] for s in steps])
    _emb.reload("Embedding_blocks/" + name(block, case), out, "tolerance {}".format(tolerance))
    ctx.tag("last" if wanted == len(steps) - 1 else "early")
    ctx.interesting(wanted < len(steps) - 1)


@st.composite
def cases(draw, tier, cap, stop=False):
    single = draw(st.booleans())
    case = draw(_emb.block(tier, cap, 9, square=not single))
    case["single"] = single
    case["reverse"] = draw(st.booleans())
    case["neel"] = draw(st.sampled_from([False, False, True]))
    if stop:
        case["iterations"] = draw(st.integers(2, 5))
        case["tolerance"] = draw(st.one_of(st.sampled_from([0.0, 3.0, 1e-3]), st.floats(1e-3, 1.5).map(lambda x: round(x, 3))))
        case["near"] = draw(st.integers(0, 9))
    else:
        case["iterations"] = draw(st.sampled_from([1, 2, 2, 3, 3, 5, 8]))
    return case


SUBS = [
    Sub("chain", chain, lambda tier: cases(tier, 36), quick=800, thorough=4000, shards=8, files=True),
    Sub("stopping", stopping, lambda tier: cases(tier, 24, True), quick=320, thorough=1600, shards=8, files=True),
]
