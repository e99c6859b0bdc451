"""C25: embedding in a Neel lattice dresses the diagonal with the self-consistent field."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect
from . import _emb

RULE = "a rectangular block (square or not, one site wide or not), sector, coefficients, selection, number of iterations and states, and " \
    "any saved ground state; non-trivial when the block has holes and electrons and the dressing is not a constant; oracle: the mean " \
    "field computed by the reference on coordinates, chained over the iterations, and the exact spectrum of the dressed Hamiltonian"


def surroundings(block):
    return model.Lattice("ring", block.lat.nbh, block.lat.nbv, block.lat.nb)


def neel(ring, n):
    """Checkerboard whose site just below the south-west corner of the block is a spin down."""
    sites = ring.pos[n:]
    down = np.array([(x + y) % 2 == 1 for x, y in sites], dtype=float)
    return {"d": down, "u": 1 - down, "o": np.zeros(len(sites))}


def mirror(block, ring, v):
    """Each surrounding site shows the site of the block it faces, with its spin reversed."""
    n = block.lat.n
    p = block.probabilities(v, reverse=True)
    facing = [[s for s in ring.nbrs[q] if s < n] for q in range(n, ring.n)]
    assert all(len(f) == 1 for f in facing)
    return {x: np.array([p[x][f[0]] for f in facing]) for x in "odu"}


def run(block, case, iterations, tolerance=0):
    return _emb.embedding().embedding_neel(block.data(), tolerance, iterations, case["nb"])


def dressed(block, ring, p):
    return block.H + np.diag(block.field(ring, p, block.lat.n))


def start(block, case):
    rng = np.random.default_rng(case["seed"])
    v = rng.normal(size=block.dim)
    block.save(v / np.linalg.norm(v), -1.5 * block.unit, others=case["seed"] % 3)


def degenerate(exact, scale):
    return len(exact) > 1 and exact[1] - exact[0] < 1e-3 * scale


def chain(case, ctx):
    block = _emb.Block(case)
    ring, n = surroundings(block), block.lat.n
    count = min(case["nb"], block.dim)
    start(block, case)
    p, done = neel(ring, n), 0
    slack = errors(block, ring, case["iterations"])
    where = "Peripheral_embedding/" + block.name
    for k in range(1, case["iterations"] + 1):
        what = "iteration {}".format(k)
        if k > len(slack):
            break
        m = dressed(block, ring, p)
        out = run(block, case, k)
        exact = _emb.check_pairs(m, out.eigenstates, count, 1e-9 * block.unit, block.scale, what, slack=slack[k - 1])
        done = k
        expect(np.abs(out.hamiltonian.toarray() - block.H).max() < 1e-9 * block.scale, "{}: the Hamiltonian returned is not the one of the isolated block", what)
        expect(os.listdir("initialComputations/Peripheral_embedding") == [block.name], "files {}", os.listdir("initialComputations/Peripheral_embedding"))
        _emb.reload(where, out, what)
        if not _emb.coupled(m) or degenerate(exact, block.scale):
            break   # the next field is not determined
        p = mirror(block, ring, np.asarray(out.eigenstates.eigvects)[:, 0])
    f = block.field(ring, neel(ring, n), n)
    ctx.tag("iterations={}".format(done), "square" if block.lat.W == block.lat.H else "oblong", "one-wide" if 1 in (block.lat.W, block.lat.H) else "wide", "holes={}".format(block.h))
    ctx.interesting(0 < block.h < n and np.ptp(f) > 0)


def follow(block, ring, iterations, shake=0.0):
    """Energies and ground states of the iterations, None when one of them is not determined."""
    p, states = neel(ring, block.lat.n), []
    noise = np.random.default_rng(0)
    for _ in range(iterations):
        m = dressed(block, ring, p)
        vals, vects = np.linalg.eigh(m)
        if not _emb.coupled(m) or degenerate(vals, block.scale):
            return None
        v = vects[:, 0]
        states.append((vals[0], v))
        p = mirror(block, ring, v + shake * noise.normal(size=block.dim))
    return states


def errors(block, ring, iterations):
    """What the error left by the solver in each state may become in the dressed Hamiltonian of each iteration; as many as there are before it is too much."""
    p, shaken, out, source = neel(ring, block.lat.n), [neel(ring, block.lat.n)] * 3, [0.0], 0.0
    noise = np.random.default_rng(0)
    for _ in range(iterations - 1):
        m = dressed(block, ring, p)
        vals, vects = np.linalg.eigh(m)
        if not _emb.coupled(m) or degenerate(vals, block.scale):
            break
        source = max(source, 2e-9 * block.unit / max(vals[1] - vals[0], 1e-12 * block.unit) if block.dim > 1 else 0.0)
        p = mirror(block, ring, vects[:, 0])
        others = [np.linalg.eigh(dressed(block, ring, q))[1][:, 0] for q in shaken]
        shaken = [mirror(block, ring, v + 1e-6 * noise.normal(size=block.dim)) for v in others]
        off = max(np.abs(dressed(block, ring, q) - dressed(block, ring, p)).max() for q in shaken)
        out.append(1e-9 * block.scale + 20 * off * source / 1e-6)
        if out[-1] > 1e-4 * block.scale:
            out.pop()
            break
    return out


def stopping(case, ctx):
    """It ends on one of the iterations, early only when two ground states agree within the tolerance, and at once for a huge one."""
    block = _emb.Block(case)
    ring, n = surroundings(block), block.lat.n
    start(block, case)
    before = repo.iC.load_data(block.name).eigenstates.eigvects[:, 0]
    case["nb"] = 1
    states = follow(block, ring, case["iterations"])
    shaken = follow(block, ring, case["iterations"], 1e-6)
    if states is None or shaken is None or any(_emb.apart(a[1], b[1]) > 1e-4 for a, b in zip(states, shaken)):
        ctx.tag("not determined")   # degenerate, or the least error of the solver grows along the iterations
        return
    gaps = []
    for _, v in states:
        gaps.append(_emb.apart(v, before))
        before = v
    tolerance = case["tolerance"]
    out = run(block, case, case["iterations"], tolerance)
    energy, v = out.eigenstates.eigvals[0], np.asarray(out.eigenstates.eigvects)[:, 0]
    allowed = [k for k in range(len(states)) if k == len(states) - 1 or gaps[k] < tolerance * (1 + 1e-6) + 1e-6]
    if tolerance > 2.1:
        allowed = [0]
    match = [k for k in allowed if abs(states[k][0] - energy) < 1e-5 * block.scale and _emb.apart(v, states[k][1]) < 1e-3]
    expect(match, "tolerance {}: ends with the energy {}, allowed iterations {} of energies {} (differences {})", tolerance, energy,
           [k + 1 for k in allowed], [e for e, _ in states], gaps)
    ctx.tag("early" if len(states) - 1 not in match else "last", "huge" if tolerance > 2.1 else "null" if tolerance == 0 else "tolerance")
    ctx.interesting(len(allowed) < len(states) and block.dim > 2)


@st.composite
def cases(draw, tier, cap, stop=False):
    case = draw(_emb.block(tier, cap, ring=6))
    if stop:
        case["tolerance"] = draw(st.one_of(st.sampled_from([0, 0, 3.0, 1e-3]), st.floats(1e-3, 1.5).map(lambda x: round(x, 3))))
        case["iterations"] = draw(st.integers(2, 5))
    else:
        case["iterations"] = draw(st.sampled_from([1, 2, 2, 3, 3, 5, 8]))
        case["nb"] = draw(st.integers(1, 6))
    return case


SUBS = [
    Sub("chain", chain, lambda tier: cases(tier, 36), quick=480, thorough=2500, shards=8, files=True),
    Sub("stopping", stopping, lambda tier: cases(tier, 24, True), quick=480, thorough=2500, shards=8, files=True),
]
