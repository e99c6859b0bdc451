"""C21: site probabilities are the normalised distribution of the state."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect
from . import c20

RULE = "a lattice of any kind, sector and non-zero state of any norm (random, integer, determinant, uniform); non-trivial when it has " \
    "holes and electrons and the state two non-zero amplitudes or more; oracle: the distribution computed from the reference basis"


def exact(dets, v, letter):
    w = np.asarray(v) ** 2
    return np.array([[o[s] == letter for s in range(len(dets[0]))] for o in dets], dtype=float).T @ w / w.sum()


def check_array(lat, basis, given, dets, v, spin):
    """The rows of the array go from north to south."""
    want = exact(dets, v, LETTER[spin]).reshape(lat.H, lat.W)[::-1]
    near(repo.bC.get_probability_spin_rectangular_lattice(basis, given, spin), want, "array of {}", LETTER[spin])


LETTER = {0: "o", 1: "u", -1: "d"}


def near(got, want, what, *args):
    got = np.asarray(got, dtype=float)
    expect(got.shape == want.shape, "{}: shape {} instead of {}", what.format(*args), got.shape, want.shape)
    expect(np.abs(got - want).max(initial=0) < 1e-9, "{}: {} instead of {}", what.format(*args), got.tolist(), want.tolist())


def probabilities(case, ctx):
    lat = gens.lattice(case["g"])
    h, b = case["sector"]
    conf = lat.configuration(h, b, case["R"])
    dets = model.basis(lat.n, h, b)
    v = c20.state(case["state"], len(dets), case["seed"])
    if not np.any(v):
        v[0] = 1
    v *= 10.0 ** case["power"]
    if case["wide"]:   # amplitudes of very different sizes
        v *= 10.0 ** -np.random.default_rng([case["seed"], 7]).integers(0, 1 + case["wide"], len(dets)).astype(float)
    basis = repo.bC.Basis(conf, [model.occ_to_det(o) for o in dets])
    given = v.reshape(-1, 1).copy()
    found = {}
    for spin in (0, 1, -1):
        for rev in (False, True):
            want = exact(dets, v, LETTER[-spin if rev else spin])
            near(repo.bC.get_probability_spin_lattice(basis, given, spin, rev), want, "probabilities of {} (reversed: {})", LETTER[spin], rev)
        found[spin] = np.array(repo.bC.get_probability_spin_lattice(basis, given, spin))
        near(found[spin].sum(), np.array({0: float(h), -1: float(b), 1: float(lat.n - h - b)}[spin]), "total of {}", LETTER[spin])
    near(found[0] + found[1] + found[-1], np.ones(lat.n), "sum of the probabilities on each site")
    for rev in (False, True):
        every = repo.bC.get_spins_probabilitites_lattice(basis, given, rev)
        expect(sorted(every) == [-1, 0, 1], "keys {}", list(every))
        for spin in every:
            near(every[spin], exact(dets, v, LETTER[-spin if rev else spin]), "all probabilities, {} (reversed: {})", LETTER[spin], rev)
    if lat.kind == "rect":
        for spin in (0, 1, -1):
            check_array(lat, basis, given, dets, v, spin)
    expect(np.array_equal(given.ravel(), v), "the state was modified")
    w = v[::-1] - np.roll(v, 1) / 3   # another state in the same array
    if np.any(w):
        given[:, 0] = w
        spin = case["seed"] % 3 - 1
        near(repo.bC.get_probability_spin_lattice(basis, given, spin), exact(dets, w, LETTER[spin]), "probabilities of {} of another state in the same array", LETTER[spin])
        near(repo.bC.get_spins_probabilitites_lattice(basis, given)[-spin], exact(dets, w, LETTER[-spin]), "all probabilities of another state in the same array")
        if lat.kind == "rect":
            check_array(lat, basis, given, dets, w, spin)
    ctx.tag(lat.kind, case["state"], "restricted" if case["R"] else "free", "norm>1" if np.linalg.norm(v) > 1 else "norm<=1", "wide" if case["wide"] else "even")
    ctx.interesting(0 < h < lat.n and np.count_nonzero(v) >= 2)


def arrays(case, ctx):
    """Larger rectangular lattices, cut in sub-blocks in all ways."""
    lat = gens.lattice(case["g"])
    h, b = case["sector"]
    dets = model.basis(lat.n, h, b)
    v = c20.state(case["state"], len(dets), case["seed"])
    if not np.any(v):
        v[0] = 1
    basis = repo.bC.Basis(lat.configuration(h, b, case["R"]), [model.occ_to_det(o) for o in dets])
    given = v.reshape(-1, 1).copy()
    for spin in (0, 1, -1):
        check_array(lat, basis, given, dets, v, spin)
        near(repo.bC.get_probability_spin_lattice(basis, given, spin), exact(dets, v, LETTER[spin]), "probabilities of {}", LETTER[spin])
    expect(np.array_equal(given.ravel(), v), "the state was modified")
    ctx.tag("nb={}".format(case["g"][3]), "{} rows".format(min(lat.H, 6)), "square" if lat.H == lat.W else "oblong", "n<=16" if lat.n <= 16 else "n>16")
    ctx.interesting(lat.H > 1 and lat.W > 1 and np.count_nonzero(v) >= 2)


def large(case, ctx):
    """States of many determinants."""
    lat = gens.lattice(case["g"])
    h, b = case["sector"]
    dets = model.basis(lat.n, h, b)
    v = np.random.default_rng(case["seed"]).normal(size=len(dets))
    basis = repo.bC.Basis(lat.configuration(h, b, case["R"]), [model.occ_to_det(o) for o in dets])
    every = repo.bC.get_spins_probabilitites_lattice(basis, v.reshape(-1, 1), case["rev"])
    for spin in (0, 1, -1):
        near(every[spin], exact(dets, v, LETTER[-spin if case["rev"] else spin]), "probabilities of {} (reversed: {})", LETTER[spin], case["rev"])
    ctx.tag("over 1000 determinants" if len(dets) > 1000 else "up to 1000 determinants", lat.kind)
    ctx.interesting(0 < h < lat.n)


@st.composite
def large_case(draw, tier):
    g = draw(gens.geometry(16, gens.KINDS, min_sites=7))
    n = gens.lattice(g).n
    low, high = 300, 4000 if tier == "quick" else 12000
    between = gens.sectors(n, high, min_dim=low)
    return {"g": g, "sector": draw(st.sampled_from(between or gens.sectors(n, high))), "seed": draw(gens.seed), "rev": draw(st.booleans()), "R": draw(gens.any_restriction(n))}


@st.composite
def array_case(draw, tier):
    g = draw(gens.geometry(36, ("rect",), min_sites=9))
    n = gens.lattice(g).n
    return {"g": g, "R": draw(gens.any_restriction(n)), "sector": draw(gens.sector(n, 50 if n > 12 else 90)), "seed": draw(gens.seed), "state": draw(st.sampled_from(["random", "integer", "determinant"]))}


@st.composite
def probability_case(draw, tier):
    case = draw(c20.sector_case(tier, 80, sites=12))
    case["power"] = draw(st.sampled_from([0, 0, 0, -12, -7, -4, 4, 8]))
    case["wide"] = draw(st.sampled_from([0, 0, 3, 6, 10]))
    return case


SUBS = [Sub("probabilities", probabilities, probability_case, quick=3600, thorough=12000, shards=8),
        Sub("arrays", arrays, array_case, quick=1500, thorough=6000, shards=8),
        Sub("large", large, large_case, quick=290, thorough=1500, shards=8)]
