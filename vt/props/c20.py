"""C20: spin operators act on states as the quantum-mechanical operators do."""
import functools

import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Skip, Sub, expect
from . import _ham

RULE = "a lattice of any kind, sector and state (random, determinant, uniform, eigenstate of S^2 of a chosen spin, of any norm) and two sites; " \
    "or one determinant of a lattice of up to 36 sites; non-trivial when there are two electrons of opposite spins or more and the " \
    "state has two non-zero amplitudes or more (states), or the sites have opposite spins (determinants); oracle: matrices of the reference model"


def state(kind, dim, seed):
    rng = np.random.default_rng(seed)
    if kind == "uniform":
        v = np.ones(dim)
    elif kind == "determinant":
        v = np.zeros(dim)
        v[rng.integers(dim)] = 1
    elif kind == "integer":
        v = rng.integers(-2, 3, dim).astype(float)
    else:
        v = rng.normal(size=dim)
    return v * [1.0, 1.0, -2.5, 0.01, 40.0, 1e-9, 1e7][rng.integers(7)]


def shaped(v, form):
    return v if form == "flat" else v.reshape(-1, 1)


def check_vector(got, want, v, form, what, *args):
    got = np.asarray(got)
    expect(got.shape == shaped(v, form).shape, "{}: shape {}", what.format(*args), got.shape)
    wrong = np.abs(got.ravel() - want).max(initial=0)
    expect(wrong <= 1e-11 * max(np.abs(want).max(initial=0), len(v) * np.abs(v).max(initial=0)), "{}: off by {}", what.format(*args), wrong)


def classify(ctx, lat, sector, v):
    h, b = sector
    a = lat.n - h - b
    ctx.tag(lat.kind, "holes={}".format(min(h, 4)), "polarised" if not (a and b) else "Ms=0" if a == b else "Ms!=0", "n<=6" if lat.n <= 6 else "n>6")
    ctx.interesting(a > 0 and b > 0 and np.count_nonzero(v) >= 2)


def pairs(case, ctx):
    lat = gens.lattice(case["g"])
    sector = case["sector"]
    conf = lat.configuration(*sector, case["R"])
    dets = model.basis(lat.n, *sector)
    v = state(case["state"], len(dets), case["seed"])
    i, j = case["i"] % lat.n, case["j"] % lat.n
    given = shaped(v.copy(), case["form"])
    got = repo.itr.compute_S_plus_S_minus(conf, given, i, j)
    check_vector(got, model.s_plus_s_minus(dets, i, j) @ v, v, case["form"], "S+_{} S-_{}", i, j)
    got = repo.itr.compute_spins_z_two_bodies(conf, given, i, j)
    check_vector(got, np.array([model.sz(o[i]) * model.sz(o[j]) for o in dets]) * v, v, case["form"], "Sz_{} Sz_{}", i, j)
    sz, got = repo.itr.compute_spin_z(conf, given)
    want = (lat.n - sector[0] - 2 * sector[1]) / 2
    expect(sz == want, "Sz = {} instead of {}", sz, want)
    check_vector(got, want * v, v, case["form"], "Sz")
    expect(np.array_equal(given.ravel(), v), "the state was modified")
    given[...] = given[::-1].copy()   # another state in the same array
    again = "{} of another state in the same array"
    check_vector(repo.itr.compute_S_plus_S_minus(conf, given, i, j), model.s_plus_s_minus(dets, i, j) @ v[::-1], v, case["form"], again, "S+S-")
    check_vector(repo.itr.compute_spins_z_two_bodies(conf, given, i, j), np.array([model.sz(o[i]) * model.sz(o[j]) for o in dets]) * v[::-1], v, case["form"], again, "SzSz")
    check_vector(repo.itr.compute_spin_z(conf, given)[1], want * v[::-1], v, case["form"], again, "Sz")
    classify(ctx, lat, sector, v)
    ctx.tag("restricted" if case["R"] else "free")


def shuffled(conf, det, seed):
    """The same determinant, its holes, spins down and spins up being given in any order."""
    rng = np.random.default_rng(seed)
    h, b = conf.nholes, conf.nbeta
    return [int(s) for part in (det[:h], det[h:h + b], det[h + b:]) for s in rng.permutation(part)]


def determinant(case, ctx):
    lat = gens.lattice(case["g"])
    occ, i, j = case["occ"], case["i"] % lat.n, case["j"] % lat.n
    conf = lat.configuration(*gens.counts(occ), case["R"])
    det = model.occ_to_det(occ)
    moved = occ[j] == "u" and (i == j or occ[i] == "d")
    want = model.occ_to_det(model.swap(occ, i, j)) if moved else None
    for given in (det, shuffled(conf, det, case["mix"])):
        got = repo.itr.compute_S_plus_S_minus_det(conf, list(given), i, j)
        expect((list(got) if got else None) == want, "S+_{} S-_{} on {}: {} instead of {}", i, j, given, got, want)
    got = repo.itr.compute_spins_z_two_bodies_det(conf, list(det), i, j)
    want = model.sz(occ[i]) * model.sz(occ[j])
    expect(got == want, "Sz_{} Sz_{} on {}: {} instead of {}", i, j, det, got, want)
    ctx.tag("pair " + "".join(sorted(occ[i] + occ[j])), "restricted" if case["R"] else "free")
    ctx.interesting({occ[i], occ[j]} == {"u", "d"})


@functools.lru_cache(16)
def exact_spins(n, sector):
    dets = model.basis(n, *sector)
    vals, vects = np.linalg.eigh(model.s_squared(dets))
    return np.round(np.sqrt(4 * vals + 1) - 1) / 2, vects


def squared(case, ctx):
    lat = gens.lattice(case["g"])
    sector = tuple(case["sector"])
    h, b = sector
    a = lat.n - h - b
    conf = lat.configuration(h, b, case["R"])
    dets = model.basis(lat.n, h, b)
    v = state(case["state"], len(dets), case["seed"])
    given = shaped(v.copy(), case["form"])
    want = model.s_squared(dets) @ v
    check_vector(repo.itr.compute_S2(conf, given), want, v, case["form"], "S^2")
    expect(np.array_equal(given.ravel(), v), "the state was modified")
    if np.any(v):
        mean = repo.itr.compute_S2_exp_val(conf, given)
        exact = v @ want / (v @ v)
        expect(abs(mean - exact) < 1e-9 * (1 + abs(exact)), "<S^2> = {} instead of {}", mean, exact)
        top = (a + b) / 2
        expect(abs(a - b) / 2 * (abs(a - b) / 2 + 1) - 1e-9 <= mean <= top * (top + 1) + 1e-9, "<S^2> = {} is out of range", mean)
        twice = np.sqrt(4 * max(exact, 0) + 1) - 1
        if abs(twice - np.floor(twice) - 0.5) > 1e-6:
            got, nearest = repo.itr.compute_spin_number(conf, given), np.round(twice) / 2
            expect(got == nearest, "spin {} for <S^2> = {}, instead of {}", got, exact, nearest)
            expect(np.array_equal(given.ravel(), v), "the state was modified")
        if len(dets) <= 60:   # another state in the same array
            given[...] = given[::-1].copy()
            want = model.s_squared(dets) @ v[::-1]
            check_vector(repo.itr.compute_S2(conf, given), want, v, case["form"], "S^2 of another state in the same array")
            mean, exact = repo.itr.compute_S2_exp_val(conf, given), v[::-1] @ want / (v @ v)
            expect(abs(mean - exact) < 1e-9 * (1 + abs(exact)), "<S^2> of another state in the same array = {} instead of {}", mean, exact)
    classify(ctx, lat, sector, v)
    ctx.tag("S^2 of a state")


def whole(case, ctx):
    """The matrix of S^2, obtained from the unit vectors: symmetric, with the right spectrum."""
    lat = gens.lattice(case["g"])
    h, b = case["sector"]
    a = lat.n - h - b
    conf = lat.configuration(h, b, case["R"])
    dim = model.dimension(lat.n, h, b)
    m = np.hstack([np.asarray(repo.itr.compute_S2(conf, np.eye(dim)[:, [k]])) for k in range(dim)])
    expect(np.abs(m - m.T).max() < 1e-9, "S^2 is not symmetric")
    vals = np.linalg.eigvalsh(m)
    spins = (np.sqrt(np.maximum(0, 4 * vals + 1)) - 1) / 2
    allowed = np.arange(abs(a - b) / 2, (a + b) / 2 + 0.5, 1.0)
    gap = np.abs(spins[:, None] - allowed[None, :]).min(axis=1).max()
    expect(gap < 1e-6, "S^2 has the eigenvalues {}", sorted(set(np.round(vals, 6))))
    # s occurs as many times as the determinants of Ms = s exceed those of Ms = s + 1
    for s in allowed:
        ways = lambda ms: model.dimension(lat.n, h, int((a + b) / 2 - ms)) if ms <= (a + b) / 2 else 0
        got, want = int((np.abs(spins - s) < 1e-6).sum()), ways(s) - ways(s + 1)
        expect(got == want, "spin {} occurs {} times instead of {}", s, got, want)
    classify(ctx, lat, (h, b), np.ones(2))


NAMES = {0: "singlet", 0.5: "doublet", 1: "triplet", 1.5: "quartet", 2: "quintet"}


def number(case, ctx):
    lat = gens.lattice(case["g"])
    sector = tuple(case["sector"])
    conf = lat.configuration(*sector, case["R"])
    spins, vects = exact_spins(lat.n, sector)
    values = sorted(set(spins))
    s = values[case["which"] % len(values)]
    space = vects[:, spins == s]
    v = space @ state("random", space.shape[1], case["seed"])
    if not np.any(v):
        raise Skip
    given = shaped(v.copy(), case["form"])
    got = repo.itr.compute_spin_number(conf, given)
    expect(got == s, "spin {} instead of {}", got, s)
    name = repo.itr.compute_spin_multiplicity(got)
    expect(name == NAMES.get(float(s), "multiplet"), "spin {} is called {}", s, name)
    expect(np.array_equal(given.ravel(), v), "the state was modified")
    classify(ctx, lat, sector, v)
    ctx.tag("spin={}".format(s))


def several(case, ctx):
    """The table of several eigenstates of S^2 at once."""
    lat = gens.lattice(case["g"])
    sector = tuple(case["sector"])
    conf = lat.configuration(*sector, case["R"])
    spins, vects = exact_spins(lat.n, sector)
    rng = np.random.default_rng(case["seed"])
    values = sorted(set(spins))
    chosen = [values[k] for k in rng.integers(0, len(values), 1 + case["which"])]
    v = np.column_stack([vects[:, spins == s] @ state("random", int((spins == s).sum()), case["seed"] + k) for k, s in enumerate(chosen)])
    given = v.copy()
    basis = repo.bC.construct_basis(conf)
    means, names = repo.dav.compute_spin_and_multiplicity(basis, given)
    expect(np.array_equal(given, v), "the states were modified")
    expect(len(means) == len(names) == len(chosen), "{} values and {} names for {} states", len(means), len(names), len(chosen))
    for s, mean, name in zip(chosen, means, names):
        expect(abs(mean - s * (s + 1)) < 1e-6 and name == NAMES.get(float(s), "multiplet"), "<S^2> = {}, {}, for a state of spin {}", mean, name, s)
    classify(ctx, lat, sector, v[:, 0])
    ctx.tag("several states")


@st.composite
def sector_case(draw, tier, cap, sites=None, **more):
    g = draw(gens.geometry(sites or 12, gens.KINDS))
    n = gens.lattice(g).n
    if n > 7 and not sites:   # the cost goes like the square of the number of sites
        cap = max(n, 49 * cap // (n * n))
    case = {"g": g, "R": draw(gens.any_restriction(n)), "sector": draw(gens.sector(n, cap if tier == "quick" else 3 * cap)), "seed": draw(gens.seed),
            "state": draw(st.sampled_from(["random", "random", "integer", "determinant", "uniform"])), "form": draw(st.sampled_from(["column", "column", "flat"]))}
    case.update({k: draw(s) for k, s in more.items()})
    return case


@st.composite
def large_case(draw, tier):
    g = draw(gens.geometry(12, gens.KINDS, min_sites=6))
    n = gens.lattice(g).n
    high = 1000 if tier == "quick" else 2000
    sector = draw(st.sampled_from(gens.sectors(n, high, min_dim=121) or gens.sectors(n, high)))
    return {"g": g, "sector": sector, "R": draw(gens.any_restriction(n)), "seed": draw(gens.seed), "state": "random", "form": draw(st.sampled_from(["column", "flat"]))}


@st.composite
def crowded_case(draw):
    """Tens of electrons, in the small sectors that they allow."""
    n = draw(st.one_of(st.integers(10, 30), st.integers(10, 110)))
    w = draw(st.sampled_from([k for k in range(1, n + 1) if n % k == 0]))
    g = ["rect", w, n // w, 1]
    few = draw(st.sampled_from([[0, 0], [0, n]] + [[1, 0], [0, 1], [0, n - 1], [1, n - 1]] * (n <= 22)))
    return {"g": g, "sector": few, "R": None, "seed": draw(gens.seed), "state": draw(st.sampled_from(["random", "uniform"])), "form": draw(st.sampled_from(["column", "flat"]))}


@st.composite
def pair_case(draw, tier):
    case = draw(sector_case(tier, 200, sites=12))
    n = gens.lattice(case["g"]).n
    case["i"], case["j"] = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
    return case


@st.composite
def det_case(draw):
    g = draw(gens.geometry(36, gens.KINDS, min_sites=2))
    n = gens.lattice(g).n
    occ = draw(gens.occupation(n))
    i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
    if "u" in occ and "d" in occ and draw(st.booleans()):   # a pair the operators act on
        i = draw(st.sampled_from([s for s in range(n) if occ[s] == "d"]))
        j = draw(st.sampled_from([s for s in range(n) if occ[s] == "u"]))
    return {"g": g, "occ": occ, "R": draw(gens.any_restriction(n)), "i": i, "j": j, "mix": draw(gens.seed)}


SUBS = [
    Sub("pairs", pairs, pair_case, quick=1200, thorough=15000, shards=8),
    Sub("determinants", determinant, lambda tier: det_case(), quick=1500, thorough=40000, shards=4),
    Sub("square", squared, lambda tier: sector_case(tier, 120), quick=400, thorough=3000, shards=8),
    Sub("square of large states", squared, large_case, quick=24, thorough=400, shards=8),
    Sub("square of many electrons", squared, lambda tier: crowded_case(), quick=64, thorough=600, shards=8),
    Sub("matrix", whole, lambda tier: sector_case(tier, 36), quick=160, thorough=1200, shards=8),
    Sub("number", number, lambda tier: sector_case(tier, 120, which=st.integers(0, 9)), quick=400, thorough=3000, shards=8),
    Sub("several", several, lambda tier: sector_case(tier, 60, which=st.integers(0, 6)), quick=120, thorough=1500, shards=8),
]
