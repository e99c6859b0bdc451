"""C14: total spin is conserved and the spin sectors have nested spectra."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect
from . import _ham

RULE = "a lattice of any kind, a sector, coefficients, and a selection with both or neither of the spin parts, or one determinant of a lattice of up to 25 sites; non-trivial when both " \
    "spins are present and the matrix has off-diagonal entries; oracle: commutation with S^2 and with S+ (matrices written from " \
    "their definition), the spin-reversed Hamiltonian, inclusion of the spectra with multiplicities"


@st.composite
def case_of(draw, tier, cap):
    def fix(sel):
        return [sel[0], sel[1], sel[1], sel[3], sel[4], sel[5]]
    case = draw(_ham.system(tier, ("rect", "ring", "two"), cap=cap, selections=gens.selection().map(fix)))
    n = gens.lattice(case["g"]).n
    case["R"] = draw(st.one_of(st.none(), st.none(), gens.restriction(n)))
    case["seed"] = draw(gens.seed)
    return case


def prepare(case, ctx):
    lat = gens.lattice(case["g"])
    nholes, nbeta = case["sector"]
    m = _ham.build(lat, case["sector"], case["c"], case["sel"], case["R"])
    off = np.count_nonzero(m - np.diag(m.diagonal()))
    nalpha = lat.n - nholes - nbeta
    ctx.tag(lat.kind, "restricted" if case["R"] else "free", "spin terms" if case["sel"][1] else "no spin terms")
    ctx.interesting(nalpha and nbeta and off)
    return lat, nholes, nbeta, nalpha, m


def commutes(case, ctx):
    lat, nholes, nbeta, nalpha, m = prepare(case, ctx)
    occs = model.basis(lat.n, nholes, nbeta)
    s2 = model.s_squared(occs)
    scale = max(map(abs, case["c"]))
    gap = np.abs(m @ s2 - s2 @ m)
    expect((gap <= 1e-11 * scale * lat.n).all(), "H does not commute with S^2: {}", gap.max())
    v = np.random.default_rng(case["seed"]).integers(-3, 4, size=(len(occs), 1)).astype(float)
    conf = lat.configuration(nholes, nbeta)
    left, right = repo.itr.compute_S2(conf, m @ v), m @ repo.itr.compute_S2(conf, v.copy())
    expect(np.allclose(left, right, rtol=0, atol=1e-10 * scale * lat.n), "S^2 H v and H S^2 v differ by {}", np.abs(left - right).max())
    if nalpha and nbeta:   # raising: S+ H = H' S+
        up = model.basis(lat.n, nholes, nbeta - 1)
        index = {o: i for i, o in enumerate(up)}
        raise_ = np.zeros((len(up), len(occs)))
        for k, o in enumerate(occs):
            for s in range(lat.n):
                if o[s] == "d":
                    raise_[index[o[:s] + "u" + o[s + 1:]], k] = 1
        m_up = _ham.build(lat, [nholes, nbeta - 1], case["c"], case["sel"], case["R"])
        gap = np.abs(raise_ @ m - m_up @ raise_)
        expect((gap <= 1e-11 * scale * lat.n).all(), "S+ does not intertwine the sectors: {}", gap.max())


def reversal(case, ctx):
    lat, nholes, nbeta, nalpha, m = prepare(case, ctx)
    flip = _ham.build(lat, [nholes, nalpha], case["c"], case["sel"], case["R"])
    occs = model.basis(lat.n, nholes, nbeta)
    p = np.array([model.rank(model.reverse(o)) for o in occs])
    _ham.compare(flip[np.ix_(p, p)], m, lat, case["sector"], "reversed spins", _ham.tolerance(case["c"]))
    conf = lat.configuration(nholes, nbeta, case["R"])
    basis = repo.bC.construct_basis(conf)
    v = np.random.default_rng(case["seed"]).integers(-3, 4, size=(len(occs), 1)).astype(float)
    left, right = repo.bC.reverse_spins_vect(basis, m @ v), flip @ repo.bC.reverse_spins_vect(basis, v)
    expect(np.allclose(left, right, rtol=0, atol=1e-10 * lat.n * max(map(abs, case["c"]))), "reversing H v is not H' reversed(v)")


def nested(case, ctx):
    lat, nholes, nbeta, nalpha, m = prepare(case, ctx)
    if nalpha < nbeta:
        nalpha, nbeta = nbeta, nalpha
    if nbeta == 0:
        return
    low = np.linalg.eigvalsh(_ham.build(lat, [nholes, nbeta], case["c"], case["sel"], case["R"]))
    k = 1 + case["seed"] % nbeta   # any sector of larger |Ms|
    high = np.linalg.eigvalsh(_ham.build(lat, [nholes, nbeta - k], case["c"], case["sel"], case["R"]))
    tol = 1e-9 * lat.n * max(map(abs, case["c"]))
    i = 0
    for e in high:   # greedy matching of sorted values
        while i < len(low) and low[i] < e - tol:
            i += 1
        expect(i < len(low) and abs(low[i] - e) <= tol, "energy {} of (holes, down) = {} is not in the sector of {}", e, (nholes, nbeta - k), (nholes, nbeta))
        i += 1


def action(lat, case, occ, cache):
    """H on one determinant, by the code: {occupation: amplitude}."""
    if occ not in cache:
        h, b = gens.counts(occ)
        conf, inter = lat.configuration(h, b, case["R"]), gens.interactions(case["c"])
        det = model.occ_to_det(occ)
        out = {}
        for image, v in repo.itr.compute_dynamic_interactions(conf, inter, gens.booleans(case["sel"]), list(det)).items():
            model.add(out, model.det_to_occ(h, b, list(image)), v)
        if case["sel"][1]:
            model.add(out, occ, repo.itr.compute_static_spin_interaction(conf, inter, list(det)))
        if case["sel"][5]:
            model.add(out, occ, repo.itr.compute_hole_repulsion(conf, inter, list(det)))
        cache[occ] = out
    return cache[occ]


def ladder(occ, what):
    """S+ (d -> u) or S- (u -> d) on one determinant."""
    old, new = "du" if what > 0 else "ud"
    return [occ[:s] + new + occ[s + 1:] for s in range(len(occ)) if occ[s] == old]


def large(case, ctx):
    """H S+ = S+ H, and the same for S-, on one determinant of a lattice too large for its matrix."""
    lat, occ = gens.lattice(case["g"]), case["occ"]
    tol = _ham.tolerance(case["c"], 4 * lat.n)
    cache, images = {}, 0
    for what in (1, -1):
        gap = {}
        for image, v in action(lat, case, occ, cache).items():
            for up in ladder(image, what):
                model.add(gap, up, v)
        for up in ladder(occ, what):
            for image, v in action(lat, case, up, cache).items():
                images += image != up
                model.add(gap, image, -v)
        for o, v in gap.items():
            expect(abs(v) <= tol, "{}, active {}: S{} and H applied to {} in both orders differ on {} by {}", case["g"], case["R"], "+" if what > 0 else "-", occ, o, v)
    ctx.tag(lat.kind, "restricted" if case["R"] else "free", "n<=12" if lat.n <= 12 else "n>12")
    ctx.interesting(images >= 4 and len(set(occ)) == 3)


@st.composite
def crowded(draw, lat):
    """Occupations; half of the time, with the neighbourhood of one bond drawn on its own (holes beside it or not)."""
    if draw(st.booleans()) or not lat.bonds:
        return draw(gens.occupation(lat.n))
    occ = [draw(st.sampled_from("oooudud"[k:])) for k in [draw(st.integers(0, 3))] for _ in range(lat.n)]
    a, b = draw(st.sampled_from(lat.bonds))
    if draw(st.booleans()):
        a, b = b, a
    for s in lat.nbrs[a] + lat.nbrs[b]:
        occ[s] = draw(st.sampled_from("ooud"))
    occ[a], occ[b] = "u", "d"
    return "".join(occ)


@st.composite
def large_case(draw):
    g = draw(gens.geometry(25, gens.KINDS, min_sites=4))
    lat = gens.lattice(g)
    sel = draw(gens.selection())
    return {"g": g, "occ": draw(crowded(lat)), "R": draw(st.one_of(st.none(), gens.restriction(lat.n))), "c": draw(gens.scaled_coefficients()),
            "sel": [sel[0], sel[1], sel[1], sel[3], sel[4], sel[5]]}


SUBS = [
    Sub("commutes-with-spin", commutes, lambda tier: case_of(tier, 150 if tier == "quick" else 420), quick=320, thorough=3000, shards=8),
    Sub("spin-reversal", reversal, lambda tier: case_of(tier, 260 if tier == "quick" else 800), quick=320, thorough=3000, shards=8),
    Sub("nested-spectra", nested, lambda tier: case_of(tier, 260 if tier == "quick" else 800), quick=240, thorough=2500, shards=8),
    Sub("large-lattices", large, lambda tier: large_case(), quick=800, thorough=12000, shards=8),
]
