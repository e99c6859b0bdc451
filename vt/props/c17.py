"""C17: the action on a single determinant agrees with the Hamiltonian's row."""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect
from . import _ham

RULE = "one determinant of a lattice of any kind of up to 36 sites (listed in order), optionally restricted, or with distinct starting and target sites, coefficients and a " \
    "selection; or all the determinants of a small sector; non-trivial when it has holes and electrons and at least two images; " \
    "oracle: the reference model, and the rows of the matrix built by the code for small lattices"


def as_counter(images):
    return Counter(tuple(d) for d in images)


def expect_images(got, want, what, det):
    got, want = as_counter(got), Counter(tuple(model.occ_to_det(o)) for o in want)
    expect(got == want, "{} of {}: unexpected {}, missing {}", what, det, dict(got - want), dict(want - got))


def single(case, ctx):
    lat = gens.lattice(case["g"])
    occ, R = case["occ"], case["R"]
    active = set(R) if R else set(range(lat.n))
    conf = lat.configuration(*gens.counts(occ), R)
    inter, c = gens.interactions(case["c"]), gens.named(case["c"])
    det = model.occ_to_det(occ)
    itr = repo.itr
    given = list(case["det"])
    total = 0

    expect_images(itr.compute_hopping_integral(conf, inter, given), model.hops(lat, occ, active), "hops", det)
    for got, want, name in zip(itr.compute_next_hopping_integral(conf, inter, given), model.next_hops(lat, occ, active), ("aligned", "bent")):
        expect_images(got, want, name + " second-neighbour hops", det)
        total += len(want)
    for got, want, name in zip(itr.compute_spin_flip(conf, inter, given), model.flips(lat, occ, active), ("parallel", "perpendicular", "undoped")):
        expect_images(got, want, name + " spin flips", det)
        total += len(want)
    for got, want, name in zip(itr.compute_singlet_displacement(conf, inter, given), model.singlets(lat, occ, active), ("straight", "bent")):
        got = Counter((tuple(a), tuple(b)) for a, b in got)
        want = Counter((tuple(model.occ_to_det(a)), tuple(model.occ_to_det(b))) for a, b in want)
        expect(got == want, "{} singlet displacements of {}: unexpected {}, missing {}", name, det, dict(got - want), dict(want - got))
        total += sum(want.values())

    static, repulsion = model.static_energy(lat, occ, active, c), model.repulsion_energy(lat, occ, active, c)
    tol = _ham.tolerance(case["c"], lat.n)
    close = lambda a, b: abs(a - b) <= tol
    got = itr.compute_static_spin_interaction(conf, inter, given)
    expect(close(got, static), "static spin interaction of {}: {} instead of {}", det, got, static)
    got = itr.compute_hole_repulsion(conf, inter, given)
    expect(close(got, repulsion), "hole repulsion of {}: {} instead of {}", det, got, repulsion)
    got = itr.compute_energy(conf, inter, given)
    expect(close(got, static + repulsion), "energy of {}: {} instead of {}", det, got, static + repulsion)

    row = itr.compute_dynamic_interactions(conf, inter, gens.booleans(case["sel"]), given)
    want = {tuple(model.occ_to_det(o)): v for o, v in model.off_diagonal(lat, occ, active, c, gens.selected(case["sel"])).items()}
    for key in set(row) | set(want):
        expect(close(row.get(key, 0.0), want.get(key, 0.0)), "coupling of {} to {}: {} instead of {}", det, key, row.get(key), want.get(key))
    unknown = set(map(tuple, row)) - set(want)
    expect(not unknown, "couplings of {} with determinants that no selected move reaches: {}", det, unknown)
    expect(given == case["det"], "the determinant was modified")
    ctx.tag(lat.kind, "sorted" if given == det else "unsorted", "restricted" if R else "free", "n<=12" if lat.n <= 12 else "n>12", "terms={}".format(sum(case["sel"])))
    ctx.interesting("o" in occ and len(set(occ)) == 3 and total >= 2)


def directed(case, ctx):
    """Starting sites, of the holes, and target sites, of the electrons."""
    lat = gens.lattice(case["g"])
    occ, R, T = case["occ"], set(case["R"]), set(case["T"])
    conf = lat.configuration(*gens.counts(occ), (list(case["R"]), list(case["T"])))
    inter, c = gens.interactions(case["c"]), gens.named(case["c"])
    det, itr = model.occ_to_det(occ), repo.itr
    expect_images(itr.compute_hopping_integral(conf, inter, list(det)), model.hops(lat, occ, R, T), "hops", det)
    for got, want, name in zip(itr.compute_next_hopping_integral(conf, inter, list(det)), model.next_hops(lat, occ, R, T), ("aligned", "bent")):
        expect_images(got, want, name + " second-neighbour hops", det)
    for got, want, name in zip(itr.compute_singlet_displacement(conf, inter, list(det)), model.singlets(lat, occ, R, T), ("straight", "bent")):
        got = Counter((tuple(a), tuple(b)) for a, b in got)
        want = Counter((tuple(model.occ_to_det(a)), tuple(model.occ_to_det(b))) for a, b in want)
        expect(got == want, "{} singlet displacements of {}: unexpected {}, missing {}", name, det, dict(got - want), dict(want - got))
    sel = [case["sel"][0], case["sel"][1], 0, case["sel"][3], case["sel"][4], case["sel"][5]]
    row = itr.compute_dynamic_interactions(conf, inter, gens.booleans(sel), list(det))
    want = {tuple(model.occ_to_det(o)): v for o, v in model.off_diagonal(lat, occ, R, c, gens.selected(sel), T).items()}
    tol = _ham.tolerance(case["c"], lat.n)
    for key in set(row) | set(want):
        expect(key in want and abs(row.get(key, 0.0) - want[key]) <= tol, "coupling of {} to {}: {} instead of {}", det, key, row.get(key), want.get(key))
    ctx.tag(lat.kind, "disjoint" if not R & T else "overlapping", "terms={}".format(sum(sel)))
    ctx.interesting(R != T and len(want) >= 2)


def rows(case, ctx):
    lat = gens.lattice(case["g"])
    R, c = case["R"], case["c"]
    conf = lat.configuration(*case["sector"], R)
    inter, sel = gens.interactions(c), case["sel"]
    m = _ham.build(lat, case["sector"], c, sel, R)
    diag = _ham.build(lat, case["sector"], c, [0, 1, 0, 0, 0, 1], R)
    tol = _ham.tolerance(c, lat.n)
    off = 0
    for i, occ in enumerate(model.basis(lat.n, *case["sector"])):
        det = model.occ_to_det(occ)
        e = repo.itr.compute_energy(conf, inter, list(det))
        expect(abs(e - diag[i, i]) <= tol, "energy of {}: {}, diagonal of the matrix: {}", det, e, diag[i, i])
        row = np.zeros(len(m))
        for key, v in repo.itr.compute_dynamic_interactions(conf, inter, gens.booleans(sel), list(det)).items():
            row[repo.bC.get_index_in_basis(conf, list(key))] += v
        want = m[i].copy()
        want[i] = 0.0
        expect((np.abs(row - want) <= tol).all(), "couplings of {} are not row {} of the matrix", det, i)
        off += np.count_nonzero(want)
    ctx.tag(lat.kind, "restricted" if R else "free")
    ctx.interesting(off >= 4)


@st.composite
def single_case(draw):
    g = draw(gens.geometry(36, gens.KINDS, min_sites=2))
    n = gens.lattice(g).n
    R = draw(st.one_of(st.none(), gens.restriction(n)))
    occ = draw(gens.occupation(n))
    det = model.occ_to_det(occ) if draw(st.booleans()) else draw(gens.listing(occ))
    return {"g": g, "occ": occ, "det": det, "R": R, "c": draw(gens.scaled_coefficients()), "sel": draw(gens.selection())}


@st.composite
def directed_case(draw):
    g = draw(gens.geometry(30, gens.KINDS, min_sites=3))
    n = gens.lattice(g).n
    occ = draw(gens.occupation(n))
    keep = draw(st.lists(st.sampled_from("bbbsstt."), min_size=n, max_size=n))  # both, starting, target, none
    R, T = [s for s in range(n) if keep[s] in "bs"], [s for s in range(n) if keep[s] in "bt"]
    if draw(st.booleans()):  # disjoint
        T = [s for s in range(n) if s not in R]
    R, T = R or [draw(st.integers(0, n - 1))], T or [draw(st.integers(0, n - 1))]
    return {"g": g, "occ": occ, "R": list(draw(st.permutations(R))), "T": list(draw(st.permutations(T))), "c": draw(gens.scaled_coefficients()),
            "sel": draw(gens.selection())}


SUBS = [
    Sub("directed", directed, lambda tier: directed_case(), quick=2400, thorough=15000, shards=8),
    Sub("single-determinants", single, lambda tier: single_case(), quick=4800, thorough=30000, shards=8),
    Sub("rows", rows, lambda tier: _ham.system(tier, ("rect", "ring", "two"), restricted=True, cap=120 if tier == "quick" else 400), quick=720, thorough=2500, shards=8),
]
