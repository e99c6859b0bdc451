"""C24: a full computation is consistent, and covers every spin sector of the lattice."""
import os
import time

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from scipy.sparse.csgraph import connected_components

from .. import gens, model, repo
from ..runner import Sub, expect
from . import c23

RULE = "a lattice of any kind, sector (or all the sectors of a number of holes), active sites, coefficients, selection, number of states " \
    "and limits of the search space; non-trivial when the Hamiltonian couples determinants of a sector of 4 or more; oracle: the " \
    "reference basis and Hamiltonian, the exact spectrum and the exact mean of S^2 of each vector returned"


def connected(h):
    return connected_components(sp.csr_matrix(h != 0))[0] == 1


def configuration(case, sector):
    lat = gens.lattice(case["g"])
    return lat, lat.configuration(*sector, case["R"])


def data(case, conf, nb, roomy):
    diag = repo.dav.Diagonalization(nb, 400, case["tol"], roomy, None)
    return repo.iC.Data(conf, gens.interactions(case["c"]), diag, gens.booleans(case["sel"], b_spin_multipicities=case["bmult"]))


def verify(comp, case, lat, sector, nb, what):
    """Checks one computation; returns its energies when they must be the lowest."""
    h, b = sector
    dets = model.basis(lat.n, h, b)
    conf = comp.data.configuration
    kind = {"rect": "periodic", "ring": "peripheral", "two": "clusters"}[lat.kind]
    expect((conf.nsites, conf.nholes, conf.nbeta, conf.nalpha) == (lat.n, h, b, lat.n - h - b), "{}: fillings {}", what, (conf.nsites, conf.nholes, conf.nbeta, conf.nalpha))
    expect(conf.lattice_type == kind, "{}: lattice type {}", what, conf.lattice_type)
    expect((conf.nbh, conf.nbv, conf.nblocs_side) == (lat.nbh * (2 if kind == "clusters" else 1), lat.nbv, lat.nb), "{}: geometry {}", what, (conf.nbh, conf.nbv, conf.nblocs_side))
    expect(np.array_equal(conf.bond_matrix, lat.adjacency()), "{}: bonds changed", what)
    R = list(case["R"] or range(lat.n))
    expect([sorted(r) for r in conf.sites_restriction] == [sorted(R)] * 2, "{}: active sites {}", what, conf.sites_restriction)
    expect([list(d) for d in comp.determinants] == [model.occ_to_det(o) for o in dets], "{}: wrong basis", what)
    want = model.hamiltonian(lat, h, b, case["R"], gens.named(case["c"]), gens.selected(case["sel"]))
    scale = 1 + np.abs(want).max()
    got = np.asarray(comp.hamiltonian.toarray(), dtype=float)
    expect(got.shape == want.shape and np.abs(got - want).max() <= 1e-9 * scale, "{}: wrong Hamiltonian", what)
    vals, vects = np.asarray(comp.eigenstates.eigvals, dtype=float), np.asarray(comp.eigenstates.eigvects)
    count = min(nb, len(dets))
    expect(vals.shape == (count,) and vects.shape == (len(dets), count), "{}: {} values, vectors {}", what, vals.shape, vects.shape)
    expect(np.abs(vects.T @ vects - np.eye(count)).max() < 1e-6, "{}: vectors not orthonormal", what)
    mean = np.einsum("ij,ij->j", vects, want @ vects)
    expect(np.abs(mean - vals).max() <= 1e-6 * scale, "{}: energies {} of states of mean energies {}", what, vals, mean)
    exact = np.linalg.eigvalsh(want)
    coupled = connected(want) and case.get("room") != "none"
    if case.get("room") != "none":   # else convergence within the steps allowed is not certain
        left = np.linalg.norm(want @ vects - vects * vals[None, :], axis=0).max()
        expect(left <= 1.001 * case["tol"] + 1e-10 * scale, "{}: residual {}", what, left)
    if coupled:
        expect(np.allclose(vals, exact[:count], rtol=0, atol=10 * case["tol"] + 1e-6 * scale), "{}: energies {} instead of {}", what, vals, exact[:count])
    spins = comp.eigenstates.spins
    if case["bmult"]:
        expect(len(spins) == count, "{}: {} spins for {} states", what, len(spins), count)
        s2 = model.s_squared(dets)
        for k in range(count):
            mean = vects[:, k] @ s2 @ vects[:, k] / (vects[:, k] @ vects[:, k])
            exact_spin = np.sqrt(max(0.0, mean + 0.25)) - 0.5
            expect(spins[k] != "-" and abs(spins[k] - exact_spin) <= 0.25 + 1e-5, "{}: spin {} for <S^2> = {}", what, spins[k], mean)
            expect(float(2 * spins[k]).is_integer(), "{}: spin {}", what, spins[k])
    else:
        expect(not len(spins), "{}: spins {} were not asked for", what, spins)
    for t in (comp.times.tbasis, comp.times.thamiltonian, comp.times.teigenstates):
        expect(t >= 0, "{}: negative time {}", what, t)
    return vals if coupled else None


def one(case, ctx):
    lat, conf = configuration(case, case["sector"])
    nb = case["nb"]
    begin, steady = time.time(), time.monotonic()
    comp = repo.iC.perform_initial_computations(data(case, conf, nb, 0 if case.get("room") == "none" else conf.nb_conf + nb + 5))
    taken = time.time() - begin
    spent = [comp.times.tbasis, comp.times.thamiltonian, comp.times.teigenstates]
    expect(sum(spent) <= taken + 0.01 or abs(taken - time.monotonic() + steady) > 0.001, "times {} of a computation of {} s", spent, taken)
    coupled = verify(comp, case, lat, case["sector"], nb, "computation")
    ctx.tag(lat.kind, "restricted" if case["R"] else "free", "coupled" if coupled is not None else "uncoupled", "spins" if case["bmult"] else "no spins")
    ctx.interesting(coupled is not None and len(comp.determinants) >= 4)


def every(case, ctx):
    os.mkdir("initialComputations")
    lat, conf = configuration(case, [case["holes"], case["start"] % (lat_n(case) - case["holes"] + 1)])
    n, h, nb = lat.n, case["holes"], case["nb"]
    repo.iC.perform_configurations_computations(data(case, conf, nb, 0 if case.get("room") == "none" else 200))
    names = {c23.file_name(n, a, n - h - a, case["sel"]): a for a in range(n - h + 1)}
    found = os.listdir("initialComputations")
    expect(sorted(found) == sorted(names), "files {} instead of {}", sorted(found), sorted(names))
    energies = {}
    for name, a in names.items():
        comp = repo.iC.load_data(name)
        energies[a] = verify(comp, case, lat, [h, n - h - a], nb, name)
    for a in energies:
        other = n - h - a
        if energies[a] is not None and energies[other] is not None:
            scale = 1 + np.abs(energies[a]).max()
            expect(np.allclose(energies[a], energies[other], rtol=0, atol=1e-5 * scale), "opposite sectors {} and {} up: energies {} and {}", a, other, energies[a], energies[other])
    ctx.tag(lat.kind, "restricted" if case["R"] else "free", "sectors={}".format(len(names)))
    ctx.interesting(len(names) >= 3 and any(e is not None and len(e) >= 1 for e in energies.values()) and 0 < h < n)


def lat_n(case):
    return gens.lattice(case["g"]).n


@st.composite
def system(draw, tier, whole):
    large = whole and draw(st.integers(0, 2)) == 0   # many sites, and few particles
    g = draw(gens.geometry((10 if large else 6 if whole else 12) + (0 if tier == "quick" else 1), gens.KINDS, min_sites=7 if large else 3 if whole else 2))
    n = gens.lattice(g).n
    case = {"g": g, "c": draw(st.one_of(gens.distinct_coefficients(), gens.coefficients())), "sel": draw(st.one_of(st.just([1] * 6), gens.selection())),
            "R": draw(st.one_of(st.none(), gens.restriction(n))), "nb": draw(st.one_of(st.integers(1, 6), st.integers(1, 14))), "room": draw(st.sampled_from(["whole"] * 4 + ["none"])), "tol": draw(st.sampled_from([1e-6, 1e-7, 1e-8])),
            "bmult": draw(st.integers(0, 2)) > 0}
    unit = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-3, 100.0, 3e4]))   # of energy
    case["c"], case["tol"] = [x * unit for x in case["c"]], case["tol"] * unit
    if whole:
        low = 0 if n <= 5 else 1
        case["holes"], case["start"] = draw(st.one_of(st.integers(low, n), st.integers(low, max(low, n // 2)))), draw(st.integers(0, 9))
        if large:
            case["holes"] = draw(st.sampled_from([h for h in range(n + 1) if max(model.dimension(n, h, b) for b in range(n - h + 1)) <= 100]))
    else:
        case["sector"] = draw(gens.sector(n, 120 if tier == "quick" else 250))
    return case


SUBS = [
    Sub("one-sector", one, lambda tier: system(tier, False), quick=1040, thorough=5000, shards=8),
    Sub("all-sectors", every, lambda tier: system(tier, True), quick=480, thorough=2000, shards=8, files=True),
]
