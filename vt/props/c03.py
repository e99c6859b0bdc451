"""C03: reversing spins is an involution that swaps up and down and keeps the holes."""
from hypothesis import strategies as st
import numpy as np

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "a lattice of any kind with an optional restriction of the active sites, and a determinant in any listing order, or a whole " \
    "sector and a state; non-trivial when both spins are present; oracle: the occupation string with u and d exchanged"


def same_configuration(flip, conf):
    expect(flip.nholes == conf.nholes and flip.nbeta == conf.nalpha and flip.nalpha == conf.nbeta,
           "reversed configuration has (holes, down, up) = {}", (flip.nholes, flip.nbeta, flip.nalpha))
    expect(flip.nsites == conf.nsites and np.array_equal(flip.bond_matrix, conf.bond_matrix), "the lattice changed")
    expect(flip.spin_number == -conf.spin_number, "total spin projection {}", flip.spin_number)
    expect(flip.nb_conf == conf.nb_conf and flip.doping == conf.doping, "dimension or doping changed")
    for key in ("lattice_type", "nbh", "nbv", "nblocs_side"):
        expect(getattr(flip, key) == getattr(conf, key), "{} is {} instead of {}", key, getattr(flip, key), getattr(conf, key))
    expect([sorted(r) for r in flip.sites_restriction] == [sorted(r) for r in conf.sites_restriction], "the restriction changed")


def make(case):
    lat = gens.lattice(case["g"])
    R = case.get("R")
    return lat, R


def determinant(case, ctx):
    lat, R = make(case)
    det = case["det"]
    conf = lat.configuration(*case["sector"], R)
    nholes, nbeta = case["sector"]
    occ = model.det_to_occ(nholes, nbeta, det)
    flip, image = repo.bC.reverse_spins(conf, list(det))
    same_configuration(flip, conf)
    expected = model.occ_to_det(model.reverse(occ))
    expect(list(image) == expected, "reversing {} gives {} instead of {}", det, image, expected)
    conf2, twice = repo.bC.reverse_spins(flip, list(image))
    expect(list(twice) == model.occ_to_det(occ), "reversing twice gives {}", twice)
    same_configuration(conf2, flip)
    ctx.tag(lat.kind, "restricted" if R else "free")
    ctx.interesting("u" in occ and "d" in occ)


def whole(case, ctx):
    lat, R = make(case)
    conf = lat.configuration(*case["sector"], R)
    basis = repo.bC.construct_basis(conf)
    occs = model.basis(lat.n, *case["sector"])
    flip = repo.bC.reverse_spins_basis(basis)
    same_configuration(flip.configuration, conf)
    expect([list(d) for d in flip.determinants] == [model.occ_to_det(model.reverse(o)) for o in occs], "reversed basis")
    rng = np.random.default_rng(case["seed"])
    vect = rng.integers(-9, 10, size=(len(occs), case["columns"])).astype(float)
    vect[0, 0] = 1.0
    if case["columns"] == 1 and case["flat"]:
        vect = vect[:, 0]
    given = vect.copy()
    image = repo.bC.reverse_spins_vect(basis, vect)
    expect(np.array_equal(vect, given), "the state was modified")
    expected = np.zeros(vect.shape)
    for i, o in enumerate(occs):
        expected[model.rank(model.reverse(o))] = vect[i]
    expect(image.shape == expected.shape and np.array_equal(image, expected), "reversed state of {}", case)
    other = repo.bC.construct_basis(flip.configuration)
    expect(np.array_equal(repo.bC.reverse_spins_vect(other, image), vect), "reversing the state twice does not restore it")
    ctx.tag(lat.kind, "restricted" if R else "free", "balanced" if conf.nalpha == conf.nbeta else "unbalanced")
    ctx.interesting(conf.nalpha and conf.nbeta)


@st.composite
def det_case(draw):
    g = draw(gens.geometry(40, gens.KINDS))
    n = gens.lattice(g).n
    occ = draw(gens.occupation(n))
    return {"g": g, "sector": list(gens.counts(occ)), "det": draw(gens.listing(occ)), "R": draw(gens.any_restriction(n))}


@st.composite
def whole_case(draw, cap, least=0):
    g = draw(gens.geometry(14, gens.KINDS, min_sites=8 if least else 1))
    n = gens.lattice(g).n
    return {"g": g, "sector": draw(st.sampled_from(gens.sectors(n, cap, min_dim=least) or gens.sectors(n, cap)) if least else gens.sector(n, cap)), "R": draw(gens.any_restriction(n)), "seed": draw(gens.seed),
            "columns": draw(st.sampled_from([1, 1, 2, 3])), "flat": draw(st.booleans())}


SUBS = [
    Sub("determinants", determinant, lambda tier: det_case(), quick=3600, thorough=30000, shards=4),
    Sub("bases-and-states", whole, lambda tier: whole_case(300 if tier == "quick" else 1200), quick=1500, thorough=6000, shards=8),
    Sub("large", whole, lambda tier: whole_case(6000, 300), quick=160, thorough=2000, shards=8),
]
