"""C04: occupation queries agree with the determinant they are asked about."""
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "a determinant of a lattice of any kind in any listing order, with an optional restriction (list, or pair of lists) of the " \
    "active sites; non-trivial when at least two species are present and some site is inactive or the listing is not sorted; " \
    "oracle: the occupation string"


def queries(case, ctx):
    lat = gens.lattice(case["g"])
    nholes, nbeta = case["sector"]
    det = case["det"]
    occ = model.det_to_occ(nholes, nbeta, det)
    R = case["R"]
    pair = bool(R) and isinstance(R[0], list)
    conf = lat.configuration(nholes, nbeta, R)
    active = [set(R[0]), set(R[1])] if pair else [set(R), set(R)] if R else [set(range(lat.n))] * 2
    for s in range(lat.n):
        expect(repo.bC.get_spin_site(conf, list(det), s) == model.sz(occ[s]), "spin of site {} in {}: {}", s, det,
               repo.bC.get_spin_site(conf, list(det), s))
    for spin, c in ((0, "o"), (1, "u"), (-1, "d")):
        for target in (0, 1):
            got = repo.bC.get_indexes_of(conf, list(det), spin, target)
            want = sorted(s for s in active[target] if occ[s] == c)
            expect(sorted(got) == want, "sites of {} (target {}) in {} restricted to {}: {} instead of {}", spin, target, det, R, got, want)
        expect(sorted(repo.bC.get_indexes_of(conf, list(det), spin)) == sorted(s for s in active[0] if occ[s] == c),
               "sites of {} are not those of the origin restriction", spin)
    got = repo.bC.reorder_basis_element(conf, list(det))
    expect(list(got) == model.occ_to_det(occ), "reordering {} gives {}", det, got)
    shown = "".join(repo.bC.get_displayable_determinant(conf, list(det)))
    expect(shown == occ.translate(str.maketrans("odu", "0-+")), "{} is displayed {}", det, shown)
    for wrong in case["wrong"]:
        try:
            repo.bC.get_indexes_of(conf, list(det), wrong)
        except ValueError:
            continue
        expect(False, "species {} accepted", wrong)
    ctx.tag(lat.kind, "pair" if pair else "list" if R else "free")
    ctx.interesting(len(set(occ)) >= 2 and (bool(R) or det != model.occ_to_det(occ)))


def display_basis(case, ctx):
    lat = gens.lattice(case["g"])
    conf = lat.configuration(*case["sector"], case["R"])
    basis = repo.bC.construct_basis(conf)
    order = case["order"]
    dets = [basis.determinants[k % len(basis.determinants)] for k in order]
    got = ["".join(d) for d in repo.bC.get_displayable_basis(repo.bC.Basis(conf, [list(d) for d in dets]))]
    want = [model.det_to_occ(*case["sector"], d).translate(str.maketrans("odu", "0-+")) for d in dets]
    expect(got == want, "displayed basis {} instead of {}", got, want)
    ctx.interesting(len(set(want)) >= 2)


@st.composite
def query_case(draw):
    g = draw(gens.geometry(36, gens.KINDS))
    n = gens.lattice(g).n
    occ = draw(gens.occupation(n))
    R = draw(st.one_of(st.none(), gens.sublist(n), st.tuples(gens.sublist(n), gens.sublist(n)).map(list)))
    wrong = draw(st.lists(st.one_of(st.integers(2, 9), st.integers(-9, -2), st.sampled_from([0.5, -0.5, 1.5])), max_size=3))
    return {"g": g, "sector": list(gens.counts(occ)), "det": draw(gens.listing(occ)), "R": R, "wrong": wrong}


@st.composite
def display_case(draw):
    g = draw(gens.geometry(12, gens.KINDS))
    n = gens.lattice(g).n
    return {"g": g, "sector": draw(gens.sector(n, 300)), "R": draw(gens.any_restriction(n)), "order": draw(st.lists(st.integers(0, 299), max_size=20))}


SUBS = [
    Sub("queries", queries, lambda tier: query_case(), quick=6000, thorough=40000, shards=7),
    Sub("displayed-basis", display_basis, lambda tier: display_case(), quick=600, shards=2),
]
