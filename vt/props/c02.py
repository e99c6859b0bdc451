"""C02: ranking and unranking determinants are inverse bijections in basis order."""
from hypothesis import strategies as st
import numpy as np

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "an occupation of a lattice listed in any order, or an index of a sector, for lattices enumerated exhaustively, and for " \
    "lattices of up to 64 sites of any kind, with any restriction; non-trivial when the three species are present, or (index) the index is neither 0 nor the last; " \
    "oracle: independent enumeration, digit-by-digit ranking, inverse and order relations"


def conf_of(case, n, nholes, nbeta):
    """The lattice and the active sites do not matter to the ranks."""
    if case["g"]:
        return gens.lattice(case["g"]).configuration(nholes, nbeta, case["R"])
    return repo.bC.Configuration(np.zeros((n, n)), nholes, nbeta)


def whole_sector(case, ctx):
    n, (nholes, nbeta) = case["n"], case["sector"]
    conf = conf_of(case, n, nholes, nbeta)
    nalpha = n - nholes - nbeta
    dets = [model.occ_to_det(o) for o in model.basis(n, nholes, nbeta)]
    for i, det in enumerate(dets):
        got = repo.bC.get_index_in_basis(conf, list(det))
        expect(got == i, "index of {} in {} is {} instead of {}", det, (n, nholes, nbeta), got, i)
        got = repo.bC.compute_hash_table(conf, list(det))
        expect(got == i, "hash of {} is {} instead of {}", det, got, i)
        back = repo.bC.get_hash_basis(nholes, nalpha, nbeta, i)
        expect(list(back) == det, "determinant {} of {} is {} instead of {}", i, (n, nholes, nbeta), back, det)
    ctx.tag("dim<=10" if len(dets) <= 10 else "dim<=100" if len(dets) <= 100 else "dim>100")
    ctx.interesting(nholes and nbeta and nalpha)


def rank_one(case, ctx):
    det, nholes, nbeta = case["det"], case["nholes"], case["nbeta"]
    n = len(det)
    occ = model.det_to_occ(nholes, nbeta, det)
    conf = conf_of(case, n, nholes, nbeta)
    given = list(det)
    index = repo.bC.get_index_in_basis(conf, given)
    expect(index == model.rank(occ), "index of {} is {} instead of {}", det, index, model.rank(occ))
    other = case["other"]
    occ2 = "".join(occ[s] for s in other)
    index2 = repo.bC.get_index_in_basis(conf, model.occ_to_det(occ2))
    expect((index < index2) == (model.occ_to_det(occ) < model.occ_to_det(occ2)) and (index == index2) == (occ == occ2),
           "the order of {} and {} is not that of their indices {} and {}", occ, occ2, index, index2)
    ctx.tag("n<=12" if n <= 12 else "n<=30" if n <= 30 else "n>30", "shuffled" if det != model.occ_to_det(occ) else "sorted")
    ctx.interesting(nholes and nbeta and nholes + nbeta < n)


def unrank_one(case, ctx):
    n, (nholes, nbeta) = case["n"], case["sector"]
    nalpha = n - nholes - nbeta
    dim = model.dimension(n, nholes, nbeta)
    index = min(dim - 1, case["index"] % dim)
    det = list(repo.bC.get_hash_basis(nholes, nalpha, nbeta, index))
    expect(sorted(det) == list(range(n)), "determinant {} of {} is not an assignment of the sites: {}", index, (n, nholes, nbeta), det)
    occ = model.det_to_occ(nholes, nbeta, det)
    expect(model.occ_to_det(occ) == det, "determinant {} is not well ordered: {}", index, det)
    expect(model.rank(occ) == index, "determinant {} of {} is {}, which has rank {}", index, (n, nholes, nbeta), det, model.rank(occ))
    back = repo.bC.get_index_in_basis(conf_of(case, n, nholes, nbeta), det)
    expect(back == index, "index {} -> {} -> {}", index, det, back)
    ctx.tag("index>2**53" if index > 2 ** 53 else "index>1e4" if index > 1e4 else "index<=1e4", "n>16" if n > 16 else "n<=16")
    ctx.interesting(0 < index < dim - 1)


def shapes(n):
    return [g for kind in gens.KINDS for g in gens.geometries(kind, 64, n) if gens.lattice(g).n == n]


@st.composite
def somewhere(draw, n):
    """A lattice of n sites and a restriction."""
    every = shapes(n)
    cut = [g for g in every if g[3] > 1]
    return {"g": draw(st.sampled_from(draw(st.sampled_from([[None]] + [every] * 3 + [cut or every])))), "R": draw(gens.any_restriction(n))}


def sweep(tier):
    top, count = 7 if tier == "quick" else 9, 0
    for n in range(1, top + 1):
        for nholes in range(n + 1):
            for nbeta in range(n - nholes + 1):
                if model.dimension(n, nholes, nbeta) <= 5000:
                    every, count = [None] + shapes(n), count + 1
                    yield {"n": n, "sector": [nholes, nbeta], "g": every[count % len(every)], "R": [None, list(range(0, n, 2)), list(range(n))[::-1]][count % 3]}


@st.composite
def rank_case(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 30), st.integers(30, 64)))
    occ = draw(gens.occupation(n))
    nholes, nbeta = gens.counts(occ)
    other = list(range(n))
    for _ in range(draw(st.integers(1, 3))):
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        other[a], other[b] = other[b], other[a]
    return {"det": draw(gens.listing(occ)), "nholes": nholes, "nbeta": nbeta, "other": other, **draw(somewhere(n))}


@st.composite
def unrank_case(draw):
    """The code unranks by counting upwards, so the hole and down-spin parts of the index are kept within 1e5."""
    n = draw(st.integers(1, 40))
    few = st.integers(0, min(n, 3))
    nholes = draw(few)
    nholes = n - nholes if draw(st.integers(0, 4)) == 0 else nholes
    m = n - nholes
    nbeta = draw(st.integers(0, min(m, 3)))
    nbeta = m - nbeta if draw(st.integers(0, 2)) == 0 else nbeta
    dim = model.dimension(n, nholes, nbeta)
    index = draw(st.one_of(st.integers(0, dim - 1), st.just(dim - 1), st.just(dim // 2)))
    return {"n": n, "sector": [nholes, nbeta], "index": index, **draw(somewhere(n))}


@st.composite
def far_case(draw):
    """Ranks of any size whose hole and down-spin parts are small (the code counts upwards)."""
    n = draw(st.one_of(st.integers(2, 64), st.integers(40, 64)))
    nholes = draw(st.integers(0, n))
    nbeta = draw(st.integers(0, n - nholes))
    part = st.one_of(st.integers(0, 70), st.integers(0, 3000))
    block = model.dimension(n - nholes, 0, nbeta)
    index = draw(part) * block + min(draw(part), block - 1)
    return {"n": n, "sector": [nholes, nbeta], "index": index, **draw(somewhere(n))}


SUBS = [
    Sub("every-small-sector", whole_sector, sweep=sweep, shards=8),
    Sub("rank", rank_one, lambda tier: rank_case(), quick=2000, thorough=60000, shards=4),
    Sub("unrank", unrank_one, lambda tier: unrank_case(), quick=600, thorough=12000, shards=4),
    Sub("unrank-far", unrank_one, lambda tier: far_case(), quick=800, thorough=20000, shards=4),
]
