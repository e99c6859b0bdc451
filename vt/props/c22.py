"""C22: dominant determinants are the distinct ones of largest amplitude."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "a sector, amplitudes drawn from a small pool (ties of both signs, zeros) or all different, and the number to report, up to above " \
    "the dimension; non-trivial when two determinants tie in absolute value and not all are asked for; oracle: the sorted amplitudes"


def amplitudes(case, dim):
    rng = np.random.default_rng(case["seed"])
    if case["pool"] and case["close"]:   # nearly equal
        v = rng.choice(case["pool"], dim) + 10.0 ** -case["close"] * rng.permutation(dim)
        return v * rng.choice([1, -1], dim) if case["signs"] else v
    if case["pool"]:
        v = rng.choice(case["pool"], dim)
        return v * rng.choice([1, -1], dim) if case["signs"] else v
    v = rng.normal(size=dim)
    return v / np.linalg.norm(v)


def verify(pairs, v, dets, ndet, what):
    """pairs: (amplitude, determinant) in the order reported."""
    count = min(ndet, len(v))
    expect(len(pairs) == count, "{}: {} determinants instead of {}", what, len(pairs), count)
    index = {tuple(d): k for k, d in enumerate(dets)}
    for c, d in pairs:
        expect(tuple(d) in index, "{}: {} is not in the basis", what, d)
        expect(v[index[tuple(d)]] == c, "{}: {} is given {} instead of {}", what, d, c, v[index[tuple(d)]])
    expect(len({tuple(d) for _, d in pairs}) == count, "{}: a determinant is listed twice: {}", what, pairs)
    want = sorted((abs(x) for x in v), reverse=True)[:count]
    expect([abs(c) for c, _ in pairs] == want, "{}: amplitudes {} instead of {}", what, [c for c, _ in pairs], want)


def dominant(case, ctx):
    lat = gens.lattice(case["g"])
    h, b = case["sector"]
    conf = lat.configuration(h, b, case["R"])
    dets = [model.occ_to_det(o) for o in model.basis(lat.n, h, b)]
    v = amplitudes(case, len(dets))
    ndet = case["ndet"]
    basis = repo.bC.Basis(conf, [list(d) for d in dets])
    column = v.reshape(-1, 1).copy()
    coeffs, found = repo.bC.get_dominant_determinants(basis, column, ndet)
    expect(len(coeffs) == len(found), "{} amplitudes for {} determinants", len(coeffs), len(found))
    verify(list(zip(coeffs, found)), v, dets, ndet, "basis report")
    for form in (v.copy(), v.reshape(1, -1).copy()):   # a flat state, a row
        again = repo.bC.get_dominant_determinants(basis, form, ndet)
        expect([list(x) for x in again] == [list(coeffs), list(found)], "given with the shape {}: {} instead of {}", form.shape, again, (coeffs, found))
        expect(np.array_equal(form.ravel(), v), "the state was modified")
    if lat.kind == "rect":
        shown_coeffs, shown = repo.bC.get_displayable_dominant_determinants(basis, column, ndet)
        expect(list(shown_coeffs) == list(coeffs), "displayed amplitudes {} instead of {}", shown_coeffs, coeffs)
        expect(list(shown) == [repo.bC.get_displayable_rectangular_lattice(conf, list(d)) for d in found], "the determinants displayed are not the dominant ones")
    expect(np.array_equal(column.ravel(), v), "the state was modified")
    column[:, 0] = v[::-1]   # another state in the same array
    verify(list(zip(*repo.bC.get_dominant_determinants(basis, column, ndet))), v[::-1], dets, ndet, "basis report of another state in the same array")
    flat = v.copy()
    report = repo.iC.get_most_dominant_determinants([list(d) for d in dets], flat, ndet)
    listed = list(report.items())
    verify([(c, d) for (_, c), d in listed], v, dets, ndet, "saved-data report")
    for (k, _), d in listed:
        expect(list(d) == dets[k], "saved-data report: {} is given the index {}", d, k)
    expect(np.array_equal(flat, v), "the state was modified")
    ties = len({abs(x) for x in v}) < len(v)
    ctx.tag(lat.kind, "ties" if ties else "distinct", "all" if ndet >= len(v) else "some", "both signs" if (v < 0).any() and (v > 0).any() else "one sign")
    ctx.interesting(ties and len(v) >= 3 and ndet < len(v))


@st.composite
def cases(draw, tier):
    g = draw(gens.geometry(12, gens.KINDS))
    n = gens.lattice(g).n
    sector = draw(gens.sector(n, 90 if tier == "quick" else 400))
    dim = model.dimension(n, *sector)
    pool = draw(st.one_of(st.none(), st.lists(gens.value(), min_size=1, max_size=6)))
    return {"g": g, "sector": sector, "R": draw(gens.any_restriction(n)), "seed": draw(gens.seed), "pool": pool, "signs": draw(st.booleans()), "close": draw(st.sampled_from([0, 0, 0, 6, 9, 12])),
            "ndet": draw(st.one_of(st.integers(0, dim + 2), st.integers(1, 10)))}


@st.composite
def large_cases(draw, tier):
    g = draw(gens.geometry(16, gens.KINDS, min_sites=7))
    n = gens.lattice(g).n
    between = gens.sectors(n, 5000, min_dim=200)
    sector = draw(st.sampled_from(between or gens.sectors(n, 5000)))
    dim = model.dimension(n, *sector)
    pool = draw(st.one_of(st.none(), st.lists(gens.value(), min_size=1, max_size=60)))
    return {"g": g, "sector": sector, "R": draw(gens.any_restriction(n)), "seed": draw(gens.seed), "pool": pool, "signs": draw(st.booleans()), "close": draw(st.sampled_from([0, 0, 6])),
            "ndet": draw(st.integers(1, 300))}


SUBS = [Sub("dominant", dominant, cases, quick=7500, thorough=30000, shards=8),
        Sub("large", dominant, large_cases, quick=290, thorough=2000, shards=8)]
