"""C07: rotating a square block turns every particle by a quarter turn clockwise."""
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "a determinant, in any listing order, of a square block cut in any way, and integers n, m (negative and large included), or " \
    "every site of every block with sides up to 7; non-trivial when at least two species and n not a multiple of 4; oracle: " \
    "coordinates (x, y) -> (y, L-1-x) applied n mod 4 times, composition and inverse relations"


def turned(lat, occ, n):
    out = list(occ)
    for _ in range(n % 4):
        new = [None] * lat.n
        for s, (x, y) in enumerate(lat.pos):
            new[lat.at[y, lat.W - 1 - x]] = out[s]
        out = new
    return "".join(out)


def rotate(case, ctx):
    lat = gens.lattice(case["g"])
    det, (nholes, nbeta) = case["det"], case["sector"]
    occ = model.det_to_occ(nholes, nbeta, det)
    conf = lat.configuration(nholes, nbeta, case.get("R"))
    n, m = case["n"], case["m"]
    well = model.occ_to_det(occ)
    for start in ((det, well) if n % 4 else (well,)):
        got = list(repo.bC.rotate_determinant(n, conf, list(start)))
        want = model.occ_to_det(turned(lat, occ, n))
        expect(got == want, "{} turned {} times: {} instead of {}", start, n, got, want)
    again = list(repo.bC.rotate_determinant(m, conf, list(got)))
    expect(again == list(repo.bC.rotate_determinant(n + m, conf, list(well))), "turning {} then {} times is not {} times", n, m, n + m)
    expect(list(repo.bC.rotate_determinant(-n, conf, list(got))) == well, "turning back")
    loop = well
    for _ in range(4):
        loop = list(repo.bC.rotate_determinant(1, conf, list(loop)))
    expect(loop == well, "four quarter turns of {} give {}", well, loop)
    ctx.tag("side={}".format(lat.W), "sub-blocks" if lat.nbh > 1 else "one-block", "n%4={}".format(n % 4))
    ctx.interesting(len(set(occ)) >= 2 and n % 4)


def sweep(tier):
    for g in gens.geometries("rect", 49, square=True):
        n = gens.lattice(g).n
        for s in range(n):
            occ = "".join("o" if k == s else "d" if k == (s + 1) % n else "u" for k in range(n))
            for rot in (-1, 1, 2, 3):
                yield {"g": g, "sector": list(gens.counts(occ)), "det": model.occ_to_det(occ), "n": rot, "m": 1}


@st.composite
def case(draw):
    g = draw(gens.geometry(36, square=True))
    n = gens.lattice(g).n
    occ = draw(gens.occupation(n, *(draw(gens.few(n)) if draw(st.booleans()) else ())))
    turns = st.one_of(st.integers(-4, 7), st.integers(-1000, 1000))
    return {"g": g, "sector": list(gens.counts(occ)), "det": draw(gens.listing(occ)), "n": draw(turns), "m": draw(turns), "R": draw(gens.any_restriction(n))}


SUBS = [
    Sub("every-site", rotate, sweep=sweep, shards=4),
    Sub("determinants", rotate, lambda tier: case(), quick=4800, thorough=40000, shards=4),
]
