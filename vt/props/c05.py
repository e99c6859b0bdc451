"""C05: lattice pictures draw every particle at its geometric place."""
from hypothesis import strategies as st
import numpy as np

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "a determinant of a rectangle, of a block with its peripheral ring, or of two blocks of the same height, or a state of a " \
    "rectangle; non-trivial when at least two species are present and there are at least two sites; oracle: the picture is read " \
    "back line by line into coordinates, and the decoration (bonds) compared with a picture drawn from coordinates"

CHAR = {"o": "0", "u": "\u2191", "d": "\u2193"}


def draw_rect(lat, occ):
    lines = []
    for y in range(lat.H - 1, -1, -1):
        lines.append("--".join(CHAR[occ[lat.at[x, y]]] for x in range(lat.W)))
        if y:
            lines.append("  ".join("|" for _ in range(lat.W)))
    return "\n".join(lines)


def draw_ring(lat, occ):
    """Picture of a block and its ring: the bonds inside the block and along the ring are drawn, not those that connect them."""
    inside = lat.W * lat.H
    drawn = {frozenset(b) for b in lat.bonds if (b[0] < inside) == (b[1] < inside)}
    lines = []
    for y in range(lat.H, -2, -1):
        row, below = "", ""
        for x in range(-1, lat.W + 1):
            s, right, south = (lat.at.get(p) for p in ((x, y), (x + 1, y), (x, y - 1)))
            row += (" " if s is None else CHAR[occ[s]]) + ("--" if s is not None and right is not None and frozenset((s, right)) in drawn else "  ")
            below += ("|" if s is not None and south is not None and frozenset((s, south)) in drawn else " ") + "  "
        lines += [row.rstrip(), below.rstrip()]
    return lines[:-1]


def read_grid(text):
    """{(x, y): character} of all the particles of a picture, y upwards (every other line), x every three columns."""
    out = {}
    lines = text.split("\n")
    rows = [l for l in lines if any(c in l for c in "0\u2191\u2193")]
    for y, line in enumerate(reversed(rows)):
        for col, c in enumerate(line):
            if c in "0\u2191\u2193":
                expect(col % 3 == 0, "a particle is drawn off the grid in {!r}", line)
                out[col // 3, y] = c
    return out


def rectangle(case, ctx):
    lat = gens.lattice(case["g"])
    occ = case["occ"]
    nholes, nbeta = gens.counts(occ)
    conf = lat.configuration(nholes, nbeta, case["R"])
    det = case["det"]
    text = repo.bC.get_displayable_rectangular_lattice(conf, list(det))
    want = {lat.pos[s]: CHAR[occ[s]] for s in range(lat.n)}
    expect(read_grid(text) == want, "picture of {}:\n{}", occ, text)
    expect(text == draw_rect(lat, occ), "picture of {}:\n{}\ninstead of\n{}", occ, text, draw_rect(lat, occ))
    ctx.tag("square" if lat.W == lat.H else "oblong")
    ctx.interesting(len(set(occ)) >= 2)


def embedded(case, ctx):
    lat = gens.lattice(case["g"])
    occ = case["occ"]
    nholes, nbeta = gens.counts(occ)
    conf = lat.configuration(nholes, nbeta, case["R"])
    text = repo.bC.get_displayable_outer_embedding_lattice(conf, list(case["det"]))
    want = {(x + 1, y + 1): CHAR[occ[s]] for s, (x, y) in enumerate(lat.pos)}
    got = read_grid(text)
    expect(got == want, "picture of {} on {}:\n{}", occ, case["g"], text)
    lines = draw_ring(lat, occ)
    expect([l.rstrip() for l in text.rstrip("\n").split("\n")] == lines, "picture of {} on {}:\n{}\ninstead of\n{}", occ, case["g"], text, "\n".join(lines))
    ctx.tag("square" if lat.W == lat.H else "oblong")
    ctx.interesting(len(set(occ)) >= 2)


def neighbours(case, ctx):
    A, B = gens.lattice(case["a"]), gens.lattice(case["b"])
    occ_a, occ_b = case["occ_a"], case["occ_b"]
    conf_a, conf_b = A.configuration(*gens.counts(occ_a), case["ra"]), B.configuration(*gens.counts(occ_b), case["rb"])
    text = repo.bC.get_displayable_neighbor(conf_a, conf_b, list(case["det_a"]), list(case["det_b"]))
    lines = zip(draw_rect(A, occ_a).split("\n"), draw_rect(B, occ_b).split("\n"))
    want = [" ".join(p) for p in lines]
    got = text.split("\n")
    if got and got[-1] == "":
        got.pop()
    expect(got == want, "picture of {} and {}:\n{}", occ_a, occ_b, text)
    ctx.interesting(len(set(occ_a)) >= 2 or len(set(occ_b)) >= 2)


def lists(case, ctx):
    lat = gens.lattice(case["g"])
    conf = lat.configuration(*case["sector"], case["R"])
    basis = repo.bC.construct_basis(conf)
    dim = len(basis.determinants)
    rng = np.random.default_rng(case["seed"])
    vect = (rng.permutation(dim) + 1.0) * rng.choice([-1, 1], dim)   # no ties
    vect = vect.reshape(-1, 1) / 7
    ndet = case["ndet"]
    coeffs, pictures = repo.bC.get_displayable_dominant_determinants(basis, vect, ndet)
    order = sorted(range(dim), key=lambda i: -abs(vect[i, 0]))[:ndet]
    occs = model.basis(lat.n, *case["sector"])
    expect(np.allclose(coeffs, [vect[i, 0] for i in order]), "amplitudes {} instead of {}", coeffs, [vect[i, 0] for i in order])
    expect(list(pictures) == [draw_rect(lat, occs[i]) for i in order], "pictures of the dominant determinants:\n{}", "\n\n".join(pictures))
    shown = ["".join(d) for d in repo.bC.get_displayable_basis(basis)]
    expect(shown == [o.translate(str.maketrans("odu", "0-+")) for o in occs], "displayed basis")
    ctx.interesting(dim > 2 and ndet >= 1)


@st.composite
def one_case(draw, kind, size):
    g = draw(gens.geometry(size, (kind,)))
    n = gens.lattice(g).n
    occ = draw(gens.occupation(n, *(draw(gens.few(n)) if draw(st.booleans()) else ())))
    return {"g": g, "occ": occ, "det": draw(gens.listing(occ)), "R": draw(gens.any_restriction(n))}


@st.composite
def two_case(draw):
    a = draw(gens.geometry(20))
    H = a[2] * a[3]
    b = draw(st.sampled_from([g for g in gens.geometries("rect", 20) if g[2] * g[3] == H]))
    na, nb = gens.lattice(a).n, gens.lattice(b).n
    occ_a, occ_b = [draw(gens.occupation(n, *(draw(gens.few(n)) if draw(st.booleans()) else ()))) for n in (na, nb)]
    return {"a": a, "b": b, "ra": draw(gens.any_restriction(na)), "rb": draw(gens.any_restriction(nb)), "occ_a": occ_a, "occ_b": occ_b, "det_a": draw(gens.listing(occ_a)), "det_b": draw(gens.listing(occ_b))}


@st.composite
def list_case(draw):
    g = draw(gens.geometry(12))
    n = gens.lattice(g).n
    return {"g": g, "sector": draw(gens.sector(n, 200)), "R": draw(gens.any_restriction(n)), "seed": draw(gens.seed), "ndet": draw(st.integers(0, 12))}


SUBS = [
    Sub("rectangle", rectangle, lambda tier: one_case("rect", 36), quick=2400, thorough=20000, shards=2),
    Sub("embedded", embedded, lambda tier: one_case("ring", 44), quick=2400, thorough=20000, shards=2),
    Sub("neighbours", neighbours, lambda tier: two_case(), quick=1800, thorough=15000, shards=2),
    Sub("lists", lists, lambda tier: list_case(), quick=750, thorough=3000, shards=2),
]
