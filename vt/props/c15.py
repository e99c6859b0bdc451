"""C15: symmetries of the lattice are symmetries of the Hamiltonian."""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect
from . import _ham, c13

RULE = "a rectangle (alone, in a ring, or two joined) and one of its symmetries, the matrix or the images of one determinant of up to 36 sites, or two descriptions of the same rectangle (transposed, cut in other sub-blocks, joined " \
    "from two blocks), a sector, coefficients and a selection; non-trivial when the matrix has off-diagonal entries and the site map " \
    "is not the identity (or the descriptions differ); oracle: the permuted matrix"


def permutation(lat_from, lat_to, f, sector):
    """For each determinant of lat_from, the index of its image in lat_to when site s goes to position f(x, y)."""
    to = [lat_to.at[f(*lat_from.pos[s])] for s in range(lat_from.n)]
    out = []
    for occ in model.basis(lat_from.n, *sector):
        image = [None] * lat_from.n
        for s, c in enumerate(occ):
            image[to[s]] = c
        out.append(model.rank("".join(image)))
    return np.array(out), to


def symmetries(lat):
    W, H = (lat.W * 2 if lat.kind == "two" else lat.W), lat.H
    maps = [lambda x, y: (W - 1 - x, y), lambda x, y: (x, H - 1 - y), lambda x, y: (W - 1 - x, H - 1 - y)]
    if W == H:
        maps += [lambda x, y: (y, W - 1 - x), lambda x, y: (y, x)]
    return W, H, maps


def symmetry(case, ctx):
    lat = gens.lattice(case["g"])
    W, H, maps = symmetries(lat)
    m = _ham.build(lat, case["sector"], case["c"], case["sel"])
    moved = False
    for k, f in enumerate(maps):
        p, to = permutation(lat, lat, f, case["sector"])
        moved |= to != list(range(lat.n))
        _ham.compare(m[np.ix_(p, p)], m, lat, case["sector"], "{}, symmetry {}".format(case["g"], k), _ham.tolerance(case["c"]))
    ctx.tag(lat.kind, "square" if W == H else "oblong")
    ctx.interesting(moved and np.count_nonzero(m - np.diag(m.diagonal())))


def images(case, ctx):
    """One determinant of a large lattice: the images of its mirror image are the mirror images of its images."""
    lat, occ = gens.lattice(case["g"]), case["occ"]
    conf = lat.configuration(*gens.counts(occ))
    W, H, maps = symmetries(lat)
    f = maps[case["map"] % len(maps)]
    to = [lat.at[f(*lat.pos[s])] for s in range(lat.n)]

    def mapped(o):
        image = [None] * lat.n
        for s, c in enumerate(o):
            image[to[s]] = c
        return "".join(image)

    counts = gens.counts(occ)
    here, there = c13.moves(conf, model.occ_to_det(occ)), c13.moves(conf, model.occ_to_det(mapped(occ)))
    for name in here:
        want = Counter({tuple(model.occ_to_det(mapped(model.det_to_occ(*counts, list(d))))): k for d, k in here[name].items()})
        expect(there[name] == want, "{}: {} moves {} to {}, symmetry {} of it to {}", case["g"], name, occ, dict(want), case["map"] % len(maps), dict(there[name]))
    inter = gens.interactions(case["c"])
    for energy in (repo.itr.compute_static_spin_interaction, repo.itr.compute_hole_repulsion, repo.itr.compute_energy):
        one, two = energy(conf, inter, model.occ_to_det(occ)), energy(conf, inter, model.occ_to_det(mapped(occ)))
        expect(abs(one - two) <= _ham.tolerance(case["c"], lat.n), "{}: {} of {} is {}, of its symmetry {} {}", case["g"], energy.__name__, occ, one, case["map"] % len(maps), two)
    ctx.tag(lat.kind, "square" if W == H else "oblong", "n<=12" if lat.n <= 12 else "n>12", "wide" if W > 8 else "narrow")
    ctx.interesting(mapped(occ) != occ and sum(map(len, here.values())) >= 2)


@st.composite
def images_case(draw):
    g = draw(gens.geometry(36, gens.KINDS, min_sites=2))
    return {"g": g, "occ": draw(gens.occupation(gens.lattice(g).n)), "map": draw(st.integers(0, 29)), "c": draw(gens.scaled_coefficients())}


def description(case, ctx):
    one, two = gens.lattice(case["g"]), gens.lattice(case["g2"])
    f = (lambda x, y: (y, x)) if case["transposed"] else (lambda x, y: (x, y))
    a = _ham.build(one, case["sector"], case["c"], case["sel"])
    b = _ham.build(two, case["sector"], case["c"], case["sel"])
    p, _ = permutation(one, two, f, case["sector"])
    _ham.compare(b[np.ix_(p, p)], a, one, case["sector"], "{} against {}".format(case["g"], case["g2"]), _ham.tolerance(case["c"]))
    ctx.tag("{}-{}".format(one.kind, two.kind), "transposed" if case["transposed"] else "same")
    ctx.interesting(case["g"] != case["g2"] and np.count_nonzero(a - np.diag(a.diagonal())))


def checkerboard(case, ctx):
    """Every bond joins the two halves of the checkerboard: the sign of t is that of the holes of one half."""
    lat = gens.lattice(case["g"])
    c = list(case["c"])
    a = _ham.build(lat, case["sector"], c, case["sel"], case["R"])
    c[0] = -c[0]
    b = _ham.build(lat, case["sector"], c, case["sel"], case["R"])
    black = [s for s, (x, y) in enumerate(lat.pos) if (x + y) % 2]
    sign = np.array([(-1) ** sum(occ[s] == "o" for s in black) for occ in model.basis(lat.n, *case["sector"])])
    _ham.compare(b, sign[:, None] * a * sign[None, :], lat, case["sector"], "{}: -t".format(case["g"]), _ham.tolerance(case["c"]))
    ctx.tag(lat.kind, "restricted" if case["R"] else "free", "checkerboard")
    ctx.interesting(case["sel"][0] and c[0] and np.count_nonzero(a != b))


def cuts(W, H):
    out = [["rect", W // nb, H // nb, nb] for nb in range(1, min(W, H) + 1) if W % nb == 0 and H % nb == 0]
    if W % 2 == 0:
        out += [["two", W // 2 // nb, H // nb, nb] for nb in range(1, min(W, H) + 1) if W // 2 % nb == 0 and H % nb == 0]
    return out


@st.composite
def description_case(draw, tier):
    case = draw(_ham.system(tier, ("rect", "two"), cap=300 if tier == "quick" else 1200))
    lat = gens.lattice(case["g"])
    W, H = (lat.W * 2 if lat.kind == "two" else lat.W), lat.H
    case["transposed"] = draw(st.booleans())
    options = cuts(H, W) if case["transposed"] else cuts(W, H)
    options = [o for o in options if o != case["g"]] or options
    case["g2"] = draw(st.sampled_from(options))
    return case


SUBS = [
    Sub("symmetries", symmetry, lambda tier: _ham.system(tier, ("rect", "rect", "two", "ring"), cap=300 if tier == "quick" else 1200), quick=840, thorough=4000, shards=8),
    Sub("checkerboard", checkerboard, lambda tier: _ham.system(tier, ("rect", "two", "ring"), restricted=True, cap=300 if tier == "quick" else 1200), quick=400, thorough=2000, shards=8),
    Sub("images", images, lambda tier: images_case(), quick=1280, thorough=10000, shards=8),
    Sub("descriptions", description, lambda tier: description_case(tier), quick=840, thorough=4000, shards=8),
    Sub("symmetries of large sectors", symmetry, lambda tier: _ham.large_system(tier, ("rect", "rect", "two", "ring")), quick=24, thorough=240, shards=8),
]
