"""C13: the Hamiltonian is symmetric and every move can be undone."""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect
from . import _ham

RULE = "any lattice, sector, coefficients, selection and active sites: the whole matrix; or one determinant of a lattice of up to 36 " \
    "sites and its images; non-trivial when the matrix has off-diagonal entries, or the determinant has images; oracle: " \
    "transposition, and multiplicities of the converse images"


def symmetric(case, ctx):
    lat = gens.lattice(case["g"])
    m = _ham.build(lat, case["sector"], case["c"], case["sel"], case["R"])
    expect(np.isfinite(m).all(), "entries that are not finite")
    _ham.compare(m, m.T, lat, case["sector"], "{} {} {} active {}: not symmetric".format(case["g"], case["sector"], case["sel"], case["R"]), _ham.tolerance(case["c"]))
    _ham.classify(ctx, lat, case["sector"], case["sel"], case["R"], m)


def moves(conf, det):
    """{kind of move: Counter of images}."""
    itr, inter = repo.itr, gens.interactions([1.0] * 10)
    out = {"hop": Counter(tuple(d) for d in itr.compute_hopping_integral(conf, inter, list(det)))}
    for name, images in zip(("next aligned", "next bent"), itr.compute_next_hopping_integral(conf, inter, list(det))):
        out[name] = Counter(tuple(d) for d in images)
    for name, images in zip(("flip parallel", "flip perpendicular", "flip undoped"), itr.compute_spin_flip(conf, inter, list(det))):
        out[name] = Counter(tuple(d) for d in images)
    for name, pairs in zip(("singlet straight", "singlet bent"), itr.compute_singlet_displacement(conf, inter, list(det))):
        out[name + " +"] = Counter(tuple(p[0]) for p in pairs)
        out[name + " -"] = Counter(tuple(p[1]) for p in pairs)
    return out


def undone(case, ctx):
    lat = gens.lattice(case["g"])
    occ = case["occ"]
    conf = lat.configuration(*gens.counts(occ), case["R"])
    det = tuple(model.occ_to_det(occ))
    mine = moves(conf, det)
    total, checked = 0, {}
    for name, images in mine.items():
        for image, mult in sorted(images.items())[:case["limit"]]:
            expect(sorted(image) == list(range(lat.n)), "{}: {} is not a determinant", name, image)
            if image not in checked:
                checked[image] = moves(conf, image)
            back = checked[image][name][det]
            expect(back == mult, "{}: {} -> {} with multiplicity {}, back with {}", name, det, image, mult, back)
            total += 1
        if images:
            ctx.tag(name)
    ctx.tag("n<=12" if lat.n <= 12 else "n>12")
    ctx.interesting(total >= 2)


@st.composite
def undone_case(draw):
    g = draw(gens.geometry(36, gens.KINDS, min_sites=2))
    n = gens.lattice(g).n
    return {"g": g, "occ": draw(gens.occupation(n)), "R": draw(st.one_of(st.none(), gens.restriction(n))), "limit": 12}


SUBS = [
    Sub("symmetric", symmetric, lambda tier: _ham.system(tier, ("rect", "ring", "two"), restricted=True), quick=1120, thorough=6000, shards=8),
    Sub("converse-moves", undone, lambda tier: undone_case(), quick=960, thorough=6000, shards=8),
    Sub("large", symmetric, lambda tier: _ham.large_system(tier, ("rect", "ring", "two"), restricted=True), quick=24, thorough=240, shards=8),
]
