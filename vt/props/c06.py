"""C06: joining two lattices joins their determinants site by site."""
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "two determinants, in any listing order, of two lattices of any kinds, sizes and fillings, each optionally restricted; " \
    "non-trivial when both have at least two species; oracle: concatenation of the occupation strings"


def join(case, ctx):
    confs, occs = [], []
    for part in (case["a"], case["b"]):
        lat = gens.lattice(part["g"])
        R = part["R"]
        confs.append(lat.configuration(*part["sector"], R))
        occs.append(model.det_to_occ(*part["sector"], part["det"]))
    got = repo.bC.extend_determinant(confs[0], confs[1], list(case["a"]["det"]), list(case["b"]["det"]))
    want = model.occ_to_det(occs[0] + occs[1])
    expect(list(got) == want, "{} + {} gives {} instead of {}", occs[0], occs[1], got, want)
    nholes, nbeta = (case["a"]["sector"][k] + case["b"]["sector"][k] for k in (0, 1))
    joint = model.det_to_occ(nholes, nbeta, list(got))
    n1 = len(occs[0])
    expect((joint[:n1], joint[n1:]) == tuple(occs), "splitting {} again", got)
    ctx.tag("same-size" if len(occs[0]) == len(occs[1]) else "different-sizes",
            "restricted" if case["a"]["R"] or case["b"]["R"] else "free")
    ctx.interesting(all(len(set(o)) >= 2 for o in occs))


@st.composite
def part(draw):
    g = draw(gens.geometry(24, gens.KINDS))
    n = gens.lattice(g).n
    occ = draw(gens.occupation(n))
    R = draw(gens.any_restriction(n))
    return {"g": g, "sector": list(gens.counts(occ)), "det": draw(gens.listing(occ)), "R": R}


SUBS = [Sub("join", join, lambda tier: st.fixed_dictionaries({"a": part(), "b": part()}), quick=6000, thorough=60000, shards=8)]
