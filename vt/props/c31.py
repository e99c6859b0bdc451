"""C31: requests that make no sense are refused, and only those."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "a lattice of any kind, a determinant and a state, and a request: a kind of lattice, a species, a picture of probabilities, a site or a " \
    "file, which exists or not; non-trivial when the request must be refused; oracle: the values which the documentation allows"

KINDS = ("periodic", "clusters", "peripheral")
SPINS = (0, 1, -1)


def outcome(f, *args):
    """('answer', value) or ('refused', class of the error)"""
    try:
        return "answer", f(*args)
    except Exception as e:   # noqa: the class is looked at by the caller
        return "refused", e


def judged(result, allowed, what, *args, error=ValueError):
    how, value = result
    if allowed:
        expect(how == "answer", "{} is refused: {!r}", what.format(*args), value)
    else:
        expect(how == "refused", "{} is not refused: {}", what.format(*args), value)
        expect(isinstance(value, error), "{} ends with {!r}", what.format(*args), value)
    return allowed


def same(a, b):
    return all(np.array_equal(a.__dict__[k], b.__dict__[k]) if k == "bond_matrix" else a.__dict__[k] == b.__dict__[k] for k in set(a.__dict__) | set(b.__dict__))


def request(case, ctx):
    lat, occ = gens.lattice(case["g"]), case["occ"]
    sector = gens.counts(occ)
    conf, det = lat.configuration(*sector, case["R"]), list(case["det"])
    before = copy.deepcopy((conf, det))
    what, x = case["what"], case["x"]
    bC = repo.bC
    if what == "lattice_type":
        allowed = judged(outcome(lambda: bC.Configuration(lat.adjacency(), *sector, [], x, lat.nbh, lat.nbv, lat.nb)), x in KINDS, "a lattice of type {!r}", x)
    elif what == "species":
        how = outcome(bC.get_indexes_of, conf, det, x, case["target"])
        allowed = judged(how, x in SPINS, "the species {!r}", x)
        if allowed:
            active = set(case["R"]) if case["R"] else set(range(lat.n))
            expect(sorted(how[1]) == [s for s in range(lat.n) if occ[s] == {0: "o", 1: "u", -1: "d"}[x] and s in active], "the species {} of {} is on {}", x, occ, how[1])
    elif what == "site":
        how = outcome(bC.get_spin_site, conf, det, x)
        allowed = judged(how, 0 <= x < lat.n, "the site {} of {}", x, lat.n, error=(ValueError, IndexError, KeyError))
        if allowed:
            expect(how[1] == {"o": 0, "u": 0.5, "d": -0.5}[occ[x]], "the spin of the site {} of {} is {}", x, occ, how[1])
    elif what in ("probability", "picture"):
        small = gens.lattice(case["small"])
        sector = [min(sector[0], small.n), 0]
        sector[1] = min(case["det"][0], small.n - sector[0])
        if model.dimension(small.n, *sector) > 200:
            sector = [0, 1]
        one = small.configuration(*sector)
        basis = bC.construct_basis(one)
        v = np.random.default_rng(case["seed"]).normal(size=(len(basis.determinants), 1))
        given = v.copy()
        if what == "probability":
            allowed = judged(outcome(bC.get_probability_spin_lattice, basis, given, x, bool(case["target"])), x in SPINS, "the probability of the species {!r}", x)
        else:
            allowed = judged(outcome(bC.get_probability_spin_rectangular_lattice, basis, given, x), x in SPINS and small.kind == "rect", "the array of the species {!r} on {}", x, case["small"])
        expect(np.array_equal(v, given), "the state was modified")
    else:
        for name in ("", "Embedding_blocks", "Peripheral_embedding"):
            os.makedirs(os.path.join("initialComputations", name), exist_ok=True)
        allowed = judged(outcome(repo.iC.load_data, x), False, "the file {!r}", x, error=OSError)
        expect(sorted(os.listdir("initialComputations")) == ["Embedding_blocks", "Peripheral_embedding"] and not os.listdir("initialComputations/Embedding_blocks"), "files written by loading")
    expect(same(conf, before[0]) and det == before[1], "the configuration or the determinant was modified")
    ctx.tag(what, "allowed" if allowed else "refused", lat.kind)
    ctx.interesting(not allowed)


words = st.one_of(st.sampled_from(["", "Periodic", "periodic ", "cluster", "peripherals", "peripheral_", "rectangular", "square", "open"]), st.text(max_size=12), st.none(), st.integers(-2, 3),
                  st.sampled_from(["".join(p) for p in (("periodic", "clusters"), ("peri",), ("c",))]))
others = st.one_of(st.integers(2, 9), st.integers(-9, -2), st.sampled_from([0.5, -0.5, 1.5, 2, -2]), st.floats(-4, 4, allow_nan=False).filter(lambda v: v not in SPINS), st.none())


@st.composite
def cases(draw):
    g = draw(gens.geometry(30, gens.KINDS))
    n = gens.lattice(g).n
    occ = draw(gens.occupation(n))
    what = draw(st.sampled_from(["lattice_type", "species", "site", "probability", "picture", "file"]))
    x = draw({"lattice_type": st.one_of(st.sampled_from(KINDS), words, words), "species": st.one_of(st.sampled_from(SPINS), others), "site": st.one_of(st.integers(-2 * n, 2 * n), st.integers(0, n - 1), st.sampled_from([-1, n])),
              "probability": st.one_of(st.sampled_from(SPINS), others), "picture": st.one_of(st.sampled_from(SPINS), st.sampled_from(SPINS), others),
              "file": st.sampled_from(["tJHam-422Full.json", "tJHam-422.json", "missing.json", "Embedding_blocks/tJHam-422Full.json", "nowhere/tJHam-422t.json"])}[what])
    return {"g": g, "occ": occ, "det": draw(gens.listing(occ)), "R": draw(gens.restriction(n)), "what": what, "x": x, "target": draw(st.integers(0, 1)), "seed": draw(gens.seed),
            "small": draw(gens.geometry(8, gens.KINDS))}


SUBS = [
    Sub("requests", request, lambda tier: cases(), quick=3200, thorough=30000, shards=8, files=True),
]
