"""C10: three linked sites are called aligned exactly when they are collinear."""
import itertools

from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "a geometry of any kind: every path of three sites in its six orders, and triples that are no path (repeated sites, unlinked " \
    "sites); non-trivial when the lattice has both straight and bent paths; oracle: shared row or column of the coordinates"


def paths(case, ctx):
    lat = gens.lattice(case["g"])
    conf = lat.configuration(0, 0)
    seen = set()
    for b in range(lat.n):
        for a, c in itertools.combinations(lat.nbrs[b], 2):
            want = lat.aligned(a, c)
            seen.add(want)
            for order in itertools.permutations((a, b, c)):
                got = repo.bC.is_bond_linear(conf, *order)
                expect(bool(got) == want, "{}: sites {} at {}: aligned = {}", case["g"], order, [lat.pos[s] for s in order], got)
    ctx.tag(lat.kind, "one-wide" if 1 in (lat.W, lat.H) else "square" if lat.W == lat.H else "oblong", "cut" if lat.nbh * lat.nbv > 1 else "uncut")
    ctx.interesting(len(seen) == 2)


def triples(case, ctx):
    lat = gens.lattice(case["g"])
    conf = lat.configuration(0, 0)
    for raw in case["triples"]:
        a, b, c = sites = [s % lat.n for s in raw]
        links = [q in lat.nbrs[p] for p, q in ((a, b), (b, c), (a, c))]
        path = len(set(sites)) == 3 and sum(links) == 2
        try:
            got = repo.bC.is_bond_linear(conf, a, b, c)
        except ValueError:
            expect(not path, "{}: the path {} is refused", case["g"], sites)
            ctx.tag("refused")
            continue
        expect(path, "{}: {} is not a path, and is called aligned = {}", case["g"], sites, got)
        end = [s for s in sites if sum(q in lat.nbrs[s] for q in sites) == 1]
        expect(bool(got) == lat.aligned(*end), "{}: sites {}: aligned = {}", case["g"], sites, got)
        ctx.tag("path")
    ctx.interesting(len(case["triples"]) > 0 and lat.n > 2)


def sweep(tier):
    for kind in gens.KINDS:
        for g in gens.geometries(kind, 40 if tier == "quick" else 80):
            yield {"g": g}


@st.composite
def geometry_case(draw):
    nb = draw(st.integers(1, 4))
    return {"g": [draw(st.sampled_from(gens.KINDS)), draw(st.integers(1, 10 // nb)), draw(st.integers(1, 10 // nb)), nb]}


@st.composite
def triple_case(draw):
    g = draw(gens.geometry(30, gens.KINDS))
    lat = gens.lattice(g)
    near = st.integers(0, lat.n - 1).flatmap(lambda s: st.lists(st.sampled_from([s] + lat.nbrs[s]), min_size=3, max_size=3))
    any3 = st.lists(st.integers(0, lat.n - 1), min_size=3, max_size=3)
    return {"g": g, "triples": draw(st.lists(st.one_of(near, any3), min_size=1, max_size=30))}


SUBS = [
    Sub("every-path", paths, sweep=sweep, shards=6),
    Sub("paths-of-large-lattices", paths, lambda tier: geometry_case(), quick=180, thorough=600, shards=4),
    Sub("triples", triples, lambda tier: triple_case(), quick=1200, thorough=8000, shards=4),
]
