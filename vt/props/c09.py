"""C09: neighbour and bond queries match the graph and respect the restriction."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "an arbitrary graph of up to 14 sites (not only planar ones), or a lattice of any kind, with no restriction, a list, or an " \
    "(origin, target) pair; non-trivial when the graph has at least two bonds; oracle: set definitions on the edge list"


def graph(case):
    n = case["n"]
    m = np.zeros((n, n))
    for a, b in case["edges"]:
        m[a, b] = m[b, a] = 1
    return m


def once(got, want, what, *args):
    got = [tuple(x) if isinstance(x, (list, tuple)) else x for x in got]
    expect(sorted(got) == sorted(want), what + ": {} instead of {}", *args, sorted(got), sorted(want))


def check_graph(m, R, ctx, sites=None):
    n = len(m)
    lF = repo.lF
    nbrs = [{b for b in range(n) if m[a, b]} for a in range(n)]
    pair = bool(R) and isinstance(R[0], list)
    target = set(R[1]) if pair else set(R) if R else set(range(n))
    given = tuple(map(list, R)) if pair else list(R) if R else []
    tupled = tuple(map(list, R)) if pair else (list(R), list(R)) if R else []
    copy = m.copy()
    for s in range(n):
        once(lF.get_neighbors(s, m, given), nbrs[s] & target, "neighbours of {} under {}", s, R)
        if not R:
            once(lF.get_neighbors(s, m), nbrs[s], "neighbours of {}", s)
        second = {q for k in nbrs[s] for q in nbrs[k]} - nbrs[s] - {s}
        once(lF.get_second_neighbors(s, m, given), second & target, "second neighbours of {} under {}", s, R)
        if not R:
            once(lF.get_second_neighbors(s, m), second, "second neighbours of {}", s)
    bonds = {(a, b) for a in range(n) for b in nbrs[a] if a < b}
    if not R:
        once(lF.build_bond_list(m), bonds, "bonds")
    if not pair:   # which end of a bond is the origin is not documented: only bonds inside of a set are claimed
        once(lF.build_bond_list(m, tupled), {b for b in bonds if b[0] in target and b[1] in target}, "bonds under {}", R)
    elif set(R[0]) == set(R[1]):
        once(lF.build_bond_list(m, tupled), {b for b in bonds if b[0] in target and b[1] in target}, "bonds under {}", R)
    else:
        got = [tuple(b) for b in lF.build_bond_list(m, tupled)]
        origin = set(R[0])
        expect(len(got) == len(set(map(frozenset, got))), "a bond is listed twice: {}", got)
        for b in got:
            expect(tuple(sorted(b)) in bonds, "{} is not a bond", b)
            expect((b[0] in origin and b[1] in target) or (b[1] in origin and b[0] in target), "bond {} is outside of {}", b, R)
        for a, b in bonds:
            if {a, b} <= origin & target:
                expect((a, b) in got or (b, a) in got, "bond {} is missing under {}", (a, b), R)
    expect(np.array_equal(m, copy), "the bond matrix was modified")
    return bonds


def arbitrary(case, ctx):
    m = graph(case)
    bonds = check_graph(m, case["R"], ctx)
    ctx.tag("pair" if case["R"] and isinstance(case["R"][0], list) else "list" if case["R"] else "free")
    ctx.interesting(len(bonds) >= 2)


def lattices(case, ctx):
    lat = gens.lattice(case["g"])
    R = case["R"]
    conf = lat.configuration(0, 0, list(R) if R else None)
    check_graph(conf.bond_matrix, R, ctx)
    target = set(R) if R else set(range(lat.n))
    for s in range(lat.n):
        got = repo.lF.get_diagonal_second_neighbors(conf, s)
        want = {q for q, straight in lat.second(s).items() if not straight and q in target}
        once(got, want, "diagonal second neighbours of {} of {} under {}", s, case["g"], R)
        for q in want if not R else ():
            expect(s in repo.lF.get_diagonal_second_neighbors(conf, q), "{} and {} are not mutual diagonal neighbours", s, q)
    ctx.tag(lat.kind, "list" if R else "free")
    ctx.interesting(len(lat.bonds) >= 2)


@st.composite
def graph_case(draw):
    n = draw(st.integers(1, 14))
    pairs = [[a, b] for a in range(n) for b in range(a + 1, n)]
    edges = draw(st.lists(st.sampled_from(pairs), unique_by=tuple, max_size=3 * n)) if pairs else []
    R = draw(st.one_of(st.none(), gens.sublist(n), st.tuples(gens.sublist(n), gens.sublist(n)).map(list)))
    return {"n": n, "edges": edges, "R": R}


@st.composite
def lattice_case(draw):
    g = draw(gens.geometry(40, gens.KINDS))
    return {"g": g, "R": draw(gens.restriction(gens.lattice(g).n))}


def shapes(tier):
    """Graphs of many sites, or of many bonds on each."""
    for n in (40, 130, 260, 300):
        yield {"n": n, "edges": [[0, k] for k in range(1, n)], "R": None}                                        # a star
        yield {"n": n, "edges": [[a, k] for a in (0, 1) for k in range(2, n)], "R": [n - 1, 1, 0]}                # two centres
        yield {"n": n, "edges": [[k, k + 1] for k in range(n - 1)], "R": None}                                   # a chain
        yield {"n": n, "edges": [[k, (k + s) % n] for k in range(n) for s in (1, 7)], "R": list(range(0, n, 3))}   # a torus
    for n in (12, 20):
        yield {"n": n, "edges": [[a, b] for a in range(n) for b in range(a + 1, n)], "R": None}                   # every pair
        yield {"n": n, "edges": [[a, b] for a in range(n) for b in range(a + 1, n) if (a + b) % 2], "R": None}    # every pair of opposite colours


def sweep(tier):
    for kind in gens.KINDS:
        for g in gens.geometries(kind, 30 if tier == "quick" else 60):
            yield {"g": g, "R": None}


SUBS = [
    Sub("graphs", arbitrary, lambda tier: graph_case(), quick=3600, thorough=30000, shards=3),
    Sub("large graphs", arbitrary, sweep=shapes, shards=3),
    Sub("every-lattice", lattices, sweep=sweep, shards=2),
    Sub("restricted-lattices", lattices, lambda tier: lattice_case(), quick=1800, thorough=10000, shards=3),
]
