"""C16: the Hamiltonian is additive in the selected terms and linear in coefficients."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect
from . import _ham

RULE = "a lattice of any kind, optionally restricted, a sector, two sets of coefficients, a selection split in two, or one coefficient " \
    "alone; non-trivial when the matrix is not zero and at least two terms are selected (or the coefficient acts); oracle: sums and " \
    "linear combinations of other matrices built by the code"

OWNER = {"t": "bt", "J": ("bz", "bij"), "Jhpar": ("bz", "bij"), "Jhper": ("bz", "bij"), "hSDpar": "bSD", "hSDper": "bSD",
         "tNNN": "btN", "tnNNN": "btN", "VNN": "bV", "VNNNper": "bV"}


def additive(case, ctx):
    lat = gens.lattice(case["g"])
    sel = case["sel"]
    make = lambda s, c=case["c"]: _ham.build(lat, case["sector"], c, s, case["R"])
    tol = _ham.tolerance(case["c"])
    whole = make(sel)
    singles = [make([int(i == k) for i in range(6)]) for k in range(6) if sel[k]]
    _ham.compare(whole, sum(singles, np.zeros(whole.shape)), lat, case["sector"], "{} is not the sum of its terms".format(sel), tol)
    part = [s & p for s, p in zip(sel, case["split"])]
    rest = [s & (1 - p) for s, p in zip(sel, case["split"])]
    _ham.compare(whole, make(part) + make(rest), lat, case["sector"], "{} is not {} + {}".format(sel, part, rest), tol)
    expect(np.array_equal(whole, make(sel)), "building again gives another matrix")
    ctx.tag(lat.kind, "terms={}".format(sum(sel)))
    ctx.interesting(sum(sel) >= 2 and np.count_nonzero(whole))


def linear(case, ctx):
    lat = gens.lattice(case["g"])
    make = lambda c: _ham.build(lat, case["sector"], c, case["sel"], case["R"])
    x, y = case["xy"]
    mixed = [x * a + y * b for a, b in zip(case["c"], case["c2"])]
    one, two, both = make(case["c"]), make(case["c2"]), make(mixed)
    _ham.compare(both, x * one + y * two, lat, case["sector"], "{} (1) + {} (2)".format(x, y), _ham.tolerance(case["c"] + case["c2"], 1 + abs(x) + abs(y)))
    ctx.tag(lat.kind)
    ctx.interesting(np.count_nonzero(one) and np.count_nonzero(two))


def alone(case, ctx):
    lat = gens.lattice(case["g"])
    k = case["k"]
    name = model.COEFFS[k]
    c = [v if i == k else 0.0 for i, v in enumerate(case["c"])]
    make = lambda sel: _ham.build(lat, case["sector"], c, sel, case["R"])
    owners = OWNER[name] if isinstance(OWNER[name], tuple) else (OWNER[name],)
    own = [int(t in owners) for t in model.TERMS]
    rest = [1 - v for v in own]
    expect(not make(rest).any(), "{} acts through another term than {}", name, owners)
    m = make([1] * 6)
    _ham.compare(m, make(own), lat, case["sector"], "{} alone".format(name), _ham.tolerance(c))
    full = list(case["c"])
    full[k] = 0.0
    m2 = _ham.build(lat, case["sector"], full, [1] * 6, case["R"])
    _ham.compare(m + m2, _ham.build(lat, case["sector"], case["c"], [1] * 6, case["R"]), lat, case["sector"], "{} separated".format(name), _ham.tolerance(case["c"]))
    ctx.tag(name, "acts" if m.any() else "idle")
    ctx.interesting(m.any())


def element(case, ctx):
    """One element added to the Hamiltonian under construction, as lists or as a scipy matrix."""
    n = case["n"]
    want = np.zeros((n, n))
    case["elements"] = [(v * case["unit"], i, j) for v, i, j in case["elements"]]
    lists, sparse = repo.hC.HamiltonianCOO([], [], []), sp.coo_matrix((n, n))
    for k, (v, i, j) in enumerate(case["elements"]):
        i, j = i % n, j % n
        want[i, j] += v
        expect(repo.hC.add_ham_coo(lists, v, i, j) is None, "adding to lists returned something")
        expect(len(lists.data) == len(lists.row) == len(lists.col) == k + 1, "lists of {}, {} and {} elements after {}", len(lists.data), len(lists.row), len(lists.col), k + 1)
        before = sparse.toarray()
        out = repo.hC.add_ham_coo(sparse, v, i, j)
        expect(np.array_equal(sparse.toarray(), before), "the matrix given was modified")
        sparse = out
        expect(sparse.shape == (n, n) and sp.issparse(sparse), "a matrix of shape {}", getattr(sparse, "shape", None))
        for got in (sparse.toarray(), sp.coo_matrix((lists.data, (lists.row, lists.col)), shape=(n, n)).toarray()):
            expect(np.abs(got - want).max() <= 1e-12 * max(abs(v) for v, _, _ in case["elements"]), "{} instead of {}", got.tolist(), want.tolist())
    keys = [(i % n, j % n) for _, i, j in case["elements"]]
    ctx.tag("repeated places" if len(set(keys)) < len(keys) else "distinct places")
    ctx.interesting(len(keys) >= 2 and any(i != j for i, j in keys))


@st.composite
def case_of(draw, tier, cap):
    case = draw(_ham.system(tier, ("rect", "ring", "two"), restricted=draw(st.booleans()), cap=cap))
    case["split"] = draw(st.lists(st.integers(0, 1), min_size=6, max_size=6))
    case["c2"] = draw(gens.scaled_coefficients())
    case["xy"] = draw(st.lists(st.sampled_from([1.0, -1.0, 2.0, 0.5, -3.0, 0.0, 1.75]), min_size=2, max_size=2))
    case["k"] = draw(st.integers(0, 9))
    return case


SUBS = [
    Sub("additive", additive, lambda tier: case_of(tier, 150 if tier == "quick" else 700), quick=320, thorough=3000, shards=8),
    Sub("linear", linear, lambda tier: case_of(tier, 200 if tier == "quick" else 900), quick=320, thorough=3000, shards=8),
    Sub("one-coefficient", alone, lambda tier: case_of(tier, 150 if tier == "quick" else 700), quick=320, thorough=3000, shards=8),
    Sub("elements", element, lambda tier: st.fixed_dictionaries({"n": st.integers(1, 7), "unit": st.sampled_from([1.0, 1.0, 1e-9, 1e-17, 1e-30, 1e12]), "elements": st.lists(
        st.tuples(gens.value(), st.integers(0, 6), st.integers(0, 6)), min_size=1, max_size=8)}), quick=300, thorough=4000, shards=4),
]
