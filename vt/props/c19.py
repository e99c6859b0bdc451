"""C19: eigenpair selection, orthonormalisation and the single-state solver are exact."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, repo
from ..runner import Skip, Sub, expect
from . import c18

RULE = "a list of values with repetitions, or near each other, in any order, of any numeric type, and the number to select; or independent vectors (dense, " \
    "integer, nearly parallel, of any norms); or a symmetric matrix for the single-state solver, or to project away from orthonormal vectors; non-trivial when a value is repeated " \
    "(selection), there are two vectors or more (orthonormalisation), the matrix couples at least two states (solver), or the vectors are neither none nor all but one (projection)"


def selection(case, ctx):
    vals, nb = case["vals"], case["nb"]
    if case["type"] == "int list":
        given = [int(v) for v in vals]
    elif case["type"] == "list":
        given = [float(v) for v in vals]
    elif case["type"] == "array":
        given = np.array(vals, dtype=float)
    else:
        given = np.array([int(v) for v in vals])
    numbers = [float(v) for v in given]
    rng = np.random.default_rng(case["seed"])
    vects = rng.normal(size=(case["rows"], len(vals)))
    vects[0] = np.arange(len(vals))   # tells the columns apart
    before, kept = vects.copy(), [float(v) for v in given]
    got_vals, got_vects = repo.dav.get_lowests_eig(given, vects, nb)
    expect(np.array_equal(before, vects) and kept == [float(v) for v in given], "the inputs were modified")
    want = sorted(numbers)[:nb]
    expect([float(v) for v in got_vals] == want, "selected the values {} instead of {} from {}", list(got_vals), want, numbers)
    got_vects = np.asarray(got_vects)
    expect(got_vects.shape == (case["rows"], nb), "{} vectors instead of {}", got_vects.shape, (case["rows"], nb))
    columns = [int(c) for c in got_vects[0]]
    expect(len(set(columns)) == nb, "the same vector is given twice: columns {} of {}", columns, numbers)
    for k, c in enumerate(columns):
        expect(np.array_equal(got_vects[:, k], before[:, c]), "vector {} is not one of the vectors given", k)
        expect(numbers[c] == want[k], "value {} comes with the vector of {} (columns {} of {})", want[k], numbers[c], columns, numbers)
    ctx.tag(case["type"], "ties" if len(set(numbers)) < len(numbers) else "distinct", "all" if nb == len(vals) else "some")
    ctx.interesting(len(set(numbers)) < len(numbers) and len(numbers) >= 3)


def orthonormal(case, ctx):
    rng = np.random.default_rng(case["seed"])
    n, k = case["rows"], min(case["cols"], case["rows"])
    if case["kind"] == "dense":
        v = rng.normal(size=(n, k))
    elif case["kind"] == "integer":
        v = rng.integers(-2, 3, (n, k)).astype(case["dtype"])
    elif case["kind"] == "close":
        v = rng.normal(size=(n, 1)) + 0.02 * rng.normal(size=(n, k))
    else:
        v = np.eye(n)[:, rng.permutation(n)[:k]] + np.triu(rng.integers(0, 2, (n, k)), 1) * 0.5
    sizes = np.linalg.svd(v, compute_uv=False)
    if sizes[-1] <= 1e-3 * sizes[0]:
        raise Skip
    if case["norms"] and case["kind"] != "integer":
        v = v * (10.0 ** rng.integers(-2, 3, k))[None, :] * case["unit"]
    for name in ("perform_modified_gram_schmidt", "gramSchmidt"):
        given = v.copy()
        q = np.asarray(getattr(repo.dav, name)(given))
        expect(np.array_equal(given, v), "{} modified the vectors", name)
        expect(q.shape == (n, k), "{}: shape {} instead of {}", name, q.shape, (n, k))
        gap = np.abs(q.T @ q - np.eye(k)).max()
        expect(gap < 1e-7, "{}: vectors not orthonormal ({})", name, gap)
        unit = v / np.linalg.norm(v, axis=0)
        for j in range(1, k + 1):
            left = unit[:, :j] - q[:, :j] @ (q[:, :j].T @ unit[:, :j])
            expect(np.abs(left).max() < 1e-7, "{}: the first {} vectors do not span the first {} given", name, j, j)
    ctx.tag(case["kind"], "square" if n == k else "tall", "one" if k == 1 else "several")
    ctx.interesting(k >= 2)


def single(case, ctx):
    a = c18.matrix(case["kind"], case["n"], case["seed"])
    a = a + case["shift"] * max(1.0, np.abs(a).max()) * np.eye(len(a))   # energies far from zero, and close to each other
    given = a.copy()
    value, vector = repo.dav.davidson_algorithm(given, case["stp"], 1e-7, case["prec"])
    expect(np.array_equal(given, a), "the solver modified the matrix")
    exact = np.linalg.eigvalsh(a)
    scale = max(1.0, np.abs(a).max())
    expect(abs(value - exact[0]) <= 0.5001 * 10.0 ** -case["prec"] + 1e-6 * scale, "{} instead of {} (precision {})", value, exact[0], case["prec"])
    vector = np.asarray(vector)
    expect(vector.shape == (len(a), 1), "eigenvector of shape {}", vector.shape)
    expect(abs(np.linalg.norm(vector) - 1) < 1e-6, "eigenvector of norm {}", np.linalg.norm(vector))
    left = np.linalg.norm(a @ vector - exact[0] * vector)
    expect(left < 2e-6 * scale, "residual {}", left)
    ctx.tag(case["kind"], "prec={}".format(case["prec"]))
    ctx.interesting(np.count_nonzero(a - np.diag(a.diagonal())) >= 2)


def projection(case, ctx):
    rng = np.random.default_rng(case["seed"])
    a = c18.matrix(case["kind"], case["n"], case["seed"]) * case["unit"]
    n = len(a)
    k = case["vectors"] % n
    vals, vects = np.linalg.eigh(a)
    if case["of"] == "eigenvectors":
        v = vects[:, rng.permutation(n)[:k]]
    elif case["of"] == "axes":
        v = np.eye(n)[:, rng.permutation(n)[:k]]
    else:
        v = np.linalg.qr(rng.normal(size=(n, max(k, 1))))[0][:, :k]
    given, vectors = a.copy(), v.copy()
    got = np.asarray(repo.dav.perform_matrix_orthogonal_projection(given, vectors))
    expect(np.array_equal(given, a) and np.array_equal(vectors, v), "the matrix or the vectors were modified")
    expect(got.shape == (n - k, n - k), "shape {} instead of {}", got.shape, (n - k, n - k))
    expect(np.isfinite(got).all(), "the projection is not finite")
    scale = np.abs(a).max() * n
    expect(np.abs(got - got.T).max(initial=0) <= 1e-9 * scale, "the projection is not symmetric")
    rest = np.linalg.svd(np.eye(n) - v @ v.T)[0][:, : n - k]
    want = np.linalg.eigvalsh(rest.T @ a @ rest)
    off = np.abs(np.linalg.eigvalsh(got) - want).max(initial=0)
    expect(off <= 1e-8 * scale, "the projection has another spectrum than the matrix has in the complement (off by {})", off)
    ctx.tag("projection of " + case["kind"], "vectors: " + case["of"])
    ctx.interesting(1 <= k < n - 1)


@st.composite
def values(draw):
    pool = draw(st.lists(st.one_of(st.integers(-4, 4).map(float), gens.value()), min_size=1, max_size=5))
    vals = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=14))
    gap = draw(st.sampled_from([0, 0, 0, 1e-3, 1e-6, 1e-9, 1e-12, 1e-15]))   # different, near each other
    vals = [v + gap * k for v, k in zip(vals, draw(st.lists(st.integers(-4, 4), min_size=len(vals), max_size=len(vals))))] if gap else vals
    return {"vals": vals, "nb": draw(st.integers(1, len(vals))), "rows": draw(st.integers(1, 8)), "seed": draw(gens.seed),
            "type": draw(st.sampled_from(["list", "array", "int list", "int array"]))}


SUBS = [
    Sub("selection", selection, lambda tier: values(), quick=9000, thorough=60000, shards=4),
    Sub("orthonormalisation", orthonormal, lambda tier: st.fixed_dictionaries({
        "rows": st.integers(1, 20), "cols": st.integers(1, 20), "seed": gens.seed, "norms": st.booleans(),
        "dtype": st.sampled_from(["float64", "int8", "int32", "int64"]), "unit": st.sampled_from([1.0, 1.0, 1e-9, 1e-20, 1e12]),
        "kind": st.sampled_from(["dense", "integer", "close", "sparse"])}), quick=6000, thorough=40000, shards=4),
    Sub("projection", projection, lambda tier: st.fixed_dictionaries({
        "kind": st.sampled_from(c18.COUPLED + c18.LOOSE), "n": st.one_of(st.integers(1, 6), st.integers(4, 24)), "seed": gens.seed,
        "vectors": st.integers(0, 23), "of": st.sampled_from(["eigenvectors", "axes", "any"]), "unit": st.sampled_from([1.0, 1.0, 1e-6, 1e-12, 1e-30, 1e9])}), quick=2400, thorough=20000, shards=4),
    Sub("single-state", single, lambda tier: st.fixed_dictionaries({
        "kind": st.sampled_from(c18.COUPLED + c18.DOMINANT + c18.LOOSE), "n": st.one_of(st.integers(1, 6), st.integers(4, 24)),
        "seed": gens.seed, "prec": st.integers(1, 8), "stp": st.sampled_from([1, 2, 10, 100, 1000]), "shift": st.sampled_from([0, 0, 0, -3, 20, -100, 1000])}), quick=4500, thorough=30000, shards=8),
]
