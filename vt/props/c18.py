"""C18: the eigensolver returns the lowest eigenpairs, orthonormal, to the tolerance."""
import functools

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from scipy.sparse.csgraph import connected_components

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "a symmetric matrix (dense random, integer, diagonally dominant, nearly degenerate, graph, Hamiltonian of a sector, diagonal, " \
    "block or null) of up to 40 rows, number of states, tolerance, start vectors, limit of the search space and format; non-trivial when it has " \
    "3 rows or more, couples at least two states and a state is asked for less than there are; oracle: the exact spectrum of LAPACK"

COUPLED = ("dense", "integer", "graph", "hamiltonian", "clusters")
DOMINANT = ("dominant", "nearly degenerate")
LOOSE = ("diagonal", "integer diagonal", "blocks", "null", "identity")
SHAPES = [("rect", 1, 1, 2), ("rect", 2, 1, 1), ("rect", 3, 1, 1), ("rect", 2, 3, 1), ("rect", 5, 1, 1), ("rect", 1, 4, 1), ("two", 1, 2, 1), ("ring", 1, 1, 1)]


@functools.lru_cache(64)
def hamiltonian(seed):
    rng = np.random.default_rng(seed)
    lat = model.Lattice(*SHAPES[rng.integers(len(SHAPES))])
    sectors = gens.sectors(lat.n, 70)
    sector = sectors[rng.integers(len(sectors))]
    coeffs = (rng.permutation(np.arange(1, 25))[:10] * rng.choice([-1, 1], 10) / 8).tolist()
    return model.hamiltonian(lat, *sector, None, gens.named(coeffs), gens.selected([1] * 6))


def matrix(kind, n, seed):
    rng = np.random.default_rng(seed)
    m = rng.normal(size=(n, n))
    if kind == "integer":
        m = rng.integers(-2, 3, (n, n)).astype(float)
    elif kind == "graph":
        m = (rng.random((n, n)) < 2 / n).astype(float)
    elif kind == "clusters":      # degenerate levels coupled together: complete and complete bipartite graphs, rings
        m = [np.ones((n, n)), np.kron([[0, 1], [1, 0]], np.ones((n, n)))[:n, :n] + np.fromfunction(lambda i, j: (i < n // 2) != (j < n // 2), (n, n)),
             np.eye(n, k=1) + np.eye(n, k=-1) + np.eye(n, k=n - 1) + np.eye(n, k=1 - n)][rng.integers(3)] * [1, -1][rng.integers(2)]
    elif kind == "dominant":
        m = np.diag(rng.normal(size=n)) * 5 + 0.3 * m
    elif kind == "nearly degenerate":
        m = np.diag(rng.integers(0, 3, n)).astype(float) * 4 + 0.02 * m
    elif kind == "diagonal":
        m = np.diag(rng.normal(size=n) * 4)
    elif kind == "integer diagonal":
        m = np.diag(rng.integers(-3, 3, n)).astype(float)
    elif kind == "blocks":
        cut = rng.integers(0, n + 1)
        m[:cut, cut:] = m[cut:, :cut] = 0
    elif kind == "null":
        m = np.zeros((n, n))
    elif kind == "identity":
        m = np.eye(n) * float(rng.integers(-3, 4))
    elif kind == "hamiltonian":
        return hamiltonian(seed % 97)
    return (m + m.T) / 2


class Watched(sp.csr_matrix):
    """A sparse matrix that records how many vectors it is applied to at once."""
    width = 0

    def dot(self, other):
        self.width = max(self.width, other.shape[1] if getattr(other, "ndim", 0) == 2 else 0)
        return super().dot(other)

    def __matmul__(self, other):
        self.width = max(self.width, other.shape[1] if getattr(other, "ndim", 0) == 2 else 0)
        return super().__matmul__(other)


def solve(a, case, guess, **kwargs):
    given = Watched(a) if case["csr"] else a.copy()
    kept = guess.copy() if guess is not None else None
    solver = repo.dav.modified_davidson_algorithm
    out = solver(given, case["nb"], guess, case.get("stp", 100), case["tol"], case.get("dim_max", 0), bool(case.get("verbose")), **kwargs)
    after = given.toarray() if case["csr"] else given
    if case["csr"]:
        most = max(case.get("dim_max") or len(a), 2 * min(case["nb"], len(a)))
        expect(given.width <= most, "the search space has {} vectors, more than the limit of {}", given.width, most)
    expect(np.array_equal(after, a), "the solver modified the matrix")
    expect(guess is None or np.array_equal(kept, guess), "the solver modified the start vectors")
    return out


def residuals(a, states):
    v = np.asarray(states.eigvects)
    return np.linalg.norm(a @ v - v * np.asarray(states.eigvals)[None, :], axis=0)


def sound(a, states, count):
    """What holds of any result, converged or not; returns the exact spectrum."""
    n = len(a)
    scale = max(1.0, np.abs(a).max())
    vals, vects = np.asarray(states.eigvals, dtype=float), np.asarray(states.eigvects)
    expect(vals.shape == (count,), "{} eigenvalues instead of {}", vals.shape, count)
    expect(vects.shape == (n, count), "eigenvectors of shape {} instead of {}", vects.shape, (n, count))
    expect(np.isfinite(vals).all() and np.isfinite(vects).all(), "the result is not finite")
    expect((np.diff(vals) >= -1e-9 * scale).all(), "eigenvalues not in ascending order: {}", vals)
    gap = np.abs(vects.T @ vects - np.eye(count)).max()
    expect(gap < 1e-7, "eigenvectors not orthonormal: {}", gap)
    exact = np.linalg.eigvalsh(a)
    expect((vals >= exact[:count] - 1e-8 * scale * n).all(), "eigenvalues {} under the exact ones {}", vals, exact[:count])
    return exact


def start(case, n, count):
    if case["guess"] == "none":
        return None
    rng = np.random.default_rng(case["seed"] + 1)
    if case["guess"] == "integer":
        return rng.integers(-10 ** 7, 10 ** 7, (n, count)).astype([np.int32, np.int64][case["seed"] % 2]) | 1   # no null vector
    return rng.normal(size=(n, count)) * (1 if case["guess"] == "random" else 7.5)


def classify(ctx, case, a, count):
    n = len(a)
    single = connected_components(sp.csr_matrix(a != 0))[0] == 1
    ctx.tag(case["kind"], "one state" if count == 1 else "all states" if count == n else "several states", "guess: " + case["guess"],
            "one component" if single else "several components")
    off = np.count_nonzero(a - np.diag(a.diagonal()))
    ctx.interesting(n >= 3 and off >= 2 and count < n)
    return single


def accuracy(tol, scale):
    return 10 * tol + 1e-7 * scale


def whole(case, ctx):
    """The search space may grow to the whole space."""
    a = matrix(case["kind"], case["n"], case["seed"])
    n = len(a)
    scale = max(1.0, np.abs(a).max())
    count = min(case["nb"], n)
    case["dim_max"], case["stp"] = n + count + case["extra"], n + 20
    case["tol"] *= scale
    states = solve(a, case, start(case, n, count))
    exact = sound(a, states, count)
    res = residuals(a, states)
    expect((res <= case["tol"] + 1e-9 * scale).all(), "residuals {} above the tolerance {}", res, case["tol"])
    single = classify(ctx, case, a, count)
    if single and case["tol"] <= 1e-6 * scale and case["kind"] not in LOOSE:
        expect(np.allclose(states.eigvals, exact[:count], rtol=0, atol=accuracy(case["tol"], scale)),
               "eigenvalues {} instead of the lowest ones {}", states.eigvals, exact[:count])


def limited(case, ctx):
    """Any limit of the search space and any number of steps: bounds, and convergence where it is certain."""
    a = matrix(case["kind"], case["n"], case["seed"])
    n = len(a)
    scale = max(1.0, np.abs(a).max())
    count = min(case["nb"], n)
    if case["dim_max"]:
        count = min(count, case["dim_max"])
    case["tol"] *= scale
    states = solve(a, case, start(case, n, count))
    exact = sound(a, states, count)
    classify(ctx, case, a, count)
    ctx.tag("limit" if case["dim_max"] else "no limit")
    if 2 * count >= n and case["stp"] >= 4 and case["kind"] not in LOOSE:
        res = residuals(a, states)
        expect((res <= case["tol"] + 1e-8 * scale).all(), "residuals {} above the tolerance {} although the search space is the whole space", res, case["tol"])
    bound = max(abs(exact[0]), abs(exact[-1])) * (1 + 1e-9) + 1e-9
    expect((np.abs(states.eigvals) <= bound).all(), "eigenvalues {} out of the spectrum", states.eigvals)


def exact_start(case, ctx):
    """Started from the eigenstates themselves (mixed together), it has nothing to do."""
    a = matrix(case["kind"], case["n"], case["seed"])
    n = len(a)
    scale = max(1.0, np.abs(a).max())
    count = min(case["nb"], n)
    case["stp"], case["tol"] = 1, 1e-6 * scale
    vals, vects = np.linalg.eigh(a)
    rng = np.random.default_rng(case["seed"] + 2)
    mix = np.linalg.qr(rng.normal(size=(count, count)))[0] * rng.uniform(0.5, 2, count)[None, :]
    states = solve(a, case, vects[:, :count] @ mix)
    sound(a, states, count)
    expect(np.allclose(states.eigvals, vals[:count], rtol=0, atol=1e-7 * scale), "{} instead of {} from the exact states", states.eigvals, vals[:count])
    res = residuals(a, states)
    expect((res <= 2e-6 * scale).all(), "residuals {}", res)
    classify(ctx, dict(case, guess="exact"), a, count)


def default(case, ctx):
    """The default limit, where the search space is restarted at each step: convergence is only usual, so it is judged on batches."""
    right = converged = total = 0
    for k in range(8):
        a = matrix(case["kind"], case["n"], case["seed"] + k)
        n = len(a)
        if connected_components(sp.csr_matrix(a != 0))[0] > 1:
            continue
        scale = max(1.0, np.abs(a).max())
        count = min(case["nb"], n)
        one = dict(case, stp=600, tol=case["tol"] * scale, seed=case["seed"] + k, dim_max=0)
        states = solve(a, one, start(one, n, count))
        exact = sound(a, states, count)
        total += 1
        done = (residuals(a, states) <= one["tol"] + 1e-9 * scale).all()
        converged += done
        right += bool(done and np.allclose(states.eigvals, exact[:count], rtol=0, atol=accuracy(one["tol"], scale)))
        classify(ctx, case, a, count)
    if total >= 3:
        expect(2 * right >= total - 1, "only {} of {} matrices gave the lowest eigenvalues ({} converged)", right, total, converged)
        expect(converged - right <= 1, "{} of {} results converged to other states than the lowest", converged - right, total)


def base(kinds, max_n=40, nb=8):
    return {"kind": st.sampled_from(kinds), "n": st.one_of(st.integers(1, 8), st.integers(4, max_n), st.integers(6, max_n)), "seed": gens.seed,
            "nb": st.one_of(st.integers(1, nb), st.integers(1, 3)), "csr": st.booleans(), "verbose": st.integers(0, 9).map(lambda k: k == 0),
            "guess": st.sampled_from(["none", "none", "random", "unnormalised", "integer"])}


def strategy(kinds, max_n=40, nb=8, **more):
    return st.fixed_dictionaries(dict(base(kinds, max_n, nb), **more))


def large(tier):
    return st.fixed_dictionaries(dict(base(("dense", "integer", "graph", "dominant", "blocks"), nb=12), n=st.integers(41, 160 if tier == "quick" else 320),
        tol=st.sampled_from([0.1, 1e-3, 1e-6]), extra=st.integers(0, 12)))


tolerance = st.sampled_from([1e-3, 1e-6, 1e-7, 1e-8])


def known_diagonal(ctx):
    np.random.seed(0)
    a = np.diag([3.0, -2.0, 1.0, 0.0, -1.0, 2.0])
    vals = [repo.dav.modified_davidson_algorithm(sp.csr_matrix(a), 1, None, 3000, 1e-6).eigvals[0] for _ in range(20)]
    expect(all(abs(v + 2) < 1e-4 for v in vals), "{}", vals)


def known_dominant(ctx):
    rng = np.random.default_rng(7)
    wrong = 0
    for k in range(40):
        m = np.diag(rng.normal(size=12)) * 5 + 0.3 * rng.normal(size=(12, 12))
        a = (m + m.T) / 2
        np.random.seed(k)
        states = repo.dav.modified_davidson_algorithm(sp.csr_matrix(a), 1, None, 300, 1e-6)
        wrong += not np.allclose(states.eigvals, np.linalg.eigvalsh(a)[:1], atol=1e-4)
    expect(not wrong, "{} of 40", wrong)


def known_opt(ctx):
    rng = np.random.default_rng(3)
    m = rng.normal(size=(30, 30))
    a = (m + m.T) / 2
    np.random.seed(0)
    states = repo.dav.modified_davidson_algorithm_opt(sp.csr_matrix(a), 5, 8, 500, 1e-6)
    expect(np.allclose(states.eigvals, np.linalg.eigvalsh(a)[:5], atol=1e-4), "{}", states.eigvals)


KNOWN = {"diagonal": known_diagonal, "dominant": known_dominant, "opt": known_opt}

SUBS = [
    Sub("whole-space", whole, lambda tier: strategy(COUPLED + COUPLED + DOMINANT + LOOSE, tol=st.one_of(tolerance, st.sampled_from([0.3, 0.1, 0.02])), extra=st.integers(0, 12)),
        quick=3000, thorough=40000, shards=8),
    Sub("limited", limited, lambda tier: strategy(COUPLED + DOMINANT + LOOSE, 24, 26, tol=tolerance, dim_max=st.one_of(st.just(0), st.integers(1, 40)),
        stp=st.one_of(st.integers(1, 12), st.integers(4, 60))), quick=3000, thorough=40000, shards=8),
    Sub("large", whole, large, quick=60, thorough=500, shards=8),
    Sub("exact-start", exact_start, lambda tier: strategy(COUPLED + DOMINANT + LOOSE, 30, 10), quick=900, thorough=8000, shards=8),
    Sub("default-limit", default, lambda tier: strategy(("dense", "integer", "graph", "hamiltonian"), 24, 6, tol=st.sampled_from([1e-5, 1e-6, 1e-7])),
        quick=140, thorough=1600, shards=8),
]
