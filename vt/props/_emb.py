"""What the checks on embeddings share: a saved isolated block, and the reference mean fields."""
import os

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from scipy.sparse.csgraph import connected_components

from .. import gens, model, repo
from ..runner import expect
from . import c23

ITERATIONS_STP = 600


def embedding():
    import embedding as emb   # imports matplotlib: only where it is needed
    return emb


class Block:
    """A block, its Hamiltonian and the reference objects, and the data given to the embeddings."""
    def __init__(self, case):
        self.lat = lat = gens.lattice(case["g"])
        self.h, self.b = case["sector"]
        self.a = lat.n - self.h - self.b
        self.unit = 10.0 ** case.get("unit", 0)   # of energy
        self.c = gens.named([v * self.unit for v in case["c"]])
        self.sel = case["sel"]
        self.dets = model.basis(lat.n, self.h, self.b)
        self.dim = len(self.dets)
        self.H = model.hamiltonian(lat, self.h, self.b, None, self.c, gens.selected(self.sel))
        self.scale = self.unit + np.abs(self.H).max() + 4 * max(abs(self.c[k]) for k in ("J", "VNN", "VNNNper"))
        self.steps = ITERATIONS_STP
        self.name = c23.file_name(lat.n, self.a, self.b, self.sel)

    def data(self, tol=None, interactions=None):
        tol = 1e-9 * self.unit if tol is None else tol
        conf = self.lat.configuration(self.h, self.b)
        diag = repo.dav.Diagonalization(4, self.steps, tol, self.dim + 30, None)
        return repo.iC.Data(conf, interactions or gens.interactions([self.c[k] for k in model.COEFFS]), diag, gens.booleans(self.sel))

    def save(self, ground, energy, H=None, peripheral=False, others=0):
        """Saves an isolated block with this ground state, with the program itself."""
        os.makedirs("initialComputations", exist_ok=True)
        vects = np.asarray(ground, dtype=float).reshape(-1, 1)
        vects = np.hstack([vects] + [np.roll(vects, k + 1, axis=0) for k in range(others)])
        eig = repo.dav.Eigenstates([float(energy)] + [float(energy) + k + 1 for k in range(others)], [0.0] * (others + 1), vects)
        comp = repo.iC.DataComputations(self.data(), [model.occ_to_det(o) for o in self.dets], sp.csr_matrix(self.H if H is None else H), eig, repo.iC.Times(0., 0., 0.))
        repo.iC.save_data(comp)
        if peripheral:
            os.makedirs("initialComputations/Peripheral_embedding", exist_ok=True)
            os.replace("initialComputations/" + self.name, "initialComputations/Peripheral_embedding/" + self.name)

    def probabilities(self, v, reverse=False):
        """{letter: array over the sites}"""
        w = np.asarray(v, dtype=float).ravel() ** 2
        w = w / w.sum()
        p = {x: np.array([sum(w[k] for k, o in enumerate(self.dets) if o[s] == x) for s in range(self.lat.n)]) for x in "odu"}
        if reverse:
            p["u"], p["d"] = p["d"], p["u"]
        return p

    def field(self, big, p, offset):
        """Diagonal added by the mean field p of the sites of big numbered from offset on, on each determinant."""
        n, c = self.lat.n, self.c
        out = np.zeros(self.dim)
        near = [(s, q - offset) for s in range(n) for q in big.nbrs[s] if q >= n]
        far = [(s, q - offset) for s in range(n) for q, straight in big.second(s).items() if q >= n and not straight]
        for k, o in enumerate(self.dets):
            e = 0.0
            for s, q in near:
                if o[s] == "u":
                    e -= c["J"] / 2 * p["d"][q]
                elif o[s] == "d":
                    e -= c["J"] / 2 * p["u"][q]
                else:
                    e += c["VNN"] * p["o"][q]
            for s, q in far:
                if o[s] == "o":
                    e += c["VNNNper"] * p["o"][q]
            out[k] = e
        return out

    def turn(self):
        """Permutation of the basis by a quarter turn of a square block (either sense: only the group matters)."""
        lat = self.lat
        W = lat.W
        image = {s: lat.at[(W - 1 - y, x)] for s, (x, y) in enumerate(lat.pos)}
        index = {o: k for k, o in enumerate(self.dets)}
        perm = []
        for o in self.dets:
            new = [None] * lat.n
            for s, t in image.items():
                new[t] = o[s]
            perm.append(index["".join(new)])
        return np.array(perm)

    def turned_sum(self, m):
        """Sum of a diagonal or matrix over the four quarter turns."""
        perm, out, q = self.turn(), np.zeros_like(m), np.arange(self.dim)
        for _ in range(4):
            if m.ndim == 1:
                out[q] += m
            else:
                out[np.ix_(q, q)] += m
            q = perm[q]
        return out


def coupled(m):
    return connected_components(sp.csr_matrix(m != 0))[0] == 1


def apart(g, before):
    """Distance between two states whatever their sign."""
    g, before = np.ravel(g), np.ravel(before)
    return min(np.linalg.norm(g - before), np.linalg.norm(g + before)) / np.linalg.norm(before)


def check_pairs(m, states, count, tol, scale, what, lowest=True, slack=0.0):
    """The states are eigenpairs of m, and the lowest ones when its states are coupled."""
    vals, vects = np.asarray(states.eigvals, dtype=float), np.asarray(states.eigvects)
    expect(vals.shape == (count,) and vects.shape == (len(m), count), "{}: {} values, vectors {} instead of {}", what, vals.shape, vects.shape, count)
    left = np.linalg.norm(m @ vects - vects * vals[None, :], axis=0).max()
    expect(left <= 1.001 * tol + 1e-9 * scale + slack, "{}: not eigenstates of the dressed Hamiltonian (residual {})", what, left)
    expect(np.abs(vects.T @ vects - np.eye(count)).max() < 1e-6, "{}: not orthonormal", what)
    exact = np.linalg.eigvalsh(m)
    if lowest and coupled(m):
        expect(np.allclose(vals, exact[:count], rtol=0, atol=1e-6 * scale + 10 * tol + slack), "{}: energies {} instead of {}", what, vals, exact[:count])
    return exact


def reload(where, returned, what):
    """The saved file gives back what was returned."""
    got = repo.iC.load_data(where)
    a, b = got.hamiltonian.toarray(), returned.hamiltonian.toarray()
    expect(np.array_equal(a, b), "{}: the Hamiltonian saved is not the one returned", what)
    expect(list(map(float, got.eigenstates.eigvals)) == list(map(float, returned.eigenstates.eigvals)), "{}: the energies saved are not the ones returned", what)
    expect(np.array_equal(got.eigenstates.eigvects, returned.eigenstates.eigvects), "{}: the states saved are not the ones returned", what)
    one, two = c23_snapshot(got), c23_snapshot(returned)
    for key in two:
        expect(one[key] == two[key], "{}: {} saved as {} instead of {}", what, key, one[key], two[key])


def c23_snapshot(comp):
    """Configuration, coefficients, selection and basis (embeddings save no times)."""
    comp.times = repo.iC.Times(0.0, 0.0, 0.0)
    snap = c23.snapshot(comp)
    return {k: v for k, v in snap.items() if k.startswith(("conf.", "interactions.", "bool.")) or k == "determinants"}


def units():
    return st.sampled_from([0, 0, 0, -2, -5, 3, 5])


@st.composite
def block(draw, tier, cap, sites=9, square=False, ring=99):
    g = draw(gens.geometry(sites, ("rect",), square=square).filter(lambda g: (g[1] + g[2]) * g[3] <= ring))
    n = gens.lattice(g).n
    sel = draw(st.one_of(st.just([1] * 6), st.just([1] * 6), gens.selection()))
    return {"g": g, "sector": draw(gens.sector(n, cap if tier == "quick" else 3 * cap)), "c": draw(st.one_of(gens.distinct_coefficients(), gens.coefficients())), "sel": sel,
            "seed": draw(gens.seed), "unit": draw(units())}
