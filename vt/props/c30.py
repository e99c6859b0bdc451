"""C30: scans of the couplings show the energies and spins computed at each of their points."""
import contextlib
import copy
import inspect
import os

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Skip, Sub, expect
from . import c24, c29

RULE = "a lattice, number of holes, couplings, selection, eigenstate and size of the grid (map), or spectra generated as functions of the " \
    "couplings and selection (dependence); non-trivial when the grid has 4 points or more and a sector of 4 determinants or more shows " \
    "two energies (map), or levels cross along the scan (dependence); oracle: the exact spectrum and spins of the reference " \
    "Hamiltonian at the coordinates of each point, or the generated spectra at each abscissa, against the data of the axes"


@contextlib.contextmanager
def exact_solver(case, calls):
    """Takes the place of the eigensolver, whose accuracy is the matter of C18, and keeps what it is asked."""
    dav, real = repo.dav, repo.dav.modified_davidson_algorithm
    signature = inspect.signature(real)

    def solver(*args, **kwargs):
        bound = signature.bind(*args, **kwargs)
        bound.apply_defaults()
        asked = bound.arguments
        calls.append({k: asked[k] for k in ("nb_val", "stp", "tol", "dim_max")})
        if case["real"]:
            return real(*args, **kwargs)
        a = asked["A"]
        vals, vects = np.linalg.eigh(np.asarray(a.toarray() if sp.issparse(a) else a, dtype=float))
        nb = min(asked["nb_val"], len(vals))
        expect(nb >= 1, "no eigenstate is asked for")
        return dav.Eigenstates(list(vals[:nb]), [], vects[:, :nb].copy())
    dav.modified_davidson_algorithm = solver
    try:
        yield
    finally:
        dav.modified_davidson_algorithm = real


def attributes(obj):
    return {k: v.tolist() if isinstance(v, np.ndarray) else copy.deepcopy(v) for k, v in vars(obj).items()}


def snapshot(data):
    return {k: attributes(v) for k, v in vars(data).items()}


def spins_of(dets, level):
    """Spins, between which that of any vector of the level lies."""
    s2 = np.linalg.eigvalsh(level.T @ model.s_squared(dets) @ level)
    return np.round(np.sqrt(np.maximum(0, 4 * s2 + 1)) - 1) / 2


def phase_map(case, ctx):
    lat = gens.lattice(case["g"])
    h, k = case["h"], case["state"]
    conf = lat.configuration(h, case["b"], case["R"])
    diag = repo.dav.Diagonalization(case["nb"], 600, 1e-7, case["dim_max"])
    data = repo.iC.Data(conf, gens.interactions(case["c"]), diag, gens.booleans(case["sel"]))
    os.makedirs("tJ-HamCsr/tJ-H{}/PhaseDiagrams".format(lat.n))
    before, calls = snapshot(data), []
    with c29.figures() as taken, exact_solver(case, calls):
        c29.plots().save_phase_space(data, k, case["nt"], case["nv"])
    expect(snapshot(data) == before, "the data of the computation were modified")
    for asked in calls:
        expect(asked["nb_val"] > k and (asked["stp"], asked["tol"], asked["dim_max"]) == (600, 1e-7, case["dim_max"]), "the eigensolver is asked {}", asked)
    wanted, spread = {}, 0
    for b in range(lat.n - h + 1):
        if model.dimension(lat.n, h, b) > k:
            wanted[os.path.normpath("tJ-HamCsr/tJ-H{}/PhaseDiagrams/tJ-H{}{}{}.png".format(lat.n, lat.n, lat.n - h - b, b))] = b
    expect(set(taken.written) == set(wanted), "written: {} instead of {}", list(taken.written), list(wanted))
    c = gens.named(case["c"])
    for path, b in wanted.items():
        dets = model.basis(lat.n, h, b)
        axes = [ax for ax in taken.written[path] if ax["meshes"]]
        expect(len(axes) >= 2, "{}: {} maps", path, len(axes))
        (xs, ys, energy), (xs2, ys2, spin) = axes[0]["meshes"][0], axes[1]["meshes"][0]
        for got, want in ((xs, np.linspace(0, 15, case["nv"])), (ys, np.linspace(-5, 0, case["nt"])), (xs2, xs), (ys2, ys)):
            expect(len(got) == len(want) and np.allclose(got, want, atol=1e-9), "{}: coordinates {} instead of {}", path, got, want)
        for i, y in enumerate(ys):
            for j, x in enumerate(xs):
                t, v = y * c["J"], x * c["J"]
                here = dict(c, t=t, tNNN=-13 * t / 55, tnNNN=36 * t / 55, VNN=v, VNNNper=0.79 / 1.77 * v)
                want = model.hamiltonian(lat, h, b, case["R"], here, gens.selected(case["sel"]))
                vals, vects = np.linalg.eigh(want)
                scale = np.abs(want).max() + 1e-300
                if case["real"] and not c24.connected(want):
                    continue
                off = 1e-9 * scale if not case["real"] else 1e-5 * (1 + scale)
                expect(abs(energy[i, j] - vals[k]) <= off, "{}: energy {} at V/J = {} and t/J = {}, instead of {}", path, energy[i, j], x, y, vals[k])
                level = vects[:, np.abs(vals - vals[k]) <= (1e-7 * scale if not case["real"] else 1e-3 * (1 + scale))]
                allowed = spins_of(dets, level)
                expect(allowed.min() <= spin[i, j] <= allowed.max(), "{}: spin {} at V/J = {} and t/J = {}, instead of {}", path, spin[i, j], x, y, allowed)
                spread = max(spread, len(dets) if abs(energy[i, j] - energy[0, 0]) > 1e-6 * scale else 0)
    ctx.tag("eigensolver" if case["real"] else "exact states", "state {}".format(k), "as many t as V" if case["nt"] == case["nv"] else "more of either")
    ctx.interesting(case["nt"] * case["nv"] >= 4 and spread >= 4)


# dependence on t/J

SCALED = ("J", "Jhpar", "Jhper", "hSDper", "hSDpar")


class Levels:
    """Spectra that depend linearly on the couplings, each level being once or twice degenerate."""
    def __init__(self, case):
        rng = np.random.default_rng(case["seed"])
        self.times = [min(t, case["nb"] - sum(case["times"][:k])) for k, t in enumerate(case["times"])]
        self.times = [t for t in self.times if t > 0]
        self.times += [1] * (case["nb"] - sum(self.times))
        count = len(self.times)
        self.weights = rng.normal(size=(count, len(model.COEFFS)))
        self.terms = rng.normal(size=(count, len(model.TERMS)))
        if case.get("close"):   # levels near the first one all along the scan
            for k in range(1, count, 1 + case["seed"] % 2):
                self.weights[k] = self.weights[0] + 10.0 ** -case["close"] * self.weights[k]
                self.terms[k] = self.terms[0] + 10.0 ** -case["close"] * self.terms[k]
        self.spins = [(0.5, 1.5)[k] for k in rng.integers(0, 2, count)]

    def at(self, c, sel):
        """[(energy, spin)] in ascending order."""
        out = []
        for w, u, spin, times in zip(self.weights, self.terms, self.spins, self.times):
            e = float(sum(w[k] * c[name] for k, name in enumerate(model.COEFFS)) + sum(u[k] * bool(sel[name]) for k, name in enumerate(model.TERMS)))
            out += [(e, spin)] * times
        return sorted(out)


PLAIN = dict(bt=True, bz=True, bij=True, bSD=False, btN=False, bV=False)
EXTENDED = {k: True for k in PLAIN}


def coupling(c, x):
    """Couplings at t/J = x: t is kept, J and what derives from it are scaled."""
    J = abs(c["t"]) / x
    return dict(c, J=J, **{k: c[k] * J / c["J"] for k in SCALED[1:]})


def dependence(case, ctx):
    lat = gens.lattice(case["g"])
    conf = lat.configuration(*case["sector"], case["R"])
    levels = Levels(case)
    c = gens.named(case["c"])
    data = repo.iC.Data(conf, gens.interactions(case["c"]), repo.dav.Diagonalization(case["nb"], 10, 1e-6, 0), gens.booleans(case["sel"]))
    real = repo.iC.perform_initial_computations

    def computation(given):
        expect((given.configuration.nsites, given.configuration.nholes, given.configuration.nbeta) == (conf.nsites, conf.nholes, conf.nbeta), "another sector is computed")
        found = levels.at({k: getattr(given.interactions, k) for k in model.COEFFS}, {k: getattr(given.bool_interactions, k) for k in model.TERMS})
        spins = [s for _, s in found] if given.bool_interactions.b_spin_multipicities else []
        return repo.iC.DataComputations(given, [], None, repo.dav.Eigenstates([e for e, _ in found], spins, np.eye(case["nb"])), None)
    stem = "tJ-HamCsr/tJ-H{}/ParametrizedSpectrum".format(lat.n)
    os.makedirs(stem if case["folder"] else os.path.dirname(stem))
    before = snapshot(data)
    ends = [levels.at(coupling(c, x), sel) for x in (0.3, 10.0) for sel in (PLAIN, EXTENDED)]
    for found in ends[:2]:   # the curves take the style of their first point: levels must be told apart there
        es = sorted({e for e, _ in found})
        if len(es) != len(levels.times) or (len(es) > 1 and np.diff(es).min() < 3e-5):
            raise Skip
    repo.iC.perform_initial_computations = computation
    try:
        with c29.figures() as taken:
            import matplotlib.pyplot as plt
            seen = {}
            save = taken.save

            def keep(fig, path, *args, **kwargs):
                seen[os.path.normpath(str(path))] = [(l.get_color(), l.get_linestyle()) for l in fig.axes[0].lines]
                save(fig, path, *args, **kwargs)
            taken.save = keep
            c29.plots().plot_spectrum_dependance(data)
            plt.close("all")
    finally:
        repo.iC.perform_initial_computations = real
    expect(snapshot(data) == before, "the data of the computation were modified")
    name = os.path.join(stem, "tJ-H{}{}{}".format(lat.n, conf.nalpha, conf.nbeta))
    files = {os.path.normpath(name + end + kind): sel for end, sel in (("", PLAIN), ("-extended", EXTENDED)) for kind in (".png", ".pdf")}
    expect(set(taken.written) == set(files), "written: {} instead of {}", list(taken.written), list(files))
    crossing = False
    for path, sel in files.items():
        lines = taken.written[path][0]["lines"]
        expect(len(lines) == case["nb"], "{}: {} curves instead of {}", path, len(lines), case["nb"])
        x = lines[0][0]
        expect(len(x) >= 2 and x.min() > 0 and np.ptp(x) > 0 and all(np.array_equal(l[0], x) for l in lines), "{}: the curves have not the same abscissas", path)
        expect(abs(x[0] - 0.3) < 1e-9 and abs(x[-1] - 10) < 1e-9, "{}: t/J from {} to {}", path, x[0], x[-1])
        drawn = np.sort(np.array([l[1] for l in lines]), axis=0)
        for k, at in enumerate(x):
            want = np.array([e for e, _ in levels.at(coupling(c, at), sel)])
            expect(np.abs(drawn[:, k] - want).max() <= 2e-6 + 1e-9 * np.abs(want).max(), "{}: energies {} at t/J = {}, instead of {}", path, drawn[:, k], at, want)
        first = levels.at(coupling(c, x[0]), sel)
        for (_, y), (colour, style) in zip(lines, seen[path]):
            e, spin = min(first, key=lambda f: abs(f[0] - y[0]))
            times = sum(abs(f[0] - e) < 1e-5 for f in first)
            expect(colour == {0.5: "b", 1.5: "g"}[spin] and style == {1: "--", 2: "-"}[times], "{}: the curve from {} is drawn {} {}, for spin {} and degeneracy {}", path, y[0], colour, style, spin, times)
        crossing = crossing or [s for _, s in first] != [s for _, s in levels.at(coupling(c, x[-1]), sel)]
    ctx.tag("close levels" if case.get("close", 0) > 1 else "distant levels", "{} states".format(case["nb"]), "crossings" if crossing else "no crossing")
    ctx.interesting(crossing)


@st.composite
def maps(draw, tier):
    kind = draw(st.sampled_from(["rect", "rect", "two", "ring"]))
    g = draw(gens.geometry(draw(st.sampled_from([6, 6, 10])) if tier == "quick" else 10, (kind,), min_sites=4 if kind == "two" else 3))
    n = gens.lattice(g).n
    cap = 40 if tier == "quick" else 120
    largest = {h: max(model.dimension(n, h, b) for b in range(n - h + 1)) for h in range(n + 1)}
    hs = sorted([h for h in largest if largest[h] <= cap], key=lambda h: -largest[h])
    h = draw(st.sampled_from([h for h in hs if 0 < h < n][:2] + hs))
    real = draw(st.integers(0, 3)) == 0
    tops = sorted({model.dimension(n, h, b) - 1 for b in range(n - h + 1)} & set(range(12)))   # highest state of some sector
    nt, nv = draw(st.sampled_from([(3, 3), (2, 3), (4, 2), (2, 2), (3, 2), (2, 4), (4, 1), (1, 1), (3, 4)]))
    return {"g": g, "R": draw(gens.restriction(n)), "h": h, "b": draw(st.integers(0, n - h)), "c": draw(gens.coefficients() if real else gens.scaled_coefficients()), "sel": draw(gens.selection()) if draw(st.booleans()) else [1, 1, 1, 1, 1, 1], "nb": draw(st.integers(1, 12)),
            "state": draw(st.sampled_from([0, 1, 2, 3, 4, *tops])), "nt": nt, "nv": nv, "real": real, "dim_max": 400 if real else draw(st.sampled_from([0, 5, 60]))}


@st.composite
def scans(draw, tier):
    g = draw(gens.geometry(12, gens.KINDS, min_sites=3))
    n = gens.lattice(g).n
    c = list(draw(gens.distinct_coefficients()))
    at = dict(zip(model.COEFFS, range(10)))
    for k in ("t", "J"):
        c[at[k]] = c[at[k]] or 0.5
    return {"g": g, "R": draw(gens.any_restriction(n)), "sector": draw(gens.sector(n, 100)), "c": c, "sel": draw(gens.selection()), "nb": draw(st.sampled_from([4, 6, 5, 3, 2, 1])), "seed": draw(gens.seed),
            "close": draw(st.sampled_from([0, 0, 1, 2, 3])), "times": draw(st.lists(st.integers(1, 2), min_size=6, max_size=6)), "folder": draw(st.booleans())}


SUBS = [
    Sub("map", phase_map, lambda tier: maps(tier), quick=120, thorough=4000, shards=8, files=True),
    Sub("dependence", dependence, lambda tier: scans(tier), quick=56, thorough=2000, shards=8, files=True),
]
