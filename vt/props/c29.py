"""C29: plots show the computed spectrum, densities and amplitudes of their sector."""
import collections
import contextlib
import os

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect
from . import c23

RULE = "saved or given computations of a lattice, sector and selection with generated energies (repeated ones included) and vectors, and the " \
    "plots asked; non-trivial when energies repeat (spectrum), the weights differ between sites or amplitudes (others), or several " \
    "plots are asked (dispatch); oracle: the data of the axes, taken when the figure is written, against the reference computed from the " \
    "generated energies and vectors, and the set of files written"

SPINS = {0: "o", 1: "u", -1: "d"}


class Figures:
    """Stands for the rendering: takes the data of each figure when it is written, and writes an empty file."""
    def __init__(self):
        self.written = collections.OrderedDict()

    def save(self, fig, path, *args, **kwargs):
        with open(path, "w"):
            pass
        self.written[os.path.normpath(str(path))] = [self.axis(ax) for ax in fig.axes]

    @staticmethod
    def axis(ax):
        from matplotlib.collections import PathCollection, QuadMesh
        meshes, marks = [], []
        for m in ax.collections:
            if isinstance(m, QuadMesh):
                xy = np.asarray(m.get_coordinates())
                centres = (xy[:-1, :-1] + xy[1:, 1:]) / 2
                meshes.append((centres[0, :, 0], centres[:, 0, 1], np.asarray(m.get_array()).reshape(centres.shape[:2])))
            elif isinstance(m, PathCollection):
                marks.append(sorted((round(float(x), 6), round(float(y), 6)) for x, y in np.asarray(m.get_offsets())))
        bars = [[(r.get_x() + r.get_width() / 2, r.get_height()) for r in c.patches] for c in ax.containers]
        return {"lines": [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for l in ax.lines], "meshes": meshes, "marks": marks,
                "bars": bars, "title": ax.get_title()}


@contextlib.contextmanager
def figures(close=True):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt
    taken = Figures()
    old = matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.tight_layout
    matplotlib.figure.Figure.savefig = lambda fig, path, *a, **k: taken.save(fig, path, *a, **k)
    matplotlib.figure.Figure.tight_layout = lambda fig, *a, **k: None
    try:
        yield taken
    finally:
        matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.tight_layout = old
        if close:
            plt.close("all")


def plots():
    import postProcessing as pP
    return pP


class Computation:
    def __init__(self, case, sector=None, salt=0):
        self.lat = lat = gens.lattice(case["g"])
        self.h, self.b = sector or case["sector"]
        self.a = lat.n - self.h - self.b
        self.sel = case["sel"]
        self.dets = model.basis(lat.n, self.h, self.b)
        dim = len(self.dets)
        self.nb = min(case["nb"], dim)
        rng = np.random.default_rng([case["seed"], salt])
        if case.get("flat"):
            v = rng.integers(-2, 3, (dim, self.nb)).astype(float)   # equal weights
            v[:, np.abs(v).sum(axis=0) == 0] = 1
        else:
            v = rng.normal(size=(dim, self.nb)) * (rng.random((dim, self.nb)) < rng.choice([0.3, 1.0]))
            v[:, np.abs(v).sum(axis=0) == 0] = 1
        self.v = v / np.linalg.norm(v, axis=0)
        self.values = sorted((case["values"] * self.nb)[:self.nb])
        if case.get("many"):
            self.values = sorted(v + k // len(case["values"]) for k, v in enumerate(self.values))
        self.values = [v * 10.0 ** case.get("unit", 0) for v in self.values]
        if case.get("close"):   # different energies, near each other
            self.values = sorted(e + 10.0 ** -case["close"] * (k // 2) for k, e in enumerate(self.values))

    def make(self, case):
        conf = self.lat.configuration(self.h, self.b, case["R"])
        data = repo.iC.Data(conf, gens.interactions([1.0] * 10), repo.dav.Diagonalization(self.nb, 10, 1e-6, 0), gens.booleans(self.sel, bV_embedding=bool(case.get("bve", 0))))
        return repo.iC.DataComputations(data, [model.occ_to_det(o) for o in self.dets], sp.identity(len(self.dets), format="csr"),
                                        repo.dav.Eigenstates(list(self.values), [], self.v.copy()), repo.iC.Times(0., 0., 0.))

    def probability(self, state, spin):
        """{(x, y): probability}"""
        w = self.v[:, state] ** 2
        return {self.lat.pos[s]: sum(w[k] for k, o in enumerate(self.dets) if o[s] == SPINS[spin]) for s in range(self.lat.n)}

    def folder(self, *names):
        return os.path.join("tJ-HamCsr", "tJ-H{}".format(self.lat.n), *names)

    def name(self, end=".png"):
        return "tJ-H{}{}{}{}".format(self.lat.n, self.a, self.b, end)


def folders(lat, some=True):
    for name in ("Spectrum", "DeterminantsAmplitude", "SpinDistribution") + (("HolePresenceProbability", "AmplitudesStaticEmbeddingNeel") if some else ()):
        os.makedirs(os.path.join("tJ-HamCsr", "tJ-H{}".format(lat.n), name))


def only(taken, path, what):
    expect(list(taken.written) == [os.path.normpath(path)], "{}: written to {} instead of {}", what, list(taken.written), path)
    return taken.written[os.path.normpath(path)]


# each checks the axes of one figure against the computation

def check_spectrum(axes, comp):
    lines = [l for ax in axes for l in ax["lines"]]
    levels = []
    for x, y in lines:
        expect(len(x) >= 2 and np.ptp(y) == 0 and np.ptp(x) > 0, "a level is not a horizontal segment: {} {}", x, y)
        levels.append((float(y[0]), float(x.min()), float(x.max())))
    expect(sorted(l[0] for l in levels) == sorted(comp.values), "levels {} instead of {}", sorted(l[0] for l in levels), comp.values)
    levels.sort()
    for (e, _, right), (f, left, _) in zip(levels, levels[1:]):
        expect(e != f or left > right, "two levels of energy {} are drawn over each other", e)


def check_mesh(mesh, want, what):
    xs, ys, z = mesh
    for (x, y), p in want.items():
        i, j = np.abs(ys - y).argmin(), np.abs(xs - x).argmin()
        off = abs(ys[i] - y) + abs(xs[j] - x)
        expect(off < 0.1 and abs(z[i, j] - p) < 1e-6 + 3 * off, "{}: {} at the site ({}, {}) instead of {}", what, z[i, j], x, y, p)


def check_marks(ax, comp, what):
    """Points, if any, mark the sites."""
    for marks in ax["marks"]:
        expect(marks == sorted(comp.lat.pos), "{}: points at {}, on a lattice of {} x {}", what, marks, comp.lat.W, comp.lat.H)


def check_holes(axes, comp, asked):
    side = int(np.sqrt(asked))
    expect(len(axes) == side ** 2, "{} graphs instead of {}", len(axes), side ** 2)
    for k, ax in enumerate(axes):
        if k >= comp.nb:
            expect(not ax["meshes"], "something is drawn for the state {} of {}", k, comp.nb)
            continue
        expect(len(ax["meshes"]) == 1 and str(k) in ax["title"], "state {}: {} densities, title {!r}", k, len(ax["meshes"]), ax["title"])
        check_mesh(ax["meshes"][0], comp.probability(k, 0), "holes of the state {}".format(k))
        check_marks(ax, comp, "holes of the state {}".format(k))


def check_electrons(axes, comp, state):
    drawn = [ax for ax in axes if ax["title"]]
    expect(len(drawn) == 3 and all(len(ax["meshes"]) == 1 for ax in drawn), "{} graphs", len(drawn))
    up, down = comp.probability(state, 1), comp.probability(state, -1)
    for ax, want, what in zip(drawn, (up, down, {s: up[s] - down[s] for s in up}), ("up", "down", "difference")):
        check_mesh(ax["meshes"][0], want, "state {}: {}".format(state, what))
        check_marks(ax, comp, "state {}: {}".format(state, what))


def check_amplitudes(axes, comp, asked):
    side = int(np.sqrt(asked))
    expect(len(axes) == side ** 2, "{} graphs instead of {}", len(axes), side ** 2)
    for k, ax in enumerate(axes):
        if k >= comp.nb:
            expect(not ax["lines"], "something is drawn for the state {} of {}", k, comp.nb)
            continue
        expect(len(ax["lines"]) == 1 and str(k) in ax["title"], "state {}: {} lines, title {!r}", k, len(ax["lines"]), ax["title"])
        x, y = ax["lines"][0]
        w = np.abs(comp.v[:, k])
        expect(x[0] <= 0 and x[-1] >= w.max() - 1e-9, "state {}: thresholds from {} to {} for amplitudes up to {}", k, x[0], x[-1], w.max())
        low, high = (w[None, :] >= x[:, None] + 1e-12).sum(axis=1), (w[None, :] >= x[:, None] - 1e-12).sum(axis=1)
        bad = np.flatnonzero((y < low) | (y > high))
        if len(bad):
            expect(False, "state {}: {} determinants at the threshold {} instead of {}", k, y[bad[0]], x[bad[0]], low[bad[0]])


def check_embedding(axes, one, two, count):
    expect(len(axes) == 1 and len(axes[0]["bars"]) == 2, "{} graphs", len(axes))
    for bars, comp, what in zip(axes[0]["bars"], (one, two), ("isolated", "embedded")):
        heights = [h for _, h in sorted(bars)]
        want = np.sort(comp.v[:, 0] ** 2)[::-1][:count]
        expect(len(heights) == count and np.allclose(heights, want, rtol=0, atol=1e-12), "{}: weights {} instead of {}", what, heights, want)
        expect(len(set(x for x, _ in bars)) == count, "{}: bars over each other", what)


# sub-checks

def spectrum(case, ctx):
    comp = Computation(case)
    if case["asked"] % 2:   # energies in any order
        comp.values = np.random.default_rng(case["seed"]).permutation(comp.values).tolist()
    folders(comp.lat)
    data = comp.make(case)
    with figures() as taken:
        plots().save_spectrum(data)
    check_spectrum(only(taken, comp.folder("Spectrum", comp.name()), "spectrum"), comp)
    expect(data.eigenstates.eigvals == comp.values, "the energies are modified")
    ctx.tag("repeated" if len(set(comp.values)) < len(comp.values) else "distinct")
    ctx.interesting(len(set(comp.values)) < len(comp.values))


def hole_name(comp, case):
    chosen = dict(gens.selected(comp.sel), bV_embedding=bool(case.get("bve", 0)))
    letters = {"bt": "t", "bij": "J", "bSD": "SD", "btN": "tN", "bV": "V", "bV_embedding": "emb"}
    return comp.name("Full.png" if all(chosen.values()) else "".join(letters[k] for k in sorted(letters) if chosen[k]) + ".png")


def densities(case, ctx):
    comp = Computation(case)
    folders(comp.lat, case["folders"])
    data = comp.make(case)
    with figures() as taken:
        if case["what"] == "holes":
            plots().save_hole_probability_lattice(data, case["asked"])
        else:
            plots().save_electron_probability_lattice(data, case["state"])
    if case["what"] == "holes":
        check_holes(only(taken, comp.folder("HolePresenceProbability", hole_name(comp, case)), "holes"), comp, case["asked"])
        spread = [comp.probability(k, 0) for k in range(min(comp.nb, case["asked"]))]
    elif case["state"] < comp.nb:
        where = "GroundState" if case["state"] == 0 else "Excited{}".format(case["state"])
        check_electrons(only(taken, comp.folder("SpinDistribution", where, comp.name()), "electrons"), comp, case["state"])
        spread = [comp.probability(case["state"], 1)]
    else:
        expect(not taken.written, "a state which does not exist is drawn: {}", list(taken.written))
        spread = [{0: 0}]
    ctx.tag(case["what"], "square" if comp.lat.W == comp.lat.H else "oblong")
    ctx.interesting(any(np.ptp(list(p.values())) > 1e-3 for p in spread))


def amplitudes(case, ctx):
    comp, other = Computation(case), Computation(case, salt=1)
    folders(comp.lat, case["folders"])
    if case["what"] == "repartition":
        with figures() as taken:
            plots().plot_determinants_amplitude_repartition(comp.make(case), case["asked"])
        check_amplitudes(only(taken, comp.folder("DeterminantsAmplitude", comp.name()), "amplitudes"), comp, case["asked"])
    else:
        count = 1 + case["asked"] % len(comp.dets)
        with figures() as taken:
            plots().plot_embedding_effect_on_determinants(comp.make(case), other.make(case), count)
        expect(set(taken.written) == {comp.folder("AmplitudesStaticEmbeddingNeel", comp.name(e)) for e in (".png", ".pdf")}, "written to {}", list(taken.written))
        for axes in taken.written.values():
            check_embedding(axes, comp, other, count)
    ctx.tag(case["what"], "equal weights" if case["flat"] else "distinct weights")
    ctx.interesting(len(comp.dets) > 2)


def dispatch(case, ctx):
    """Every plot asked, and no other, for the sector or for all those with as many holes, from the saved computations."""
    lat = gens.lattice(case["g"])
    flags = case["flags"]
    emb = {"bool_" + k + "_embedding": bool(flags[k]) for k in ("neel", "static", "dynamic", "neighbor")}
    folders(lat, case["folders"])
    h = case["sector"][0]
    sectors = [[h, b] for b in range(lat.n - h + 1)] if case["all"] else [case["sector"]]
    comps = {}
    embedded = flags["neel"] or flags["static"] or flags["dynamic"]
    os.makedirs("initialComputations/Embedding_blocks")
    for sector in sectors:
        comp, other = Computation(case, sector, 0), Computation(case, sector, 1)
        comps[tuple(sector)] = comp, other
        tail = c23.file_name(lat.n, comp.a, comp.b, case["sel"])
        repo.iC.save_data(other.make(case))
        prefix = "tJHam" + "-dyn" * flags["dynamic"] + "-neel" * flags["neel"] + "-neigh" * flags["neighbor"]
        os.replace("initialComputations/" + tail, "initialComputations/Embedding_blocks/" + prefix + tail[len("tJHam"):])
        repo.iC.save_data(comp.make(case))
    pP = plots()
    asked = pP.InputPlotting(nb_excited=case["excited"], nb_plot=case["asked"], bool_spectrum=bool(flags["spectrum"]), bool_holes=bool(flags["holes"]),
                             bool_electrons=bool(flags["electrons"]), bool_determinants=bool(flags["determinants"]), **emb)
    first = Computation(case, sectors[0])
    data = first.make(case).data
    with figures() as taken:
        if case["all"]:
            pP.generate_plots(data, asked)
        else:
            pP.generate_plots_configuration(data, asked)
    got, wanted = taken.written, set()

    def figure(path):
        wanted.add(path)
        expect(path in got, "{} is not written; {} are", path, list(got))
        return got[path]
    for comp, other in comps.values():
        if flags["spectrum"]:
            check_spectrum(figure(comp.folder("Spectrum", comp.name())), comp)
        if flags["holes"] and comp.h:
            check_holes(figure(comp.folder("HolePresenceProbability", hole_name(comp, case))), comp, case["asked"])
        if flags["electrons"] and comp.a and comp.b:
            for k in range(min(case["excited"], comp.nb)):
                check_electrons(figure(comp.folder("SpinDistribution", "Excited{}".format(k) if k else "GroundState", comp.name())), comp, k)
        if flags["determinants"]:
            check_amplitudes(figure(comp.folder("DeterminantsAmplitude", comp.name())), comp, case["asked"])
        if embedded:
            for end in (".png", ".pdf"):
                check_embedding(figure(comp.folder("AmplitudesStaticEmbeddingNeel", comp.name(end))), comp, other, min(len(comp.dets), 30))
    expect(set(got) == wanted, "also written: {}", sorted(set(got) - wanted))
    ctx.tag("all sectors" if case["all"] else "one sector", *[k for k in flags if flags[k]])
    ctx.interesting(sum(flags.values()) > 1)


def wide(g):
    lat = gens.lattice(g)
    return min(lat.W, lat.H) >= 2


@st.composite
def cases(draw, tier, cap, what=None, sites=12):
    need_wide = what in ("densities", "dispatch")
    g = draw(gens.geometry(sites, ("rect",) if need_wide else gens.KINDS).filter(lambda g: wide(g) or not need_wide))
    n = gens.lattice(g).n
    case = {"g": g, "sector": draw(gens.sector(n, cap)), "sel": draw(gens.selection()), "R": draw(gens.any_restriction(n)), "bve": draw(st.integers(0, 1)), "seed": draw(gens.seed), "nb": draw(st.integers(1, 6) if what else st.one_of(st.integers(1, 16), st.integers(17, 100))),
            "many": not what and draw(st.booleans()), "unit": 0 if what else draw(st.sampled_from([0, 0, -9, -15, 4])), "close": draw(st.sampled_from([0, 0, 2, 4, 7, 10])), "values": draw(st.lists(st.one_of(gens.value(), st.sampled_from([-1.5, 0.25])), min_size=1, max_size=6 if what else 10)), "folders": draw(st.booleans()), "flat": draw(st.integers(0, 3)) == 0,
            "asked": draw(st.integers(1, 10))}
    if what == "densities":
        case["what"] = draw(st.sampled_from(["holes", "electrons"]))
        case["state"] = draw(st.integers(0, case["nb"]))
    if what == "amplitudes":
        case["what"] = draw(st.sampled_from(["repartition", "embedding", "embedding"]))
        case["asked"] = draw(st.integers(1, 9 if case["what"] == "repartition" else 40))
    if what == "dispatch":
        case["all"] = draw(st.booleans())
        if case["all"]:
            case["sector"][0] = draw(st.sampled_from([h for h in range(n + 1) if max(model.dimension(n, h, b) for b in range(n - h + 1)) <= cap]))
            case["sector"][1] = 0
        case["flags"] = {k: draw(st.integers(0, 1)) for k in ("spectrum", "holes", "electrons", "determinants", "neel", "static", "dynamic", "neighbor")}
        case["excited"] = draw(st.integers(0, 4))
        case["asked"] = draw(st.integers(1, 4))
    return case


SUBS = [
    Sub("spectrum", spectrum, lambda tier: cases(tier, 120), quick=200, thorough=4000, shards=2, files=True),
    Sub("densities", densities, lambda tier: cases(tier, 40, "densities"), quick=120, thorough=2000, shards=6, files=True),
    Sub("amplitudes", amplitudes, lambda tier: cases(tier, 40, "amplitudes"), quick=120, thorough=2000, shards=6, files=True),
    Sub("dispatch", dispatch, lambda tier: cases(tier, 100, "dispatch"), quick=64, thorough=800, shards=8, files=True),
]
