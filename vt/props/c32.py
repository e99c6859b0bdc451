"""C32: each step of a session gives what it gives on its own."""
import copy
import json
import os
import pickle
import random
import shutil
import signal
import traceback

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect
from . import c23, c28, c29

RULE = "a session of computations, saves, loads, embeddings, plots and edits of the inputs, on one or two systems whose objects are kept " \
    "from a step to the next (and may be shared), in one process and directory; non-trivial when at least two steps other than the " \
    "first really run, on data computed, loaded or edited before; oracle: each step run alone in a fresh process, on copies of " \
    "the files it uses and objects made anew from the parameters (values which depend on the random start there are not judged); the objects " \
    "of the user, bit for bit, before and after each step"

SECONDS = 100
LARGE = 70   # determinants in a sector


# systems ------------------------------------------------------------------------------------------------------------

class Model:
    """Parameters of the systems, as the user knows them: {store: values} and which store each system uses."""
    def __init__(self, case):
        self.stores, self.systems = {}, []
        for k, s in enumerate(case["systems"]):
            own = {}
            for name in ("c", "sel", "diag"):
                own[name] = 0 if case["shared"] and k else k
                self.stores.setdefault((name, own[name]), list(s[name]))
            self.systems.append({"g": s["g"], "sector": list(s["sector"]), "R": s["R"], "own": own})
        self.next = len(case["systems"])
        self.files = {}

    def parameters(self, k):
        s = self.systems[k]
        return {"g": s["g"], "sector": list(s["sector"]), "R": s["R"], **{n: list(self.stores[n, s["own"][n]]) for n in ("c", "sel", "diag")}}

    def adopt(self, k, p):
        self.systems[k] = {"g": p["g"], "sector": list(p["sector"]), "R": p["R"], "own": {n: self.next for n in ("c", "sel", "diag")}}
        for n in ("c", "sel", "diag"):
            self.stores[n, self.next] = list(p[n])
        self.next += 1

    def edit(self, k, what, value):
        if what == "sector":
            n, h, b = gens.lattice(self.systems[k]["g"]).n, *value
            self.systems[k]["sector"] = [h, b]
        else:
            store = self.stores[what, self.systems[k]["own"][what]]
            store[value[0]] = value[1]

    def saved(self, k, op):
        """{file: parameters} that the step writes."""
        p = self.parameters(k)
        n, (h, b) = gens.lattice(p["g"]).n, p["sector"]
        name = c23.file_name(n, n - h - b, b, p["sel"])
        if op[0] == "compute":
            return {name: p} if len(op) < 3 else {}
        if op[0] == "sectors":
            return {c23.file_name(n, a, n - h - a, p["sel"]): dict(p, sector=[h, n - h - a]) for a in range(n - h + 1)}
        if op[0] == "neel":
            return {"Peripheral_embedding/" + name: p}
        if op[0] == "blocks":
            return {"Embedding_blocks/" + "tJHam" + "-dyn" * op[2]["dynamic"] + "-neel" * op[2]["neel"] + "-neigh" * op[2]["neighbor"] + name[len("tJHam"):]: p}
        return {}

    def read(self, k, op):
        """The saved files that the step is documented to use."""
        p = self.parameters(k)
        n, (h, b) = gens.lattice(p["g"]).n, p["sector"]
        name = c23.file_name(n, n - h - b, b, p["sel"])
        if op[0] == "load":
            return {op[2]}
        if op[0] == "neel":
            return {name}
        if op[0] == "blocks":
            return {"Peripheral_embedding/" * bool(op[2]["neel"]) + name}
        if op[0] in ("plot", "plot_all"):
            names = [name] if op[0] == "plot" else [c23.file_name(n, a, n - h - a, p["sel"]) for a in range(n - h + 1)]
            prefix = "Embedding_blocks/" + "tJHam" + "-dyn" * op[2]["dynamic"] + "-neel" * op[2]["neel"] + "-neigh" * op[2]["neighbor"]
            return set(names) | {prefix + x[len("tJHam"):] for x in names}
        return set()


def configuration(p):
    return gens.lattice(p["g"]).configuration(*p["sector"], p["R"])


def diagonalization(p):
    nb, tol = p["diag"]
    return repo.dav.Diagonalization(nb, 400, tol, 100, None)


class Objects:
    """What the user holds: a Data for each system."""
    def __init__(self, model_):
        made = {}
        self.data = []
        for k, s in enumerate(model_.systems):
            p = model_.parameters(k)
            for n, make in (("c", lambda: gens.interactions(p["c"])), ("sel", lambda: gens.booleans(p["sel"])), ("diag", lambda: diagonalization(p))):
                if (n, s["own"][n]) not in made:
                    made[n, s["own"][n]] = make()
            self.data.append(repo.iC.Data(configuration(p), made["c", s["own"]["c"]], made["diag", s["own"]["diag"]], made["sel", s["own"]["sel"]]))

    def edit(self, k, what, value, p):
        d = self.data[k]
        if what == "sector":
            d.configuration = configuration(p)
        elif what == "c":
            setattr(d.interactions, model.COEFFS[value[0]], value[1])
        elif what == "sel":
            setattr(d.bool_interactions, model.TERMS[value[0]], bool(value[1]))
        else:
            setattr(d.diagonalization, ("nb_val", "tol")[value[0]], value[1])


# steps --------------------------------------------------------------------------------------------------------------

def squares(vects):
    return np.asarray(vects, dtype=float) ** 2   # without their signs


def picture(comp):
    """What a computation holds, in comparable form."""
    conf, d = comp.data.configuration, comp.data
    ham = comp.hamiltonian.tocsr()
    return {"configuration": c28.freeze({k: v for k, v in vars(conf).items() if k != "sites_restriction"}), "restriction": [list(r) for r in conf.sites_restriction],
            "interactions": dict(vars(d.interactions)), "selection": dict(vars(d.bool_interactions)), "diagonalization": dict(vars(d.diagonalization)),
            "determinants": [list(x) for x in comp.determinants], "hamiltonian": ham.toarray(), "energies": np.asarray(comp.eigenstates.eigvals, dtype=float),
            "spins": [float(s) if s != "-" else s for s in comp.eigenstates.spins], "states": squares(comp.eigenstates.eigvects)}


def do(op, data):
    """Runs one step; returns (what it returns, figures)."""
    import embedding as emb
    name = op[0]
    with c29.figures(close=False) as taken:
        if name == "compute":
            comp = repo.iC.perform_initial_computations(data)
            if len(op) < 3:
                repo.iC.save_data(comp)
            out = picture(comp)
        elif name == "sectors":
            out = repo.iC.perform_configurations_computations(data)
        elif name == "load":
            out = picture(repo.iC.load_data(op[2]))
        elif name == "neel":
            out = picture(emb.embedding_neel(data, 1e-6, op[2][0], op[2][1]))
        elif name == "blocks":
            f = op[2]
            out = picture(emb.embedding_blocks(data, 1e-6, f["steps"], bool(f["dynamic"]), bool(f["neel"]), bool(f["neighbor"]), reverse_spins=bool(f["reverse"])))
        elif name == "map":
            out = c29.plots().save_phase_space(data, op[2], 2, 1)
        else:
            pP = c29.plots()
            f = op[2]
            asked = pP.InputPlotting(nb_excited=f["excited"], nb_plot=f["asked"], bool_spectrum=bool(f["spectrum"]), bool_holes=bool(f["holes"]), bool_electrons=bool(f["electrons"]),
                                     bool_determinants=bool(f["determinants"]), **{"bool_" + e + "_embedding": bool(f[e]) for e in ("neel", "static", "dynamic", "neighbor")})
            out = (pP.generate_plots if name == "plot_all" else pP.generate_plots_configuration)(data, asked)
    return out, dict(taken.written)


def attempt(op, data, seed):
    random.seed(seed)
    np.random.seed(seed)
    try:
        return ("done",) + do(op, data)
    except Exception as exc:
        return ("raises", type(exc).__name__, {})


def files():
    """{path: bytes} of the directory."""
    out = {}
    for here, _, names in os.walk("."):
        for name in names:
            path = os.path.normpath(os.path.join(here, name))
            with open(path, "rb") as f:
                out[path] = f.read()
    return out


def lay(tree, folders_):
    for f in folders_:
        os.makedirs(f, exist_ok=True)
    for path, content in tree.items():
        os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
        with open(path, "wb") as f:
            f.write(content)


def written(before, after):
    return {p: c for p, c in after.items() if before.get(p) != c}


def forked(what):
    """Runs what() in a fresh process, in a directory of its own."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(read)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, SECONDS)
            try:
                data = pickle.dumps((what(), None))
            except BaseException as exc:
                data = pickle.dumps((None, "".join(traceback.format_exception(exc)[-5:])))
            with os.fdopen(write, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(write)
    with os.fdopen(read, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    expect(data, "no result after {} CPU seconds", SECONDS)
    result, error = pickle.loads(data)
    expect(error is None, "unexpected exception\n{}", error)
    return result


def place(name):
    os.mkdir(name)
    os.chdir(name)


def saved_files():
    return sorted(p[len("initialComputations/"):] for p in files() if p.startswith("initialComputations/"))


def session(case, folders_):
    """Runs all the steps; returns for each that ran the operation, what it gives, the files before and after it, and what it changed."""
    place("session")
    lay({}, folders_)
    m, out = Model(case), []
    held = Objects(m)
    for i, op in enumerate(case["steps"]):
        op = [op[0], op[1] % len(case["systems"])] + op[2:]
        k = op[1]
        if op[0] in ("load", "adopt"):
            found = saved_files()
            if not found:
                continue
            op[2] = found[op[2] % len(found)]
        if op[0] == "edit":
            m.edit(k, op[2], op[3])
            held.edit(k, op[2], op[3], m.parameters(k))
            out.append((i, op, None))
            continue
        if op[0] == "adopt":
            held.data[k] = repo.iC.load_data(op[2]).data
            m.adopt(k, m.files[op[2]])
            out.append((i, op, None))
            continue
        before = files()
        kept = [c28.freeze(d) for d in held.data]
        got = attempt(op, held.data[k], i)
        changed = ["system {}: {}".format(j, name) for j, (d, old) in enumerate(zip(held.data, kept)) for (name, now), (_, was) in zip(c28.freeze(d)[2:], old[2:]) if not c28.same(now, was)]
        after = files()
        out.append((i, op, (copy.deepcopy(m), got, before, after, changed)))
        for path, p in m.saved(k, op).items():
            if path in saved_files() and (got[0] == "done" or before.get("initialComputations/" + path) != after["initialComputations/" + path]):
                m.files[path] = p
    return out


def alone(op, m, before, folders_, seed, name):
    place(name)
    lay(before, folders_)
    p = m.parameters(op[1])
    data = repo.iC.Data(configuration(p), gens.interactions(p["c"]), diagonalization(p), gens.booleans(p["sel"]))
    got = attempt(op, data, seed)
    return got, files()


class Brief:
    """Written only when it is shown."""
    def __init__(self, x):
        self.x = x

    def __format__(self, spec):
        return str(self.x)[:300]


# comparison ---------------------------------------------------------------------------------------------------------

def compare(a, b, other, what):
    """a is b up to rounding, except where b and other (from another random start) are not the same."""
    if isinstance(b, dict):
        expect(isinstance(a, dict) and set(a) == set(b), "{}: {} instead of {}", what, sorted(a) if isinstance(a, dict) else a, sorted(b))
        for key in b:
            if isinstance(other, dict) and key in other:
                compare(a[key], b[key], other[key], "{}: {}".format(what, key))
        return
    if isinstance(b, (list, tuple)) and not numeric(b):
        if isinstance(other, (list, tuple)) and len(other) == len(b):
            expect(isinstance(a, (list, tuple)) and len(a) == len(b), "{}: {} instead of {}", what, Brief(a), Brief(b))
            for k, (x, y, z) in enumerate(zip(a, b, other)):
                compare(x, y, z, "{}[{}]".format(what, k))
        return
    if isinstance(b, (int, float, np.ndarray, list, tuple)) and not isinstance(b, bool):
        x, y, z = np.asarray(a, dtype=float) if numeric(a) else None, np.asarray(b, dtype=float), np.asarray(other, dtype=float) if numeric(other) else None
        if z is None or z.shape != y.shape:
            return
        expect(x is not None and x.shape == y.shape, "{}: {} instead of {}", what, Brief(a), Brief(b))
        scale = 1 + np.abs(y[np.isfinite(y)]).max(initial=0)
        sure = (np.abs(y - z) <= 1e-5 * scale) | ~np.isfinite(y - z)
        far = ~((np.abs(x - y) <= 1e-3 * scale) | (np.isnan(x) & np.isnan(y)) | (x == y))
        expect(not (sure & far).any(), "{}: {} instead of {}", what, Brief(x[sure & far]), Brief(y[sure & far]))
        return
    if b == other:
        expect(type(a) is type(b) and a == b, "{}: {} instead of {}", what, Brief(a), Brief(b))


def numeric(x):
    if isinstance(x, np.ndarray):
        return x.dtype.kind in "fiub"
    if isinstance(x, (list, tuple)):
        try:
            return len(x) > 0 and np.asarray(x).dtype.kind in "fiu"
        except ValueError:
            return False
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def parsed(path, content):
    if not path.endswith(".json"):
        return content.hex()
    d = json.loads(content)
    d.pop("times", None)
    ham = d.pop("hamiltonian")
    n = d["configuration"]["nb_conf"]
    d["hamiltonian"] = sp.csr_matrix((ham["data"], ham["indices"], ham["indptr"]), shape=(n, n)).toarray()
    d["eigenstates"]["eigvects"] = squares(d["eigenstates"]["eigvects"])
    return d


def own(m, op, before, after, what):
    """The step saved its own computations, and no others, with the parameters of the user."""
    saved = {os.path.normpath("initialComputations/" + p): q for p, q in m.saved(op[1], op).items()}
    changed = {p for p in written(before, after) if p.startswith("initialComputations")}
    expect(changed <= set(saved) <= set(after), "{}: it saved {} instead of {}", what, sorted(changed), sorted(saved))
    for path, p in saved.items():
        d, conf = json.loads(after[path]), configuration(p)
        for key, want in (("configuration", json.loads(json.dumps(conf.__to_json__()))), ("interactions", vars(gens.interactions(p["c"]))), ("bool_interactions", vars(gens.booleans(p["sel"])))):
            expect(d[key] == want, "{}: {} saved with {} {} instead of {}", what, path, key, d[key], want)


def shape(p):
    return "system {} {} R={} selection={}".format(p["g"], p["sector"], p["R"], p["sel"])


def sessions(case, ctx):
    import embedding   # the modules are loaded once; no function of theirs is called in this process
    c29.plots()
    folders_ = ["initialComputations"]
    for s in case["systems"]:
        base = "tJ-HamCsr/tJ-H{}/".format(gens.lattice(s["g"]).n)
        folders_ += [base + name for name in ("Spectrum", "DeterminantsAmplitude", "SpinDistribution", "PhaseDiagrams")]
    got = forked(lambda: session(case, folders_))
    ran, told = 0, []
    for i, op, here in got:
        told.append(op[0] if op[0] != "edit" else "edit " + op[2])
        if here is None:
            ctx.tag(told[-1])
            continue
        m, (status, value, figures), before, after, changed = here
        what = "step {} of {} ({})".format(i, told, shape(m.parameters(op[1])))
        expect(not changed, "{} changed {}", what, changed)
        given = {p: c for p, c in before.items() if p in {os.path.normpath("initialComputations/" + x) for x in m.read(op[1], op)}}
        runs = []
        for s in (i, 1000 + i)[:1 if op[0] in ("load", "plot", "plot_all") else 2]:
            runs.append(forked(lambda: alone(op, m, given, folders_, s, "alone")))
            shutil.rmtree("alone", ignore_errors=True)
        (first_run, first_files), (other_run, other_files) = runs[0], runs[-1]
        if first_run[0] != other_run[0]:
            continue
        expect(status == first_run[0], "{}: {} {} but alone {} {}", what, status, value if status == "raises" else "", first_run[0], first_run[1] if first_run[0] == "raises" else "")
        compare(value, first_run[1], other_run[1], what + ": returned")
        compare(figures, first_run[2], other_run[2], what + ": figures")
        one, two = written(before, after), written(given, first_files)
        expect(set(after) == set(first_files) | set(before), "{}: the files are {} instead of {}", what, sorted(after), sorted(set(first_files) | set(before)))
        for path in sorted(set(one) | set(two)):
            compare(parsed(path, after[path]), parsed(path, first_files[path]), parsed(path, other_files.get(path, first_files[path])), "{}: file {}".format(what, path))
        if status == "done":
            own(m, op, before, after, what)
        ctx.tag(op[0] if status == "done" else op[0] + " raises")
        if i and status == "done":
            ran += 1
    ctx.tag("systems={}".format(len(case["systems"])), "shared" if case["shared"] else "own objects")
    ctx.interesting(ran >= 2)


# generation ---------------------------------------------------------------------------------------------------------

@st.composite
def system(draw, small):
    square = draw(st.integers(0, 2)) > 0
    if square:
        g = draw(st.sampled_from([["rect", 2, 2, 1], ["rect", 1, 1, 2]]))
    else:
        g = draw(gens.geometry(6, ("rect", "rect", "ring", "two") if not small else ("rect",), min_sites=3).filter(lambda g: g[0] != "rect" or (g[1] + g[2]) * g[3] <= 5))
    n = gens.lattice(g).n
    R = draw(st.one_of(st.none(), st.none(), gens.any_restriction(n)))
    return {"g": g, "sector": draw(gens.sector(n, LARGE)), "R": R, "c": draw(gens.distinct_coefficients()), "sel": draw(st.one_of(st.just([1] * 6), gens.selection())),
            "diag": [draw(st.integers(1, 4)), draw(st.sampled_from([1e-8, 1e-9]))]}


@st.composite
def plot_flags(draw):
    f = {k: draw(st.integers(0, 1)) for k in ("spectrum", "holes", "electrons", "determinants")}
    f.update(dict.fromkeys(("neel", "static", "dynamic", "neighbor"), 0), excited=draw(st.integers(1, 2)), asked=draw(st.integers(1, 4)))
    return f


def edit_value(draw, what, lat, now, k):
    if what == "c":
        return [draw(st.integers(0, 9)), draw(st.integers(1, 60)) / 8 * draw(st.sampled_from([1, -1]))]
    if what == "sel":
        return [draw(st.integers(0, 5)), draw(st.integers(0, 1))]
    if what == "diag":
        return [0, draw(st.integers(1, 4))]
    now[k] = draw(gens.sector(lat.n, LARGE))
    return list(now[k])


@st.composite
def case(draw, tier):
    count = draw(st.sampled_from([1, 2, 2]))
    systems = [draw(system(False)) for _ in range(count)]
    how = draw(st.integers(0, 3))
    if count == 2 and how == 3:   # a lattice of the same size
        n = gens.lattice(systems[0]["g"]).n
        others = [g for kind in gens.KINDS for g in gens.geometries(kind, 12) if gens.lattice(g).n == n and (g[0] != "rect" or (g[1] + g[2]) * g[3] <= 5) and n <= (6 if g[0] == "rect" else 10)]
        if systems[0]["g"][0] == "rect" and draw(st.integers(0, 2)):
            others = [g for g in others if g[0] == "rect" and gens.lattice(g).W != gens.lattice(systems[0]["g"]).W] or others
        systems[1]["g"] = draw(st.sampled_from(others))
        systems[1]["R"] = draw(st.sampled_from([None, systems[0]["R"]]))
        systems[1]["sector"] = list(systems[0]["sector"]) if draw(st.booleans()) else draw(gens.sector(n, LARGE))
    elif count == 2 and how:   # the same lattice: another sector, or the same one with other couplings
        systems[1]["g"] = systems[0]["g"]
        n = gens.lattice(systems[0]["g"]).n
        systems[1]["R"] = systems[0]["R"] if how == 1 else None
        systems[1]["sector"] = draw(gens.sector(n, LARGE)) if how == 1 else systems[0]["sector"]
    shared = count == 2 and draw(st.booleans())
    steps, ready = [], [set() for _ in systems]
    now = [list(s["sector"]) for s in systems]   # unless one is adopted
    for _ in range(draw(st.integers(3, 9 if tier == "quick" else 16))):
        k = draw(st.integers(0, count - 1))
        g = systems[k]["g"]
        lat = gens.lattice(g)
        flat = g[0] == "rect"
        names = ["compute", "compute", "sectors", "load", "adopt", "edit", "edit", "edit"] + ["neel", "blocks", "blocks", "plot", "plot_all", "map"] * flat
        name = draw(st.sampled_from(names))
        past = [s for s in steps if s[0] not in ("edit", "adopt", "map")]
        if past and count == 2 and draw(st.integers(0, 5)) == 0:   # a step, on the other system
            old = draw(st.sampled_from(past))
            k = 1 - old[1]
            lat, flat = gens.lattice(systems[k]["g"]), systems[k]["g"][0] == "rect"
            if flat or old[0] in ("compute", "sectors"):
                extra = json.loads(json.dumps(old[2:]))
                if old[0] == "blocks":
                    extra[0].update(neighbor=1 if lat.W != lat.H else extra[0]["neighbor"], dynamic=int(extra[0]["dynamic"] and lat.n <= 4 and model.dimension(lat.n, *now[k]) <= 8))
                if old[0] == "plot_all" or (old[0] == "sectors" and max(model.dimension(lat.n, now[k][0], b) for b in range(lat.n - now[k][0] + 1)) > LARGE):
                    continue
                if old[0] in ("neel", "blocks", "plot"):
                    steps.append(["compute", k])
                steps.append([old[0], k] + extra)
            continue
        if past and draw(st.integers(0, 3)) == 0:   # a step once more, after an edit that may matter to it
            old = draw(st.sampled_from(past))
            k = old[1]
            what = draw(st.sampled_from(["c", "diag", "diag", "sel", "none"]))
            if what != "none":
                steps.append(["edit", k, what, edit_value(draw, what, gens.lattice(systems[k]["g"]), now, k)])
            if what in ("c", "sel") and old[0] in ("neel", "blocks", "plot", "plot_all") and draw(st.booleans()):
                steps.append(["sectors" if old[0] == "plot_all" else "compute", k])
            steps.append(list(old))
            continue
        if name == "edit":
            what = draw(st.sampled_from(["c", "c", "sel", "sector", "diag"]))
            value = edit_value(draw, what, lat, now, k)
            steps.append(["edit", k, what, value])
            for j in range(count):
                if j == k or (shared and what != "sector"):
                    ready[j].clear()
            continue
        if name in ("load", "adopt"):
            steps.append([name, k, draw(st.integers(0, 50))])
            if name == "adopt":
                ready[k].clear()
            continue
        if name in ("neel", "blocks", "plot") and not ready[k] and draw(st.integers(0, 7)):
            steps.append(["compute", k])
            ready[k].add("compute")
        if name == "neel":
            steps.append(["neel", k, [draw(st.sampled_from([1, 1, 2, 4])), draw(st.integers(1, 5))]])
            ready[k].add("neel")
        elif name == "blocks":
            square = lat.W == lat.H
            f = {"dynamic": int(lat.n <= 4 and model.dimension(lat.n, *now[k]) <= 8 and draw(st.integers(0, 1))), "neighbor": int(not square or draw(st.booleans())), "reverse": draw(st.integers(0, 1)),
                 "neel": int("neel" in ready[k] and draw(st.booleans())), "steps": draw(st.sampled_from([1, 1, 2, 4]))}
            f["steps"] = 1 if f["dynamic"] else f["steps"]
            steps.append(["blocks", k, f])
            ready[k].add(json.dumps(f))
        elif name == "map":
            if lat.n <= 4:
                steps.append(["map", k, draw(st.integers(0, 1))])
        elif name in ("plot", "plot_all"):
            f = draw(plot_flags())
            if name == "plot_all" and "sectors" not in ready[k]:
                steps.append(["sectors", k])
                ready[k].update(["sectors", "compute"])
            done = [json.loads(x) for x in sorted(ready[k]) if x.startswith("{")]
            if name == "plot" and done and draw(st.booleans()):
                last = draw(st.sampled_from(done))
                f.update(static=1, dynamic=last["dynamic"], neel=last["neel"], neighbor=last["neighbor"])
            steps.append([name, k, f])
        else:
            if name == "sectors" and max(model.dimension(lat.n, now[k][0], b) for b in range(lat.n - now[k][0] + 1)) > LARGE:
                name = "compute"
            if name == "compute" and draw(st.integers(0, 3)) == 0:
                steps.append([name, k, "not saved"])
                continue
            steps.append([name, k])
            ready[k].update(["compute", name])
    return {"systems": systems, "shared": shared, "steps": steps}


@st.composite
def twins(draw, tier):
    """The same step on two systems that differ by one thing, one after the other, then again on the first."""
    theme = draw(st.sampled_from(["compute", "sectors", "neel", "blocks", "blocks", "dynamic", "plot", "map"]))
    small = theme in ("dynamic", "map")
    kinds = gens.KINDS if theme in ("compute", "sectors") else ("rect",)
    fits = [g for kind in kinds for g in gens.geometries(kind, 4 if small else 6 if kind == "rect" else 12) if gens.lattice(g).n >= 2
            and (kind != "rect" or (g[1] + g[2]) * g[3] <= 5) and (theme != "plot" or c29.wide(g))]
    g = draw(st.sampled_from(fits))
    lat = gens.lattice(g)
    cap = 8 if theme == "dynamic" else LARGE if theme != "sectors" else 30
    one = {"g": g, "sector": draw(gens.sector(lat.n, cap)), "R": draw(st.one_of(st.none(), st.none(), gens.any_restriction(lat.n))), "c": draw(gens.distinct_coefficients()),
           "sel": draw(st.one_of(st.just([1] * 6), gens.selection())), "diag": [draw(st.integers(1, 4)), 1e-9]}
    two = json.loads(json.dumps(one))
    same_size = [x for x in fits if gens.lattice(x).n == lat.n and x != g]
    how = draw(st.sampled_from(["shape", "shape", "sector", "reversed", "couplings", "selection", "restriction", "states"] if same_size else ["sector", "reversed", "couplings", "selection", "restriction", "states"]))
    if how == "shape":
        two["g"] = draw(st.sampled_from(same_size))
    elif how == "sector":
        two["sector"] = draw(gens.sector(lat.n, cap))
    elif how == "reversed":
        two["sector"][1] = lat.n - sum(one["sector"])
    elif how == "couplings":
        for i in draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)):
            two["c"][i] = draw(st.integers(1, 60)) / 8 * draw(st.sampled_from([1, -1]))
    elif how == "selection":
        two["sel"][draw(st.integers(0, 5))] ^= 1
    elif how == "restriction":
        two["R"] = draw(gens.any_restriction(lat.n))
    else:
        two["diag"][0] = 1 + one["diag"][0] % 4
    options = {"neel": draw(st.sampled_from([1, 2, 4])), "nb": draw(st.integers(1, 5)), "neighbor": draw(st.integers(0, 1)), "reverse": draw(st.integers(0, 1)), "steps": draw(st.sampled_from([1, 1, 2, 4])),
               "excited": draw(st.integers(0, 1)), "before": draw(st.integers(0, 3)) == 0}
    flags = draw(plot_flags())
    every = all(model.dimension(lat.n, one["sector"][0], b) <= 30 for b in range(lat.n - one["sector"][0] + 1)) and two["sector"][0] == one["sector"][0]
    steps = []
    for k in (0, 1, 0):
        if k == 0 and steps and draw(st.booleans()):
            break
        lat = gens.lattice([one, two][k]["g"])
        if theme == "compute":
            steps.append(["compute", k] + ["not saved"] * (options["excited"] and draw(st.booleans())))
        elif theme == "sectors":
            steps.append(["sectors" if every else "compute", k])
        elif theme == "map":
            steps.append(["map", k, options["excited"]])
        else:
            steps.append(["compute", k])
            if theme == "neel" or options["before"]:
                steps.append(["neel", k, [options["neel"], options["nb"]]])
            if theme in ("blocks", "dynamic"):
                f = {"dynamic": int(theme == "dynamic"), "neighbor": int(gens.lattice(one["g"]).W != gens.lattice(one["g"]).H or gens.lattice(two["g"]).W != gens.lattice(two["g"]).H or options["neighbor"]),
                     "reverse": options["reverse"], "neel": int(options["before"]), "steps": 1 if theme == "dynamic" else options["steps"]}
                steps.append(["blocks", k, f])
            elif theme == "plot":
                steps.append(["plot", k, dict(flags)])
        if k == 0 and draw(st.integers(0, 3)) == 0:
            steps.append(["edit", 0, "c", [draw(st.integers(0, 9)), draw(st.integers(1, 60)) / 8]])
    return {"systems": [one, two], "shared": False, "steps": steps}


SUBS = [
    Sub("sessions", sessions, case, quick=96, thorough=1200, shards=8, files=True),
    Sub("twins", sessions, twins, quick=160, thorough=2000, shards=8, files=True),
]
