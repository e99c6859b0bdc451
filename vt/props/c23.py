"""C23: saved computations are recovered exactly and remain usable."""
import json
import os

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "a computation: lattice of any kind, sector, active sites (none, one list, or a pair of lists), any finite coefficients, selection, " \
    "settings, spectrum and vectors with any finite floats; or a sequence of saves and loads of several of them; non-trivial when it has " \
    "a restriction, another type of lattice or a partial selection (single), or when a name is saved twice and loaded later (sequences); " \
    "oracle: field by field, bit by bit comparison with the original, operations on both, a dictionary keyed by fillings and selection"

LETTERS = (("bSD", "SD"), ("bV", "V"), ("bij", "J"), ("bt", "t"), ("btN", "tN"))


def file_name(n, alpha, beta, sel):
    chosen = gens.selected(sel)
    tail = "Full" if all(chosen.values()) else "".join(text for key, text in LETTERS if chosen[key])
    return "tJHam-{}{}{}{}.json".format(n, alpha, beta, tail)


def floats():
    return st.one_of(gens.value(), st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([-0.0, 5e-324, 1.7976931348623157e308, 0.1 + 0.2]))


def restriction(spec):
    return tuple(map(list, spec)) if spec and isinstance(spec[0], list) else (list(spec) if spec else [])


def make(case):
    lat = gens.lattice(case["g"])
    h, b = case["sector"]
    kind = {"rect": "periodic", "ring": "peripheral", "two": "clusters"}[lat.kind]
    conf = repo.bC.Configuration(lat.bond_matrix(), h, b, restriction(case["R"]), kind, lat.nbh * (2 if lat.kind == "two" else 1), lat.nbv, lat.nb)
    basis = repo.bC.construct_basis(conf)
    inter = gens.interactions(case["c"])
    boole = gens.booleans(case["sel"], bV_embedding=case["bve"], b_spin_multipicities=case["bmult"])
    ham = repo.hC.build_hamiltonian(conf, gens.interactions(case["hc"]), basis, boole)
    dim = conf.nb_conf
    nb = min(case["nb"], dim)
    rng = np.random.default_rng(case["seed"])
    vects = rng.normal(size=(dim, nb)) * 10.0 ** rng.integers(-300, 300, (dim, nb)) if case["wild"] else rng.normal(size=(dim, nb))
    diag = repo.dav.Diagonalization(case["nb"], case["stp"], case["tol"], case["dim_max"], None if case["guess"] == 0 else np.ones((dim, nb)))
    eig = repo.dav.Eigenstates((case["vals"] * nb)[:nb], [0.5 * (k % 4) for k in range(nb)] if case["bmult"] else [], vects)
    times = repo.iC.Times(*case["times"]) if case["times"] else repo.iC.Times(0.0, 0.0, 0.0)
    return repo.iC.DataComputations(repo.iC.Data(conf, inter, diag, boole), basis.determinants, ham, eig, times)


def bits(x):
    return np.asarray(x, dtype=float).tobytes()


def pair_of_lists(r):
    return [list(map(int, part)) for part in r]


def snapshot(comp):
    """Everything of a computation that has to survive, in comparable form."""
    conf = comp.data.configuration
    ham = comp.hamiltonian.tocsr()
    out = {"conf." + k: getattr(conf, k) for k in ("nsites", "nholes", "nbeta", "nalpha", "spin_number", "doping", "nb_conf", "lattice_type", "nbh", "nbv", "nblocs_side")}
    out["conf.bond_matrix"] = (conf.bond_matrix.shape, bits(conf.bond_matrix))
    out["conf.sites_restriction"] = (type(conf.sites_restriction).__name__, pair_of_lists(conf.sites_restriction))
    out.update({"interactions." + k: (float(getattr(comp.data.interactions, k)), bits(getattr(comp.data.interactions, k))) for k in model.COEFFS})
    out.update({"bool." + k: getattr(comp.data.bool_interactions, k) for k in model.TERMS + ("bV_embedding", "b_spin_multipicities")})
    out.update({"diagonalization." + k: getattr(comp.data.diagonalization, k) for k in ("nb_val", "stp", "tol", "dim_max")})
    out["determinants"] = [list(d) for d in comp.determinants]
    out["hamiltonian"] = (ham.shape, bits(ham.toarray()))
    out["eigvals"] = bits(comp.eigenstates.eigvals)
    out["spins"] = list(comp.eigenstates.spins)
    out["eigvects"] = (np.asarray(comp.eigenstates.eigvects).shape, bits(comp.eigenstates.eigvects))
    out["times"] = [getattr(comp.times, k) for k in ("tbasis", "thamiltonian", "teigenstates")]
    return out


def same(loaded, want, what):
    got = snapshot(loaded)
    for key in want:
        expect(got[key] == want[key], "{}: {} comes back as {} instead of {}", what, key, str(got[key])[:300], str(want[key])[:300])
    expect(loaded.data.diagonalization.initial_guess is None, "{}: initial guess {}", what, loaded.data.diagonalization.initial_guess)


def results(comp, case):
    """Results of the operations of the program on a computation."""
    conf = comp.data.configuration
    basis = repo.bC.Basis(conf, comp.determinants)
    out = {}
    out["basis"] = repo.bC.construct_basis(conf).determinants
    inter = gens.interactions(case["hc"])
    out["hamiltonian"] = bits(repo.hC.build_hamiltonian(conf, inter, basis, comp.data.bool_interactions).toarray())
    det = comp.determinants[len(comp.determinants) // 2]
    itr = repo.itr
    out["row"] = sorted((tuple(k), float(v)) for k, v in itr.compute_dynamic_interactions(conf, inter, comp.data.bool_interactions, list(det)).items())
    out["energy"] = float(itr.compute_energy(conf, inter, list(det)))
    out["indexes"] = [sorted(repo.bC.get_indexes_of(conf, list(det), s, t)) for s in (-1, 0, 1) for t in (0, 1)]
    turned, reversed_det = repo.bC.reverse_spins(conf, list(det))
    out["reversed"] = (reversed_det, turned.nholes, turned.nbeta, turned.lattice_type)
    out["index"] = repo.bC.get_index_in_basis(conf, list(det))
    v = np.cos(np.arange(1, conf.nb_conf + 1.0)).reshape(-1, 1)
    out["probabilities"] = {k: bits(p) for k, p in repo.bC.get_spins_probabilitites_lattice(basis, v).items()}
    out["dominant"] = repo.bC.get_dominant_determinants(basis, v, 4)
    if conf.lattice_type == "periodic":
        out["shown"] = repo.bC.get_displayable_rectangular_lattice(conf, list(det))
    if conf.lattice_type == "peripheral":
        out["shown"] = repo.bC.get_displayable_outer_embedding_lattice(conf, list(det))
    if conf.nb_conf <= 60:
        out["S2"] = bits(itr.compute_S2(conf, v))
    return out


def single(case, ctx):
    os.mkdir("initialComputations")
    comp = make(case)
    want = snapshot(comp)
    conf = comp.data.configuration
    name = file_name(conf.nsites, conf.nalpha, conf.nbeta, case["sel"])
    repo.iC.save_data(comp)
    expect(os.listdir("initialComputations") == [name], "saved as {} instead of {}", os.listdir("initialComputations"), name)
    loaded = repo.iC.load_data(name)
    same(loaded, want, "loaded")
    before, after = results(comp, case), results(loaded, case)
    for key in before:
        expect(before[key] == after[key], "{} on the loaded computation: {} instead of {}", key, str(after[key])[:300], str(before[key])[:300])
    repo.iC.save_data(loaded)   # a loaded computation can be saved again
    expect(os.listdir("initialComputations") == [name], "saved again as {}", os.listdir("initialComputations"))
    same(repo.iC.load_data(name), want, "loaded again")
    kind = gens.lattice(case["g"]).kind
    ctx.tag(kind, "restricted" if case["R"] else "free", "pair of lists" if case["R"] and isinstance(case["R"][0], list) else "", "full" if all(case["sel"]) else "partial")
    ctx.interesting(conf.nb_conf >= 2 and (bool(case["R"]) or kind != "rect" or not all(case["sel"])))


def large(case, ctx):
    """Many determinants, many elements, many digits."""
    os.mkdir("initialComputations")
    lat = gens.lattice(case["g"])
    h, b = case["sector"]
    conf = lat.configuration(h, b)
    dim, count = conf.nb_conf, case["elements"]
    rng = np.random.default_rng(case["seed"])
    ham = sp.coo_matrix((rng.normal(size=count), (rng.integers(0, dim, count), rng.integers(0, dim, count))), shape=(dim, dim)).tocsr()
    dets = repo.bC.construct_basis(conf).determinants
    vects, vals = rng.normal(size=(dim, case["nb"])), sorted(rng.normal(size=case["nb"]).tolist())
    data = repo.iC.Data(conf, gens.interactions(case["c"]), repo.dav.Diagonalization(case["nb"], 100, 1e-6, 0), gens.booleans(case["sel"]))
    kept = ham.copy(), [list(d) for d in dets], vects.copy()
    repo.iC.save_data(repo.iC.DataComputations(data, dets, ham, repo.dav.Eigenstates(vals, [], vects), repo.iC.Times(1.0, 2.0, 3.0)))
    got = repo.iC.load_data(file_name(conf.nsites, conf.nalpha, conf.nbeta, case["sel"]))
    back = got.hamiltonian.tocsr()
    expect(back.shape == (dim, dim) and back.nnz == kept[0].nnz and (back != kept[0]).nnz == 0, "the Hamiltonian, of {} rows and {} elements, comes back as another of shape {} and {} elements",
           dim, kept[0].nnz, back.shape, back.nnz)
    expect([list(d) for d in got.determinants] == kept[1], "the {} determinants come back as others", dim)
    expect(bits(got.eigenstates.eigvects) == bits(kept[2]) and list(got.eigenstates.eigvals) == vals, "the eigenstates, of {} amplitudes, come back as others", dim)
    expect(got.data.configuration.nb_conf == dim, "{} configurations instead of {}", got.data.configuration.nb_conf, dim)
    ctx.tag("more than 65535 elements" if ham.nnz > 65535 else "large", "more than 32767 determinants" if dim > 32767 else "")
    ctx.interesting(dim > 300)


def large_cases(tier):
    sizes = [(["rect", 3, 4, 1], [2, 2], 90000), (["rect", 5, 2, 1], [1, 4], 140000), (["rect", 13, 1, 1], [2, 5], 150000)]
    if tier != "quick":
        sizes += [(["rect", 4, 3, 1], [1, 5], 400000), (["two", 3, 2, 1], [3, 4], 100000), (["rect", 3, 5, 1], [1, 7], 300000), (["ring", 1, 2, 1], [1, 3], 40000)]
    for k, (g, sector, elements) in enumerate(sizes):
        yield {"g": g, "sector": sector, "elements": elements, "seed": k, "nb": 1 + k % 2, "c": [1.0 / (3 + i) for i in range(10)], "sel": [1] * 6 if k % 2 else [1, 1, 1, 0, 0, 1]}


OPTIONAL = ("times", "lattice_type", "nbh", "nbv", "nblocs_side", "sites_restriction")


def partial(case, ctx):
    """Files without the times or the geometry, which the code accepts: what they hold comes back."""
    os.mkdir("initialComputations")
    comp = make(case)
    want = snapshot(comp)
    repo.iC.save_data(comp)
    name = os.listdir("initialComputations")[0]
    path = os.path.join("initialComputations", name)
    with open(path) as f:
        stored = json.load(f)
    for key, without in zip(OPTIONAL, case["without"]):
        if without:
            (stored if key == "times" else stored["configuration"]).pop(key)
            want.pop(key if key == "times" else "conf." + key)
    with open(path, "w") as f:
        json.dump(stored, f)
    loaded = repo.iC.load_data(name)
    if case["without"][0]:
        expect(loaded.times is None, "times {} out of nothing", loaded.times)
        loaded.times = repo.iC.Times(0.0, 0.0, 0.0)
    same(loaded, want, "loaded without " + ", ".join(k for k, w in zip(OPTIONAL, case["without"]) if w))
    ctx.tag(*["without " + k for k, w in zip(OPTIONAL, case["without"]) if w])
    ctx.interesting(any(case["without"]) and len(comp.determinants) >= 2)


def sequence(case, ctx):
    os.mkdir("initialComputations")
    stored, again, checked = {}, set(), 0
    pool = case["pool"]
    for step, which in case["steps"]:
        item = pool[which % len(pool)]
        lat = gens.lattice(item["g"])
        h, b = item["sector"]
        key = file_name(lat.n, lat.n - h - b, b, item["sel"])
        if step == "save":
            comp = make(item)
            snap = snapshot(comp)
            repo.iC.save_data(comp)
            if key in stored and stored[key] != snap:
                again.add(key)
            stored[key] = snap
        elif key in stored:
            same(repo.iC.load_data(key), stored[key], "load of " + key)
            checked += key in again
        else:
            try:
                repo.iC.load_data(key)
            except (FileNotFoundError, OSError):
                continue
            expect(False, "{} was never saved, but is loaded", key)
    expect(sorted(os.listdir("initialComputations")) == sorted(stored), "files {} instead of {}", sorted(os.listdir("initialComputations")), sorted(stored))
    for key, snap in stored.items():
        same(repo.iC.load_data(key), snap, "final load of " + key)
        checked += key in again
    ctx.tag("names={}".format(len(stored)), "overwritten" if again else "")
    ctx.interesting(len(stored) >= 2 and checked > 0)


@st.composite
def computation(draw, sites=9, cap=60):
    g = draw(gens.geometry(sites, gens.KINDS))
    n = gens.lattice(g).n
    R = draw(st.one_of(gens.restriction(n), st.tuples(gens.sublist(n), gens.sublist(n)).map(list)))
    return {"g": g, "sector": draw(gens.sector(n, cap)), "R": R, "c": draw(st.one_of(gens.coefficients(), st.lists(floats(), min_size=10, max_size=10))),
            "hc": draw(gens.coefficients()), "sel": draw(gens.selection()), "bve": draw(st.booleans()), "bmult": draw(st.booleans()),
            "nb": draw(st.integers(1, 6)), "stp": draw(st.integers(1, 10 ** 6)), "tol": draw(st.floats(1e-15, 1, allow_nan=False)),
            "dim_max": draw(st.integers(0, 500)), "guess": draw(st.integers(0, 1)), "vals": draw(st.lists(floats(), min_size=1, max_size=6)),
            "seed": draw(gens.seed), "wild": draw(st.booleans()), "times": draw(st.one_of(st.none(), st.lists(st.floats(0, 1e6, allow_nan=False), min_size=3, max_size=3)))}


@st.composite
def history(draw):
    pool = draw(st.lists(computation(6, 12), min_size=2, max_size=4))
    if draw(st.booleans()):   # same name, another computation
        twin = dict(draw(st.sampled_from(pool)))
        twin.update(c=draw(gens.coefficients()), seed=draw(gens.seed), tol=draw(st.sampled_from([1e-3, 1e-4])))
        pool.append(twin)
    if draw(st.booleans()):   # the same but for numbers of the same length
        twin = draw(st.sampled_from(pool))
        twin.update(vals=[draw(st.integers(1, 4)) / 8 + 0.125 for _ in range(3)], nb=3)
        pool.append(dict(twin, vals=twin["vals"][::-1] if draw(st.booleans()) else [1 - x for x in twin["vals"]]))
    if draw(st.booleans()):   # same lattice, opposite sector or other selection
        twin = dict(draw(st.sampled_from(pool)))
        n = gens.lattice(twin["g"]).n
        h, b = twin["sector"]
        twin["sector"] = [h, n - h - b]
        if draw(st.booleans()):
            twin["sel"] = draw(gens.selection())
        pool.append(twin)
    steps = draw(st.lists(st.tuples(st.sampled_from(["save", "save", "load"]), st.integers(0, len(pool) - 1)).map(list), min_size=3, max_size=12))
    return {"pool": pool, "steps": steps}


def collision(first, second):
    os.mkdir("initialComputations")
    case = {"g": ["rect", 4, 3, 1], "R": None, "c": [1.0] * 10, "hc": [1.0] * 10, "sel": [1] * 6, "bve": False, "bmult": False, "nb": 1, "stp": 10,
            "tol": 1e-3, "dim_max": 0, "guess": 0, "vals": [0.0], "seed": 0, "wild": False, "times": None}
    one, two = make(dict(case, **first)), make(dict(case, **second))
    repo.iC.save_data(one)
    repo.iC.save_data(two)
    expect(len(os.listdir("initialComputations")) == 2, "one file for two computations")


def known_digits(ctx):
    collision({"sector": [0, 11]}, {"sector": [0, 1]})


def known_bz(ctx):
    small = {"g": ["rect", 1, 1, 2], "sector": [2, 1]}
    collision(dict(small, sel=[1, 1, 0, 0, 0, 0]), dict(small, sel=[1, 0, 0, 0, 0, 0]))


KNOWN = {"digits": known_digits, "bz": known_bz}

SUBS = [
    Sub("single", single, lambda tier: computation(*((9, 60) if tier == "quick" else (12, 300))), quick=1200, thorough=6000, shards=8, files=True),
    Sub("large", large, sweep=large_cases, shards=3, files=True),
    Sub("partial", partial, lambda tier: st.builds(lambda c, w: dict(c, without=w), computation(), st.lists(st.integers(0, 1), min_size=6, max_size=6)),
        quick=320, thorough=2000, shards=8, files=True),
    Sub("sequences", sequence, lambda tier: history(), quick=600, thorough=4000, shards=8, files=True),
]
