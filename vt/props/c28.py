"""C28: computations never modify their inputs, repeat identically and follow what the inputs hold."""
import os
import pickle
import random
import signal
import traceback

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "an interleaved sequence of calls over two systems whose objects are shared by all the calls, run in a fresh process, and the " \
    "same calls of each system alone in other fresh processes and another order; what is returned is scribbled on afterwards, and the " \
    "caller edits its own objects in place between calls, which the calls alone find as edited from the start; " \
    "non-trivial when at least four different functions are called, one of them twice on the same system; oracle: every object given " \
    "is compared with its copy after each call, and every call gives the same result in all the processes and occurrences"

SECONDS = 60


# frozen values ------------------------------------------------------------------------------------------------------

def freeze(x, path=()):
    """A picture of the value, of plain containers and arrays."""
    if id(x) in path:
        return ("cycle",)
    path = path + (id(x),)
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (complex, np.complexfloating)):
        return complex(x)
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, np.array(x))
    if sp.issparse(x):
        parts = ("row", "col", "data") if x.format == "coo" else ("indptr", "indices", "data")
        return ("sparse", x.format, x.shape) + tuple(np.array(getattr(x, p)) for p in parts)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(y, path) for y in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted((freeze(y, path) for y in x), key=repr))
    if isinstance(x, dict):
        return ("dict",) + tuple((freeze(k, path), freeze(v, path)) for k, v in x.items())
    if hasattr(x, "__dict__"):
        return ("object", type(x).__name__) + tuple((k, freeze(v, path)) for k, v in sorted(vars(x).items()))
    return ("other", type(x).__name__, repr(x))


def same(a, b):
    """Bit for bit."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and (a == b or (isinstance(a, float) and a != a and b != b))


def close(a, b, tol):
    """The same up to the rounding of floats (which may depend on the alignment of the arrays)."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind not in "fc":
            return a.tobytes() == b.tobytes()
        return np.allclose(a, b, rtol=tol, atol=tol * (1 + np.abs(a[np.isfinite(a)]).max(initial=0)), equal_nan=True)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(a))
    return type(a) is type(b) and a == b


def parts(x, found):
    """All the mutable objects reachable from x: {id: object}."""
    if id(x) in found:
        return
    if isinstance(x, np.ndarray):
        found[id(x)] = x
        if x.base is not None:
            parts(x.base, found)
    elif sp.issparse(x):
        found[id(x)] = x
        for p in ("row", "col", "data", "indptr", "indices"):
            if isinstance(getattr(x, p, None), np.ndarray):
                parts(getattr(x, p), found)
    elif isinstance(x, (list, tuple, set, frozenset)):
        found[id(x)] = x
        for y in x:
            parts(y, found)
    elif isinstance(x, dict):
        found[id(x)] = x
        for k, v in x.items():
            parts(k, found)
            parts(v, found)
    elif hasattr(x, "__dict__") and not isinstance(x, type):
        found[id(x)] = x
        for v in vars(x).values():
            parts(v, found)


def scribble(x, owned, kept):
    """The caller changes what it was given back, except what belongs to the inputs."""
    if id(x) in owned or id(x) in kept:
        return
    kept[id(x)] = x
    if isinstance(x, np.ndarray):
        if not any(isinstance(o, np.ndarray) and np.shares_memory(o, x) for o in owned.values()) and x.dtype.kind in "fiu":
            x.setflags(write=True) if x.base is None else None
            if x.flags.writeable:
                x[...] = 77
    elif sp.issparse(x):
        scribble(x.data, owned, kept)
    elif isinstance(x, list):
        for y in x:
            scribble(y, owned, kept)
        x.append(771)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v, owned, kept)
        x["scribble"] = 771
    elif isinstance(x, tuple):
        for y in x:
            scribble(y, owned, kept)
    elif hasattr(x, "__dict__") and not isinstance(x, type):
        for v in vars(x).values():
            scribble(v, owned, kept)


# systems and calls -------------------------------------------------------------------------------------------------

class System:
    """The objects shared by all the calls on one system."""
    def __init__(self, case):
        rng = np.random.RandomState(case["seed"])
        lat = self.lat = gens.lattice(case["g"])
        h, b = case["sector"]
        self.conf = lat.configuration(h, b, self.restriction(case["R"]))
        self.sister = repo.bC.Configuration(self.conf.bond_matrix, h, lat.n - h - b, self.restriction(case["R"]), self.conf.lattice_type,
                                            self.conf.nbh, self.conf.nbv, self.conf.nblocs_side)
        occs = model.basis(lat.n, h, b)
        self.dets = [model.occ_to_det(o) for o in occs]
        self.basis = repo.bC.Basis(self.conf, self.dets)
        mixed = []
        for k in range(3):   # determinants whose species are not listed in order
            d = self.dets[rng.randint(len(self.dets))]
            mixed.append([int(s) for part in (d[:h], d[h:h + b], d[h + b:]) for s in rng.permutation(part)])
        self.loose = mixed
        dim = len(occs)
        self.vect = rng.randint(-4, 5, size=(dim, 1)).astype(float)
        if not self.vect.any():
            self.vect[0, 0] = 1.0
        self.flat = rng.rand(dim)
        self.vects = rng.rand(dim, 3)
        self.interactions = gens.interactions(case["c"])
        self.bools = gens.booleans(case["sel"])
        self.sites = list(range(lat.n))[: max(1, lat.n - 1)]
        want = model.hamiltonian(lat, h, b, None, gens.named(case["c"]), gens.selected(case["sel"])) if dim <= 120 else np.eye(dim)
        self.ham = sp.csr_matrix(want)
        self.coo = sp.coo_matrix(np.triu(want[:6, :6]))
        m = rng.rand(6, 6)
        self.matrix = m + m.T + np.diag(np.arange(6.0))
        self.sparse = sp.csr_matrix(self.matrix)
        self.guess = rng.rand(6, 2)
        self.start = rng.rand(6, 1)
        self.square = rng.rand(7, 4)
        self.values = [3.0, 1.0, 2.0, 1.0, 0.5]
        self.columns = rng.rand(6, 5)
        self.spectrum = rng.randint(0, 4, size=6).astype(float)
        self.holes, self.downs = sorted(int(s) for s in rng.permutation(9)[:3]), sorted(int(s) for s in rng.permutation(6)[:3])
        diag = repo.dav.Diagonalization(2, 300, 1e-8, dim + 6, rng.rand(dim, 2) if case["seed"] % 2 and dim > 1 else None)
        self.data = repo.iC.Data(self.conf, self.interactions, diag, self.bools)

    @staticmethod
    def restriction(R):
        """None, a list, or a pair of lists (given as a tuple)."""
        if R and isinstance(R[0], list):
            return (list(R[0]), list(R[1]))
        return list(R) if R else None


def fresh_ham(f):
    def run(S, a):
        ham = repo.hC.HamiltonianCOO([], [], [])
        out = f(ham, S.basis, S.interactions)
        return (ham, out)
    return run


def site(S, k):
    return k % S.lat.n


def det(S, k):
    """One of the determinants of the basis, or one whose species are not listed in order."""
    return S.dets[k // 2 % len(S.dets)] if k % 2 else S.loose[k // 2 % len(S.loose)]


def eigen(f):
    """Only the values: the vectors of close values depend on rounding."""
    def run(S, a):
        e = f(S, a)
        return np.round(np.asarray(e.eigvals, dtype=float), 5) + 0.0, np.asarray(e.eigvects).shape
    return run


def initial(S, a):
    comp = repo.iC.perform_initial_computations(S.data)
    return comp.determinants, comp.hamiltonian, np.asarray(comp.eigenstates.eigvects).shape


def refill(name, integers=False):
    """Other numbers in the same array."""
    def edit(S, rng):
        x = getattr(S, name)
        x[...] = rng.randint(1, 9, size=x.shape) if integers else rng.rand(*x.shape)
    return edit


def edit_matrix(S, rng):
    m = rng.rand(6, 6)
    S.matrix[...] = m + m.T + np.diag(np.arange(6.0))
    S.sparse.data[...] = S.matrix[np.repeat(np.arange(6), np.diff(S.sparse.indptr)), S.sparse.indices]


def edit_coupling(S, rng):
    setattr(S.interactions, model.COEFFS[rng.randint(10)], float(rng.randint(1, 40)) / 8 - 2.5)


def edit_selection(S, rng):
    name = model.TERMS[rng.randint(len(model.TERMS))]
    setattr(S.bools, name, not getattr(S.bools, name))


def edit_listing(S, rng):
    """Another determinant in the same list."""
    h, b = S.conf.nholes, S.conf.nbeta
    for loose in S.loose:
        d = S.dets[rng.randint(len(S.dets))]
        loose[:] = [int(s) for part in (d[:h], d[h:h + b], d[h + b:]) for s in rng.permutation(part)]


def edit_sites(S, rng):
    S.sites[:] = sorted(int(s) for s in rng.permutation(S.lat.n)[:rng.randint(1, S.lat.n + 1)])


def edit_bonds(S, rng):
    """A bond of the lattice removed, or put back."""
    bonds = [(s, q) for s in range(S.lat.n) for q in S.lat.nbrs[s] if s < q]
    if bonds:
        s, q = bonds[rng.randint(len(bonds))]
        S.conf.bond_matrix[s, q] = S.conf.bond_matrix[q, s] = 1 - S.conf.bond_matrix[s, q]


def edit_values(S, rng):
    S.values[:] = [float(x) for x in rng.randint(0, 9, size=5)]
    S.spectrum[...] = rng.randint(0, 4, size=6)


def edit_solver(S, rng):
    S.data.diagonalization.nb_val = int(rng.randint(1, 5))


EDITS = {"edit:vect": refill("vect", True), "edit:flat": refill("flat"), "edit:vects": refill("vects"), "edit:guess": refill("guess"), "edit:start": refill("start"),
         "edit:square": refill("square"), "edit:columns": refill("columns"), "edit:matrix": edit_matrix, "edit:coupling": edit_coupling, "edit:selection": edit_selection,
         "edit:listing": edit_listing, "edit:sites": edit_sites, "edit:values": edit_values, "edit:solver": edit_solver, "edit:bonds": edit_bonds}
EDIT_NAMES = sorted(EDITS)
SEEN_BY = {"edit:vect": ("reverse_vect", "probability", "probabilities", "probability_array", "dominant", "picture_dominant", "sz", "szsz", "splus", "S2", "S2_exp"), "edit:flat": ("dominant_saved",),
           "edit:vects": ("spin_number",), "edit:guess": ("davidson_guess",), "edit:start": ("davidson_one",), "edit:square": ("gram_schmidt", "orthonormalise"), "edit:columns": ("lowest",),
           "edit:matrix": ("davidson", "davidson_guess", "davidson_one", "davidson_single", "lowest_array"),
           "edit:coupling": ("hops", "next_hops", "static", "flips", "singlets", "repulsion", "energy", "couplings", "add_hops", "add_next", "add_static", "add_flips", "add_singlets", "add_repulsion", "ham", "ham_restricted", "initial"),
           "edit:bonds": ("bond_list", "bond_list_restricted", "neighbors", "neighbors_restricted", "neighbors_sites", "second", "second_restricted", "diagonal", "linear", "hops", "next_hops", "static", "flips",
                          "singlets", "repulsion", "energy", "couplings", "add_hops", "add_next", "add_static", "add_flips", "add_singlets", "add_repulsion", "ham", "ham_restricted", "initial", "configuration"),
           "edit:selection": ("couplings", "ham", "ham_restricted", "initial"), "edit:sites": ("neighbors_sites", "ham_restricted"), "edit:values": ("lowest", "lowest_array"), "edit:solver": ("initial",),
           "edit:listing": ("index", "reverse", "sites_of", "reorder", "extend", "spin", "display", "picture", "rotate", "hops", "next_hops", "static", "flips", "singlets", "repulsion", "energy", "couplings", "szsz_det", "splus_det")}


def is_edit(name):
    return name.startswith("edit:")


OPS = {}
ROUGH = {"davidson", "davidson_guess", "davidson_one", "davidson_single"}


def declare():
    bC, lF, itr, hC, dav, iC = repo.bC, repo.lF, repo.itr, repo.hC, repo.dav, repo.iC
    OPS.update({
        "dimension": lambda S, a: lF.compute_dimension(S.conf.nsites, S.conf.nalpha, S.conf.nbeta),
        "bonds_rect": lambda S, a: lF.build_rectangular_bond_matrix(S.lat.nbh, S.lat.nbv, S.lat.nb),
        "bonds_outer": lambda S, a: lF.build_bond_matrix_neel_outer_lattice(S.lat.nbh, S.lat.nbv, S.lat.nb),
        "bonds_embedding": lambda S, a: lF.build_bond_matrix_neel_embedding(S.lat.nbh, S.lat.nbv, S.lat.nb),
        "bonds_blocks": lambda S, a: lF.build_bond_matrix_block_embedding(S.lat.nbh, S.lat.nbv, S.lat.nb),
        "bond_list": lambda S, a: lF.build_bond_list(S.conf.bond_matrix),
        "bond_list_restricted": lambda S, a: lF.build_bond_list(S.conf.bond_matrix, S.conf.sites_restriction),
        "neighbors": lambda S, a: lF.get_neighbors(site(S, a), S.conf.bond_matrix),
        "neighbors_restricted": lambda S, a: lF.get_neighbors(site(S, a), S.conf.bond_matrix, S.conf.sites_restriction),
        "neighbors_sites": lambda S, a: lF.get_neighbors(site(S, a), S.conf.bond_matrix, S.sites),
        "second": lambda S, a: lF.get_second_neighbors(site(S, a), S.conf.bond_matrix),
        "second_restricted": lambda S, a: lF.get_second_neighbors(site(S, a), S.conf.bond_matrix, S.conf.sites_restriction),
        "diagonal": lambda S, a: lF.get_diagonal_second_neighbors(S.conf, site(S, a)),
        "configuration": lambda S, a: bC.Configuration(S.conf.bond_matrix, S.conf.nholes, S.conf.nbeta, S.conf.sites_restriction, S.conf.lattice_type, S.conf.nbh, S.conf.nbv, S.conf.nblocs_side),
        "plain_configuration": lambda S, a: bC.Configuration(S.conf.bond_matrix, S.conf.nholes, S.conf.nbeta),
        "to_json": lambda S, a: S.conf.__to_json__(),
        "id": lambda S, a: S.conf.get_id(),
        "basis": lambda S, a: bC.construct_basis(S.conf),
        "basis_sister": lambda S, a: bC.construct_basis(S.sister),
        "index": lambda S, a: bC.get_index_in_basis(S.conf, det(S, a)),
        "rank": lambda S, a: bC.compute_hash_table(S.conf, S.dets[a % len(S.dets)]),
        "unrank": lambda S, a: bC.get_hash_basis(S.conf.nholes, S.conf.nalpha, S.conf.nbeta, a % len(S.dets)),
        "project": lambda S, a: bC.project_hash(S.holes, S.downs),
        "distance": lambda S, a: bC.get_distance_hash(9 + a % 3, [], S.holes),
        "target": lambda S, a: bC.get_target_hash(8, 3, a % 56),
        "fusion": lambda S, a: bC.fusion_hash(S.holes, S.downs),
        "reverse": lambda S, a: bC.reverse_spins(S.conf, det(S, a)),
        "reverse_basis": lambda S, a: bC.reverse_spins_basis(S.basis),
        "reverse_vect": lambda S, a: bC.reverse_spins_vect(S.basis, S.vect),
        "sites_of": lambda S, a: bC.get_indexes_of(S.conf, det(S, a), a % 3 - 1, a // 3 % 2),
        "reorder": lambda S, a: bC.reorder_basis_element(S.conf, det(S, a)),
        "extend": lambda S, a: bC.extend_determinant(S.conf, S.sister, det(S, a), bC.reverse_spins(S.conf, S.dets[a % len(S.dets)])[1]),
        "spin": lambda S, a: bC.get_spin_site(S.conf, det(S, a), site(S, a // 3)),
        "linear": lambda S, a: bC.is_bond_linear(S.conf, *some_path(S.lat, a)),
        "display": lambda S, a: bC.get_displayable_determinant(S.conf, det(S, a)),
        "display_basis": lambda S, a: bC.get_displayable_basis(S.basis),
        "picture": lambda S, a: (bC.get_displayable_outer_embedding_lattice if S.lat.kind == "ring" else bC.get_displayable_rectangular_lattice)(S.conf, det(S, a)),
        "picture_two": lambda S, a: bC.get_displayable_neighbor(S.conf, S.sister, det(S, a), det(S, a // 2)),
        "probability": lambda S, a: bC.get_probability_spin_lattice(S.basis, S.vect, a % 3 - 1, bool(a // 3 % 2)),
        "probabilities": lambda S, a: bC.get_spins_probabilitites_lattice(S.basis, S.vect, bool(a % 2)),
        "probability_array": lambda S, a: bC.get_probability_spin_rectangular_lattice(S.basis, S.vect, a % 3 - 1),
        "dominant": lambda S, a: bC.get_dominant_determinants(S.basis, S.vect, 1 + a % 5),
        "picture_dominant": lambda S, a: bC.get_displayable_dominant_determinants(S.basis, S.vect, 1 + a % 5),
        "rotate": lambda S, a: bC.rotate_determinant(a % 9 - 4, S.conf, det(S, a)),
        "hops": lambda S, a: itr.compute_hopping_integral(S.conf, S.interactions, det(S, a)),
        "next_hops": lambda S, a: itr.compute_next_hopping_integral(S.conf, S.interactions, det(S, a)),
        "static": lambda S, a: itr.compute_static_spin_interaction(S.conf, S.interactions, det(S, a)),
        "flips": lambda S, a: itr.compute_spin_flip(S.conf, S.interactions, det(S, a)),
        "singlets": lambda S, a: itr.compute_singlet_displacement(S.conf, S.interactions, det(S, a)),
        "repulsion": lambda S, a: itr.compute_hole_repulsion(S.conf, S.interactions, det(S, a)),
        "energy": lambda S, a: itr.compute_energy(S.conf, S.interactions, det(S, a)),
        "couplings": lambda S, a: itr.compute_dynamic_interactions(S.conf, S.interactions, S.bools, det(S, a)),
        "add_hops": fresh_ham(itr.add_hopping_integral),
        "add_next": fresh_ham(itr.add_next_hopping_integral),
        "add_static": fresh_ham(itr.add_static_spin_interaction),
        "add_flips": fresh_ham(itr.add_spin_flip),
        "add_singlets": fresh_ham(itr.add_singlet_displacement),
        "add_repulsion": fresh_ham(itr.add_hole_repulsion),
        "add_coo": lambda S, a: hC.add_ham_coo(S.coo, 2.5, a % S.coo.shape[0], a // 2 % S.coo.shape[0]),
        "sz": lambda S, a: itr.compute_spin_z(S.conf, S.vect),
        "szsz_det": lambda S, a: itr.compute_spins_z_two_bodies_det(S.conf, det(S, a), site(S, a), site(S, a // 2)),
        "szsz": lambda S, a: itr.compute_spins_z_two_bodies(S.conf, S.vect, site(S, a), site(S, a // 2)),
        "splus_det": lambda S, a: itr.compute_S_plus_S_minus_det(S.conf, det(S, a), site(S, a), site(S, a // 2 + 1)),
        "splus": lambda S, a: itr.compute_S_plus_S_minus(S.conf, S.vect, site(S, a), site(S, a // 2 + 1)),
        "S2": lambda S, a: itr.compute_S2(S.conf, S.vect),
        "S2_exp": lambda S, a: itr.compute_S2_exp_val(S.conf, S.vect),
        "spin_number": lambda S, a: itr.compute_spin_number(S.conf, S.vects[:, [a % 3]]),
        "multiplicity": lambda S, a: itr.compute_spin_multiplicity(a % 8 / 2),
        "ham": lambda S, a: hC.build_hamiltonian(S.conf, S.interactions, S.basis, S.bools),
        "ham_restricted": lambda S, a: hC.build_hamiltonian(S.conf, S.interactions, S.basis, S.bools, S.sites),
        "lowest": lambda S, a: dav.get_lowests_eig(S.values, S.columns, 1 + a % 5),
        "lowest_array": lambda S, a: dav.get_lowests_eig(S.spectrum, S.matrix, 1 + a % 6),
        "gram_schmidt": lambda S, a: dav.gramSchmidt(S.square),
        "orthonormalise": lambda S, a: abs(dav.perform_modified_gram_schmidt(S.square)),
        "davidson": eigen(lambda S, a: dav.modified_davidson_algorithm(S.sparse, 2, None, 300, 1e-7, 20)),
        "davidson_guess": eigen(lambda S, a: dav.modified_davidson_algorithm(S.sparse, 2, S.guess, 300, 1e-7, 20)),
        "davidson_one": eigen(lambda S, a: dav.modified_davidson_algorithm(S.sparse, 1, S.start, 300, 1e-7, 20)),
        "davidson_single": lambda S, a: round(float(dav.davidson_algorithm(S.matrix, 60, 1e-6, 4)[0]), 4),
        "initial": initial,
        "dominant_saved": lambda S, a: iC.get_most_dominant_determinants(S.dets, S.flat, 1 + a % 5),
    })


def some_path(lat, a):
    """A path of three sites, or, on lattices that have none, three unlinked ones (which are refused)."""
    every = [(p, m, q) for m in range(lat.n) for p in lat.nbrs[m] for q in lat.nbrs[m] if p != q]
    return every[a % len(every)] if every else (0, 0, 0)


declare()
COSTLY = ("S2", "S2_exp", "spin_number", "initial", "ham", "ham_restricted", "picture_dominant", "basis", "basis_sister", "display_basis")
NAMES = sorted(OPS, key=lambda name: (name in COSTLY, name))


def call(S, name, a):
    random.seed(5)
    np.random.seed(5)
    try:
        return OPS[name](S, a)
    except Exception as exc:
        return ("raises", type(exc).__name__)


def execute(case, calls):
    """Runs [(system, name, argument)]; returns ([frozen results], error)."""
    systems = {k: System(case["systems"][k]) for k in sorted({c[0] for c in calls})}
    before = {k: freeze(vars(s)) for k, s in systems.items()}
    owned = {}
    for s in systems.values():
        parts(s, owned)
    kept, out = {}, []
    for k, name, a in calls:
        if is_edit(name):
            EDITS[name](systems[k], np.random.RandomState(a))
            before[k] = freeze(vars(systems[k]))
            out.append(None)
            continue
        result = call(systems[k], name, a)
        out.append(freeze(result))
        scribble(result, owned, kept)
        for j, s in systems.items():
            now = freeze(vars(s))
            if not same(now, before[j]):
                changed = [x[0] for x, y in zip(now[1:], before[j][1:]) if not same(x, y)]
                return out, "{}({}) on system {} of {} changed {} of system {}".format(name, a, k, case["systems"][k]["g"], changed, j)
    return out, None


def in_fresh_process(case, calls):
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(read)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, SECONDS)
            try:
                data = pickle.dumps(execute(case, calls))
            except BaseException as exc:
                data = pickle.dumps(([], "unexpected exception\n" + "".join(traceback.format_exception(exc)[-5:])))
            with os.fdopen(write, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(write)
    with os.fdopen(read, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    expect(data, "no result after {} CPU seconds of {}", SECONDS, [c[1] for c in calls])
    results, error = pickle.loads(data)
    expect(error is None, "{}", error)
    return results


def histories(case, ctx):
    calls = [(k % len(case["systems"]), NAMES[o % len(NAMES)] if isinstance(o, int) else o, a) for k, o, a in case["calls"]]
    if not calls:
        return
    reference, state = {}, []   # the edits made before each call on its system, and the results of the call alone after them
    edits = {k: () for k in range(len(case["systems"]))}
    groups = {}
    for c in calls:
        if is_edit(c[1]):
            edits[c[0]] += (c,)
        else:
            mine = groups.setdefault((c[0], edits[c[0]]), [])
            if c not in mine:
                mine.append(c)
        state.append((c[0], edits[c[0]]))
    for (k, done), mine in groups.items():
        mine = mine[::-1]
        for c, r in zip(mine, in_fresh_process(case, list(done) + mine)[len(done):]):
            reference[k, done, c] = r
    together = in_fresh_process(case, calls)
    told = set()
    for pos, (c, s, r) in enumerate(zip(calls, state, together)):
        if is_edit(c[1]):
            continue
        tol = 1e-4 if c[1] in ROUGH else 1e-9
        alone = reference[(*s, c)]
        if s[1] and (c[0], (), c) in reference and not close(alone, reference[c[0], (), c], tol):
            told.add("edit seen by:" + c[1])
        expect(close(r, alone, tol), "call {} of {}: {}({}) on system {} {} returns\n{}\nbut alone, in another order,\n{}", pos, [x[1] for x in calls],
               c[1], c[2], c[0], case["systems"][c[0]], str(r)[:600], str(alone)[:600])
    ctx.tag(*["op:" + c[1] for c in calls])
    ctx.tag(*told)
    ctx.tag(*["raises:" + c[2][1] for c, r in reference.items() if isinstance(r, tuple) and len(r) == 3 and r[1] == "raises"])
    ctx.tag(*[s["g"][0] for s in case["systems"]])
    ctx.interesting(told or (len({c[1] for c in calls}) >= 4 and len(calls) > len(set(calls))))


@st.composite
def system(draw, sites):
    g = draw(gens.geometry(sites, gens.KINDS, min_sites=3))
    n = gens.lattice(g).n
    R = draw(st.one_of(st.none(), gens.restriction(n), st.tuples(gens.sublist(n), gens.sublist(n)).map(list)))
    return {"g": g, "sector": draw(gens.sector(n, 60)), "R": R, "c": draw(gens.coefficients()), "sel": draw(gens.selection()), "seed": draw(gens.seed)}


@st.composite
def sequence(draw, tier):
    systems = [draw(system(12)) for _ in range(2)]
    if draw(st.integers(0, 3)) == 0:   # the same lattice with another filling, or the same sizes in another shape
        systems[1] = dict(systems[1], g=systems[0]["g"], R=None, sector=draw(gens.sector(gens.lattice(systems[0]["g"]).n, 60)))
    count = draw(st.integers(8, 40))
    calls = []
    for _ in range(count):
        again = draw(st.integers(0, 5)) if calls else 5
        if again == 0:   # the same call again
            calls.append(list(draw(st.sampled_from(calls))))
        elif again == 1:   # on the other system
            k, o, a = draw(st.sampled_from(calls))
            calls.append([1 - k, o, a])
        else:
            calls.append([draw(st.integers(0, 1)), draw(st.sampled_from(NAMES)), draw(st.integers(0, 400))])
    return {"systems": systems, "calls": calls}


@st.composite
def edited(draw, tier):
    """A call, an edit of what it is given, and the call again."""
    systems = [draw(system(12)) for _ in range(draw(st.integers(1, 2)))]
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        k, e = draw(st.integers(0, len(systems) - 1)), draw(st.sampled_from(EDIT_NAMES))
        some = [[k, o, draw(st.integers(0, 400))] for o in draw(st.lists(st.sampled_from(SEEN_BY[e]), min_size=1, max_size=4))]
        calls += some + [[k, e, draw(st.integers(0, 10 ** 6))]] + (some if draw(st.booleans()) else some[::-1])
    return {"systems": systems, "calls": calls}


SUBS = [
    Sub("edits", histories, lambda tier: edited(tier), quick=480, thorough=8000, shards=8),
    Sub("histories", histories, lambda tier: sequence(tier), quick=1000, thorough=15000, shards=8),
]
