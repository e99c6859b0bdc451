"""What the checks on Hamiltonians share."""
import numpy as np
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import expect


def build(lat, sector, coeffs, sel, R=None, argument=None, basis=None):
    """Dense matrix built by the code; R restricts the configuration, argument is the restriction given to the builder."""
    conf = lat.configuration(*sector, list(R) if R else None)
    basis = basis or repo.bC.construct_basis(conf)
    kwargs = {"sites_restriction": list(argument)} if argument else {}
    ham = repo.hC.build_hamiltonian(conf, gens.interactions(coeffs), basis, gens.booleans(sel), **kwargs)
    dim = model.dimension(lat.n, *sector)
    expect(ham.shape == (dim, dim), "shape {} instead of {}", ham.shape, (dim, dim))
    return np.asarray(ham.toarray(), dtype=float)


def tolerance(c, times=1.0):
    """Rounding error of sums of coefficients."""
    return 2e-12 * max(map(abs, c)) * times


def compare(got, want, lat, sector, what, tol):
    wrong = np.argwhere(~(np.abs(got - want) <= tol))
    if len(wrong):
        i, j = wrong[0]
        occs = model.basis(lat.n, *sector)
        expect(False, "{}: entry ({}, {}) between {} and {} is {} instead of {} ({} wrong entries)", what, i, j, occs[i], occs[j],
               got[i, j], want[i, j], len(wrong))


def classify(ctx, lat, sector, sel, R, want):
    n, (h, b) = lat.n, sector
    ctx.tag(lat.kind, "one-wide" if 1 in (lat.W, lat.H) else "square" if lat.W == lat.H else "oblong",
            "holes={}".format(min(h, 4)), "restricted" if R else "free", "terms={}".format(sum(sel)))
    off = want - np.diag(want.diagonal())
    ctx.interesting(len(want) >= 4 and np.count_nonzero(off) > 0 if any(sel[i] for i in (0, 2, 3, 4)) else np.count_nonzero(want) > 0)


def max_dim(tier):
    return 450 if tier == "quick" else 1700


@st.composite
def large_system(draw, tier, kinds=("rect",), restricted=False, most=2500):
    """The same, with more determinants."""
    g = draw(gens.geometry(14, kinds, min_sites=8))
    n = gens.lattice(g).n
    case = {"g": g, "sector": draw(st.sampled_from(gens.sectors(n, most, min_dim=300) or gens.sectors(n, most))), "c": draw(gens.scaled_coefficients()), "sel": draw(gens.selection())}
    case["R"] = draw(gens.restriction(n)) if restricted else None
    return case


@st.composite
def system(draw, tier, kinds=("rect",), restricted=False, sites=None, selections=None, cap=None, min_sites=2):
    """A lattice, sector, coefficients, selection and optional restriction."""
    kind = draw(st.sampled_from(kinds))
    limit = sites or {"rect": 12, "ring": 14, "two": 12}[kind]
    g = draw(gens.geometry(limit, (kind,), min_sites=min_sites))
    n = gens.lattice(g).n
    case = {"g": g, "sector": draw(gens.sector(n, cap or max_dim(tier))), "c": draw(gens.scaled_coefficients()),
            "sel": draw(selections or gens.selection())}
    case["R"] = draw(gens.restriction(n)) if restricted else None
    return case
