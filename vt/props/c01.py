"""C01: the basis lists every placement of holes and spins exactly once, in order."""
from hypothesis import strategies as st

from .. import gens, model, repo
from ..runner import Sub, expect

RULE = "a sector of a lattice (size, holes, down spins), enumerated up to a bound and drawn beyond it; non-trivial when at least " \
    "two species are present and the dimension is at least 3; the oracle is an independent enumeration and the multinomial formula"


def configuration(case):
    bC, lF = repo.bC, repo.lF
    if "g" in case:
        lat = gens.lattice(case["g"])
        return lat.configuration(*case["sector"], case["R"]), lat
    import numpy as np
    n = case["n"]
    return bC.Configuration(np.zeros((n, n)), *case["sector"]), None


def check_counts(conf, n, nholes, nbeta):
    nalpha = n - nholes - nbeta
    expect((conf.nsites, conf.nholes, conf.nbeta, conf.nalpha) == (n, nholes, nbeta, nalpha), "counts of the configuration: {}",
           (conf.nsites, conf.nholes, conf.nbeta, conf.nalpha))
    expect(conf.spin_number == (nalpha - nbeta) / 2, "total spin projection {}", conf.spin_number)
    expect(abs(conf.doping - nholes / n) < 1e-12, "doping {}", conf.doping)
    expect(conf.nb_conf == model.dimension(n, nholes, nbeta), "dimension {} for {}", conf.nb_conf, (n, nholes, nbeta))
    expect(repo.lF.compute_dimension(n, nalpha, nbeta) == conf.nb_conf, "compute_dimension disagrees with the configuration")
    expect(repo.lF.compute_ms(nalpha, nbeta) == (nalpha - nbeta) / 2, "compute_ms")
    expect(tuple(conf.get_id()) == (nholes, nbeta), "get_id {}", conf.get_id())


def enumerate_basis(case, ctx):
    conf, lat = configuration(case)
    n, (nholes, nbeta) = conf.nsites, case["sector"]
    check_counts(conf, n, nholes, nbeta)
    basis = repo.bC.construct_basis(conf)
    dets = [list(d) for d in basis.determinants]
    expected = [model.occ_to_det(o) for o in model.basis(n, nholes, nbeta)]
    expect(len(dets) == conf.nb_conf, "{} determinants instead of {}", len(dets), conf.nb_conf)
    if dets != expected:
        wrong = [i for i, (a, b) in enumerate(zip(dets, expected)) if a != b][0]
        expect(False, "determinant {} is {} instead of {}", wrong, dets[wrong], expected[wrong])
    expect(basis.configuration is conf or vars(basis.configuration).keys() == vars(conf).keys(), "configuration of the basis")
    expect(len({id(d) for d in basis.determinants}) == len(dets), "the same list appears twice in the basis")
    species = sum(x > 0 for x in (nholes, nbeta, n - nholes - nbeta))
    ctx.tag("species={}".format(species), "dim<=10" if len(dets) <= 10 else "dim<=100" if len(dets) <= 100 else "dim>100")
    ctx.interesting(species >= 2 and len(dets) >= 3)


def counts(case, ctx):
    conf, _ = configuration(case)
    check_counts(conf, conf.nsites, *case["sector"])
    species = sum(x > 0 for x in (*case["sector"], conf.nsites - sum(case["sector"])))
    ctx.tag("large" if conf.nsites > 20 else "small")
    ctx.interesting(species >= 2)


def refused(case, ctx):
    """More electrons than sites: refused when the basis is asked for (the configuration itself may refuse already)."""
    lat = gens.lattice(case["g"])
    nholes, nbeta = -case["excess"], case["nbeta"]
    try:
        conf = lat.configuration(nholes, nbeta)
        repo.bC.construct_basis(conf)
    except ValueError:
        ctx.tag("refused")
        ctx.interesting()
        return
    expect(False, "{} electrons accepted on {} sites", lat.n - nholes, lat.n)


def sweep(tier):
    top = 8 if tier == "quick" else 10
    cap = 600 if tier == "quick" else 6000
    for n in range(1, top + 1):
        for nholes in range(n + 1):
            for nbeta in range(n - nholes + 1):
                if model.dimension(n, nholes, nbeta) <= cap:
                    yield {"n": n, "sector": [nholes, nbeta]}


@st.composite
def lattice_case(draw, cap):
    g = draw(gens.geometry(16, gens.KINDS))
    n = gens.lattice(g).n
    return {"g": g, "sector": draw(gens.sector(n, cap)), "R": draw(gens.any_restriction(n))}


@st.composite
def count_case(draw):
    n = draw(st.integers(1, 120))
    return {"n": n, "sector": draw(gens.filling(n))}


@st.composite
def refused_case(draw):
    g = draw(gens.geometry(12, gens.KINDS))
    excess = draw(st.integers(1, 4))
    return {"g": g, "excess": excess, "nbeta": draw(st.integers(0, gens.lattice(g).n + excess))}


SUBS = [
    Sub("every-small-sector", enumerate_basis, sweep=sweep, shards=8),
    Sub("sectors-of-lattices", enumerate_basis, lambda tier: lattice_case(3000 if tier == "quick" else 20000), quick=720, thorough=2500, shards=8),
    Sub("derived-counts", counts, lambda tier: count_case(), quick=1800, shards=2),
    Sub("too-many-electrons", refused, lambda tier: refused_case(), quick=300, shards=1),
]
