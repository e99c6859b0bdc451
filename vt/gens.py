"""Hypothesis strategies of JSON-able cases, and what the code is given for them."""
import functools

from hypothesis import strategies as st

from . import model

KINDS = ("rect", "ring", "two")


@functools.lru_cache(None)
def geometries(kind, max_sites, max_side=18, square=False):
    """All (kind, nbh, nbv, nb) with at most max_sites sites, smallest first."""
    out = []
    for nbh in range(1, max_side + 1):
        for nbv in range(1, max_side + 1):
            for nb in range(1, max_side + 1):
                W, H = nbh * nb, nbv * nb
                n = {"rect": W * H, "two": 2 * W * H, "ring": W * H + 2 * W + 2 * H, "outer": 2 * W + 2 * H}[kind]
                if n <= max_sites and W <= max_side and H <= max_side and (not square or W == H):
                    out.append((n, abs(W - H), nb, [kind, nbh, nbv, nb]))
    return [g for _, _, _, g in sorted(out, key=lambda t: t[:3] + (t[3][1:],))]


def geometry(max_sites, kinds=("rect",), square=False, min_sites=1):
    """One geometry: each kind, then each shape, weighs the same whatever the number of ways to cut it."""
    options = {}
    for kind in kinds:
        shapes, cut = {}, []
        for g in geometries(kind, max_sites, square=square):
            if lattice(g).n >= min_sites:
                shapes.setdefault((g[1] * g[3], g[2] * g[3]), []).append(g)
                cut += [g] if g[3] > 1 and max(g[1:3]) > 1 else []
        if shapes:
            every = list(shapes.values())
            if cut:   # several sub-blocks of several sites
                every += [cut] * (1 + len(every) // 6)
            options[kind] = every
    names = [k for k in options for _ in range(2 if k == "rect" else 1)]
    return st.sampled_from(names).flatmap(lambda kind: st.sampled_from(options[kind])).flatmap(st.sampled_from)


@functools.lru_cache(None)
def _lattice(kind, nbh, nbv, nb):
    return model.Lattice(kind, nbh, nbv, nb)


def lattice(g):
    return _lattice(*g)


@functools.lru_cache(None)
def sectors(n, max_dim, min_holes=0, min_dim=1):
    out = [(model.dimension(n, h, b), [h, b]) for h in range(min_holes, n + 1) for b in range(n - h + 1)]
    return [s for d, s in sorted(out) if min_dim <= d <= max_dim]


@st.composite
def sector(draw, n, max_dim, min_holes=0):
    """[holes, down spins]; mostly the sectors that have something in them, but all of them are possible."""
    every = sectors(n, max_dim, min_holes)
    rich = [s for s in every if s[0] > 0 and s[1] > 0 and n - sum(s) > 0]
    how = draw(st.integers(0, 6))
    if rich and how > 2:
        return list(draw(st.sampled_from(rich)))
    if how > 1:   # every number of holes weighs the same
        holes = draw(st.sampled_from(sorted({s[0] for s in every})))
        return [holes, draw(st.sampled_from([s[1] for s in every if s[0] == holes]))]
    return list(draw(st.sampled_from(every)))


@st.composite
def filling(draw, n):
    """Any [holes, down spins], for lattices of any size."""
    nholes = draw(st.integers(0, n))
    if draw(st.booleans()) and nholes > n // 2:
        nholes = n - nholes
    return [nholes, draw(st.integers(0, n - nholes))]


@st.composite
def few(draw, n):
    """[holes, down spins] of a remarkable filling: few or many holes, no net spin, one species."""
    holes = draw(st.sampled_from(sorted({k for k in (0, 1, 2, 3, n - 1, n) if k <= n})))
    rest = n - holes
    return [holes, draw(st.sampled_from(sorted({0, rest, rest // 2, min(1, rest), rest - min(1, rest)})))]


@st.composite
def occupation(draw, n, nholes=None, nbeta=None):
    """A string of 'o', 'd', 'u'."""
    if nholes is None:
        nholes, nbeta = draw(filling(n))
    order = draw(st.permutations(range(n)))
    occ = ["u"] * n
    for s in order[:nholes]:
        occ[s] = "o"
    for s in order[nholes:nholes + nbeta]:
        occ[s] = "d"
    return "".join(occ)


@st.composite
def listing(draw, occ):
    """A determinant of this occupation, with its species in any order."""
    out = []
    for c in "odu":
        sites = [s for s in range(len(occ)) if occ[s] == c]
        out += list(draw(st.permutations(sites))) if len(sites) > 1 else sites
    return out


def counts(occ):
    return occ.count("o"), occ.count("d")


def value():
    return st.one_of(
        st.integers(-3, 3).map(float),
        st.sampled_from([0.0, 1.0, -1.0, 0.5, 0.25, -2.0]),
        st.floats(-8, 8, allow_nan=False).map(lambda x: round(x, 3)),
    )


@st.composite
def distinct_coefficients(draw):
    """Ten non-zero values, no two equal or opposite: a coefficient used for another always shows."""
    values = draw(st.lists(st.integers(1, 60), min_size=10, max_size=10, unique=True))
    signs = draw(st.lists(st.sampled_from([1, -1]), min_size=10, max_size=10))
    return [v * s / 8 for v, s in zip(values, signs)]


def coefficients():
    """The ten coefficients, in the order of the constructor."""
    return st.one_of(distinct_coefficients(), distinct_coefficients(), st.lists(value(), min_size=10, max_size=10))


@st.composite
def scaled_coefficients(draw):
    """The same in other units of energy, or each in its own: nothing may depend on absolute sizes."""
    values = draw(coefficients())
    how = draw(st.sampled_from(["same", "same", "units", "mixed"]))
    if how == "units":
        unit = 10.0 ** draw(st.one_of(st.integers(-9, 6), st.sampled_from([-40, -24, -18, -14, -11, 9, 15, 30])))
        values = [v * unit for v in values]
    elif how == "mixed":
        powers = draw(st.lists(st.sampled_from([0, 0, 1, -2, -4, -6, -8, -12, -17]), min_size=10, max_size=10))
        values = [v * 10.0 ** p for v, p in zip(values, powers)]
    return values


def selection():
    """Six 0/1: all on one time out of three."""
    return st.one_of(st.just([1] * 6), st.lists(st.integers(0, 1), min_size=6, max_size=6),
                     st.lists(st.integers(0, 1), min_size=6, max_size=6),
                     st.integers(0, 5).map(lambda k: [int(i == k) for i in range(6)]))


@st.composite
def sublist(draw, n, min_size=1):
    """A list of distinct sites, in any order."""
    if n == 0:
        return []
    k = draw(st.integers(min(min_size, n), n))
    return list(draw(st.permutations(range(n))))[:k]


def restriction(n):
    """None, or a list of active sites (mostly large ones)."""
    def mostly(k):
        return st.permutations(range(n)).map(lambda p: list(p[: max(1, n - k)]))
    return st.one_of(st.none(), st.integers(0, 3).flatmap(mostly), sublist(n))


def any_restriction(n):
    """The same, or a pair of them (of the origin and of the target sites)."""
    return st.one_of(st.none(), restriction(n), st.tuples(sublist(n), sublist(n)).map(list))


def named(coeffs):
    return dict(zip(model.COEFFS, coeffs))


def selected(sel):
    return {k: bool(v) for k, v in zip(model.TERMS, sel)}


def interactions(coeffs):
    from . import repo
    return repo.itr.Interactions(**named(coeffs))


def booleans(sel, **kwargs):
    from . import repo
    return repo.iC.BoolInteractions(*[bool(v) for v in sel], **kwargs)


seed = st.integers(0, 2 ** 31 - 1)
