"""Reference model of the lattices and of the extended t-J operator, written from the documentation only: sites have
coordinates, two sites are linked when they are at distance one, three sites are aligned when they share a row or column,
and a determinant is a string with one character per site ('o' hole, 'd' spin down, 'u' spin up)."""
import itertools
import math

import numpy as np


class Lattice:
    """kind: 'rect' (W x H sites, row by row from the south-west), 'ring' (the same, then the peripheral sites counter
    clockwise from the south-west, without corners), 'two' (two blocks side by side, one after the other)."""
    def __init__(self, kind, nbh, nbv, nb):
        self.kind, self.nbh, self.nbv, self.nb = kind, nbh, nbv, nb
        self.W, self.H = W, H = nbh * nb, nbv * nb
        block = [(s % W, s // W) for s in range(W * H)]
        if kind == "rect":
            self.pos = block
        elif kind == "ring":
            self.pos = block + [(i, -1) for i in range(W)] + [(W, i) for i in range(H)] \
                + [(W - 1 - i, H) for i in range(W)] + [(-1, H - 1 - i) for i in range(H)]
        elif kind == "outer":
            self.pos = [(i, -1) for i in range(W)] + [(W, i) for i in range(H)] \
                + [(W - 1 - i, H) for i in range(W)] + [(-1, H - 1 - i) for i in range(H)]
        elif kind == "two":
            self.pos = block + [(x + W, y) for x, y in block]
        else:
            raise AssertionError(kind)
        self.n = len(self.pos)
        self.at = {p: s for s, p in enumerate(self.pos)}
        self.nbrs = [[] for _ in range(self.n)]
        for s, (x, y) in enumerate(self.pos):
            for q in ((x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1)):
                if q in self.at:
                    self.nbrs[s].append(self.at[q])
        self.bonds = [(a, b) for a in range(self.n) for b in self.nbrs[a] if a < b]

    def adjacency(self):
        m = np.zeros((self.n, self.n))
        for a in range(self.n):
            for b in self.nbrs[a]:
                m[a, b] = 1
        return m

    def aligned(self, a, b):
        return self.pos[a][0] == self.pos[b][0] or self.pos[a][1] == self.pos[b][1]

    def second(self, s):
        """Second neighbours: {site: aligned?}."""
        out = {}
        for m in self.nbrs[s]:
            for q in self.nbrs[m]:
                if q != s and q not in self.nbrs[s]:
                    out[q] = self.aligned(s, q)
        return out

    # what the code is given
    def bond_matrix(self):
        from . import repo
        f = {"rect": repo.lF.build_rectangular_bond_matrix, "ring": repo.lF.build_bond_matrix_neel_embedding,
             "two": repo.lF.build_bond_matrix_block_embedding}[self.kind]
        return f(self.nbh, self.nbv, self.nb)

    def configuration(self, nholes, nbeta, restriction=None):
        """The Configuration as the program itself makes it for this kind of lattice (nbh is doubled for two blocks)."""
        from . import repo
        kind = {"rect": "periodic", "ring": "peripheral", "two": "clusters"}[self.kind]
        if restriction and isinstance(restriction[0], list):   # origins and targets
            restriction = (restriction[0], restriction[1])
        return repo.bC.Configuration(self.bond_matrix(), nholes, nbeta, [] if restriction is None else restriction, kind,
                                     self.nbh * (2 if self.kind == "two" else 1), self.nbv, self.nb)


# determinants ------------------------------------------------------------------------------------------------------

def occ_to_det(occ):
    return [s for s, c in enumerate(occ) if c == "o"] + [s for s, c in enumerate(occ) if c == "d"] \
        + [s for s, c in enumerate(occ) if c == "u"]


def det_to_occ(nholes, nbeta, det):
    occ = [None] * len(det)
    for k, s in enumerate(det):
        assert occ[s] is None
        occ[s] = "o" if k < nholes else "d" if k < nholes + nbeta else "u"
    return "".join(occ)


def dimension(n, nholes, nbeta):
    return math.factorial(n) // (math.factorial(nholes) * math.factorial(nbeta) * math.factorial(n - nholes - nbeta))


def basis(n, nholes, nbeta):
    """All the occupations, in the documented order."""
    out = []
    for holes in itertools.combinations(range(n), nholes):
        rest = [s for s in range(n) if s not in holes]
        for downs in itertools.combinations(rest, nbeta):
            occ = ["u"] * n
            for s in holes:
                occ[s] = "o"
            for s in downs:
                occ[s] = "d"
            out.append("".join(occ))
    return out


def rank(occ):
    """Position of an occupation in basis(), by counting the smaller ones digit by digit."""
    def subset_rank(chosen, size):   # lexicographic rank of a subset of range(size)
        r, k, prev = 0, len(chosen), -1
        for i, c in enumerate(chosen):
            for v in range(prev + 1, c):
                r += math.comb(size - v - 1, k - i - 1)
            prev = c
        return r
    n = len(occ)
    holes = [s for s in range(n) if occ[s] == "o"]
    rest = [c for c in occ if c != "o"]
    downs = [s for s in range(len(rest)) if rest[s] == "d"]
    return subset_rank(holes, n) * math.comb(len(rest), len(downs)) + subset_rank(downs, len(rest))


FLIP = {"o": "o", "u": "d", "d": "u"}


def reverse(occ):
    return "".join(FLIP[c] for c in occ)


def sz(c):
    return {"o": 0.0, "u": 0.5, "d": -0.5}[c]


def swap(occ, a, b):
    occ = list(occ)
    occ[a], occ[b] = occ[b], occ[a]
    return "".join(occ)


# the operator ------------------------------------------------------------------------------------------------------

TERMS = ("bt", "bz", "bij", "bSD", "btN", "bV")
COEFFS = ("t", "J", "Jhpar", "Jhper", "hSDpar", "hSDper", "tNNN", "tnNNN", "VNN", "VNNNper")


def add(row, occ, value):
    row[occ] = row.get(occ, 0.0) + value


def coupling(lat, occ, a, b, R, c):
    """J of the bond a-b: which of the three, from the active holes next to it."""
    holes = [s for e, o in ((a, b), (b, a)) for s in lat.nbrs[e] if s != o and occ[s] == "o" and s in R]
    if not holes:
        return "J"
    x_bond = lat.pos[a][1] == lat.pos[b][1]
    for s in holes:
        same = lat.pos[s][1] == lat.pos[a][1] if x_bond else lat.pos[s][0] == lat.pos[a][0]
        if same:
            return "Jhpar"
    return "Jhper"


def hops(lat, occ, R, T=None):
    """Of a hole on a site of R with an electron on a site of T (default: R)."""
    T = R if T is None else T
    return [swap(occ, h, e) for h in range(lat.n) if occ[h] == "o" and h in R
            for e in lat.nbrs[h] if e in T and occ[e] != "o"]


def next_hops(lat, occ, R, T=None):
    """(aligned images, bent images)."""
    T = R if T is None else T
    col, bent = [], []
    for h in range(lat.n):
        if occ[h] == "o" and h in R:
            for e, straight in lat.second(h).items():
                if e in T and occ[e] != "o":
                    (col if straight else bent).append(swap(occ, h, e))
    return col, bent


def flips(lat, occ, R):
    """(aligned hole, other hole, no hole)."""
    out = {"Jhpar": [], "Jhper": [], "J": []}
    for a, b in lat.bonds:
        if a in R and b in R and {occ[a], occ[b]} == {"u", "d"}:
            out[coupling(lat, occ, a, b, R, None)].append(swap(occ, a, b))
    return out["Jhpar"], out["Jhper"], out["J"]


def singlets(lat, occ, R, T=None):
    """(straight pairs of images, bent pairs of images); each is (pair shifted in order, far electron jumping over)."""
    T = R if T is None else T
    par, per = [], []
    for h in range(lat.n):
        if occ[h] != "o" or h not in R:
            continue
        for a in lat.nbrs[h]:
            if a not in T or occ[a] == "o":
                continue
            for b in lat.nbrs[a]:
                if b in T and occ[b] == FLIP[occ[a]]:
                    one, two = list(occ), list(occ)
                    one[h], one[a], one[b] = occ[a], occ[b], "o"
                    two[h], two[a], two[b] = occ[b], occ[a], "o"
                    (par if lat.aligned(h, b) else per).append(("".join(one), "".join(two)))
    return par, per


def static_energy(lat, occ, R, c):
    e = 0.0
    for a, b in lat.bonds:
        if a in R and b in R and occ[a] != "o" and occ[b] != "o":
            e += c[coupling(lat, occ, a, b, R, c)] * (sz(occ[a]) * sz(occ[b]) - 0.25)
    return e


def repulsion_energy(lat, occ, R, c):
    holes = [s for s in range(lat.n) if occ[s] == "o" and s in R]
    e = 0.0
    for i, a in enumerate(holes):
        second = lat.second(a)
        for b in holes[i + 1:]:
            if b in lat.nbrs[a]:
                e += c["VNN"]
            if second.get(b) is False:
                e += c["VNNNper"]
    return e


def off_diagonal(lat, occ, R, c, sel, T=None):
    """{image: coupling} of the selected moves (an image equal to occ cannot occur)."""
    row = {}
    if sel["bt"]:
        for im in hops(lat, occ, R, T):
            add(row, im, c["t"])
    if sel["btN"]:
        col, bent = next_hops(lat, occ, R, T)
        for im in col:
            add(row, im, c["tnNNN"])
        for im in bent:
            add(row, im, c["tNNN"])
    if sel["bij"]:
        assert T is None
        for images, name in zip(flips(lat, occ, R), ("Jhpar", "Jhper", "J")):
            for im in images:
                add(row, im, c[name] / 2)
    if sel["bSD"]:
        for pairs, name in zip(singlets(lat, occ, R, T), ("hSDpar", "hSDper")):
            for one, two in pairs:
                add(row, one, c[name])
                add(row, two, -c[name])
    return row


def row(lat, occ, R, c, sel):
    out = off_diagonal(lat, occ, R, c, sel)
    if sel["bz"]:
        add(out, occ, static_energy(lat, occ, R, c))
    if sel["bV"]:
        add(out, occ, repulsion_energy(lat, occ, R, c))
    return out


def hamiltonian(lat, nholes, nbeta, R, c, sel):
    R = set(range(lat.n)) if R is None else set(R)
    dets = basis(lat.n, nholes, nbeta)
    index = {o: i for i, o in enumerate(dets)}
    m = np.zeros((len(dets), len(dets)))
    for i, o in enumerate(dets):
        for im, v in row(lat, o, R, c, sel).items():
            m[i, index[im]] += v
    return m


# spin operators ----------------------------------------------------------------------------------------------------

def s_plus_s_minus(dets, i, j):
    """Matrix of S+_i S-_j."""
    index = {o: k for k, o in enumerate(dets)}
    m = np.zeros((len(dets), len(dets)))
    for k, o in enumerate(dets):
        if o[j] == "u" and (i == j or o[i] == "d"):
            m[index[swap(o, i, j)], k] = 1
    return m


def s_squared(dets):
    """Matrix of S^2 = (sum of the S_i)^2 on the given sector."""
    index = {o: k for k, o in enumerate(dets)}
    m = np.zeros((len(dets), len(dets)))
    for k, o in enumerate(dets):
        el = [s for s, c in enumerate(o) if c != "o"]
        for s in el:
            m[k, k] += 0.75
        for x, a in enumerate(el):
            for b in el[x + 1:]:
                m[k, k] += 2 * sz(o[a]) * sz(o[b])
                if o[a] != o[b]:
                    m[index[swap(o, a, b)], k] += 1.0
    return m
