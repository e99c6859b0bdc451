"""C27: dynamic embedding dresses the block with a symmetric second-order coupling."""
import os

import numpy as np
from hypothesis import strategies as st

from .. import gens, model
from ..runner import Skip, Sub, expect
from . import _emb, c26

RULE = "a small rectangular block (square when four neighbours), sector, coefficients, a random saved ground state and its energy, threshold, " \
    "one or four neighbours, reversed spins or not, one to four iterations; non-trivial when the dressing has a non-zero element off the " \
    "diagonal; oracles: the second-order sum computed by the reference on the coordinates of the two blocks, and relations between several " \
    "embeddings (quadratic in the mobile coefficients and in the neighbour's amplitudes, homogeneous in the energies, covariant under spin " \
    "reversal, sum of the quarter turns)"

MOBILE = ("t", "hSDpar", "hSDper", "tNNN", "tnNNN")


class Transfer:
    """Second-order couplings of a block and its eastern neighbour, through an electron the neighbour lends to the block."""
    def __init__(self, block, reverse):
        self.block = block
        self.big = big = c26.side_by_side(block)
        self.n = n = block.lat.n
        W = block.lat.W
        near = [x in range(W - 2, W + 2) for x, _ in big.pos]   # within reach of the frontier
        self.reach = {s: {} for s in range(2 * n) if near[s]}
        for s in self.reach:
            for q in big.nbrs[s]:
                self.reach[s][q] = "t"
            for q, straight in big.second(s).items():
                self.reach[s][q] = "tnNNN" if straight else "tNNN"
            self.reach[s] = {q: k for q, k in self.reach[s].items() if near[q] and (q < n) != (s < n)}
        self.neighbour = [model.reverse(o) if reverse else o for o in block.dets]

    def pieces(self, v, energy):
        """[(row, column, coupling)] of each pair of determinants, for each intermediate, for each determinant leading to it."""
        n, c, every = self.n, self.block.c, set(range(2 * self.n))
        index = {o: k for k, o in enumerate(self.block.dets)}
        amplitude = dict(zip(self.neighbour, v))
        out = []
        for a in self.block.dets:
            lent = set()
            for h in range(n):
                if h in self.reach and a[h] == "o":
                    for b in self.neighbour:
                        for q in self.reach[h]:
                            if b[q - n] != "o":
                                lent.add((model.swap(a + b, h, q), b[q - n]))
            for middle, spin in lent:
                gap = 2 * energy - model.static_energy(self.big, middle, every, c) - model.repulsion_energy(self.big, middle, every, c)
                if abs(gap) < 1e-2 * self.block.unit:
                    raise Skip
                back = {}
                for h in range(n, 2 * n):
                    if h in self.reach and middle[h] == "o":
                        for q, name in self.reach[h].items():
                            if middle[q] == spin:
                                model.add(back, model.swap(middle, h, q), c[name])
                ends = [(index[o[:n]], amplitude[o[n:]], x) for o, x in back.items()]
                for i, (one, p, x) in enumerate(ends):
                    for two, q, y in ends[i + 1:]:
                        out.append((one, two, p * q * x * y / gap))
        return out

    def matrix(self, pieces, threshold):
        m = np.zeros((self.block.dim, self.block.dim))
        for i, j, x in pieces:
            if abs(abs(x) - threshold) <= 1e-9 * abs(threshold):
                raise Skip   # on the threshold but for rounding
            if abs(x) >= threshold:
                m[i, j] += x
                m[j, i] += x
        return m


def close(got, want, size, what):
    wrong = np.abs(got - want)
    i, j = np.unravel_index(wrong.argmax(), wrong.shape)
    expect(wrong.max() <= 1e-9 * size + 1e-7 * np.abs(want).max(), "{}: {} at ({}, {}) instead of {}", what, got[i, j], i, j, want[i, j])


def second_order(case, ctx):
    """The Hamiltonian returned is the static one and the second-order sum, at each iteration."""
    block = _emb.Block(case)
    transfer = Transfer(block, case["reverse"])
    v, energy = c26.start(block, case), -1.5 * block.unit - block.scale
    nonzero = False
    for k in range(1, case["iterations"] + 1):
        what = "iteration {}".format(k)
        pieces = transfer.pieces(v, energy)
        threshold = case["threshold"]
        if case["rank"] and pieces:   # a threshold which cuts
            sizes = sorted(abs(p[2]) for p in pieces)
            threshold = sizes[case["rank"] * len(sizes) // 10] * 1.01
        m = transfer.matrix(pieces, threshold)
        nonzero = nonzero or np.abs(m - np.diag(np.diag(m))).max() > 1e-9 * block.unit
        if not case["single"]:
            m = block.turned_sum(m)
        want = block.H + np.diag(c26.dressing(block, transfer.big, v, case)) + m
        options = {} if threshold == 1e-6 and case["seed"] % 3 else {"threshold_mel": threshold}   # 1e-6 when not given
        out = c26.embed(block, case, k, dynamic_embedding=True, **options)
        got = out.hamiltonian.toarray()
        expect(np.array_equal(got, np.real(got)) and np.abs(got - got.T).max() <= 1e-9 * (block.scale + np.abs(got).max()), "{}: not real symmetric", what)
        close(got, want, block.scale + np.abs(want).max(), what + ": dressed Hamiltonian")
        _emb.check_pairs(want, out.eigenstates, 1, 1e-7 * block.scale + 1e-7 * np.abs(want).max(), block.scale + np.abs(want).max(), what)
        expect(os.listdir("initialComputations/Embedding_blocks") == [c26.name(block, case, True)], "saved in {} instead of {}", os.listdir("initialComputations/Embedding_blocks"), c26.name(block, case, True))
        _emb.reload("Embedding_blocks/" + c26.name(block, case, True), out, what)
        v, energy = np.asarray(out.eigenstates.eigvects)[:, 0], float(out.eigenstates.eigvals[0])
        if case["rank"]:
            break   # the threshold of the next iteration would be another
    ctx.tag("one neighbour" if case["single"] else "four neighbours", "reversed" if case["reverse"] else "same spins", "after Neel" if case["neel"] else "isolated",
            "threshold" if threshold else "no threshold", "iterations={}".format(k), "dressed" if nonzero else "not dressed")
    ctx.interesting(nonzero)


def part(case, c=None, v=None, energy=None, sector=None, threshold=0, single=None):
    """Dynamic part of the embedding of the block with these coefficients, saved state and energy."""
    case = dict(case)
    if sector is not None:
        case["sector"] = sector
    if single is not None:
        case["single"] = single
    block = _emb.Block(case)   # its Hamiltonian keeps the coefficients of the case: only its saved state counts
    case["neel"] = False
    block.steps = 3   # only its matrix is looked at
    block.save(v, energy)
    if c is not None:
        block.c = c
    return c26.embed(block, case, 1, dynamic_embedding=True, threshold_mel=threshold).hamiltonian.toarray() - c26.embed(block, case, 1).hamiltonian.toarray()


def relations(case, ctx):
    block = _emb.Block(case)
    rng = np.random.default_rng(case["seed"])
    v, w = rng.normal(size=(2, block.dim))
    energy = -1.5 * block.unit - 3 * block.scale
    d = part(case, v=v, energy=energy)
    size = np.abs(d).max() + 1e-6 * block.unit
    kind = case["relation"]
    if kind == "none":
        zero = dict(block.c, **{k: 0.0 for k in MOBILE})
        close(part(case, c=zero, v=v, energy=energy), 0 * d, block.unit, "no mobile coefficient")
        if np.abs(d).max() > 0:
            close(part(case, v=v, energy=energy, threshold=1e6 * block.unit), 0 * d, block.unit, "threshold above every coupling")
    elif kind == "coefficients":
        other = dict(zip(MOBILE, [x * block.unit for x in case["other"]]))
        def mobile(f):
            return dict(block.c, **{k: f(block.c[k], other[k]) for k in MOBILE})
        plus, minus = part(case, c=mobile(lambda x, y: x + y), v=v, energy=energy), part(case, c=mobile(lambda x, y: x - y), v=v, energy=energy)
        two = part(case, c=mobile(lambda x, y: y), v=v, energy=energy)
        close(plus + minus, 2 * d + 2 * two, np.abs(plus).max() + np.abs(minus).max() + 1e-6 * block.unit, "quadratic in the mobile coefficients")
    elif kind == "amplitudes":
        def saved(x):
            return part(case, v=x, energy=energy)
        plus, minus, two = saved(v + w), saved(v - w), saved(w)
        close(plus + minus, 2 * d + 2 * two, np.abs(plus).max() + np.abs(minus).max() + 1e-6 * block.unit, "quadratic in the amplitudes of the neighbour")
    elif kind == "units":
        s = case["scale"]
        close(part(case, c={k: s * x for k, x in block.c.items()}, v=v, energy=s * energy), s * d, s * size, "other unit of energy")
    elif kind == "reversal":
        mirror = _emb.Block(dict(case, sector=[block.h, block.a]))
        index = {o: k for k, o in enumerate(mirror.dets)}
        perm = np.array([index[model.reverse(o)] for o in block.dets])
        turned = np.zeros(block.dim)
        turned[perm] = v
        close(part(case, v=turned, energy=energy, sector=[block.h, block.a])[np.ix_(perm, perm)], d, size, "spins reversed everywhere")
    else:
        one = d if case["single"] else part(case, v=v, energy=energy, single=True)
        four = d if not case["single"] else part(case, v=v, energy=energy, single=False)
        close(four, block.turned_sum(one), 4 * size, "four neighbours")
        perm = block.turn()
        close(four[np.ix_(perm, perm)], four, 4 * size, "turned block")
    off = np.abs(d - np.diag(np.diag(d))).max()
    ctx.tag(kind, "dressed" if off > 1e-9 * block.unit else "not dressed")
    ctx.interesting(off > 1e-9 * block.unit)


def small(tier, square):
    """(geometry, sector, weight): the cost grows quickly with the number of determinants."""
    out = []
    for g in gens.geometries("rect", 9, square=square):
        n = gens.lattice(g).n
        if n < 2:
            continue
        for h, b in gens.sectors(n, (6 if square else 12) if tier == "quick" else (12 if square else 20), min_holes=1):
            if h < n:
                out.append((g, [h, b]))
    return out


@st.composite
def cases(draw, tier, relation=False):
    if relation:
        kind = draw(st.sampled_from(["none", "coefficients", "amplitudes", "units", "reversal", "turns"]))
    single = draw(st.integers(0, 3)) > 0 and not (relation and kind == "turns")
    options = small(tier, not single or (relation and kind == "turns"))
    if draw(st.integers(0, 5)):
        options = [o for o in options if gens.lattice(o[0]).n <= 6]
    elif relation:   # several embeddings each
        options = [o for o in options if gens.lattice(o[0]).n <= 6 or o[1][0] > 1]
    if relation:
        options = [o for o in options if gens.lattice(o[0]).n <= 4 or model.dimension(gens.lattice(o[0]).n, *o[1]) < 10]
    g, sector = draw(st.sampled_from(options))
    case = {"g": g, "sector": sector, "single": single, "reverse": draw(st.booleans()), "c": draw(gens.distinct_coefficients() if relation else st.one_of(gens.distinct_coefficients(), gens.coefficients())),
            "seed": draw(gens.seed), "unit": draw(_emb.units()), "neel": draw(st.integers(0, 3)) == 0 and not relation, "sel": draw(st.one_of(st.just([1] * 6), gens.selection()))}
    if relation:
        case["relation"] = kind
        if kind == "coefficients":
            case["other"] = [draw(st.integers(-40, 40)) / 8 for _ in MOBILE]
        if kind == "units":
            case["scale"] = draw(st.sampled_from([0.125, 0.5, 2, 3, 10, 1e-4, 1e4]))
    else:
        case["iterations"] = draw(st.sampled_from([1, 1, 2, 3, 4] if model.dimension(gens.lattice(g).n, *sector) <= 6 else [1, 1, 2]))
        case["threshold"] = draw(st.sampled_from([0, 0, 1e-6, 1e-3, 0.1]))
        case["rank"] = draw(st.one_of(st.just(0), st.integers(1, 9)))
    return case


SUBS = [
    Sub("second order", second_order, lambda tier: cases(tier), quick=160, thorough=1600, shards=8, files=True),
    Sub("relations", relations, lambda tier: cases(tier, True), quick=160, thorough=1200, shards=8, files=True),
]
