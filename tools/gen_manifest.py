#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    "C01": "property-based testing: exhaustive small sectors and generated lattices against an independent enumeration",
    "C02": "property-based testing: inverse and order relations, digit-by-digit ranking as oracle",
    "C03": "property-based testing: involution and permutation of amplitudes against occupation strings",
    "C04": "property-based testing: queries against occupation strings",
    "C05": "property-based testing: pictures parsed back into coordinates and redrawn",
    "C06": "property-based testing: concatenation of occupation strings",
    "C07": "property-based testing: rotation of coordinates, composition and inverse relations",
    "C08": "property-based testing: adjacency from coordinates, exhaustive up to a bound and generated beyond",
    "C09": "property-based testing: set definitions on generated graphs, lattices and restrictions",
    "C10": "property-based testing: collinearity of coordinates on exhaustive and generated paths",
    "C11": "property-based testing: entry-by-entry reference model of the operator",
    "C12": "property-based testing: entry-by-entry reference model on embedded and restricted lattices",
    "C13": "property-based testing: metamorphic relation (transposition, converse moves)",
    "C14": "property-based testing: metamorphic relations (commutation with S^2, spin reversal, nested spectra)",
    "C15": "property-based testing: metamorphic relations (lattice symmetries, other descriptions of the lattice)",
    "C16": "property-based testing: metamorphic relations (additivity, linearity, support of each coefficient)",
    "C17": "property-based testing: reference model and differential test against the Hamiltonian's rows",
    "C18": "property-based testing: generated matrices against the exact spectrum",
    "C19": "property-based testing: validity predicates and exact spectrum",
    "C20": "property-based testing: reference matrices of the spin operators, states of known spin",
    "C21": "property-based testing: reference distribution, normalisation and symmetry relations",
    "C22": "property-based testing: validity predicate on amplitudes with ties",
    "C23": "property-based testing: round trips, and stateful sequences of saves and loads against a dictionary",
    "C24": "property-based testing: whole computations against the reference basis, operator and spectrum",
    "C25": "property-based testing: reference mean field chained over the iterations",
    "C26": "property-based testing: reference mean field chained over the iterations",
    "C27": "property-based testing: reference second-order sum, and metamorphic relations between embeddings",
    "C28": "stateful property-based testing: interleaved histories in fresh processes against each call alone",
    "C29": "property-based testing: data of the figures against the reference densities, levels and amplitudes",
    "C30": "property-based testing: data of the figures against the exact spectrum of the reference operator at each point",
    "C31": "property-based testing: generated requests, allowed and not, against the documented values",
    "C32": "stateful property-based testing: sessions against each step alone in a fresh process",
}
NOTE = {
    "default": "Generated-input search: shows the presence of violations in the explored cases only. Trusts the reference model "
               "of vt/model.py (written from coordinates and occupation strings), NumPy/LAPACK and Hypothesis.",
    "C18": "Generated-input search against LAPACK. Convergence to the lowest states is only claimed for coupled matrices, generic "
           "start vectors and a search space that may grow to the whole space; three findings outside of it are listed in KNOWN_FINDINGS.txt.",
    "C23": "Generated-input search; the two name collisions of KNOWN_FINDINGS.txt are excluded from the sequences by construction.",
    "C25": "Generated-input search; a case whose chain of ground states moves under a perturbation of 1e-6 is counted as not determined, and not judged.",
    "C26": "Generated-input search; a case whose chain of ground states moves under a perturbation of 1e-6 is counted as not determined, and not judged.",
    "C27": "Generated-input search on blocks of up to 6 sites; the second-order sum is the one the code computes (electron lent by the "
           "neighbour and given back), see DESIGN.md.",
    "C28": "Generated-input search over histories of up to 40 calls; floats are compared with a relative tolerance of 1e-9, inputs bit for bit.",
    "C32": "Generated-input search over sessions of up to 12 steps on lattices of up to 6 sites (12 for rings and pairs of blocks); what depends on the random start of the "
           "eigensolver when the step runs alone is not judged.",
    "C29": "Generated-input search; figures are taken when savefig is called, so the rendering itself is trusted.",
    "C30": "Generated-input search; the eigensolver is replaced by an exact one in three cases out of four (its accuracy is the matter of C18), and the "
           "computations of the dependence plots by generated spectra.",
}
checks = [{
    "property": p,
    "quick_cmd": "python3 check.py {}".format(p),
    "thorough_cmd": "python3 check.py {} --tier thorough".format(p),
    "evidence_file": "evidence/{}.json".format(p),
    "technique": t,
    "level": "exploration",
    "level_note": NOTE.get(p, NOTE["default"]),
} for p, t in TECHNIQUE.items()]
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo. Checks import the code of /repo's working tree (Python, nothing to build) under /opt/venv/bin/python, with "
             "Hypothesis from the python tooling venv. VERIF_SEED drives every random choice. Replay: python3 check.py Cxx --replay FILE.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
