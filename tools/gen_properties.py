#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LAT = "every rectangular lattice (any number and side of sub-blocks, square or not, one site wide or more)"
p("C01", "The basis lists every placement of holes and spins exactly once, in order",
  "For any lattice and any number of holes and down spins, the constructed basis contains every assignment of holes, down spins and up spins to the sites exactly once, each written as sorted holes, then sorted down spins, then sorted up spins, and in lexicographic order of (holes, down spins). Its length is the multinomial dimension announced by the configuration, and the configuration's derived counts (sites, up spins, total spin projection, doping) agree with it. More electrons than sites is refused with a ValueError.",
  ["inputs", "configurations"], "all lattice sizes and all (holes, down spins) pairs, including empty species, no holes, only holes",
  "The tests enumerate the basis of one or two small sectors; the guarantee is over every sector of every lattice, and the rest of the program silently relies on the order.",
  ["baseConstruction.py", "latticeFunctions.py"],
  [("basis construction", "baseConstruction.py:construct_basis"), ("dimension", "latticeFunctions.py:compute_dimension"), ("configuration", "baseConstruction.py:Configuration")])
p("C02", "Ranking and unranking determinants are inverse bijections in basis order",
  "The index computed for a determinant is its position in the canonical basis whatever the order in which the sites of each species are listed, and the determinant computed for an index is the one at that position. The two maps are inverse of each other for every sector, also for lattices far too large to enumerate, and the index of a determinant preserves the lexicographic order.",
  ["inputs", "configurations"], "all sectors; all indices in [0, dimension), all determinants, all listings of a determinant; lattices of up to dozens of sites",
  "The tests check two fixed sectors of 9 and fewer sites; an error in the combinatorial sums shows only for particular counts, positions or sizes.",
  ["baseConstruction.py"],
  [("rank", "baseConstruction.py:get_index_in_basis, compute_hash_table, get_distance_hash, project_hash"), ("unrank", "baseConstruction.py:get_hash_basis, get_target_hash, fusion_hash")])
p("C03", "Reversing spins is an involution that swaps up and down and keeps the holes",
  "Reversing the spins of a determinant keeps its holes, exchanges up and down sites, and yields the configuration with the two spin counts exchanged and everything else unchanged; reversing a basis yields the reversed determinants one by one. Reversing a state moves each amplitude to the reversed determinant's position in the canonical basis of the reversed configuration. Doing it twice restores determinant, configuration and state.",
  ["inputs", "configurations"], "all sectors, determinants and states, of every lattice type, with or without a restriction of the active sites",
  "Only one reversal of one state is tested, in a sector where mistakes in ordering or in the reversed sector cannot show.",
  ["baseConstruction.py"],
  [("determinant reversal", "baseConstruction.py:reverse_spins"), ("basis reversal", "baseConstruction.py:reverse_spins_basis"), ("state reversal", "baseConstruction.py:reverse_spins_vect")])
p("C04", "Occupation queries agree with the determinant they are asked about",
  "For any determinant, the spin reported for a site (0, +1/2, -1/2), the sites reported for a species (within the configuration's restriction of the active sites, origin or target part), the one-character-per-site display and the reordered form all describe the same assignment of particles to sites. A species outside hole/up/down is refused with a ValueError.",
  ["inputs", "configurations"], "all sectors, all determinants in any listing order, all restrictions (list, or pair of lists) of the active sites",
  "The tests query a handful of determinants without restrictions.",
  ["baseConstruction.py"],
  [("spin of a site", "baseConstruction.py:get_spin_site"), ("sites of a species", "baseConstruction.py:get_indexes_of"), ("reordering", "baseConstruction.py:reorder_basis_element"), ("display", "baseConstruction.py:get_displayable_determinant, get_displayable_basis")])
p("C05", "Lattice pictures draw every particle at its geometric place",
  "The text picture of a determinant draws one arrow or 0 per site with site 0 at the south-west corner, x growing to the right and y upwards, and the picture of an embedded block adds the surrounding ring with the peripheral sites, numbered counter-clockwise from the south-west, around it. The picture of two neighbouring blocks puts the two pictures side by side, line by line. The displayable basis and dominant determinants are the pictures of the same determinants.",
  ["inputs", "configurations"], "all rectangles, all sectors, all determinants; blocks, embedded blocks and pairs of blocks",
  "No test reads the pictures; some of these functions had never been run.",
  ["baseConstruction.py"],
  [("rectangular picture", "baseConstruction.py:get_displayable_rectangular_lattice"), ("embedded picture", "baseConstruction.py:get_displayable_outer_embedding_lattice"), ("two blocks", "baseConstruction.py:get_displayable_neighbor"), ("lists", "baseConstruction.py:get_displayable_basis, get_displayable_dominant_determinants")])
p("C06", "Joining two lattices joins their determinants site by site",
  "Extending a determinant of a first lattice by one of a second lattice gives the determinant of the joint lattice in which each site of the first keeps its particle and each site of the second, shifted by the number of sites of the first, keeps its own. The result is well ordered and splitting it again recovers both determinants.",
  ["inputs", "configurations"], "all pairs of configurations (different sizes, different fillings, restricted or not) and all their determinants",
  "One pair is tested.",
  ["baseConstruction.py"], [("extension", "baseConstruction.py:extend_determinant")])
p("C07", "Rotating a square block turns every particle by a quarter turn clockwise",
  "On a square block, rotating a determinant by n quarter turns moves the particle at (x, y) to the position obtained by turning the block clockwise n times, for any integer n, negative or larger than 3 included. Rotations compose additively, four quarter turns are the identity, and the result is a well-ordered determinant of the same sector.",
  ["inputs", "configurations"], "all square blocks (including those made of several sub-blocks), all sectors, determinants and integers n",
  "Only a 3x3 lattice is tested; other sides and compositions are not.",
  ["baseConstruction.py"], [("rotation", "baseConstruction.py:rotate_determinant")])
p("C08", "Adjacency matrices are those of the drawn lattices",
  "The adjacency matrix of a rectangle links exactly the sites at distance one; the one of an embedded block adds the ring of peripheral sites, counter-clockwise from the south-west, linked to their neighbours on the same edge and to the facing site of the block (corners are not linked); the one of two blocks side by side links the east edge of the first to the west edge of the second, row by row. All of them are symmetric 0/1 matrices with empty diagonals.",
  ["configurations"], "every block geometry (sub-blocks horizontally, vertically, sites per side), square or not, one site wide or more",
  "The tests look at 3x3 blocks made of a single sub-block, where width, height and side coincide, so that swapped dimensions cannot show.",
  ["latticeFunctions.py"],
  [("rectangle", "latticeFunctions.py:build_rectangular_bond_matrix, build_J_matrix"), ("ring and embedding", "latticeFunctions.py:build_bond_matrix_neel_outer_lattice, build_bond_matrix_neel_embedding, build_T_matrix"), ("two blocks", "latticeFunctions.py:build_bond_matrix_block_embedding, build_U_matrix")])
p("C09", "Neighbour and bond queries match the graph and respect the restriction",
  "For any lattice graph, the neighbours, the second neighbours, the diagonal second neighbours and the list of bonds are exactly those of the graph, each reported once, none missing. Under a restriction of the active sites only sites (or bonds) of the restriction are reported, while paths to second neighbours may still pass through inactive sites.",
  ["inputs", "configurations"], "all three kinds of lattices and arbitrary graphs, all sites, arbitrary restrictions given as a list or as an (origin, target) pair of lists",
  "The tests cover 3x3 blocks, mostly without restriction.",
  ["latticeFunctions.py"],
  [("neighbours", "latticeFunctions.py:get_neighbors"), ("second neighbours", "latticeFunctions.py:get_second_neighbors, get_diagonal_second_neighbors"), ("bonds", "latticeFunctions.py:build_bond_list")])
p("C10", "Three linked sites are called aligned exactly when they are collinear",
  "For three distinct sites forming a path in a rectangle, in two blocks side by side, or in a block with its peripheral ring, they are reported aligned exactly when they lie on a common row or column, whatever the order in which they are given. Repeated sites, or sites that do not form a path, are refused with a ValueError.",
  ["inputs", "configurations"], "all geometries of the three lattice types, all paths of three sites in all six orders, all non-paths",
  "The answer selects which coupling is used everywhere; the tests sample a few paths of 3x3 lattices.",
  ["baseConstruction.py"], [("collinearity", "baseConstruction.py:is_bond_linear")])
p("C11", "The Hamiltonian of a rectangle is the extended t-J operator, entry by entry",
  "For any rectangle, sector, coefficients and selection of interactions, the built matrix equals the sum of the selected terms: t per hole-neighbour exchange; J(SzSz-1/4) and J/2 flips per bond with J replaced by its parallel (a hole aligned with the bond and adjacent to it) or perpendicular (only non-aligned adjacent holes) value; +/-h singlet displacements over straight or bent paths; straight or bent second-neighbour exchanges; hole-hole repulsion between neighbours and across tile diagonals. There are no other entries, and unselected terms or zero coefficients contribute nothing.",
  ["inputs", "configurations"], "all rectangles, all sectors including those with no or only holes, all real coefficients (zeros and signs included), all 64 selections of interactions",
  "The tests compare one 2x2 Hamiltonian with a stored matrix and check hermiticity of a few others; couplings that differ only on larger, non-square or multiply doped lattices are not seen.",
  ["interactions.py", "hamiltonianConstruction.py"],
  [("assembly", "hamiltonianConstruction.py:build_hamiltonian"), ("terms", "interactions.py:add_hopping_integral, add_static_spin_interaction, add_spin_flip, add_singlet_displacement, add_next_hopping_integral, add_hole_repulsion")])
p("C12", "The same operator is built on embedded and on restricted lattices",
  "On a block with its peripheral ring, on two blocks side by side, and on any lattice whose interactions are restricted to a list of active sites (in the configuration or as an argument of the construction), the built matrix is the same sum of terms over the actual geometry, restricted to terms all of whose moved, flipped or repelling particles sit on active sites and with only active holes modifying the spin couplings. Restricting to all the sites changes nothing.",
  ["inputs", "configurations"], "all embedded and two-block geometries, all rectangles with arbitrary lists of active sites, all sectors, coefficients and selections",
  "Embedded lattices are tested for single determinants of one 3x3 geometry and restrictions of the Hamiltonian not at all.",
  ["interactions.py", "hamiltonianConstruction.py", "latticeFunctions.py", "baseConstruction.py"],
  [("assembly", "hamiltonianConstruction.py:build_hamiltonian"), ("restriction", "baseConstruction.py:Configuration.sites_restriction, get_indexes_of"), ("geometry", "baseConstruction.py:is_bond_linear")])
p("C13", "The Hamiltonian is symmetric and every move can be undone",
  "For every lattice type, sector, coefficients, selection of interactions and list of active sites, the Hamiltonian is a real symmetric matrix. Equivalently, whenever one determinant is an image of another under a hopping, second-neighbour hopping, spin flip or singlet displacement, the converse holds with the same multiplicity and sign.",
  ["inputs", "configurations"], "all geometries, sectors, coefficients, selections, lists of active sites; determinants of lattices too large to diagonalise",
  "Hermiticity is tested for a few sectors of 3x3 with the default coefficients.",
  ["interactions.py", "hamiltonianConstruction.py"],
  [("images", "interactions.py:compute_hopping_integral, compute_next_hopping_integral, compute_spin_flip, compute_singlet_displacement"), ("assembly", "hamiltonianConstruction.py:build_hamiltonian")])
p("C14", "Total spin is conserved and the spin sectors have nested spectra",
  "With static and flip parts of the spin interaction selected together (or both left out), the Hamiltonian commutes with the total spin S^2, is mapped onto the Hamiltonian of the opposite sector by spin reversal, and every energy of a sector of larger |Ms| also appears, with at least the same multiplicity, in the sectors of smaller |Ms|.",
  ["inputs", "configurations"], "all geometries (rectangles, embedded blocks, two blocks), sectors, coefficients, and selections including both or neither spin part",
  "This relates several runs of the program with each other and holds for every coefficient; a table of expected values cannot express it.",
  ["interactions.py", "hamiltonianConstruction.py", "baseConstruction.py"],
  [("spin terms", "interactions.py:compute_static_spin_interaction, compute_spin_flip, compute_singlet_displacement"), ("S^2", "interactions.py:compute_S2"), ("reversal", "baseConstruction.py:reverse_spins_vect")])
p("C15", "Symmetries of the lattice are symmetries of the Hamiltonian",
  "Relabelling the sites by a reflection or half turn of the rectangle (or a quarter turn of a square) leaves the Hamiltonian unchanged, and the Hamiltonians of a rectangle, of the transposed rectangle, and of the same rectangle cut in sub-blocks differently or joined from two blocks are the same up to the renumbering of the sites. Changing the sign of t amounts to changing that of the determinants with an odd number of holes on one half of the checkerboard.",
  ["inputs", "configurations"], "all rectangles and all ways to describe them, sectors, coefficients, selections",
  "Two different executions have to be compared; no fixed expectation covers all geometries.",
  ["interactions.py", "hamiltonianConstruction.py", "latticeFunctions.py", "baseConstruction.py"],
  [("geometry", "latticeFunctions.py:build_rectangular_bond_matrix, build_bond_matrix_block_embedding"), ("terms", "interactions.py"), ("rotation", "baseConstruction.py:rotate_determinant")])
p("C16", "The Hamiltonian is additive in the selected terms and linear in coefficients",
  "The matrix for any selection of interactions is the sum of the matrices of its terms taken alone, is linear in each of the ten coefficients, and each coefficient acts only through its own term. Building it again gives the same matrix. Adding one element to a Hamiltonian under construction, as lists or as a sparse matrix, adds exactly that element.",
  ["inputs", "configurations"], "all sectors, coefficients, pairs of coefficient sets, selections and splits of a selection",
  "A relation between runs over continuous coefficients; the tests use a single set of coefficients with everything selected.",
  ["hamiltonianConstruction.py", "interactions.py"],
  [("assembly", "hamiltonianConstruction.py:build_hamiltonian, add_ham_coo"), ("coefficients", "interactions.py:Interactions"), ("selection", "initialComputations.py:BoolInteractions")])
p("C17", "The action on a single determinant agrees with the Hamiltonian's row",
  "For any determinant of any lattice, however large and in whatever order its sites are listed, the energy computed for it is the sum of its static spin and hole repulsion terms, and the couplings computed for it list exactly the determinants reached by the selected moves with their total coupling, as in the Hamiltonian's off-diagonal row. The images of each separate move are well-ordered determinants of the same sector, with the multiplicities of the geometric definition. When the configuration tells starting from target sites, the holes which move are on the former and the electrons they move with on the latter.",
  ["inputs", "configurations"], "all lattice types up to dozens of sites, all sectors, determinants, coefficients and selections",
  "Tests list the images of a few determinants of 3x3 lattices; the combined couplings and energies are not tested.",
  ["interactions.py"],
  [("energy", "interactions.py:compute_energy"), ("couplings", "interactions.py:compute_dynamic_interactions"), ("images", "interactions.py:compute_hopping_integral, compute_next_hopping_integral, compute_spin_flip, compute_singlet_displacement, compute_hole_repulsion")])
p("C18", "The eigensolver returns the lowest eigenpairs, orthonormal, to the tolerance",
  "For any symmetric matrix, number of requested states, tolerance, start vectors and limit of the search space, given enough steps, the solver returns min(requested, dimension, limit) values in ascending order with orthonormal vectors whose residuals are below the tolerance, and the values are upper bounds of the lowest exact eigenvalues. For matrices whose states are coupled together, from generic start vectors and with a search space allowed to grow to the whole space, they are the lowest eigenvalues, degenerate ones as many times as they occur. The input matrix and start vectors are left untouched.",
  ["inputs", "configurations"], "all sizes from 1, sparse, dense, degenerate, block and diagonal matrices, Hamiltonians of all sectors, numbers of states up to and above the dimension, with or without start vectors, limits of the search space",
  "The tests run one random matrix size and compare a few values; the failures live in degenerate spectra, small sectors and single-state requests.",
  ["davidson.py"],
  [("block Davidson", "davidson.py:modified_davidson_algorithm"), ("selection", "davidson.py:get_lowests_eig"), ("orthonormalisation", "davidson.py:perform_modified_gram_schmidt")])
p("C19", "Eigenpair selection, orthonormalisation and the single-state solver are exact",
  "Selecting the lowest n eigenpairs returns the n smallest values in ascending order, each with a matching and distinct vector of the input, also when values repeat. Orthonormalising independent vectors yields orthonormal vectors spanning, for every k, the span of the first k inputs. The single-state solver returns the lowest eigenvalue to the requested precision and a normalised eigenvector. Projecting a symmetric matrix away from orthonormal vectors gives a symmetric matrix of the spectrum it has in their complement.",
  ["inputs"], "all lists of values with repetitions, orders and types; all sets of independent vectors of any number and dimension; all symmetric matrices",
  "Tests use generic random data, where ties and non-square inputs do not occur.",
  ["davidson.py"],
  [("selection", "davidson.py:get_lowests_eig"), ("Gram-Schmidt", "davidson.py:gramSchmidt, perform_modified_gram_schmidt"), ("single state", "davidson.py:davidson_algorithm")])
p("C20", "Spin operators act on states as the quantum-mechanical operators do",
  "S+S-, SzSz and S^2 act linearly on any state as the corresponding operators do on each determinant, in whatever order its sites are given, S^2 is symmetric with eigenvalues s(s+1) for s from |Ms| to half the electrons, and fully polarised or fully paired states get the right value. The expectation value, the spin number and its name (singlet to quintet, multiplet above) of an eigenstate of S^2 are those of its s, whatever its norm, for one state or a table of several; the spin number of any other state is the half-integer closest to the s of its s(s+1) = <S^2>.",
  ["inputs", "configurations"], "all sectors of lattices of any size, all states and pairs of sites",
  "The tests evaluate two or three states of the 2x2 and 3x3 lattices, and one of them is broken.",
  ["interactions.py"],
  [("S+S-", "interactions.py:compute_S_plus_S_minus, compute_S_plus_S_minus_det"), ("SzSz, Sz", "interactions.py:compute_spins_z_two_bodies, compute_spin_z"), ("S^2", "interactions.py:compute_S2, compute_S2_exp_val"), ("spin number", "interactions.py:compute_spin_number, compute_spin_multiplicity")])
p("C21", "Site probabilities are the normalised distribution of the state",
  "For any non-zero state, whatever its norm, the probability reported for a particle on a site is the weight of the determinants having it there; on each site the three probabilities add up to one, and over the sites they add up to the number of holes, up and down spins. Asking for reversed spins exchanges up and down, and the rectangular array shows site 0 at the bottom left.",
  ["inputs", "configurations"], "all sectors, all real states of any norm, all rectangles",
  "The tests evaluate one normalised state on a square lattice.",
  ["baseConstruction.py"],
  [("per site", "baseConstruction.py:get_probability_spin_lattice, get_spins_probabilitites_lattice"), ("array", "baseConstruction.py:get_probability_spin_rectangular_lattice")])
p("C22", "Dominant determinants are the distinct ones of largest amplitude",
  "The n dominant determinants of a state are n distinct determinants (all of them if there are fewer) with the largest absolute amplitudes, in decreasing order, each given with its signed amplitude, also when amplitudes tie and whether the state is a column, a row or flat. This holds for both reports of dominant determinants of the program.",
  ["inputs", "configurations"], "all sectors, all states including ties, opposite signs and zeros, all n",
  "Symmetric ground states always have ties, and no test has one.",
  ["baseConstruction.py", "initialComputations.py"],
  [("basis report", "baseConstruction.py:get_dominant_determinants"), ("saved-data report", "initialComputations.py:get_most_dominant_determinants")])
p("C23", "Saved computations are recovered exactly and remain usable",
  "Loading a saved computation gives back the same configuration (geometry, lattice type, active sites, fillings), coefficients, selection, solver settings, basis, Hamiltonian, eigenstates and times, bit for bit, in a form on which every operation of the program works as on the original. Any sequence of saves and loads of distinct computations behaves like a dictionary keyed by fillings and selection of interactions: each load returns the last computation saved under its name. A file without the times or the geometry still gives back all that it holds.",
  ["inputs", "configurations", "histories"], "all configurations, coefficients (any finite floats), selections, eigenstate sets; sequences of saves and loads",
  "There is no test of saving or loading, and no test could cover the sequences and the float values.",
  ["initialComputations.py", "baseConstruction.py"],
  [("saving", "initialComputations.py:save_data"), ("loading", "initialComputations.py:load_data, recover_results"), ("serialisation", "baseConstruction.py:Configuration.__to_json__")],
  [("./initialComputations/*.json", "one file per fillings and selection of interactions")])
p("C24", "A full computation is consistent, and covers every spin sector of the lattice",
  "A computation returns the canonical basis, the Hamiltonian of the requested terms, its lowest eigenpairs and the spin of each eigenstate, for exactly the requested configuration, with times that fit in its duration. Computing all the configurations of a lattice saves one complete, loadable result for every number of up spins at the given number of holes, each for the same lattice, and the results of opposite sectors have the same energies.",
  ["inputs", "configurations", "histories"], "all small rectangles and numbers of holes, coefficients, selections, numbers of states",
  "The pipeline is not tested at all; only its pieces are.",
  ["initialComputations.py"],
  [("one sector", "initialComputations.py:perform_initial_computations"), ("all sectors", "initialComputations.py:perform_configurations_computations")])
p("C25", "Embedding in a Neel lattice dresses the diagonal with the self-consistent field",
  "Starting from the saved isolated block, each iteration diagonalises the block's Hamiltonian plus, on the diagonal, -J/2 times the probability of antiparallel neighbours plus the hole repulsions with the surrounding sites, first for a Neel checkerboard around the block with a spin down just below its south-west site, then for a ring mirroring the current ground state with spins reversed. The result returned, and saved, is the eigenstates of the last iteration; it stops early only when two consecutive ground states agree within the tolerance.",
  ["inputs", "configurations", "histories"], "all small blocks, square or not, sectors, coefficients, selections, numbers of iterations and tolerances",
  "There is no test of the embeddings; the field depends on geometry, probabilities and iteration history together.",
  ["embedding.py", "latticeFunctions.py", "baseConstruction.py"],
  [("self-consistent loop", "embedding.py:embedding_neel"), ("saving", "embedding.py:save_data_peripheral_embedding")],
  [("./initialComputations/Peripheral_embedding/*.json", "results of the embedding")])
p("C26", "Static embedding between blocks adds the neighbours' mean field symmetrically",
  "Without dynamic couplings, each iteration of the block embedding diagonalises the block's Hamiltonian plus, on the diagonal, the mean field of a neighbouring block to the east in the current ground state (spins reversed on request): -J/2 times the probability of antiparallel pairs and the hole repulsions across the frontier. With a single neighbour it is added once, otherwise once for each quarter turn of the block, and the dressed Hamiltonian and its ground state are returned and saved under a name telling the embedding and the fillings.",
  ["inputs", "configurations", "histories"], "all small blocks (square when four neighbours), sectors, coefficients, selections, numbers of iterations, with or without reversed spins and a previous Neel embedding",
  "There is no test of the embeddings.",
  ["embedding.py", "latticeFunctions.py", "baseConstruction.py"],
  [("self-consistent loop", "embedding.py:embedding_blocks"), ("saving", "embedding.py:save_data_embedding_blocks")],
  [("./initialComputations/Embedding_blocks/*.json", "results of the embedding")])
p("C27", "Dynamic embedding dresses the block with a symmetric second-order coupling",
  "The dynamic block embedding returns the statically dressed Hamiltonian plus, for each pair of determinants, the sum over the intermediates in which the neighbour lends one electron to a hole of the block across the frontier of amplitude * amplitude * transfer * transfer / (2 E0 - E_intermediate), for products above the threshold, E0 being the saved energy and then that of the last iteration. It is real symmetric, is zero when no mobile coefficient is non-zero or the threshold exceeds every coupling, is quadratic in the mobile coefficients and in the neighbour's amplitudes, scales with the unit of energy, follows the reversal of every spin, and with four neighbours is the sum over the quarter turns of the block.",
  ["inputs", "configurations"], "2x2 and small non-square blocks, sectors, coefficients, ground states, thresholds, numbers of iterations, with one or four neighbours, with or without reversed spins",
  "There is no test of the dynamic embedding; its terms depend on two lattices, their joint geometry and the iteration history together, and the relations compare several runs.",
  ["embedding.py", "interactions.py", "baseConstruction.py"],
  [("perturbators and couplings", "embedding.py:embedding_blocks"), ("couplings of a determinant", "interactions.py:compute_dynamic_interactions"), ("joint determinants", "baseConstruction.py:extend_determinant, rotate_determinant")])
p("C28", "Computations never modify their inputs and repeat identically",
  "No query, construction, operator, eigensolver or probability function modifies the configuration, determinants, basis, matrices, vectors or lists it is given, and calling it again in any order with the same inputs gives the same result, whatever the caller did with what it was given back. When the caller changes the contents of an input between two calls, the second one answers for the new contents.",
  ["inputs", "histories"], "all public operations on lattices, determinants, bases, states and matrices; arbitrary sequences of calls sharing the same objects",
  "Tests build fresh objects for each call, so aliasing and hidden state cannot show.",
  ["baseConstruction.py", "latticeFunctions.py", "interactions.py", "hamiltonianConstruction.py", "davidson.py"],
  [("copies of determinants", "interactions.py:compute_*"), ("reordering", "baseConstruction.py:reorder_basis_element"), ("vectors", "interactions.py:compute_S2, compute_spins_z_two_bodies"), ("eigensolver", "davidson.py:get_lowests_eig")])
p("C29", "Plots show the computed spectrum, densities and amplitudes of their sector",
  "The spectrum plot draws one level per eigenvalue at its energy, side by side for equal energies; the amplitude plots count, for each threshold, the determinants whose amplitude reaches it; the comparison with an embedding draws the largest weights of both ground states in decreasing order; the density plots take at the lattice sites, which they mark, the probabilities of the plotted eigenstates. Each is written to the file named after the sites, up and down spins of its computation.",
  ["inputs", "configurations"], "all small lattices, sectors, eigenstates and selections",
  "There is no test of the plots.",
  ["postProcessing.py"],
  [("spectrum", "postProcessing.py:save_spectrum"), ("densities", "postProcessing.py:save_hole_probability_lattice, save_electron_probability_lattice"), ("amplitudes", "postProcessing.py:plot_determinants_amplitude_repartition, plot_embedding_effect_on_determinants"), ("dispatch", "postProcessing.py:generate_plots_configuration, generate_plots")])
p("C30", "Scans of the couplings show the energies and spins of each of their points",
  "The phase-space map of an eigenstate shows, for each spin sector that has that state, its energy and spin number at every point of the grid: the couplings t and V are those of the axes t/J and V/J, the next-neighbour ones follow them, the others are those of the data. The spectrum-dependence plots show, at each t/J, each energy of the plain and of the extended model once, t being kept while J and the couplings that follow it are scaled; each curve takes the colour and style of the multiplicity and degeneracy of its first point. The data are left as they were given.",
  ["inputs", "configurations"], "all small lattices, sectors, eigenstates, couplings, selections and sizes of the grid",
  "There is no test of the plots; the map could not even run.",
  ["postProcessing.py"],
  [("map", "postProcessing.py:save_phase_space"), ("dependence", "postProcessing.py:plot_spectrum_dependance")])
p("C31", "Requests outside of what is documented are refused, and only those",
  "For any lattice, determinant and state: a configuration of another type than the three documented ones, the sites or the probabilities of a species that is not 0, 1 or -1, the array of probabilities of a lattice that is not a rectangle, the spin of a site that the lattice does not have, and a file that does not exist end with an error (a ValueError for the first ones) instead of an answer, leave the arguments as they were and write nothing. The documented values are answered.",
  ["inputs"], "all lattices, determinants, restrictions, and any value of the argument concerned",
  "Tests check one or two wrong values of a single function.",
  ["baseConstruction.py", "initialComputations.py"],
  [("type", "baseConstruction.py:Configuration"), ("species", "baseConstruction.py:get_indexes_of, get_probability_spin_lattice, get_probability_spin_rectangular_lattice"), ("site", "baseConstruction.py:get_spin_site"), ("file", "initialComputations.py:load_data")])

p("C32", "In a session, every step gives what it gives on its own",
  "In any sequence of computations, saves, loads, embeddings, plots and edits of the inputs (couplings, selection, number of states, sector, recovered data), run in one process and directory on data kept from a step to the next, each step returns, saves and draws what it would from data made anew in a fresh process with the same files: nothing that ran before, on this system or another, shows. A step leaves the data of the user as they were (except the initial guess, which saving discards), and saves its own computations and no others, with the parameters given.",
  ["histories", "inputs"], "all sequences of computations, saves, loads, embeddings, plots and edits, on one or two systems that may share their inputs, small lattices",
  "Tests never run two computations on the same data, nor an embedding or a plot.",
  ["initialComputations.py", "embedding.py", "postProcessing.py"],
  [("sectors", "initialComputations.py:perform_configurations_computations"), ("single computation", "initialComputations.py:perform_initial_computations, save_data, load_data"), ("embeddings", "embedding.py:embedding_neel, embedding_blocks"), ("plots", "postProcessing.py:generate_plots, generate_plots_configuration, save_phase_space")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
