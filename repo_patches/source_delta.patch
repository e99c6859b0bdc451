From fe0a8d2ac7889b55a60732bb0ad9851d8e612ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:13 +0000
Subject: [PATCH 01/34] fix: Davidson: normalise a single initial guess, keep
 the preconditioner finite

---
 davidson.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/davidson.py b/davidson.py
index 39d2c71..12eac63 100644
--- a/davidson.py
+++ b/davidson.py
@@ -253,7 +253,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
     if nb_val > 1 :
         krylov_basis = perform_modified_gram_schmidt(initial_guess)
     else:
-        krylov_basis = initial_guess
+        krylov_basis = initial_guess / lin.norm(initial_guess)
 
     for _ in trange_verbose(stp, verbose):
         # Krylov vectors
@@ -277,9 +277,9 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
         # Correction of unsatisfactory residues
         corrections = np.zeros((dim, nb_val))
         for ind in range(nb_val):
-            preconditionner = sp.csr_matrix(\
-                ([1 / (diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
-                shape=(dim, dim))
+            shifted_diag = A.diagonal() - eigvals_temp[ind]
+            shifted_diag[abs(shifted_diag) < 1e-8] = 1e-8 # The preconditionner is not defined where the diagonal equals the eigenvalue
+            preconditionner = sp.csr_matrix((1 / shifted_diag, (range(dim), range(dim))), shape=(dim, dim))
             corrections[:,ind] = preconditionner.dot(residues[:,ind])
         # Iteration
         if krylov_basis.shape[0] > dim_max - nb_val :
-- 
2.43.0


From 2d132e75fd859742a2f6945f6551b3fbe485a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 02/34] fix: Davidson: never ask for more eigenstates than the
 matrix has

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 12eac63..c2f5337 100644
--- a/davidson.py
+++ b/davidson.py
@@ -244,7 +244,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
     dim = A.shape[0]
     if dim_max == 0:
         dim_max = dim
-    nb_val = min(nb_val, dim_max)
+    nb_val = min(nb_val, dim_max, dim)
 
     if initial_guess is None:
         initial_guess = np.random.rand(dim, nb_val)
-- 
2.43.0


From 69d7eb43ec2778cecab1aab4c1b71970bd44f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:36 +0000
Subject: [PATCH 03/34] fix: gramSchmidt: iterate over the columns, so that
 fewer vectors than dimensions are accepted

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index c2f5337..1359fb0 100644
--- a/davidson.py
+++ b/davidson.py
@@ -312,7 +312,7 @@ def gramSchmidt(V):
     Returns:
         A (np.array): the orthonormalized set of vectors
     """
-    dim = V.shape[0]
+    dim = V.shape[1]
     A = np.zeros(V.shape) # Orthonormalized columns of V
     A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
     for col in range(1, dim):
-- 
2.43.0


From c3872e66faa0ec137d03f5220f4b4b5f5907ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 04/34] fix: get_dominant_determinants: list each determinant
 once when several have the same amplitude

---
 baseConstruction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 2d2c662..824b5e5 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -759,13 +759,13 @@ def get_dominant_determinants(basis, vect, ndet):
     temp_vect = temp_vect.tolist()
     
     abs_temp_vect = [abs(elt) for elt in temp_vect]
-    sorted_abs_temp_vect = sorted(abs_temp_vect, reverse=True)[:min(ndet, len(temp_vect))]
+    dominant_indices = sorted(range(len(temp_vect)), key=lambda ind: abs_temp_vect[ind], reverse=True)[:ndet]
     
     # Determination of the most dominant determinants and their indexes
     list_dets, list_coeffs = [], []
-    for abs_elt in sorted_abs_temp_vect:
-        list_coeffs.append(temp_vect[abs_temp_vect.index(abs_elt)])
-        list_dets.append(get_hash_basis(nholes, nalpha, nbeta, abs_temp_vect.index(abs_elt)))
+    for ind in dominant_indices:
+        list_coeffs.append(temp_vect[ind])
+        list_dets.append(get_hash_basis(nholes, nalpha, nbeta, ind))
 
     return (list_coeffs, list_dets)
 
-- 
2.43.0


From 280f18b44c3a1795270daa51279506400ec25552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 05/34] fix: get_probability_spin_rectangular_lattice:
 normalise the probabilities only once

---
 baseConstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 824b5e5..9a09ed0 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -732,7 +732,7 @@ def get_probability_spin_rectangular_lattice(basis, vect, spin):
             ind_site = ind_v * nblocs_side * nbh + ind_h 
             
             proba_sites = get_probability_spin_lattice(basis, vect, spin)
-            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site] / (np.linalg.norm(vect) ** 2)
+            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site]
     return proba_lattice
 
         
-- 
2.43.0


From 99d590ef2f9858a7ac8249840e6b4ab3526b6bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 06/34] fix: display functions: pass the configuration of the
 basis, not the basis

---
 baseConstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 9a09ed0..0438d3d 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -442,7 +442,7 @@ def get_displayable_basis(basis):
     
     print_basis = []
     for det in determinants :
-        print_basis.append(get_displayable_determinant(basis, det))
+        print_basis.append(get_displayable_determinant(basis.configuration, det))
     return print_basis
     
 def get_displayable_rectangular_lattice(configuration, vect):
@@ -781,7 +781,7 @@ def get_displayable_dominant_determinants(basis, vect, ndet):
         list_det (list<str>): the list of corresponding determinants in the basis, as a displayable string
     """
     list_coeffs, list_dets = get_dominant_determinants(basis, vect, ndet)
-    list_dets_displayable = [get_displayable_rectangular_lattice(basis, det) for det in list_dets]
+    list_dets_displayable = [get_displayable_rectangular_lattice(basis.configuration, det) for det in list_dets]
     return (list_coeffs, list_dets_displayable)
 
 ### Symmetry functions
-- 
2.43.0


From b88f34252f4750850bd77c6ebd20f8b6b10ac4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 07/34] fix: is_bond_linear: locate the peripheral sites, so
 that blocks one site wide are handled

---
 baseConstruction.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 0438d3d..cb18f93 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -329,30 +329,23 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
         nbv = configuration.nbv
         nblocs_side = configuration.nblocs_side
         nsites = nbh * nbv * (nblocs_side ** 2)
-        if site_1 < nsites and site_2 < nsites and site_3 < nsites:
-            configuration_periodic = copy.deepcopy(configuration)
-            configuration_periodic.bond_matrix = lF.build_rectangular_bond_matrix(configuration.nbh, configuration.nbv, configuration.nblocs_side)
-            configuration_periodic.lattice_type = 'periodic' 
-            return is_bond_linear(configuration_periodic, site_1, site_2, site_3)
-        elif site_1 >= nsites and site_2 >= nsites and site_3 >= nsites: # If sites are all on the peripheral lattice, there are obviously colinear
-            return True
-        elif len([site for site in (site_1, site_2, site_3) if site >= nsites]) == 2: # If 2 sites are on the peripheral lattice, the last one can't be colinear
-            return False 
-        else: # There is one site on the peripheral lattice
-            if abs(site_2 - site_1) == 1: # First bond horizontal
-                if (site_3 >= nsites and site_3 < nsites + nbh * nblocs_side) or (site_3 >= nsites + (nbh + nbv) * nblocs_side \
-                    and site_3 < nsites + (2 * nbh + nbv) * nblocs_side): # Second bond vertical
-                    return False
-                else: # Second bond horizontal
-                    return True
-            else: # First bond vertical
-                if (site_3 >= nsites and site_3 < nsites + nbh * nblocs_side) or (site_3 >= nsites + (nbh + nbv) * nblocs_side \
-                    and site_3 < nsites + (2 * nbh + nbv) * nblocs_side): # Second bond vertical
-                    return True
-                else: # Second bond horizontal
-                    return False
+        width, height = nbh * nblocs_side, nbv * nblocs_side
+        def get_position(site): # Coordinates in the lattice, with site 0 of the block as the origin
+            if site < nsites:
+                return site % width, site // width
+            site -= nsites
+            if site < width: # South
+                return site, -1
+            site -= width
+            if site < height: # East
+                return width, site
+            site -= height
+            if site < width: # North
+                return width - 1 - site, height
+            return -1, height - 1 - (site - width) # West
+        (x_1, y_1), (x_3, y_3) = get_position(site_1), get_position(site_3)
+        return x_1 == x_3 or y_1 == y_3
 
-            
     else: # We look for the permutation of the sites indices that makes the indexing as in a lattice of type 'periodic'
         configuration_periodic = copy.deepcopy(configuration)
         configuration_periodic.bond_matrix = lF.build_rectangular_bond_matrix(configuration.nbh, configuration.nbv, configuration.nblocs_side)
-- 
2.43.0


From f4ce5396e731756df44b2e4ec0de791c77e0e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 08/34] fix: is_bond_linear: decide 'clusters' lattices from
 their tiles instead of searching sign patterns of eigenvectors

---
 baseConstruction.py | 54 +++------------------------------------------
 1 file changed, 3 insertions(+), 51 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index cb18f93..a81482a 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -5,7 +5,7 @@ import scipy.special as spec
 
 import latticeFunctions as lF
 
-from itertools import combinations, permutations, product
+from itertools import combinations
 from tqdm import tqdm, trange # Install tqdm via pip    
 
 class Configuration :
@@ -346,56 +346,8 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
         (x_1, y_1), (x_3, y_3) = get_position(site_1), get_position(site_3)
         return x_1 == x_3 or y_1 == y_3
 
-    else: # We look for the permutation of the sites indices that makes the indexing as in a lattice of type 'periodic'
-        configuration_periodic = copy.deepcopy(configuration)
-        configuration_periodic.bond_matrix = lF.build_rectangular_bond_matrix(configuration.nbh, configuration.nbv, configuration.nblocs_side)
-        configuration_periodic.lattice_type = 'periodic'
-        nbh, nbv, nblocs_side, nsites = configuration.nbh, configuration.nbv, configuration.nblocs_side, configuration.nsites
-        
-        bond_matrix_clusters = configuration.bond_matrix
-        bond_matrix_periodic = lF.build_rectangular_bond_matrix(nbh, nbv, nblocs_side)
-
-        # We compute transfer_matrix, the matrix of the permutation of sites from the cluster type indexing (or any other indexing) to the periodic type indexing
-        # so that we find the indexes of the considered sites in a periodic type indexing
-
-        clusters_eigenstates = np.linalg.eigh(bond_matrix_clusters)
-        clusters_eigenvectors = clusters_eigenstates[1]
-
-        periodic_eigenstates = np.linalg.eigh(bond_matrix_periodic)
-        periodic_eigenvectors = periodic_eigenstates[1]
-
-        # We find that, if C = bond_matrix_clusters, P = bond_matrix_periodic, and V = transfer_matrix, 
-        # with VCV.T = P and C = UDU.T, P = WDW.T, with D diagonal, it yields that W.TVU commutes with D, hence is diagonal : V=WD'U.T
-        # Given that V is unitary (VV.T=V.TV=I), (D')^2 = I so its diagonal coefficients are either 1 or -1
-        # We look for the correct D', that stabilizes 0 (V[0, 0] = 1) and make every coefficient of V live in [0, 1] (V[i, j] = 0 or 1)
-
-        possibles_diag = tuple(product([1, -1], repeat=nsites))
-        ind_diag = 0
-        is_permutation_matrix = False
-        while ind_diag < 2 ** nsites and not is_permutation_matrix :
-            commuting_matrix = np.diag(possibles_diag[ind_diag])
-            transfer_matrix = np.matmul(periodic_eigenvectors, np.matmul(commuting_matrix, clusters_eigenvectors.T))
-            if round(transfer_matrix[0, 0], 10) == 1.:
-                ind_row = 0
-                ind_col = 0
-                while ind_row < nsites and round(transfer_matrix[ind_row, ind_col], 10) in (0., 1.):
-                    if ind_col < nsites - 1:
-                        ind_col += 1
-                    else:
-                        ind_col = 0
-                        ind_row += 1
-                if ind_row == nsites:
-                    is_permutation_matrix = True
-                else:
-                    ind_diag += 1
-            else:
-                ind_diag += 1
-
-        new_s1 = [row for row in range(nsites) if round(transfer_matrix[row, site_1], 10) == 1][0]
-        new_s2 = [row for row in range(nsites) if round(transfer_matrix[row, site_2], 10) == 1][0]
-        new_s3 = [row for row in range(nsites) if round(transfer_matrix[row, site_3], 10) == 1][0]
-
-        return is_bond_linear(configuration_periodic, new_s1, new_s2, new_s3)
+    else: # Two orthogonal bonds are edges of a same tile, so that site_1 and site_3 share another neighbor than site_2
+        return len(set(lF.get_neighbors(site_1, bond_matrix)) & set(lF.get_neighbors(site_3, bond_matrix))) == 1
 
 
 # Display functions
-- 
2.43.0


From b3270c429646994c9fdb71a3f763bd4598d7a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 09/34] fix: compute_spin_flip: detect aligned holes as the
 static spin interaction does, for every type of lattice

---
 interactions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interactions.py b/interactions.py
index c3e6038..5fa4931 100644
--- a/interactions.py
+++ b/interactions.py
@@ -281,8 +281,8 @@ def compute_spin_flip(configuration, interactions, vect):
             ind_neigh_hole_0 = list(set(ind_neigh_0) & set(bC.get_indexes_of(configuration, vect, 0)))
             ind_neigh_hole_1 = list(set(ind_neigh_1) & set(bC.get_indexes_of(configuration, vect, 0)))
             if (ind_neigh_hole_0 or ind_neigh_hole_1) \
-                and (ind_1 - ind_0 in [abs(ind_0 - ind_hole) for ind_hole in ind_neigh_hole_0] + \
-                [abs(ind_1 - ind_hole) for ind_hole in ind_neigh_hole_1]): # Check if a neighboring hole is aligned with the pair
+                and True in [bC.is_bond_linear(configuration, ind_1, ind_0, ind_hole) for ind_hole in ind_neigh_hole_0 + ind_neigh_hole_1]:
+                # Check if a neighboring hole is aligned with the pair
                 
                 images_par.append(bC.reorder_basis_element(configuration, temp))
 
-- 
2.43.0


From 2c93d0d25916b3b24b2c408e4ea8cc2fabcbdf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 10/34] fix: recover_results: restore the type of the lattice,
 and the sites restriction as a tuple

---
 initialComputations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/initialComputations.py b/initialComputations.py
index 816e2a9..55a6677 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -218,9 +218,11 @@ def recover_results(configuration, interactions, diagonalization, bool_interacti
     configuration_class = bC.Configuration(bond_matrix=np.array(configuration["bond_matrix"]), 
         nholes=configuration["nholes"], 
         nbeta=configuration["nbeta"])
-    for key in ["sites_restriction", "nbh", "nbv", "nblocs_side"]:
+    for key in ["lattice_type", "nbh", "nbv", "nblocs_side"]:
         if key in configuration.keys():
             setattr(configuration_class, key, configuration[key])
+    if "sites_restriction" in configuration.keys(): # JSON has no tuples
+        configuration_class.sites_restriction = tuple(configuration["sites_restriction"])
     if "times" in kwargs.keys():
         return DataComputations(\
             Data(
-- 
2.43.0


From 99df93df3fdf26fba55a31b61902564b47090f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 11/34] fix: perform_configurations_computations: keep the type
 of the lattice

---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index 55a6677..6594912 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -285,6 +285,7 @@ def perform_configurations_computations(data):
             nholes=nholes, 
             nbeta=nbeta, 
             sites_restriction=configuration.sites_restriction, 
+            lattice_type=configuration.lattice_type, 
             nbh=configuration.nbh, 
             nbv=configuration.nbv, 
             nblocs_side=configuration.nblocs_side)
-- 
2.43.0


From ab00223adbf5b3399fab9b0ec9c46e97876c388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 12/34] fix: BoolInteractions: store bV_embedding, which the
 plots read

---
 initialComputations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/initialComputations.py b/initialComputations.py
index 6594912..e85a9db 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -30,6 +30,7 @@ class BoolInteractions :
             bSD (bool): singlet displacement
             btN (bool): next nearest neighbor hopping integral
             bV (bool): hole-hole repulsion
+            bV_embedding (bool): hole-hole repulsion with the embedding
             b_spin_multiplicities (bool): spin multiplicities
         """
         self.bt = bt
@@ -38,6 +39,7 @@ class BoolInteractions :
         self.bSD = bSD
         self.btN = btN
         self.bV = bV
+        self.bV_embedding = bV_embedding
         self.b_spin_multipicities = b_spin_multipicities
 
 class Times :
-- 
2.43.0


From 2e109c4bc0a8470ff3b916eafb658d8fa6ef3874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 13/34] fix: embeddings: name the files after the selected
 interactions, as save_data does

---
 embedding.py      | 8 ++++----
 postProcessing.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/embedding.py b/embedding.py
index 50fec1e..dfdd195 100644
--- a/embedding.py
+++ b/embedding.py
@@ -69,7 +69,7 @@ def embedding_neel(data, self_consistency_tol, max_iter, nb_val=10): # Fix the g
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
 
@@ -290,7 +290,7 @@ def save_data_peripheral_embedding(data_computations):
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
@@ -399,7 +399,7 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
     if neel_embedding:
@@ -804,7 +804,7 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
diff --git a/postProcessing.py b/postProcessing.py
index 47ed361..316fdfb 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -114,7 +114,7 @@ def generate_plots_configuration(data, input_plotting):
         else:
             extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
             for name in dir(bool_interactions):
-                if name in extensions:
+                if name in extensions and getattr(bool_interactions, name):
                     file_name_emb += extensions[name]
             file_name_emb += ".json"
         data_computations_embedding = iC.load_data("Embedding_blocks/" + file_name_emb)
-- 
2.43.0


From 70426144deb2e0a7f7d9935ef6fe64035d797a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 14/34] fix: embedding_blocks: save and return the results when
 the iterations run out, as embedding_neel does

---
 embedding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/embedding.py b/embedding.py
index dfdd195..eec9bff 100644
--- a/embedding.py
+++ b/embedding.py
@@ -764,6 +764,9 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
     print("Maximum number of iterations exceeded")
     print("[emb] ground state energy = {} | embedded ground state energy = {}".format(\
                 eigenstates_block.eigvals[0], eigenstates_embedded.eigvals[0]))
+    data_computation = iC.DataComputations(data, determinants_block, ham_block_embedded, eigenstates_embedded)
+    save_data_embedding_blocks(data_computation, dynamic_embedding, neel_embedding, neighbor_embedding)
+    return data_computation
 
 def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedding, neighbor_embedding):
     """
-- 
2.43.0


From e446a455140a4d48e8af6f02598805464fe918bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 15/34] fix: compute_dynamic_interactions: spin flips couple
 determinants with J/2, as in the Hamiltonian

---
 interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions.py b/interactions.py
index 5fa4931..db3e5d9 100644
--- a/interactions.py
+++ b/interactions.py
@@ -523,7 +523,7 @@ def compute_dynamic_interactions(configuration, interactions, bool_interactions,
         print("[itr] tN_ortho_coupled = ", tN_ortho_coupled)
     if bij:
         Jcol_coupled, Jortho_coupled, J_coupled = compute_spin_flip(configuration, interactions, det)
-        events += [(Jcol_coupled, Jhpar), (Jortho_coupled, Jhper), (J_coupled, J)]
+        events += [(Jcol_coupled, Jhpar/2), (Jortho_coupled, Jhper/2), (J_coupled, J/2)]
     if bSD:
         hpar_coupled, hper_coupled = compute_singlet_displacement(configuration, interactions, det)
         singlet_events = [(hpar_coupled, hSDpar), (hper_coupled, hSDper)]
-- 
2.43.0


From 610cdb900ad713a8a3295a34962056c2c02ee36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 16/34] fix: build_hamiltonian: apply the sites restriction
 given as an argument

---
 hamiltonianConstruction.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hamiltonianConstruction.py b/hamiltonianConstruction.py
index 93627e2..b714441 100644
--- a/hamiltonianConstruction.py
+++ b/hamiltonianConstruction.py
@@ -1,4 +1,5 @@
 import latticeFunctions as lF
+import baseConstruction as bC
 import numpy as np
 import interactions as itr
 import scipy.sparse as sp
@@ -40,8 +41,10 @@ def build_hamiltonian(configuration, interactions, basis, bool_interactions, sit
     nalpha = configuration.nalpha
     nbeta = configuration.nbeta
     nsites = configuration.nsites
-    if not sites_restriction:
-        sites_restriction = list(range(nsites))
+    if sites_restriction:
+        configuration = bC.Configuration(configuration.bond_matrix, configuration.nholes, configuration.nbeta, sites_restriction, \
+            configuration.lattice_type, configuration.nbh, configuration.nbv, configuration.nblocs_side)
+        basis = bC.Basis(configuration, basis.determinants)
 
     dim = lF.compute_dimension(nsites,nalpha,nbeta)
     # Interactions booleans
-- 
2.43.0


From 032a54b6d2bc7ae8a3743afd96edcfeaa8bda2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 17/34] fix: reverse_spins: keep the sites that are outside of
 the sites restriction

---
 baseConstruction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index a81482a..c4c0480 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -262,7 +262,8 @@ def reverse_spins(configuration, det):
         configuration.nbv, 
         configuration.nblocs_side
     )
-    det_flip = get_indexes_of(configuration, det, 0) + get_indexes_of(configuration, det, 1) + get_indexes_of(configuration, det, -1)
+    nholes, nbeta = configuration.nholes, configuration.nbeta
+    det_flip = det[: nholes] + det[nholes + nbeta :] + det[nholes : nholes + nbeta]
     return configuration_flip, reorder_basis_element(configuration_flip, det_flip)
 
 
-- 
2.43.0


From d395d726d9449cc8e0c455fd63026d5b5b591a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 18/34] fix: extend_determinant: keep the sites that are
 outside of the sites restrictions

---
 baseConstruction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index c4c0480..fbe676c 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -231,10 +231,12 @@ def extend_determinant(configuration_1, configuration_2, det_1, det_2):
         det (list<int>): the corresponding determinant in the extended lattice
     """
     nsites_1 = configuration_1.nsites
+    nholes_1, nholes_2 = configuration_1.nholes, configuration_2.nholes
+    nbeta_1, nbeta_2 = configuration_1.nbeta, configuration_2.nbeta
 
-    det_1_hole, det_2_hole = get_indexes_of(configuration_1, det_1, 0), get_indexes_of(configuration_2, det_2, 0)
-    det_1_beta, det_2_beta = get_indexes_of(configuration_1, det_1, -1), get_indexes_of(configuration_2, det_2, -1)
-    det_1_alpha, det_2_alpha = get_indexes_of(configuration_1, det_1, 1), get_indexes_of(configuration_2, det_2, 1)
+    det_1_hole, det_2_hole = sorted(det_1[: nholes_1]), sorted(det_2[: nholes_2])
+    det_1_beta, det_2_beta = sorted(det_1[nholes_1 : nholes_1 + nbeta_1]), sorted(det_2[nholes_2 : nholes_2 + nbeta_2])
+    det_1_alpha, det_2_alpha = sorted(det_1[nholes_1 + nbeta_1 :]), sorted(det_2[nholes_2 + nbeta_2 :])
 
     det_hole = det_1_hole + [site + nsites_1 for site in det_2_hole]
     det_beta = det_1_beta + [site + nsites_1 for site in det_2_beta]
-- 
2.43.0


From 55def86b8560da96d3045ae9070d8aea093e91ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 19/34] fix: compute_S_plus_S_minus_det: keep the sites that
 are outside of the sites restriction

---
 interactions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/interactions.py b/interactions.py
index db3e5d9..45da6ef 100644
--- a/interactions.py
+++ b/interactions.py
@@ -617,8 +617,9 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
     Returns:
         det_return (list<int>): the resulting Slater determinant
     """
-    list_alpha = bC.get_indexes_of(configuration, det, 1)
-    list_beta = bC.get_indexes_of(configuration, det, -1)
+    nholes, nbeta = configuration.nholes, configuration.nbeta
+    list_alpha = det[nholes + nbeta :]
+    list_beta = det[nholes : nholes + nbeta]
     
     if site_plus in list_beta:
         if site_minus in list_alpha:
@@ -631,7 +632,7 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
             list_alpha.sort()
             list_beta.sort()
             
-            det_return = bC.get_indexes_of(configuration, det, 0) + list_beta + list_alpha
+            det_return = sorted(det[: nholes]) + list_beta + list_alpha
             return det_return
     else:
         return
-- 
2.43.0


From 76434d71bd3029e3d36d17574735afc10211d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 20/34] fix: davidson_algorithm: normalise the start vector,
 which is returned as it is when it is an eigenvector

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 1359fb0..8965d9f 100644
--- a/davidson.py
+++ b/davidson.py
@@ -58,7 +58,7 @@ def davidson_algorithm(A,stp,tol,prec):
     """
     n = A.shape[0]
     v0 = np.random.random((n,1))
-    V = np.array(v0)
+    V = v0 / lin.norm(v0)
     H = np.matmul(V.T, np.matmul(A, V))
     
     (eigval, eigvect) = lin.eigh(H)
-- 
2.43.0


From 31d51442eea6e812df0d8402f96ac1d8e92d4441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 21/34] fix: davidson_algorithm: start with the residual, as at
 the next steps: the Jacobi correction of a diagonal matrix leads to another
 state than the lowest

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 8965d9f..755aab1 100644
--- a/davidson.py
+++ b/davidson.py
@@ -72,7 +72,7 @@ def davidson_algorithm(A,stp,tol,prec):
     if lin.norm(rj) < tol :
         return (lambdaj, uj)
     else:
-        Mj = lin.inv(np.diag(np.diag(A)) - lambdaj*np.eye(n))
+        Mj = np.eye(n) # Lanczos method, the Jacobi correction of a diagonal matrix is uj itself
         tj = np.dot(Mj, rj)
         V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
     while lin.norm(rj) > tol:
-- 
2.43.0


From a607c818240fdf654f6594bd5fb7b3d7ee721a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 22/34] fix: dynamic embedding counts the particles of the
 neighbor from its own configuration

---
 embedding.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/embedding.py b/embedding.py
index eec9bff..28bbc18 100644
--- a/embedding.py
+++ b/embedding.py
@@ -539,8 +539,8 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                         )
                         configuration_temp_B = bC.Configuration(
                             bond_matrix_block,
-                            nholes_block - (delta_nalpha + delta_nbeta == -1) + (delta_nalpha + delta_nbeta == 1),
-                            nbeta_block - delta_nbeta,
+                            nholes_neighbor - (delta_nalpha + delta_nbeta == -1) + (delta_nalpha + delta_nbeta == 1),
+                            nbeta_neighbor - delta_nbeta,
                             configuration_block.sites_restriction,
                             "periodic",
                             nbh, nbv, nblocs_side
@@ -572,9 +572,9 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
 
                                 configuration_perturbed_B = copy.deepcopy(configuration_neighbor)
                                 setattr(configuration_perturbed_B, spins_attributes[spin], \
-                                    getattr(configuration_block, spins_attributes[spin]) + 1)
+                                    getattr(configuration_neighbor, spins_attributes[spin]) + 1)
                                 setattr(configuration_perturbed_B, spins_attributes[new_spin], \
-                                    getattr(configuration_block, spins_attributes[new_spin]) - 1)
+                                    getattr(configuration_neighbor, spins_attributes[new_spin]) - 1)
 
                                 configuration_perturbed_B = bC.Configuration(
                                     bond_matrix=configuration_perturbed_B.bond_matrix, nholes=configuration_perturbed_B.nholes, nbeta=configuration_perturbed_B.nbeta, 
-- 
2.43.0


From a3f9244e4d83bee58f16201dec49cf688093b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 23/34] fix: dynamic embedding takes the amplitudes of the
 reversed neighbor

---
 embedding.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/embedding.py b/embedding.py
index 28bbc18..3a3b6ad 100644
--- a/embedding.py
+++ b/embedding.py
@@ -675,10 +675,13 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                                                         coupling_1 = coupled_dets[new_det_1]
                                                         coupling_2 = coupled_dets[new_det_2]
 
-                                                        ind_new_det_B_1 = bC.get_index_in_basis(
-                                                            configuration_block, [site - nsites_block for site in new_det_1 if site >= nsites_block])
-                                                        ind_new_det_B_2 = bC.get_index_in_basis(
-                                                            configuration_block, [site - nsites_block for site in new_det_2 if site >= nsites_block])
+                                                        new_det_B_1 = [site - nsites_block for site in new_det_1 if site >= nsites_block]
+                                                        new_det_B_2 = [site - nsites_block for site in new_det_2 if site >= nsites_block]
+                                                        if reverse_spins: # The neighbor is in the ground state of the block with reversed spins
+                                                            new_det_B_1 = bC.reverse_spins(configuration_neighbor, new_det_B_1)[1]
+                                                            new_det_B_2 = bC.reverse_spins(configuration_neighbor, new_det_B_2)[1]
+                                                        ind_new_det_B_1 = bC.get_index_in_basis(configuration_block, new_det_B_1)
+                                                        ind_new_det_B_2 = bC.get_index_in_basis(configuration_block, new_det_B_2)
 
                                                         coupling = (np.conj(ground_state_temp[ind_new_det_B_1, 0]) \
                                                             * ground_state_temp[ind_new_det_B_2, 0] \
-- 
2.43.0


From 36414f044d4dd99a8db00a519877a12d740944a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 24/34] fix: plots of a single eigenstate: keep the axes in an
 array

---
 postProcessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 316fdfb..504883b 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -539,7 +539,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
 
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row,nb_row)
+    fig, ax = plt.subplots(nb_row,nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
@@ -756,7 +756,7 @@ def plot_determinants_amplitude_repartition(data_computation, nb_subplots):
     
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row, nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
-- 
2.43.0


From b848d5df3aebc95ab0eef16ab3f8abc0a2b10548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 25/34] fix: density plots: draw the southern sites at the
 bottom, as the displays of the lattice

---
 postProcessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 504883b..12b53e8 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -565,7 +565,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
     # Interpolation of the probability density function
         x = list(range(nblocs_side * nbh))
         y = list(range(nblocs_side * nbv))
-        z = proba.tolist()
+        z = proba[::-1].tolist() # the first row is the northernmost one, y increases northwards
 
         f = interp.interp2d(x, y, z)
 
@@ -661,8 +661,8 @@ def save_electron_probability_lattice(data_computation, nb_state):
         x = list(range(nblocs_side*nbh))
         y = list(range(nblocs_side*nbv))
         
-        z_alpha = proba_alpha.tolist()
-        z_beta = proba_beta.tolist()
+        z_alpha = proba_alpha[::-1].tolist() # the first row is the northernmost one, y increases northwards
+        z_beta = proba_beta[::-1].tolist()
         z_charge = []
         for ind_row in range(len(z_alpha)):
             row = []
-- 
2.43.0


From b1d75f6e30fca06e5c70af6e6e7875ef5161269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:49 +0000
Subject: [PATCH 26/34] fix: save_phase_space: compute the plotted state, and
 its spin from the configuration

---
 postProcessing.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 12b53e8..7888dc8 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -406,6 +406,9 @@ def save_phase_space(data, nb_state, nb_t, nb_v):
         basis = bC.construct_basis(configuration)
         
         print("[iC] Configuration : nsites = {}, nholes = {}, nalpha = {}, nbeta = {}".format(nsites, nholes, nalpha, nbeta))
+
+        if nb_state >= len(basis.determinants): # this sector has no such state
+            continue
         
         # Definition of the grid
         
@@ -430,14 +433,14 @@ def save_phase_space(data, nb_state, nb_t, nb_v):
                 interactions.VNNNper = (0.79/1.77)*VNN
                 
                 verbose = False
-                ham = hC.build_hamiltonian(configuration, interactions, basis, bool_interactions, verbose)
+                ham = hC.build_hamiltonian(configuration, interactions, basis, bool_interactions, verbose=verbose)
                 
                 try :
-                    eigenstates = dav.modified_davidson_algorithm(ham, nb_state, stp, tol, dim_max)
+                    eigenstates = dav.modified_davidson_algorithm(ham, nb_state + 1, None, stp, tol, dim_max)
                     eigval = eigenstates.eigvals[nb_state]
                     eigvect = eigenstates.eigvects[:,[nb_state]]
                     Zval[iY, iX] = eigval
-                    spin = itr.compute_spin_number(basis, eigvect)
+                    spin = itr.compute_spin_number(configuration, eigvect)
                     if spin != '-':
                         Zspin[iY, iX] = spin
                     else :
-- 
2.43.0


From 538e4ebb81202fac3b873eeed52017f538851938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:49 +0000
Subject: [PATCH 27/34] fix: save_phase_space: compute the energies and spins
 at the values of t/J and V/J of the axes

---
 postProcessing.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 7888dc8..da51df4 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -414,21 +414,20 @@ def save_phase_space(data, nb_state, nb_t, nb_v):
         
         x = np.linspace(0, 15, nb_v)
         y = np.linspace(-5, 0, nb_t)
-        X, Y = np.meshgrid(x, y)
         
         # Computation of the plotted values
         
-        Zval = np.zeros((len(Y),len(X)))
-        Zspin = np.zeros((len(Y),len(X)))
+        Zval = np.zeros((len(y),len(x)))
+        Zspin = np.zeros((len(y),len(x)))
         
-        for iX in range(len(X)):
-            for iY in range((len(Y))):
+        for iX in range(len(x)):
+            for iY in range(len(y)):
                 # Hamiltonian construction
-                t = -iY*J
+                t = y[iY]*J
                 interactions.t = t
                 interactions.tNNN = -13 * t / 55
                 interactions.tnNNN = 36 * t / 55
-                VNN = iX*J
+                VNN = x[iX]*J
                 interactions.VNN = VNN
                 interactions.VNNNper = (0.79/1.77)*VNN
                 
-- 
2.43.0


From fb7eb1fd74bec3c7d416b74bbc980f7ea0e77202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:49 +0000
Subject: [PATCH 28/34] fix: save_phase_space: leave the configuration and
 interactions of the data as they are

---
 postProcessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index da51df4..de6102c 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -383,7 +383,7 @@ def save_phase_space(data, nb_state, nb_t, nb_v):
     nholes = configuration.nholes
 
     # Interactions
-    interactions = data.interactions
+    interactions = copy.copy(data.interactions)
 
     J = interactions.J
 
@@ -400,8 +400,8 @@ def save_phase_space(data, nb_state, nb_t, nb_v):
     for nalpha in range(nsites - nholes + 1):
         nbeta = nsites - nholes - nalpha
         
-        configuration.nalpha = nalpha
-        configuration.nbeta = nbeta
+        configuration = bC.Configuration(data.configuration.bond_matrix, nholes, nbeta, data.configuration.sites_restriction, \
+            data.configuration.lattice_type, data.configuration.nbh, data.configuration.nbv, data.configuration.nblocs_side)
 
         basis = bC.construct_basis(configuration)
         
-- 
2.43.0


From bbd0e03c2405af31fbd0b3a5846b40d51165acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:02 +0000
Subject: [PATCH 29/34] fix: perform_matrix_orthogonal_projection: complete the
 vectors to a basis of the space

---
 davidson.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/davidson.py b/davidson.py
index 755aab1..be90b8b 100644
--- a/davidson.py
+++ b/davidson.py
@@ -334,9 +334,8 @@ def perform_matrix_orthogonal_projection(A, vects): # Not complete
     """
     dim = A.shape[1]
     dim_sub = vects.shape[1]
-    comp_basis = np.ones((dim, dim - dim_sub))
-    basis = np.append(vects, comp_basis, axis=1)
-    projector = perform_modified_gram_schmidt(basis) # orthogonal projector associated to the direct sum : Span(vects) + vects^{\perp}
+    basis = np.append(vects, np.eye(dim), axis=1)
+    projector = np.linalg.qr(basis)[0] # orthogonal projector associated to the direct sum : Span(vects) + vects^{\perp}
     A_proj = np.matmul(projector.T, np.matmul(A, projector))[dim_sub:,dim_sub:]
     return A_proj
     
-- 
2.43.0


From 4b9e28e5cab5ab190605082bc43f1d1bbcdcc75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:02 +0000
Subject: [PATCH 30/34] fix: compute_spin_and_multiplicity: take the
 configuration of the basis, and name the multiplicity of the spin number

---
 davidson.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/davidson.py b/davidson.py
index be90b8b..3199208 100644
--- a/davidson.py
+++ b/davidson.py
@@ -356,9 +356,8 @@ def compute_spin_and_multiplicity(basis, eigvects): # Not complete
     multiplicity = []
 
     for ind in range(nb_val):
-        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
-        spins.append(spin)
-        multiplicity.append(itr.compute_spin_multiplicity(spin))
+        spins.append(itr.compute_S2_exp_val(basis.configuration, eigvects[:,[ind]]))
+        multiplicity.append(itr.compute_spin_multiplicity(itr.compute_spin_number(basis.configuration, eigvects[:,[ind]])))
     return (spins,multiplicity)
     
 
-- 
2.43.0


From ee16cf9f165e5027865b082ae0c277824290f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:11 +0000
Subject: [PATCH 31/34] fix: compute_hopping_integral: a hole outside the
 starting sites is no electron

---
 interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions.py b/interactions.py
index 45da6ef..a213dc9 100644
--- a/interactions.py
+++ b/interactions.py
@@ -66,7 +66,7 @@ def compute_hopping_integral(configuration, interactions, det):
         for site_hole in sites_holes:
             hole_neighbors = lF.get_neighbors(site_hole, bond_matrix, sites_restriction)
             for neighbor in hole_neighbors:
-                if not(neighbor in sites_holes):
+                if bC.get_spin_site(configuration, det, neighbor) != 0:
                     ind_hole = det.index(site_hole)
                     ind_neighbor = det.index(neighbor)
                     temp = copy.deepcopy(det)
-- 
2.43.0


From d4aa2fc4c3cc45952c3c4e43236026ddadb11917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 32/34] fix: compute_S_plus_S_minus_det: S+ S- on a same site
 keeps a spin up

---
 interactions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interactions.py b/interactions.py
index a213dc9..b78b3e5 100644
--- a/interactions.py
+++ b/interactions.py
@@ -621,7 +621,10 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
     list_alpha = det[nholes + nbeta :]
     list_beta = det[nholes : nholes + nbeta]
     
-    if site_plus in list_beta:
+    if site_plus == site_minus: # A spin up is lowered, then raised
+        if site_plus in list_alpha:
+            return bC.reorder_basis_element(configuration, det)
+    elif site_plus in list_beta:
         if site_minus in list_alpha:
             list_alpha.remove(site_minus)
             list_alpha.append(site_plus)
-- 
2.43.0


From 8ddf6d08a9275881bce61930e5d05a8d5f57950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:55 +0000
Subject: [PATCH 33/34] fix: perform_configurations_computations: leave the
 configuration of the data as it is

---
 initialComputations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/initialComputations.py b/initialComputations.py
index e85a9db..8a47e9b 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -294,7 +294,7 @@ def perform_configurations_computations(data):
         ms = configuration.spin_number
         doping = configuration.doping
         nb_conf = configuration.nb_conf
-        data.configuration = configuration
+        data_configuration = Data(configuration, data.interactions, data.diagonalization, data.bool_interactions)
 
         print("---Configuration--------------------------------------------------------------------------------------------------")
         print("--nsites = ", nsites)
@@ -307,7 +307,7 @@ def perform_configurations_computations(data):
         print("----------------")
         print("\n")
         
-        data_computations = perform_initial_computations(data)
+        data_computations = perform_initial_computations(data_configuration)
         print("Eigenstates")
         if data.bool_interactions.b_spin_multipicities:
             for ind, eigval in enumerate(data_computations.eigenstates.eigvals):
-- 
2.43.0


From b0ee71e1aa32f3f8d000300643df9fb6c37e1e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:55 +0000
Subject: [PATCH 34/34] fix: generate_plots: leave the configuration of the
 data as it is

---
 postProcessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index de6102c..1d96a51 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -171,9 +171,9 @@ def generate_plots(data, input_plotting):
         configuration = bC.Configuration(bond_matrix, nholes, nbeta)
         nsites = configuration.nsites
         nholes = configuration.nholes
-        data.configuration = configuration
+        data_configuration = iC.Data(configuration, data.interactions, data.diagonalization, data.bool_interactions)
 
-        generate_plots_configuration(data, input_plotting)
+        generate_plots_configuration(data_configuration, input_plotting)
 
       
 ### Phase space
-- 
2.43.0

