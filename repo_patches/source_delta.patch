From 36b3e33b3cf5dd3aa3bb0bde7101cbcba53827a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 01/51] fix: single site boson operators have the right
 dimension for spins larger than 1/2

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c8a5395..c2da356 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -339,7 +339,7 @@ class ed_base:
                 endmat = sp.kron(endmat, self.parity_op, format="coo")
             # TODO: can I generate this parity matrix without a loop? Would it be faster?
         elif format == "boson":
-            endmat = sp.eye(2 ** (n_logical_sites - site_index_logical - 1))
+            endmat = sp.eye(self.nbasis ** (n_logical_sites - site_index_logical - 1))
         else:
             raise Exception()
 
-- 
2.43.0


From 1aa815cd77e960de203a9bbfdd2937e970efbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 02/51] fix: get_norms accepts a single state given as a 1D
 array

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c2da356..b50bd9f 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -562,7 +562,7 @@ class ed_base:
             tstart = perf_counter()
 
         if states.ndim == 1:
-            states = np.expand_dim(states, axis=1)
+            states = np.expand_dims(states, axis=1)
 
         if sp.issparse(states):
             states = states.tocsr()
-- 
2.43.0


From 1e67af5ed125a43b4fd319cc5195c0a3345f8107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 03/51] fix: get_xform_op returns the identity operator for a
 trivial transformation

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index b50bd9f..9a22347 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -136,7 +136,7 @@ class ed_base:
         if print_results:
             tstart = perf_counter()
 
-        trans_op = 1
+        trans_op = sp.eye(self.nstates, format="csr")
         for cycle in cycles:
             if len(cycle) > 1:
                 # loop over species
-- 
2.43.0


From 4dbfa9b181f9eda84b1137d756d78c823fea8c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 04/51] fix: get_partition_fn_sectors returns an array for
 several temperatures

---
 exact_diag/ed_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 9a22347..6c04599 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -971,6 +971,7 @@ class ed_base:
             for ii in range(0, temp.size):
                 z_sector_curr = self.get_partition_fn_sectors(energies_sectors, temp[ii])
                 z_sectors.append(z_sector_curr)
+            z_sectors = np.array(z_sectors)
 
         else:
             # for each temperature
-- 
2.43.0


From 3be92ec0ddadb5a87bf5488005a18af37a61e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 05/51] fix: get_partition_fn_hamiltonian works for sparse and
 dense Hamiltonians

---
 exact_diag/ed_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 6c04599..1641f1f 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -12,7 +12,6 @@ import pickle
 import numpy as np
 from scipy.io import savemat, loadmat
 from scipy.sparse.linalg import eigsh
-from scipy.linalg import expm
 import scipy.sparse as sp
 from exact_diag.ed_geometry import Geometry
 
@@ -946,7 +945,9 @@ class ed_base:
         if beta == 0:
             return hamiltonian.shape[0]
         else:
-            return np.trace(expm(- beta * hamiltonian).toarray().real)
+            if sp.issparse(hamiltonian):
+                hamiltonian = hamiltonian.toarray()
+            return np.sum(np.exp(- beta * np.linalg.eigvalsh(hamiltonian)))
 
     def get_partition_fn_sectors(self,
                                  energies_sectors: list,
-- 
2.43.0


From 9823f8a0600b894783430e8da12fec8cc2fa6061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 06/51] fix: get_overlaps returns an array when both
 collections of states are sparse

---
 exact_diag/ed_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 1641f1f..bcb84fd 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -542,6 +542,9 @@ class ed_base:
             # changed order for more sensible interpretation
             overlaps = states1.conj().transpose().dot(states2)
 
+        if sp.issparse(overlaps):
+            overlaps = overlaps.toarray()
+
         if print_results:
             print(f"get_overlaps took {perf_counter() - tstart:.2f}s")
 
-- 
2.43.0


From e940395e76e31d28d0f76bbd596ef05c364754d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 07/51] fix: finite temperature retarded response weights
 matrix elements with the initial state

---
 exact_diag/ed_base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index bcb84fd..a94e42d 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1113,9 +1113,10 @@ class ed_base:
         if temperature != 0:
             beta = 1 / temperature
             z = np.sum(np.exp(- beta * eig_vals))
-            mat_elem = np.multiply(a_matrix_elems, b_matrix_elems.transpose())
-            thermal_mat_elem = mat_elem.dot(np.diag(np.exp(- beta * eig_vals)))
-            omega_fn = lambda wo, eta, es, amp: np.multiply(1 + factor * np.exp(beta * es), lor(wo + es, eta, amp))
+            # each element n, m is weighted by e^{-beta * E_n} -/+ e^{-beta * E_m} for bosons/fermions
+            weights = np.exp(- beta * b) + factor * np.exp(- beta * a)
+            thermal_mat_elem = np.multiply(np.multiply(a_matrix_elems, b_matrix_elems.transpose()), weights)
+            omega_fn = lambda wo, eta, es, amp: lor(wo + es, eta, amp)
 
         else:
             z = 1
-- 
2.43.0


From fcb7f3b1de6d36cad26019c8a7ac515cee12f881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 08/51] fix: spinSystem.get_sum_op refers to the base class

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 5777798..28f78a1 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -448,7 +448,7 @@ class spinSystem(ed_base):
         :return: OpMat, sparse matrix
         """
         species_index = 0
-        return ed_base.ed_base.get_sum_op(self, op, species_index, format="boson", print_results=False)
+        return super(spinSystem, self).get_sum_op(op, species_index, format="boson", print_results=False)
 
     def get_swap_up_down_op(self):
         """
-- 
2.43.0


From c872cf534a70d8c24974d741a5cb2acf4e85211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 09/51] fix: spinSystem.get_state_parity calls get_state_vects
 with its actual signature

---
 exact_diag/ed_spins.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 28f78a1..cbcdd7e 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -217,8 +217,7 @@ class spinSystem(ed_base):
         """
         if print_results:
             tstart = perf_counter()
-        StateParity = np.mod(np.array(self.get_state_vects(self.geometry.nsites,
-                                                           2 ** self.geometry.nsites).sum(1)), 2)
+        StateParity = np.mod(np.array(self.get_state_vects().sum(1)), 2)
         if print_results:
             tend = perf_counter()
             print("get_state_parity took %0.2fs" % (tend - tstart))
-- 
2.43.0


From 55454f5f5eed1668442935eec34d5dc833120317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 10/51] fix: second antiferromagnetic state is the spin flip of
 the first

---
 exact_diag/ed_spins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index cbcdd7e..2187bac 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -372,11 +372,11 @@ class spinSystem(ed_base):
             # if Xsites is odd
             if NSites % 2:
                 # if nsites is odd
-                AFMState1Ind = (1 + NStates) / 3 - 1
+                AFMState1Ind = (1 + NStates) // 3 - 1
             else:
                 # if nsites is even
-                AFMState1Ind = (2 + NStates) / 3 - 1
-            AFMState2Ind = NStates - AFMState1Ind
+                AFMState1Ind = (2 + NStates) // 3 - 1
+            AFMState2Ind = NStates - 1 - AFMState1Ind
         else:
             print('AFM State finder not implemented for even number of sites in X-direction when using '
                   'conventional number, or not implemented for only a single site. Will return FM states instead')
-- 
2.43.0


From 09b364964efac7832656abd5cf31f32ba0e764ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 11/51] fix: S+ raises and S- lowers the Sz eigenvalue

---
 exact_diag/ed_spins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 2187bac..f0e87d3 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -82,7 +82,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin - 1, -spin - 1, -1)
-        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), -1)
+        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), 1)
 
     @staticmethod
     def get_sminus(spin):
@@ -93,7 +93,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin, -spin, -1)
-        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), 1)
+        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), -1)
 
     def get_sx(self,
                spin):
-- 
2.43.0


From 8b607e87249610184255f63450958fd38973a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 12/51] fix: spinSystem.get_swap_op works for spins larger than
 1/2

---
 exact_diag/ed_spins.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index f0e87d3..f069e05 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -471,7 +471,12 @@ class spinSystem(ed_base):
         :param species: Integer specifying species (should always be zero in this case)
         :return: Sparse matrix
         """
-        return self.get_two_site_op(site1, species, site2, species, self.pauli_plus, self.pauli_minus, format="boson") + \
-               self.get_two_site_op(site1, species, site2, species, self.pauli_minus, self.pauli_plus, format="boson") + \
-               0.5 * sp.eye(self.nstates) + \
-               0.5 * self.get_two_site_op(site1, species, site2, species, self.pauli_z, self.pauli_z, format="boson")
+        # swap = \sum_{ab} |a><b| x |b><a|
+        swap = sp.csr_matrix((self.nstates, self.nstates))
+        for aa in range(self.nbasis):
+            for bb in range(self.nbasis):
+                transition = np.zeros((self.nbasis, self.nbasis))
+                transition[aa, bb] = 1
+                swap = swap + self.get_two_site_op(site1, species, site2, species,
+                                                   transition, transition.transpose(), format="boson")
+        return swap
-- 
2.43.0


From 21e175bef37b89bffe2c00edb855d8b76fa1414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:14 +0000
Subject: [PATCH 13/51] fix: get_interaction_mat_c6 uses the reduced site
 distances and the cutoff

---
 exact_diag/ed_spins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index f069e05..b74b865 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -135,9 +135,10 @@ class spinSystem(ed_base):
         :param cutoff_dist:
         :return:
         """
-        distmat = np.sqrt(self.geometry.site_distances_reduced_x ** 2 + self.geometry.site_distances_reduced_y ** 2)
+        distmat = np.sqrt(self.geometry.xdist_mat ** 2 + self.geometry.ydist_mat ** 2)
         jmat = np.zeros(distmat.shape)
-        jmat[distmat != 0] = C6*np.power(np.reciprocal(distmat[distmat != 0]), 6)
+        interacting = np.logical_and(distmat != 0, distmat <= cutoff_dist)
+        jmat[interacting] = C6*np.power(np.reciprocal(distmat[interacting]), 6)
         return jmat
 
     def get_interaction_mat(self,
-- 
2.43.0


From 5783e424632db5f5e30b3e0d65ab9ac393d9d4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:15 +0000
Subject: [PATCH 14/51] fix: list of bond interactions gives a symmetric
 interaction matrix

---
 exact_diag/ed_spins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index b74b865..0339bf1 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -156,8 +156,9 @@ class spinSystem(ed_base):
             if j.shape == (self.geometry.nsites, self.geometry.nsites):
                 j_mat = j
             elif j.size == self.geometry.nsites:
-                j_mat = np.diag(j[:-1], 1) + np.diag(j[-1], -1)
+                j_mat = np.diag(j[:-1], 1) + np.diag(j[:-1], -1)
                 j_mat[0, self.geometry.nsites - 1] = j[-1]
+                j_mat[self.geometry.nsites - 1, 0] = j[-1]
             else:
                 raise Exception('j should be nsites x nsites matrix or a list of size nsites')
         else:
-- 
2.43.0


From 092f0023b0cb3469346c3009f132803344d9d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:08 +0000
Subject: [PATCH 15/51] fix: potentials given per species are applied to the
 species

---
 exact_diag/ed_fermions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 3af1943..90be45b 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -121,12 +121,12 @@ class fermions(ed_base):
         potentials = np.asarray(potentials)
         if potentials.size == 1:
             self.potentials = potentials * np.ones((self.geometry.nsites, self.nspecies))
+        elif potentials.shape == (self.geometry.nsites, self.nspecies):
+            self.potentials = potentials
         elif potentials.size == self.nspecies:
             self.potentials = np.zeros((self.geometry.nsites, self.nspecies))
             for ii in range(0, self.nspecies):
-                self.potentials[ii, :] = potentials[ii] * np.ones(self.geometry.nsites)
-        elif potentials.shape == (self.geometry.nsites, self.nspecies):
-            self.potentials = potentials
+                self.potentials[:, ii] = potentials[ii] * np.ones(self.geometry.nsites)
         elif potentials.shape == (self.geometry.nsites,) and self.nspecies == 1:
             self.potentials = potentials[:, None]
         else:
-- 
2.43.0


From 7894fc7b738f43803ed1e9548042d877f6674e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:08 +0000
Subject: [PATCH 16/51] fix: complex hopping amplitudes (twisted boundary
 conditions) enter the Hamiltonian

---
 exact_diag/ed_fermions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 90be45b..5b3e570 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -238,7 +238,8 @@ class fermions(ed_base):
         if t.size == 1:
             t = t * np.ones(self.nspecies)
 
-        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies))
+        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies),
+                               dtype=np.result_type(t, self.geometry.phase_mat, float))
         for ii in range(0, self.nspecies):
             hopping_mat[:, :, ii] = t[ii] * np.multiply(self.geometry.adjacency_mat, self.geometry.phase_mat)
 
@@ -334,13 +335,15 @@ class fermions(ed_base):
                         for kk in range(0, self.nspecies):
                             # avoid calculating operators unless will be nonzero
                             if self.ts[ii, jj, kk] != 0:
-                                ke_op = ke_op + self.ts[ii, jj, kk] * sep_along_vector[ii, jj] * (
-                                        - projector * self.get_two_site_op(ii, kk, jj, kk,
+                                ke_op = ke_op + sep_along_vector[ii, jj] * (
+                                        - self.ts[ii, jj, kk] *
+                                          projector * self.get_two_site_op(ii, kk, jj, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
                                           projector.conj().transpose()
-                                        - projector * self.get_two_site_op(jj, kk, ii, kk,
+                                        - self.ts[jj, ii, kk] *
+                                          projector * self.get_two_site_op(jj, kk, ii, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
-- 
2.43.0


From 508cd697307238c86954d92434a4e7ebd65853c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:08 +0000
Subject: [PATCH 17/51] fix: hopping amplitudes in the Hamiltonian do not
 depend on the bond direction or length

---
 exact_diag/ed_fermions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 5b3e570..e7d3648 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -289,8 +289,7 @@ class fermions(ed_base):
 
         haml = haml + self.get_u_interspecies_op(self.us_interspecies, projector=projector)
         haml = haml + self.get_u_samespecies_op(self.us_same_species, projector=projector)
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([1, 0]))
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([0, 1]))
+        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=None)
         haml = haml + self.get_chemical_pot_op(self.mus, projector=projector)
         haml = haml + self.get_potential_op(self.potentials, projector=projector)
 
@@ -307,7 +306,8 @@ class fermions(ed_base):
         Compute the kinetic energy operator for a specific hopping connection matrix
 
         :param projector:
-        :param direction_vect:
+        :param direction_vect: weight each hopping by its extent along this direction. If None, the total kinetic
+          energy, where every hopping has the weight given by the hopping matrix.
         :return:
         """
         # TODO: add option for kinetic energy along some arbitary direction
@@ -321,8 +321,11 @@ class fermions(ed_base):
 
         ke_op = sp.csr_matrix((nstates, nstates))
 
-        sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
-                                   np.square(direction_vect[1] * self.geometry.ydist_mat))
+        if direction_vect is None:
+            sep_along_vector = np.ones((n_physical_sites, n_physical_sites))
+        else:
+            sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
+                                       np.square(direction_vect[1] * self.geometry.ydist_mat))
         # hopping terms
         if n_physical_sites > 1:
 
-- 
2.43.0


From 90449de7c48688d92faffbad76e1f64708dd717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:08 +0000
Subject: [PATCH 18/51] fix: get_current_op uses the hopping matrix

---
 exact_diag/ed_fermions.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index e7d3648..c5320aa 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -496,28 +496,18 @@ class fermions(ed_base):
         # such a chain (ring) doesn't have a consistent notion of right vs. left (clockwise vs. counterclockwise)
 
         geom_obj = self.geometry
-        tx = self.tx
-        ty = self.ty
 
         direction_vector = np.reshape(np.asarray(direction_vector), [2])
 
-        current_op = 0
-        distance_component_x = geom_obj.xdist_mat * direction_vector[0]
-        distance_component_y = geom_obj.ydist_mat * direction_vector[1]
-        is_x_neighbor = np.round(np.abs(geom_obj.xdist_mat), 14) == 1
-        is_y_neighbor = np.round(np.abs(geom_obj.ydist_mat), 14) == 1
+        current_op = sp.csr_matrix((self.nstates, self.nstates))
+        distance_component = geom_obj.xdist_mat * direction_vector[0] + geom_obj.ydist_mat * direction_vector[1]
 
         for ii in range(0, geom_obj.nsites):
             for jj in range(0, geom_obj.nsites):
                 for kk in range(0, self.nspecies):
 
-                    if geom_obj.adjacency_mat[ii, jj] and is_x_neighbor[ii, jj]:
-                        link_current = tx * distance_component_x[ii, jj] * \
-                                       self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
-                        current_op = current_op + link_current
-
-                    if geom_obj.adjacency_mat[ii, jj] and is_y_neighbor[ii, jj]:
-                        link_current = ty * distance_component_y[ii, jj] * \
+                    if self.ts[ii, jj, kk] != 0 and distance_component[ii, jj] != 0:
+                        link_current = self.ts[ii, jj, kk] * distance_component[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
         current_op = 1j * current_op
-- 
2.43.0


From 64916743c36a13eb4bd9eea2e153de1584f282a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:08 +0000
Subject: [PATCH 19/51] fix: conductivity excludes states degenerate up to
 rounding and stays finite at low temperature

---
 exact_diag/ed_fermions.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index c5320aa..a8ca482 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -551,20 +551,20 @@ class fermions(ed_base):
             [a, b] = np.meshgrid(eig_vals, eig_vals)
             omegas = b - a
 
-            weight = np.divide(1 - np.exp(- beta * omegas), omegas)
-            weight[omegas == 0] = 0
-            # multiply each column by the appropriate exponentail factor and weight. Then sum over everything.
-            # think of n as columns, n as rows
+            # thermal weight of each matrix element. Exclude degenerate states, also if degenerate up to rounding errors
+            degenerate = np.abs(omegas) < 1e-10
+            weight = np.divide(np.exp(- beta * a) - np.exp(- beta * b), np.where(degenerate, 1, omegas))
+            weight[degenerate] = 0
             sigma_re_two_sided_int = np.pi / z / nsites * \
-                                     np.sum(np.sum(np.multiply(np.square(np.abs(current_matrix_elems)).dot(
-                                         np.diag(np.exp(- beta * eig_vals))), weight)))
+                                     np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight))
 
         else:
             # period_start = 0, only need to sum over one set of states
             omegas = eig_vals - eig_vals[0]
             # omegas[omegas == 0] = 1e9
-            weight = np.divide(1, omegas)
-            weight[omegas == 0] = 0
+            degenerate = np.abs(omegas) < 1e-10
+            weight = np.divide(1, np.where(degenerate, 1, omegas))
+            weight[degenerate] = 0
             current_matrix_elems = current_matrix_elems[:, 0]
             # we are effectively doing the one-sided integral, therefore we need to multiply this by 2
             sigma_one_sided_int = np.pi / nsites * np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight))
@@ -628,10 +628,11 @@ class fermions(ed_base):
             thermal_mat_elem = np.square(np.abs(current_matrix_elems[:, 0]))
             omegas = omegas[np.abs(current_matrix_elems[:, 0]) > 10 ** -16].flatten()
             thermal_mat_elem = thermal_mat_elem[np.abs(current_matrix_elems[:, 0]) > 10 ** -16].flatten()
-            # need to turn infs into nans to more easily get rid of
-            omega_fn = lambda wo, eta, w, amp: np.multiply(np.divide(lor(np.abs(wo), eta, w, amp),
-                                                                     w),
-                                                           1 - np.isinf(1/w))
+            # matrix elements between degenerate states do not contribute
+            nondegenerate = np.abs(omegas) > 1e-10
+            omegas = omegas[nondegenerate]
+            thermal_mat_elem = thermal_mat_elem[nondegenerate]
+            omega_fn = lambda wo, eta, w, amp: np.divide(lor(np.abs(wo), eta, w, amp), w)
 
         opt_cond_fn = lambda wo, eta: np.pi / z / self.geometry.nsites * np.nansum(omega_fn(wo,
                                                                                             eta,
-- 
2.43.0


From c6d7ce5da8bacd9bc2a93d1e2e511d16628a5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:29 +0000
Subject: [PATCH 20/51] fix: optical conductivity keeps all matrix elements at
 low temperature

---
 exact_diag/ed_fermions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index a8ca482..332226f 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -607,7 +607,8 @@ class fermions(ed_base):
             [a, b] = np.meshgrid(eig_vals, eig_vals)
             omegas = b - a
 
-            thermal_mat_elem = np.square(np.abs(current_matrix_elems)).dot(np.diag(np.exp(- beta * eig_vals)))
+            thermal_mat_elem = np.multiply(np.square(np.abs(current_matrix_elems)),
+                                           np.exp(- beta * a) - np.exp(- beta * b))
             omegas = omegas[np.abs(current_matrix_elems) > 10 ** -16].flatten()
             thermal_mat_elem = thermal_mat_elem[np.abs(current_matrix_elems) > 10 ** -16].flatten()
             # there is some ambiguity in how to define this function. In particular,
@@ -618,9 +619,7 @@ class fermions(ed_base):
             # get rid of these elements, because this is zero (and we shouldn't evaluate omega_start = 0).
             # If we put both as e_m-e_n, then we get a nan, which is also removed later.
             # But we should not put them both as omega_start, because???
-            omega_fn = lambda wo, eta, w, amp: np.divide(np.multiply(1 - np.exp(-beta * w),
-                                                                     lor(wo, eta, w, amp)),
-                                                         wo)
+            omega_fn = lambda wo, eta, w, amp: np.divide(lor(wo, eta, w, amp), wo)
 
         else:
             z = 1
-- 
2.43.0


From 05098b3b050893a7d8213cbb80419ba5ee6e7203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:29 +0000
Subject: [PATCH 21/51] fix: equality of geometries compares phases and
 tolerates geometries without a lattice

---
 exact_diag/ed_geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index b66a3a1..f71c098 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -630,6 +630,7 @@ class Geometry:
             np.array_equal(self.xdist_mat, other.xdist_mat) and \
             np.array_equal(self.ydist_mat, other.ydist_mat) and \
             np.array_equal(self.adjacency_mat, other.adjacency_mat) and \
+            np.array_equal(self.phase_mat, other.phase_mat) and \
             self.lattice == other.lattice:
             return True
         else:
@@ -934,8 +935,11 @@ class Lattice:
     # #################################
 
     def __eq__(self, other):
+        if not isinstance(other, Lattice):
+            return False
         if np.array_equal(self.lattice_vect1, other.lattice_vect1) and \
            np.array_equal(self.lattice_vect2, other.lattice_vect2) and \
+           np.array_equal(self.basis_vects, other.basis_vects) and \
            np.array_equal(self.periodicity_vect1, other.periodicity_vect1) and \
            np.array_equal(self.periodicity_vect2,  other.periodicity_vect2) and \
            self.phase1 == other.phase1 and \
-- 
2.43.0


From 5a1196333362d9150eec66244357f9312f927ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:29 +0000
Subject: [PATCH 22/51] fix: lattice validation rejects periodicity vectors
 that are not lattice vectors

---
 exact_diag/ed_geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index f71c098..4fb31f0 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -878,7 +878,7 @@ class Lattice:
                                                 self.periodicity_vect1[0, 0],
                                                 self.periodicity_vect1[1, 0],
                                                 mode='positive')
-        if not np.array_equiv(xred_p1, 0) and np.array_equiv(yred_p1, 0):
+        if not (np.allclose(xred_p1, 0, atol=1e-10) and np.allclose(yred_p1, 0, atol=1e-10)):
             return False
 
         xred_p2, yred_p2, _, _ = reduce_vectors(self.lattice_vect1,
@@ -886,7 +886,7 @@ class Lattice:
                                                 self.periodicity_vect2[0, 0],
                                                 self.periodicity_vect2[1, 0],
                                                 mode='positive')
-        if not np.array_equiv(xred_p2, 0) and np.array_equiv(yred_p2, 0):
+        if not (np.allclose(xred_p2, 0, atol=1e-10) and np.allclose(yred_p2, 0, atol=1e-10)):
             return False
 
         return True
-- 
2.43.0


From a2157053f6ef30f9a5129440e3585ac3bb6ea0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:29 +0000
Subject: [PATCH 23/51] fix: lattice vector separations are antisymmetric

---
 exact_diag/ed_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 4fb31f0..129e077 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -803,7 +803,7 @@ class Lattice:
                 xdist_min[jj, ii] = - xdist_min[ii, jj]
                 ydist_min[jj, ii] = - ydist_min[ii, jj]
                 latt_vect1_dist[jj, ii] = - latt_vect1_dist[ii, jj]
-                latt_vect2_dist[jj, ii] = - -latt_vect2_dist[ii, jj]
+                latt_vect2_dist[jj, ii] = - latt_vect2_dist[ii, jj]
 
         return xdist_min, ydist_min, latt_vect1_dist, latt_vect2_dist
 
-- 
2.43.0


From f85483e06432313259c318376b90d74bd4ece8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 24/51] fix: lattice sites and bonds are found up to rounding
 errors

---
 exact_diag/ed_geometry.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 129e077..14505ed 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -12,7 +12,7 @@ except ImportError:
 
 
 class Geometry:
-    _round_decimals = 14
+    _round_decimals = 12
 
     def __init__(self,
                  xlocs=None,
@@ -647,7 +647,7 @@ class Geometry:
 
 
 class Lattice:
-    _round_decimals = 14
+    _round_decimals = 12
 
     def __init__(self,
                  lattice_vect1,
@@ -755,12 +755,11 @@ class Lattice:
                                                     vects[0, :],
                                                     vects[1, :],
                                                     mode='positive')
-        xlocs_red = np.round(xlocs_red, self._round_decimals)
-        ylocs_red = np.round(ylocs_red, self._round_decimals)
-        # eliminate duplicates
-        locs = np.unique(np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0), axis=1)
-        xlocs = locs[0, :]
-        ylocs = locs[1, :]
+        # eliminate duplicates. Compare positions only up to rounding errors
+        locs = np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0)
+        _, unique_indices = np.unique(np.round(locs, self._round_decimals - 3), axis=1, return_index=True)
+        xlocs = np.round(locs[0, unique_indices], 14)
+        ylocs = np.round(locs[1, unique_indices], 14)
         nsites = len(xlocs)
 
         return nsites, xlocs, ylocs
@@ -1068,8 +1067,8 @@ def reduce_vectors(vect1,
 
         proj2s = vect2.dot(vects)
 
-    proj1s = np.round(proj1s, 14)
-    proj2s = np.round(proj2s, 14)
+    proj1s = np.round(proj1s, 12)
+    proj2s = np.round(proj2s, 12)
 
     # TODO: add check of this!
     # expect proj1s * periodicity_vect1 + proj2s * periodicity_vect2 = vects
-- 
2.43.0


From f1d807526ab4832e705aa3b6597048fc899898a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 25/51] fix: distance between sites is the shortest one also
 for oblique periodicity vectors

---
 exact_diag/ed_geometry.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 14505ed..8efea8a 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -791,6 +791,8 @@ class Lattice:
                                    xlocs[ii] - xlocs[jj],
                                    ylocs[ii] - ylocs[jj],
                                    mode='centered')
+                xdist_min[ii, jj], ydist_min[ii, jj] = self.get_shortest_equivalent(xdist_min[ii, jj],
+                                                                                    ydist_min[ii, jj])
 
                 _, _, latt_vect1_dist[ii, jj], latt_vect2_dist[ii, jj] = \
                     reduce_vectors(self.lattice_vect1,
@@ -806,6 +808,40 @@ class Lattice:
 
         return xdist_min, ydist_min, latt_vect1_dist, latt_vect2_dist
 
+    def get_shortest_equivalent(self,
+                                x: float,
+                                y: float):
+        """
+        Find the shortest vector which differs from (x, y) by periodicity vectors. If the periodicity vectors are
+        orthogonal this is the reduced vector, but for oblique periodicity vectors it does not need to be.
+
+        :param x:
+        :param y:
+        :return: x_short, y_short. If several vectors are equally short and (x, y) is one of them, return (x, y)
+        """
+        vect = np.array([x, y], dtype=float)
+
+        # find the shortest pair of vectors generating the same periodicity
+        v1 = self.periodicity_vect1[:, 0]
+        v2 = self.periodicity_vect2[:, 0]
+        if np.any(v1) and np.any(v2):
+            while True:
+                if v1.dot(v1) > v2.dot(v2):
+                    v1, v2 = v2, v1
+                n = np.round(v1.dot(v2) / v1.dot(v1), self._round_decimals)
+                n = np.sign(n) * np.ceil(np.abs(n) - 0.5)
+                if n == 0:
+                    break
+                v2 = v2 - n * v1
+
+        xred, yred, _, _ = reduce_vectors(v1, v2, x, y, mode='centered')
+        candidates = [vect] + [np.array([xred[0], yred[0]]) + n1 * v1 + n2 * v2
+                               for n1 in (0, 1, -1) for n2 in (0, 1, -1)]
+        norms = np.array([np.sqrt(c.dot(c)) for c in candidates])
+        shortest = candidates[int(np.argmax(norms < np.min(norms) + 1e-10))]
+
+        return shortest[0], shortest[1]
+
     def get_phase_mat(self,
                       xdist_matrix,
                       ydist_matrix):
-- 
2.43.0


From 3424d8d0c36fc6e2712db4f260d5410e608cf757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 26/51] fix: findSiteCycles handles a single site and closes at
 the largest allowed order

---
 exact_diag/ed_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 8f23332..467d35e 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -189,12 +189,12 @@ def findSiteCycles(transform_fn,
     current_sites = np.zeros(sites.shape)
     max_iter = nsites + 1
     ii = 0
-    while not np.array_equal(current_sites, sites) and ii < max_iter:
+    while (ii == 0 or not np.array_equal(current_sites, sites)) and ii < max_iter:
         ii = ii + 1
         _, current_sites = getTransformedSites(transform_fn, trans_sites[:, ii - 1], geom_obj, tol=tol)
         trans_sites = np.concatenate([trans_sites, current_sites[:, None]], 1)
     max_cycle_len = ii
-    if max_cycle_len == max_iter:
+    if not np.array_equal(current_sites, sites):
         raise Exception("Number of cycles required to close transformation greater than maximum allowed iterations")
 
     cycles = []
-- 
2.43.0


From b549cf26e42d7462173c28a9ee20ecd12d719f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:06 +0000
Subject: [PATCH 27/51] fix: projectors on to multidimensional representations
 may be complex

---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 467d35e..7673484 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -289,7 +289,7 @@ def reduce_symm_projector(p_full,
 
         # construct reduced projector matrix
         # maximum rank, but real rank can be less than this
-        p_red = sp.lil_matrix((p_full.shape))
+        p_red = sp.lil_matrix(p_full.shape, dtype=p_full.dtype)
         p_row_counter = 0
         inv_counter = 0
 
-- 
2.43.0


From e1b3afb9d66259fcee2ac2a583d5711ee003869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 28/51] fix: conjugacy classes of D7 are in the order of the
 character table

---
 exact_diag/ed_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 7673484..d16d82e 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -645,8 +645,8 @@ def getD7Projectors(rot_op,
                     [refl_op, rot_op * refl_op, rot_op**2 * refl_op, rot_op**3 * refl_op,
                      rot_op**4 * refl_op, rot_op**5 * refl_op, rot_op**6 * refl_op],
                     [rot_op, rot_op ** 6],
-                    [rot_op**3, rot_op**4],
-                    [rot_op**2, rot_op**5]]
+                    [rot_op**2, rot_op**5],
+                    [rot_op**3, rot_op**4]]
 
     projs = get_symmetry_projectors(char_table, conj_classes, print_results=print_results)
 
-- 
2.43.0


From ecb48591792c06aa0e389374a377feaa656eed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 29/51] fix: energy spacing of a single energy

---
 exact_diag/fermi_gas.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index fca2774..b1b7193 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -138,6 +138,10 @@ def get_energy_spacing(es):
     es_list = np.sort(es.ravel())
     ediff = np.round(es_list[1:] - es_list[:-1], 12)
     ediff = ediff[ediff > 0]
+    # all energies are the same
+    if ediff.size == 0:
+        return 0., 0., 0.
+
     return np.min(ediff), np.max(ediff), np.mean(ediff)
 
 
-- 
2.43.0


From c505c405578840c39efdd8de3c1de15715ddbf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 30/51] fix: fg_mu finds the chemical potential at any density
 and finite temperature

---
 exact_diag/fermi_gas.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index b1b7193..4057627 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -2,7 +2,7 @@
 Compute properties of a one- or two-component non-interacting Fermi gas
 """
 import numpy as np
-from scipy.optimize import root_scalar, minimize
+from scipy.optimize import brentq, minimize
 from warnings import warn
 
 
@@ -461,22 +461,20 @@ def fg_mu(beta,
             mu[coord] = fg_mu(beta[coord], density[coord], nsites, dim)
     else:
         min_fn = lambda mu: np.abs(fg_density(beta, mu, nsites, dim) - density)
-        jacobian = lambda mu: fg_compressibility(beta, mu, nsites, dim)
-        jacobian_fsqr = lambda mu: 2 * min_fn(mu) * jacobian(mu)
 
         # mu_guess = np.array([0.0])
         # result = scipy.optimize.minimize(min_fn, mu_guess)
         # mu = result.x
 
-        if density == 0.5:
+        if beta != np.inf:
+            # the density increases monotonically with mu. As the band is contained in [-4, 4], the chemical potential
+            # of a single level at the bottom or top of the band is a lower or upper bound
+            shift = np.log(density[0] / (1 - density[0])) / beta[0]
+            fn = lambda mu: float(np.ravel(fg_density(beta, mu, nsites, dim) - density)[0])
+            mu = brentq(fn, -4.5 + shift, 4.5 + shift, xtol=1e-14)
+        elif density == 0.5:
             mu = 0
-        elif beta != np.inf:
-            # seems to work more robustly than scipy.optimize.minimize
-            # but fails at half-filling. jacobian_fsqr has a zero there...is that the reason?
-            fit_handle = root_scalar(jacobian_fsqr, x0=-0.1, x1=0.1)
-            mu = fit_handle.root
         else:
-            # jacobian_fsqr = -inf here, which is why this fials otherwise...
             mu_guess = np.array([0.0])
             result = minimize(min_fn, mu_guess)
             mu = result.x
-- 
2.43.0


From 4a50e91f04046b1076d4856016ac2d4fca8c2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 31/51] fix: density response of the 1D gas uses the shifted
 momentum and all degeneracies take the limiting value

---
 exact_diag/fermi_gas.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index 4057627..ae23755 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -590,7 +590,7 @@ def fg_density_response(beta,
         kxkx_shift = kxkx + k[0]
 
         # get energies
-        dispersion = lambda kx: -2 * np.cos(kxkx)
+        dispersion = lambda kx: -2 * np.cos(kx)
         es = dispersion(kxkx)
         es_q = dispersion(kxkx_shift)
 
@@ -612,10 +612,13 @@ def fg_density_response(beta,
                                                                    dim=dim)
     else:
         # this expression holds except where we have accidental degeneracies.
-        chi_terms = np.divide(fermi(beta, mu, es) - fermi(beta, mu, es_q), omega + es - es_q + 1j * eta)
+        with np.errstate(divide="ignore", invalid="ignore"):
+            chi_terms = np.divide(fermi(beta, mu, es) - fermi(beta, mu, es_q), omega + es - es_q + 1j * eta)
         # at those points, use L'Hopital's rule to get finite value
-        lim = -fermi_derivatives(beta, mu, es, eta=0.0)[0]
-        chi_terms[np.isnan(chi_terms)] = lim[np.isnan(chi_terms)]
+        if omega == 0 and eta == 0:
+            lim = -fermi_derivatives(beta, mu, es, eta=0.0)[0]
+            degenerate = np.abs(es - es_q) < 1e-10
+            chi_terms[degenerate] = lim[degenerate]
         # sum them to get chi
         chi = np.sum(chi_terms) / kxkx.size
 
-- 
2.43.0


From ab1fe9416e25b178d0396b3e8b69ab3718936c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:17 +0000
Subject: [PATCH 32/51] fix: subcluster multiplicities without symmetry do not
 identify clusters related by symmetry

---
 exact_diag/ed_nlce.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index bd03a80..6617216 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -143,7 +143,8 @@ def get_all_clusters_with_subclusters(max_order: int,
             print("cluster index = %d" % index)
         cluster = full_cluster_list[index]
         # get all sub clusters of each cluster
-        subclusters_list, subcluster_mult_mat, order_indices_subclusters = get_reduced_subclusters(cluster)
+        subclusters_list, subcluster_mult_mat, order_indices_subclusters = \
+            get_reduced_subclusters(cluster, use_symmetry=use_symmetry)
         cluster_reduction_mat = map_between_cluster_bases(full_cluster_list,
                                                           order_indices_full,
                                                           subclusters_list,
@@ -416,13 +417,15 @@ def reduce_clusters_by_geometry(cluster_orders_list,
 
 
 def get_reduced_subclusters(parent_geometry,
-                            print_progress: bool = False):
+                            print_progress: bool = False,
+                            use_symmetry: bool = True):
     """
     For a given parent geometry, produce all subclusters and the number of times each subcluster is contained in the
     parent
 
     :param parent_geometry:
     :param print_progress:
+    :param use_symmetry: If True, clusters related by D4 symmetry are not distinct
     :return cluster_list: a list of distinct sub clusters of the parent_geometry (including the parent geometry itself)
     :return sub_cluster_mat: a square matrix which gives the number of times cluster j can be embedded in cluster i, if
       cluster j is a proper sub-cluster of i (i.e. the diagonal of this matrix is zero).
@@ -434,7 +437,7 @@ def get_reduced_subclusters(parent_geometry,
 
     # get unique geometric clusters of each order and multiplicity
     clusters_geom_distinct, clusters_geom_multiplicity, cluster_reduction_mat = \
-        reduce_clusters_by_geometry(cluster_orders_list, use_symmetry=True)
+        reduce_clusters_by_geometry(cluster_orders_list, use_symmetry=use_symmetry)
     clusters_list = [g for h in clusters_geom_distinct for g in h]
 
     # indices
-- 
2.43.0


From 457058c49e0ac0624b9780cc3fb917bb55eff191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:46 +0000
Subject: [PATCH 33/51] fix: generate_clusters reads the number of clusters
 from an existing file

---
 cluster/generate_clusters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/generate_clusters.py b/cluster/generate_clusters.py
index bece71f..7355a22 100644
--- a/cluster/generate_clusters.py
+++ b/cluster/generate_clusters.py
@@ -10,7 +10,7 @@ def generate_clusters(fname_cluster_dat, max_cluster_order):
     if os.path.isfile(fname_cluster_dat):
         with open(fname_cluster_dat, 'rb') as f:
             data = pickle.load(f)
-        cluster_list = data[2]
+        cluster_list = data["cluster_list"]
         return len(cluster_list)
 
     # if data file doesn't already exist, we must generate the clusters and create the file
-- 
2.43.0


From ce2c8b1faf500d829a3d9f3ac46c99d929211a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:46 +0000
Subject: [PATCH 34/51] fix: diag_cluster calls get_two_site_op with its actual
 signature

---
 cluster/diag_cluster.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cluster/diag_cluster.py b/cluster/diag_cluster.py
index 04839d0..ca5e673 100644
--- a/cluster/diag_cluster.py
+++ b/cluster/diag_cluster.py
@@ -44,12 +44,13 @@ def diag_cluster(cluster_index,
         szsz_corrs[0, jj] = 0
         for aa in range(0, model.geometry.nsites):
             for bb in range(aa + 1, model.geometry.nsites):
-                szsz_op = model.getTwoSiteOp(aa,
-                                             bb,
-                                             model.geometry.nsites,
-                                             model.pauli_z,
-                                             model.pauli_z,
-                                             format="boson")
+                szsz_op = model.get_two_site_op(aa,
+                                                0,
+                                                bb,
+                                                0,
+                                                model.pauli_z,
+                                                model.pauli_z,
+                                                format="boson")
                 szsz_exp = model.get_exp_vals_thermal(eig_vects, szsz_op, eig_vals, T)
                 szsz_corrs[0, jj] = szsz_corrs[0, jj] + szsz_exp
 
-- 
2.43.0


From 510972ad7d13adcd5c41b66521ed188a8f6ec661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:46 +0000
Subject: [PATCH 35/51] fix: aggregate_results reads the data written by the
 previous steps of the nlce

---
 cluster/aggregate_results.py         | 9 ++++-----
 cluster/generate_clusters_no_subs.py | 3 ++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cluster/aggregate_results.py b/cluster/aggregate_results.py
index 5c1e051..7445821 100644
--- a/cluster/aggregate_results.py
+++ b/cluster/aggregate_results.py
@@ -4,7 +4,7 @@ import pickle
 import numpy as np
 import re
 
-import ed_nlce
+from exact_diag import ed_nlce
 
 def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
 
@@ -49,10 +49,9 @@ def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
     with open(fname_cluster_dat, 'rb') as f:
         cluster_dat = pickle.load(f)
     max_cluster_order = cluster_dat[0]
-    cluster_multiplicities = cluster_dat[1]
-    clusters_list = cluster_dat[2]
-    sub_cluster_mult = cluster_dat[3]
-    order_start_indices = cluster_dat[4]
+    order_start_indices = cluster_dat[2]
+    cluster_multiplicities = cluster_dat[4]
+    sub_cluster_mult = cluster_dat[5]
 
     # NLCE
     energy_nlce, orders_energy, weight_energy = \
diff --git a/cluster/generate_clusters_no_subs.py b/cluster/generate_clusters_no_subs.py
index 96c322f..11154a4 100644
--- a/cluster/generate_clusters_no_subs.py
+++ b/cluster/generate_clusters_no_subs.py
@@ -20,7 +20,8 @@ def generate_clusters_no_subs(fname_cluster_dat,
     t_end = time.process_time()
 
     # save cluster data
-    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start]
+    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start,
+                     cluster_multiplicities[None, :]]
     with open(fname_cluster_dat, 'wb') as f:
         pickle.dump(data_clusters, f)
 
-- 
2.43.0


From 9403e968727b6a4b63ec7341436d280a53adbd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:24 +0000
Subject: [PATCH 36/51] fix: an interrupted cluster generation does not leave
 an incomplete cluster file

---
 cluster/generate_clusters.py         | 6 ++++--
 cluster/generate_clusters_no_subs.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cluster/generate_clusters.py b/cluster/generate_clusters.py
index 7355a22..fc86e31 100644
--- a/cluster/generate_clusters.py
+++ b/cluster/generate_clusters.py
@@ -21,14 +21,16 @@ def generate_clusters(fname_cluster_dat, max_cluster_order):
 
     cluster_multiplicities = cluster_multiplicities[None, :]
 
-    # save cluster data
+    # save cluster data. The file must only appear once it is complete, as later runs rely on it
+    fname_partial = fname_cluster_dat + ".partial"
     data_clusters = {"max_cluster_order": max_cluster_order,
                      "cluster_multiplicities": cluster_multiplicities,
                      "cluster_list": clusters_list,
                      "sub_cluster_mult": sub_cluster_mult,
                      "order_start_indices": order_start_indices}
-    with open(fname_cluster_dat, 'wb') as f:
+    with open(fname_partial, 'wb') as f:
         pickle.dump(data_clusters, f)
+    os.replace(fname_partial, fname_cluster_dat)
 
     return len(clusters_list)
 
diff --git a/cluster/generate_clusters_no_subs.py b/cluster/generate_clusters_no_subs.py
index 11154a4..f042609 100644
--- a/cluster/generate_clusters_no_subs.py
+++ b/cluster/generate_clusters_no_subs.py
@@ -19,11 +19,13 @@ def generate_clusters_no_subs(fname_cluster_dat,
     clusters_list, cluster_multiplicities, order_start_indices = ed_nlce.get_all_clusters(max_cluster_order)
     t_end = time.process_time()
 
-    # save cluster data
+    # save cluster data. The file must only appear once it is complete, as later runs rely on it
+    fname_partial = fname_cluster_dat + ".partial"
     data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start,
                      cluster_multiplicities[None, :]]
-    with open(fname_cluster_dat, 'wb') as f:
+    with open(fname_partial, 'wb') as f:
         pickle.dump(data_clusters, f)
+    os.replace(fname_partial, fname_cluster_dat)
 
     return len(clusters_list)
 
-- 
2.43.0


From 63ebf1cfc49ee4f823cb9818a6954bd2be5f9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:08 +0000
Subject: [PATCH 37/51] fix: adjacency sorting compares the number of adjacent
 sites first

---
 exact_diag/ed_geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 8efea8a..83445d6 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -419,7 +419,8 @@ class Geometry:
                 adjacency_order_n.append(np.sum(adj_mat_powers[ii], 1))
                 adjacency_test_n[:, ii] = np.sum(adj_mat_powers[ii], 1)
 
-            sorted_indices = np.lexsort(tuple(adjacency_order_n))
+            # the last key is the primary one
+            sorted_indices = np.lexsort(tuple(adjacency_order_n[::-1]))
 
             # however, if two sites are equivalent under a symmetry operation, this process does not distinguish them.
             # It doesn't matter which site we select first, but we need to choose the next site in some way based on
-- 
2.43.0


From b3609d217a9f708d9a055d9c7fef1831175b8421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:22 +0000
Subject: [PATCH 38/51] fix: conjugacy classes of diagonal reflections in the
 space group of the 3x3 torus

---
 exact_diag/ed_symmetry.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index d16d82e..06d9502 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -688,7 +688,7 @@ def getC4V_and_3byb3(rot_op,
 
     C3 = {R^2, Tx^nTy^mR^2} (order=2, #=9)
 
-    C4 = {R*Refl, R^3*Refl, Tx*Ty^2*R*Refl, Tx^2*Ty*R*Refl, Tx*Ty*R^3*Refl, Tx^2*Ty^2*R^3*Refl} (order=2, #=6)
+    C4 = {R*Refl, R^3*Refl, Tx*Ty*R*Refl, Tx^2*Ty^2*R*Refl, Tx*Ty^2*R^3*Refl, Tx^2*Ty*R^3*Refl} (order=2, #=6)
 
     C5 = {R, R^3, Tx^n*Ty^m*R, Tx^n*Ty^m*R^3} (order=4, #=18)
 
@@ -697,8 +697,10 @@ def getC4V_and_3byb3(rot_op,
     C7 = {Tx^n*Ty^m*Refl except (n,m) = (0,0), (1,0) and (2,0)
           Tx^n*Ty^m*R^2*Refl except (n,m) = (0,0), (0,1), and (0, 2)} (order=6, #=12)
 
-    C8 = {Tx^n*Ty^m*R*Refl except (n,m) = (0,0), (1,2) and (2, 1),
-          Tx^n*Ty^m*R^3*Refl except (n,m) = (0,0), (1,1) and (2,2)} (order=6, #=12)
+    C8 = {Tx^n*Ty^m*R*Refl except (n,m) = (0,0), (1,1) and (2, 2),
+          Tx^n*Ty^m*R^3*Refl except (n,m) = (0,0), (1,2) and (2,1)} (order=6, #=12)
+
+    where R is the (counterclockwise) rotation, and Refl inverts the x-coordinate.
 
     C9 = {TxTy, Tx^2Ty, TxTy^2 Tx^2Ty^2} (order=3, #=4)
 
@@ -723,8 +725,8 @@ def getC4V_and_3byb3(rot_op,
     c4 = [refl_op, rot_op**2 * refl_op, tx_op * refl_op, tx_op**2 * refl_op,
           ty_op * rot_op**2 * refl_op, ty_op**2 * rot_op**2 * refl_op]
     c2 = [rot_op * refl_op, rot_op ** 3 * refl_op,
-          tx_op * ty_op ** 2 * rot_op * refl_op, tx_op ** 2 * ty_op * rot_op * refl_op,
-          tx_op * ty_op * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op ** 3 * refl_op]
+          tx_op * ty_op * rot_op * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op * refl_op,
+          tx_op * ty_op ** 2 * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op * rot_op ** 3 * refl_op]
 
     c3 = [rot_op**2, tx_op * rot_op**2, tx_op**2 * rot_op**2,
           ty_op * rot_op**2, ty_op**2 * rot_op**2, tx_op * ty_op * rot_op**2,
@@ -747,10 +749,10 @@ def getC4V_and_3byb3(rot_op,
           tx_op**2 * ty_op * rot_op**2 * refl_op, tx_op**2 * ty_op**2 * rot_op**2 * refl_op]
     c7 = [tx_op * rot_op * refl_op, tx_op**2 * rot_op * refl_op,
           ty_op * rot_op * refl_op, ty_op**2 * rot_op * refl_op,
-          tx_op * ty_op * rot_op * refl_op, tx_op**2 * ty_op**2 * rot_op * refl_op,
+          tx_op * ty_op**2 * rot_op * refl_op, tx_op**2 * ty_op * rot_op * refl_op,
           tx_op * rot_op**3 * refl_op, tx_op**2 * rot_op**3 * refl_op,
           ty_op * rot_op**3 * refl_op, ty_op**2 * rot_op**3 * refl_op,
-          tx_op * ty_op**2 * rot_op**3 * refl_op, tx_op**2 * ty_op * rot_op**3 * refl_op]
+          tx_op * ty_op * rot_op**3 * refl_op, tx_op**2 * ty_op**2 * rot_op**3 * refl_op]
 
     c9 = [tx_op, tx_op**2, ty_op, ty_op**2]
     c6 = [tx_op * ty_op, tx_op ** 2 * ty_op, tx_op * ty_op ** 2, tx_op ** 2 * ty_op ** 2]
-- 
2.43.0


From 77aeb18797b1c39d419425e00debfc6a6944c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:29 +0000
Subject: [PATCH 39/51] fix: get_dos2 uses an integer number of bins and the
 actual bin widths

---
 exact_diag/fermi_gas.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index ae23755..7a9e38e 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -188,17 +188,15 @@ def get_dos2(nsites: int = 100,
     pts_per_bin = 2000
     de = pts_per_bin * emean
     # determine bin number from bin widths
-    nbins = np.floor((np.max(es) - np.min(es)) / de)
+    nbins = int(np.floor((np.max(es) - np.min(es)) / de)) if de > 0 else 1
     # ensure odd number of bins
     if nbins % 2 == 0:
         nbins = nbins + 1
     # bin edges and means
-    e_bin_end_pts = np.linspace(np.min(es), np.max(es), nbins)
+    e_bin_end_pts = np.linspace(np.min(es), np.max(es), nbins + 1)
     e_means = 0.5 * (e_bin_end_pts[1:] + e_bin_end_pts[:-1])
 
-    num_in_bin, _ = np.histogram(es.ravel(), e_bin_end_pts)
-
-    dos = np.divide(num_in_bin, de) / es.size
+    dos = get_dos(es, e_bin_end_pts)
 
     return dos, e_means
 
-- 
2.43.0


From 469d7ef2d39771eeee61ba585c72cdc7912f7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 40/51] fix: imaginary time green's function of levels far
 below the chemical potential keeps its precision

---
 exact_diag/greens_fns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index edc360d..69f76aa 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -260,8 +260,10 @@ def get_noninteracting_gfn_tau(taus,
 
     if format == "fermion":
         fermi_fn = np.divide(1, 1 + np.exp(beta * epsilon_k))
+        # 1 - fermi_fn, but without loss of precision for levels far below the chemical potential
+        hole_fn = np.divide(1, 1 + np.exp(-beta * epsilon_k))
         # TODO: should I enforce one of the heaviside functions to be 1 at \tau = 0 ?
-        greens_fn = - np.exp(-epsilon_k * taus) * ((1 - fermi_fn) * np.heaviside(taus, 0) -
+        greens_fn = - np.exp(-epsilon_k * taus) * (hole_fn * np.heaviside(taus, 0) -
                                                    fermi_fn * np.heaviside(-1 * taus, 0))
     elif format == "bosone":
         raise Exception("TODO: noninteracting boson green's function calculation not implemented yet")
-- 
2.43.0


From 679f01cba60c622f8822aaebc5089579e88b56ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:27 +0000
Subject: [PATCH 41/51] fix: keep tau = beta in grnfn_imagtime_ft if it is
 rounded up

---
 exact_diag/greens_fns.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index 69f76aa..850c9ba 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -197,11 +197,13 @@ def grnfn_imagtime_ft(matsubara_frqs,
     if not np.any(np.round(np.abs(taus - beta), 14) == 0):
         warn('tau = beta was not supplied to grnfn_imagtime_ft.')
 
-    if np.round(taus, 14).max() > beta or np.round(taus, 14).min() < 0:
+    # compare relative to beta, as otherwise tau = beta may be rounded to a value larger than beta
+    taus_over_beta = np.round(taus / beta, 14)
+    if taus_over_beta.max() > 1 or taus_over_beta.min() < 0:
         warn('taus supplied to grnfn_imagtime_ft contained values smaller than 0 or'
              ' larger than beta. Those values will be ignored in the calculation',
              RuntimeWarning)
-        indices_to_use = np.logical_and(np.round(taus, 14) >= 0, np.round(taus, 14) <= beta)
+        indices_to_use = np.logical_and(taus_over_beta >= 0, taus_over_beta <= 1)
         grn_fn_imagtime = grn_fn_imagtime[indices_to_use]
         taus = taus[indices_to_use]
 
-- 
2.43.0


From 91e74c43264e8f5dd05f1234dd6758a192e53142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:37 +0000
Subject: [PATCH 42/51] fix: recognize degenerate ground states of large
 energies in get_thermal_weights at zero temperature

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index a94e42d..ec2662b 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -927,7 +927,7 @@ class ed_base:
             else:
                 # zero temperature
                 # Check for degenerate states
-                nstates = len(energies[np.round(energies, 13) == 0])
+                nstates = len(energies[np.round(energies, 10) == 0])
                 thermal_weights = np.zeros(energies.size)
                 thermal_weights[0:nstates] = 1.
                 z = float(nstates)
-- 
2.43.0


From ec093e914ad9c2815a290a07bb57eff00f28805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:35 +0000
Subject: [PATCH 43/51] fix: results of a batch job only appear once complete,
 so that the driver never aggregates a partial file

---
 cluster/diag_cluster.py     | 6 +++++-
 cluster/find_subclusters.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cluster/diag_cluster.py b/cluster/diag_cluster.py
index ca5e673..87bbcae 100644
--- a/cluster/diag_cluster.py
+++ b/cluster/diag_cluster.py
@@ -1,3 +1,4 @@
+import os
 import sys
 import pickle
 import numpy as np
@@ -58,8 +59,11 @@ def diag_cluster(cluster_index,
     print("Computing %d finite temperature expectation values took %0.2fs" % (len(temps), t_end - t_start))
 
     data_out = [cluster, eig_vals, energies, entropies, specific_heats, szsz_corrs, temps, model]
-    with open(cluster_data_out_fname, 'wb') as f:
+    # the file must only appear once it is complete, as the driver counts the files to see which jobs are done
+    fname_partial = cluster_data_out_fname + ".partial"
+    with open(fname_partial, 'wb') as f:
         pickle.dump(data_out, f)
+    os.replace(fname_partial, cluster_data_out_fname)
 
 
 if __name__ == "__main__":
diff --git a/cluster/find_subclusters.py b/cluster/find_subclusters.py
index b42c1e0..6988fd7 100644
--- a/cluster/find_subclusters.py
+++ b/cluster/find_subclusters.py
@@ -1,3 +1,4 @@
+import os
 import sys
 import pickle
 import scipy.sparse as sp
@@ -32,8 +33,11 @@ def find_subclusters(cluster_index,
     final_sub_cluster_mat = cluster_reduction_mat.transpose().dot(subcluster_mult_mat.dot(cluster_reduction_mat))
 
     data_out = [cluster_index, final_sub_cluster_mat, cluster]
-    with open(cluster_data_out_fname, 'wb') as f:
+    # the file must only appear once it is complete, as the driver counts the files to see which jobs are done
+    fname_partial = cluster_data_out_fname + ".partial"
+    with open(fname_partial, 'wb') as f:
         pickle.dump(data_out, f)
+    os.replace(fname_partial, cluster_data_out_fname)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From b5feb6fe4d8cb2941b28910e239d54216f92ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:35 +0000
Subject: [PATCH 44/51] fix: thermal_avg_combine_sectors accepts lists and
 keeps the imaginary part of expectation values

---
 exact_diag/ed_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index ec2662b..2bac99b 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1020,6 +1020,7 @@ class ed_base:
         :return: thermal_exp_vals
         """
         temps = np.asarray(temps)
+        expvals_sectors = np.asarray(expvals_sectors)
 
         # TODO: 'vectorize' this to take multiple temperatures and compute in efficient way if possible...
         #  In that case, quantity_sectors would be a nsectors x ntemps array
@@ -1032,7 +1033,7 @@ class ed_base:
             shape = list(expvals_sectors.shape)
             shape.pop(1)
 
-            thermal_exp_vals = np.zeros(([temps.size] + shape[1:]))
+            thermal_exp_vals = np.zeros(([temps.size] + shape[1:]), dtype=np.result_type(expvals_sectors, float))
             for ii in range(0, temps.size):
                 expvals_sectors_temp = expvals_sectors[:, ii, :]
                 thermal_exp_vals[ii, :] = self.thermal_avg_combine_sectors(expvals_sectors_temp,
-- 
2.43.0


From d56d7988cb3c4b5bf5c99ae66fc8005c2bf17d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:57 +0000
Subject: [PATCH 45/51] fix: quench_time_evolve keeps the dimension of
 one-dimensional spaces

---
 exact_diag/ed_base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 2bac99b..60b471b 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -265,10 +265,11 @@ class ed_base:
         # transform back to initial basis. Need to multiply a stack of matrices by the same matrix. So want to do
         # matrix multiplication along the first two dimensions (0 and 1) and ignore the 3rd dimension (2)
         evolved_states = np.tensordot(eig_vects, evolved_states_eig_basis, axes=([1], [0]))
-        evolved_states = np.squeeze(evolved_states)
-
-        if evolved_states.ndim == 1:
-            evolved_states = np.expand_dims(evolved_states, axis=1)
+        # remove the states and times dimensions if they are singletons, but never the dimension of the space
+        if num_init_states == 1:
+            evolved_states = np.squeeze(evolved_states, axis=2)
+        elif times.size == 1:
+            evolved_states = np.squeeze(evolved_states, axis=1)
 
         if print_results:
             print(f"Time evolving {num_init_states:d} state(s) "
-- 
2.43.0


From f512848a0f472090a1b464bff006241a70e4eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:57 +0000
Subject: [PATCH 46/51] fix: get_nlce_exp_val accepts values of any shape and
 keeps their imaginary part

---
 exact_diag/ed_nlce.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index 6617216..619b0a0 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -536,7 +536,7 @@ def get_nlce_exp_val(exp_vals_clusters,
     nclusters = exp_vals_clusters.shape[0]
     # want to accept arbitrary exp_vals shapes, subject only to the condition that the
     # first dimension loops over clusters
-    weights = np.zeros(exp_vals_clusters.shape)
+    weights = np.zeros(exp_vals_clusters.shape, dtype=np.result_type(exp_vals_clusters, float))
 
     # compute weights in a nice tensorial way
     # W_p(c) = P(c) - \sum_{s<c} W_p(s)
@@ -548,8 +548,8 @@ def get_nlce_exp_val(exp_vals_clusters,
         # in the general case, we need to sum over index 1 of sub_cluster_multiplicty_mat, and index 0 of weights.
         # np.dot no longer works, as this sums over the last index of the first array, and the second to last index of
         # the second array. To sum over arbitrary axes, use np.tensordot
-        weights[ii, ...] = exp_vals_clusters[ii, ...] - np.squeeze(
-            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0)))
+        weights[ii, ...] = exp_vals_clusters[ii, ...] - \
+            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0))[0]
 
     # exp_val_nlce[jj] = sub_cluster_multiplicity_mat[-1, :] * weights[:, jj] / nsites
     # exp_val_nlce = np.squeeze(np.tensordot(sub_cluster_multiplicity_mat[-1, :].toarray(),
@@ -558,10 +558,10 @@ def get_nlce_exp_val(exp_vals_clusters,
 
     b = list(exp_vals_clusters[0, ...].shape)
     size = [len(order_start_indices) - 1] + [int(c) for c in b]
-    nlce_orders = np.zeros(tuple(size))
+    nlce_orders = np.zeros(tuple(size), dtype=weights.dtype)
     for ii in range(0, len(order_start_indices) - 1):
-        nlce_orders[ii, ...] = np.squeeze(np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
-                                                 weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))) / nsites
+        nlce_orders[ii, ...] = np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
+                                                 weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))[0] / nsites
 
     return exp_val_nlce, nlce_orders, weights
 
-- 
2.43.0


From b78c1ae7f0e9d1c331405894374108bdf527a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:57 +0000
Subject: [PATCH 47/51] fix: euler_resum keeps the imaginary part of its input

---
 exact_diag/ed_nlce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index 619b0a0..8a49c25 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -575,7 +575,7 @@ def euler_resum(exp_vals_orders,
     :return:
     """
     # TODO: test
-    euler_orders = np.zeros(exp_vals_orders.shape)
+    euler_orders = np.zeros(exp_vals_orders.shape, dtype=np.result_type(exp_vals_orders, float))
 
     for ii in range(0, euler_orders.shape[0]):
         jjs = np.arange(0, ii + 1)
-- 
2.43.0


From fc2bae14a5dda18c235cc3cfce5c4b60306e41d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:57 +0000
Subject: [PATCH 48/51] fix: validate_char_table compares the orthogonality
 sums without rounding them

---
 exact_diag/ed_symmetry.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 06d9502..4e402d3 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -807,23 +807,21 @@ def validate_char_table(char_table,
     valid = True
 
     # check column orthogonality relation
-    col_cross_sums = np.zeros((n, n), dtype=int)
+    col_cross_sums = np.zeros((n, n), dtype=complex)
     for ii in range(n):
         for jj in range(n):
-            val = np.sum(char_table[:, ii] * char_table[:, jj].conj(), axis=0).real
-            col_cross_sums[ii, jj] = np.round(val)
+            col_cross_sums[ii, jj] = np.sum(char_table[:, ii] * char_table[:, jj].conj(), axis=0)
 
-    if not np.array_equal(np.diag(np.array(order / cc_sizes, dtype=int)), col_cross_sums):
+    if not np.allclose(np.diag(order / cc_sizes), col_cross_sums, atol=1e-6):
         valid = False
 
     # row orthogonality relation
-    row_cross_sums = np.zeros((n, n), dtype=int)
+    row_cross_sums = np.zeros((n, n), dtype=complex)
     for ii in range(n):
         for jj in range(n):
-            val = np.sum(char_table[ii, :] * char_table[jj, :].conj() * cc_sizes, axis=0).real
-            row_cross_sums[ii, jj] = np.round(val)
+            row_cross_sums[ii, jj] = np.sum(char_table[ii, :] * char_table[jj, :].conj() * cc_sizes, axis=0)
 
-    if not np.array_equal(order * np.eye(n, dtype=int), row_cross_sums):
+    if not np.allclose(order * np.eye(n), row_cross_sums, atol=1e-6):
         valid = False
 
     return valid
-- 
2.43.0


From 5ac7da88099138d6f6b5139d96647cc32944ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:33 +0000
Subject: [PATCH 49/51] fix: correlators of the 1d Fermi gas ignore the second
 component of the separation

---
 exact_diag/fermi_gas.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index 7a9e38e..899275d 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -519,7 +519,8 @@ def fg_corr(beta,
     :return:
     """
     gfn_lesser = fg_realspace_gfn(beta, mu, corr_index, 0., nsites, dim, type="lesser")[0]
-    delta = not np.any(corr_index)
+    # in 1d only the first component of the separation matters
+    delta = not np.any(corr_index[:1] if dim == '1d' else corr_index)
     corr = delta * np.abs(gfn_lesser) - np.abs(gfn_lesser)**2
 
     return corr
@@ -876,7 +877,8 @@ def fg_sx_corr(beta,
     """
     gfn_lesser_up = fg_realspace_gfn(beta, mu_up, corr_index, 0., nsites, dim, type="lesser")[0]
     gfn_lesser_dn = fg_realspace_gfn(beta, mu_dn, corr_index, 0., nsites, dim, type="lesser")[0]
-    delta = not np.any(corr_index)
+    # in 1d only the first component of the separation matters
+    delta = not np.any(corr_index[:1] if dim == '1d' else corr_index)
     corr_sx = np.real(delta * (np.abs(gfn_lesser_up) + np.abs(gfn_lesser_dn)) - gfn_lesser_up * gfn_lesser_dn.conj() - gfn_lesser_dn * gfn_lesser_up.conj())
 
     return corr_sx
-- 
2.43.0


From e83362d53f58cf344d9e8acb01af9f9f42a5260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:39 +0000
Subject: [PATCH 50/51] fix: reduce_vectors allows for the rounding errors of
 strongly oblique periodicity vectors

---
 exact_diag/ed_geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 83445d6..a16fb33 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -1104,8 +1104,9 @@ def reduce_vectors(vect1,
 
         proj2s = vect2.dot(vects)
 
-    proj1s = np.round(proj1s, 12)
-    proj2s = np.round(proj2s, 12)
+    # for oblique vectors rounding errors can exceed 1e-12
+    proj1s = np.round(proj1s, 10)
+    proj2s = np.round(proj2s, 10)
 
     # TODO: add check of this!
     # expect proj1s * periodicity_vect1 + proj2s * periodicity_vect2 = vects
-- 
2.43.0


From 6d859cbb5963454336425e5e1538743501f85de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:52 +0000
Subject: [PATCH 51/51] fix: symmetry partners of clusters far from the origin

The coordinates of the rotated and reflected clusters were rounded to 14 decimal
places, which does not remove the rounding errors of the rotation for sites more
than a few tens of sites from the origin. Images of the same cluster were then not
recognised as equal, so the orbit contained duplicates.
---
 exact_diag/ed_nlce.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index 8a49c25..87eb36e 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -483,7 +483,8 @@ def get_clusters_rel_by_symmetry(cluster,
 
     cluster_symm_partners = [cluster]
     # list coordinates of all D4 symmetries
-    places_round = 14
+    # the rounding errors of the rotation grow with the distance from the origin
+    places_round = 10
     xys_list = []
     xys_list.append(np.round(rot_fn(cluster.xlocs, cluster.ylocs), places_round))
     xys_list.append(np.round(rot_fn(xys_list[0][0, :], xys_list[0][1, :]), places_round))
-- 
2.43.0

