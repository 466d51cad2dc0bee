From 1fd058d39e59a15b7c5ee9bf007c7ff0b07a3cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 01/19] fix: phase of the translation in symm_matrix uses
 inv(A)

---
 irrep/gvectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 85bf2b4..10998fe 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -414,7 +414,9 @@ def symm_matrix(
         Bloch Hamiltonian :math:`H(k)`.
     """
     npw1 = igall.shape[1]
-    multZ = np.exp(-1.0j * (2 * np.pi * A.dot(T).dot(igall[:3, :] + K[:, None])))
+    multZ = np.exp(
+        -1.0j * (2 * np.pi * np.linalg.inv(A).dot(T).dot(igall[:3, :] + K[:, None]))
+    )
     igrot = transformed_g(K, igall, RecLattice, A)
     if spinor:
         WF1 = np.stack([WF[:, igrot], WF[:, igrot + npw1]], axis=2).conj()
-- 
2.43.0


From 694cf09db5bfbed1ffe4b15dcf10784f8b41fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:56 +0000
Subject: [PATCH 02/19] fix: number of grid points in the storage-order key of
 plane waves

---
 irrep/gvectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 10998fe..0579ca4 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -148,7 +148,7 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0)
+    ng = np.maximum(igall.max(axis=0), 0) - np.minimum(igall.min(axis=0), 0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From 5bfbd39c9a2d9a22b1185c239df6c3921beab0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:22 +0000
Subject: [PATCH 03/19] fix: sign of the translations read from a .sym file

---
 irrep/spacegroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index cf9830d..540ae4d 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1413,5 +1413,6 @@ def cart_to_crystal(rot_cart, trans_cart, lattice, alat):
     rot_crystal = np.array([(lat_inv.T @ rot @  lattice.T) for rot in rot_cart])
     assert np.allclose(rot_crystal, np.round(rot_crystal)), f"rotations are not integers in crystal coordinates : {rot_crystal}"
     rot_crystal = np.round(rot_crystal).astype(int)
-    trans_crystal = trans_cart @ lat_inv * alat * BOHR
+    # in the file the operations act as rR - t (see SymmetryOperation.str_sym)
+    trans_crystal = - trans_cart @ lat_inv * alat * BOHR
     return rot_crystal , trans_crystal 
\ No newline at end of file
-- 
2.43.0


From e3ab4938916cb5e734e5da8e26c7367d144ea90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:56 +0000
Subject: [PATCH 04/19] fix: index symmetries by their position in the tables
 when some are absent

---
 irrep/spacegroup.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 540ae4d..5000818 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -599,7 +599,7 @@ class SpaceGroup():
             # Sort symmetries like in tables
             args = np.argsort(ind)
             for i,i_ind in enumerate(args):
-                self.symmetries[i_ind].ind = i+1
+                self.symmetries[i_ind].ind = ind[i_ind] + 1
                 self.symmetries[i_ind].sign = signs[i_ind]
                 self.symmetries.append(self.symmetries[i_ind])
             self.symmetries = self.symmetries[i+1:]
@@ -1003,10 +1003,12 @@ class SpaceGroup():
                                 3),
                             k1))
                 tab[irr.name] = {}
-                for i,(sym1,sym2) in enumerate(zip(self.symmetries,table.symmetries)):
+                for sym1 in self.symmetries:
                     try:
+                        character = irr.characters[sym1.ind]
+                        sym2 = table.symmetries[sym1.ind - 1]
                         dt = sym2.t - sym1.translation_refUC(self.refUC, self.shiftUC)
-                        tab[irr.name][i + 1] = irr.characters[i + 1] * \
+                        tab[irr.name][sym1.ind] = character * \
                             sym1.sign * np.exp(2j * np.pi * dt.dot(irr.k))
                     except KeyError:
                         pass
-- 
2.43.0


From 8275d7057715267ff9c9551d8a09475f0e06fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:05 +0000
Subject: [PATCH 05/19] fix: one irrep entry per level when no table is given

---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 0d6a2d7..91273e5 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -663,7 +663,7 @@ class Kpoint:
 
         self.onlytraces = irreptable is None
         if self.onlytraces:
-            irreps = ["None"] * (len(self.degeneracies) - 1)
+            irreps = ["None"] * len(self.degeneracies)
 
         else:
 
-- 
2.43.0


From f39356bfccfd76bf3fe19440f652dd359ccfd37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:31 +0000
Subject: [PATCH 06/19] fix: Separate keeps every state and its irreps without
 grouping Kramers pairs

---
 irrep/kpoint.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 91273e5..6c25cb3 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -504,14 +504,14 @@ class Kpoint:
             b2 = self.borders[istate+1]
             inds_states += [istate] * num_states  # index for set of states
             W, V = la.eig(S[b1:b2, b1:b2])
-            for w, v in zip(W, V.T):
-                eigenvalues.append(w)
+            for eigval, eigvec in zip(W, V.T):
+                eigenvalues.append(eigval)
                 Eloc.append(self.Energy_mean[istate])
                 eigenvectors.append(
-                    np.hstack((np.zeros(b1), v, np.zeros(self.num_bands - b2)))
+                    np.hstack((np.zeros(b1), eigvec, np.zeros(self.num_bands - b2)))
                 )
         w = np.array(eigenvalues)
-        v = np.array(eigenvectors).T # each col an eigenvector
+        vecs = np.array(eigenvectors).T # each col an eigenvector
         Eloc = np.array(Eloc)
         inds_states = np.array(inds_states)
 
@@ -529,7 +529,7 @@ class Kpoint:
             # Sort based on real part of eigenvalues
             arg = np.argsort(np.real(w))
             w = w[arg]
-            v = v[:, arg]
+            vecs = vecs[:, arg]
             Eloc = Eloc[arg]
             inds_states = inds_states[arg]
             borders = np.hstack(
@@ -539,31 +539,35 @@ class Kpoint:
             # Probably this if-else statement can be removed
             if len(borders) > 0:
                 for b1, b2 in zip(borders, borders[1:]):
-                    v1 = v[:, b1:b2]
+                    v1 = vecs[:, b1:b2]
                     subspaces[w[b1:b2].mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
             else:
-                v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), degen_thresh=degen_thresh, inds_states=inds_states)
+                v1 = vecs
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         else:  # don't group Kramers pairs
             
             # Sort based on the argument of eigenvalues
             arg = np.argsort(np.angle(w))
             w = w[arg]
-            v = v[:, arg]
+            vecs = vecs[:, arg]
             Eloc = Eloc[arg]
+            inds_states = inds_states[arg]
             borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]
 
-            if len(borders) > 0:
+            if len(borders) > 1:
                 for b1, b2 in zip(borders, np.roll(borders, -1)):
-                    v1 = np.roll(v, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
-                    subspaces[np.roll(w, -b1)[: (b2 - b1) % self.num_bands].mean()] = self.copy_sub(
-                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], degen_thresh=degen_thresh, WF=v1.T.dot(self.WF)
+                    num_states = (b2 - b1) % self.num_bands
+                    v1 = np.roll(vecs, -b1, axis=1)[:, :num_states]
+                    subspaces[np.roll(w, -b1)[:num_states].mean()] = self.copy_sub(
+                        E=np.roll(Eloc, -b1)[:num_states],
+                        WF=v1.T.dot(self.WF),
+                        inds=np.roll(inds_states, -b1)[:num_states]
                     )
 
             else:
-                v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, degen_thresh=degen_thresh, WF=v1.T.dot(self.WF))
+                v1 = vecs
+                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), inds=inds_states)
 
         return subspaces
 
-- 
2.43.0


From 78bcd3ac9d52519300dcfac0e1ed6e0010158129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 07/19] fix: zakphase reads the band energies of the k-points

---
 irrep/bandstructure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7ba4f8b..cb54212 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -751,7 +751,7 @@ class BandStructure:
         print("overlaps")
         for O in overlaps:
             print(np.abs(O[0, 0]), np.angle(O[0, 0]))
-        print("   sum  ", np.sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
+        print("   sum  ", sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
         #        overlaps.append(self.kpoints[-1].overlap(self.kpoints[0],g=np.array( (self.kpoints[-1].K-self.kpoints[0].K).round(),dtype=int )  )  )
         nmax = np.min([o.shape for o in overlaps])
         # calculate zak phase in incresing dimension of the subspace (1 band,
@@ -762,13 +762,13 @@ class BandStructure:
         #        print (np.array([k.Energy[1:] for k in self.kpoints] ))
         #        print (np.min([k.Energy[1:] for k in self.kpoints],axis=0) )
         emin = np.hstack(
-            (np.min([k.Energy[1:nmax] for k in self.kpoints], axis=0), [np.inf])
+            (np.min([k.Energy_raw[1:nmax] for k in self.kpoints], axis=0), [np.inf])
         )
-        emax = np.max([k.Energy[:nmax] for k in self.kpoints], axis=0)
+        emax = np.max([k.Energy_raw[:nmax] for k in self.kpoints], axis=0)
         locgap = np.hstack(
             (
                 np.min(
-                    [k.Energy[1:nmax] - k.Energy[0 : nmax - 1] for k in self.kpoints],
+                    [k.Energy_raw[1:nmax] - k.Energy_raw[0 : nmax - 1] for k in self.kpoints],
                     axis=0,
                 ),
                 [np.inf],
-- 
2.43.0


From 4a6db7bbc8680614442f87a48dd0dbaf478f14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 08/19] fix: wcc takes the phases of the eigenvalues of the
 Wilson loop

---
 irrep/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index cb54212..664f155 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -794,7 +794,7 @@ class BandStructure:
             np.dot,
             [functools.reduce(np.dot, np.linalg.svd(O)[0:3:2]) for O in overlaps],
         )
-        return np.sort((np.angle(np.linalg.eig(wilson)) / (2 * np.pi)) % 1)
+        return np.sort((np.angle(np.linalg.eigvals(wilson)) / (2 * np.pi)) % 1)
 
     def write_plotfile(self, filename='bands-tognuplot.dat'):
         """
-- 
2.43.0


From 417f0d01e67434badeeb7e7b6659348636aab4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 09/19] fix: plane-wave energies of Quantum Espresso use the
 reciprocal lattice in inverse bohr

---
 irrep/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 664f155..203972f 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -26,7 +26,7 @@ from .readfiles import ParserAbinit, ParserVasp, ParserEspresso, ParserW90
 from .kpoint import Kpoint
 from .spacegroup import SpaceGroup
 from .gvectors import sortIG, calc_gvectors
-from .utility import log_message
+from .utility import log_message, BOHR
 
 
 class BandStructure:
@@ -341,7 +341,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
                 log_message(msg, v, 2)
                 WF, Energy, kg, kpt = parser.parse_kpoint(ik, NBin, spin_channel, v=v)
-                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice/2.0, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'wannier90':
                 kpt = kpred[ik]
-- 
2.43.0


From a67798acdaffa06cedc4f4d9770803395636c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 10/19] fix: energies of the selected spin channel of Quantum
 Espresso

---
 irrep/readfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 5682ee6..cc35b2e 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -692,6 +692,10 @@ class ParserEspresso:
         # Parse energy levels
         Energy = np.array(kptxml.find("eigenvalues").text.split(), dtype=float)
         Energy *= Hartree_eV
+        if spin_channel == 'up':
+            Energy = Energy[:NBin]
+        elif spin_channel == 'dw':
+            Energy = Energy[-NBin:]
 
         # Open file with the wave functions
         wfcname="wfc{}{}".format({None:"","dw":"dw","up":"up"}[spin_channel], ik+1)
-- 
2.43.0


From e93547307b4dca467d1e35f5893c36516399830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 11/19] fix: records of the skipped k-points of a WFK file

---
 irrep/readfiles.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index cc35b2e..10526ab 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -330,13 +330,13 @@ class ParserAbinit():
             # 1st record: npw, nspinor, nband
             record = record_abinit(self.fWFK, "i4")  # [0]
             npw, nspinor_loc, nband = record
-            assert npw == self.npwarr[ik], ("Different number of plane waves "
+            assert npw == self.npwarr[i], ("Different number of plane waves "
                                             "in header and k-point's block. "
                                             "Probably a bug in Abinit...")
             assert nspinor_loc == nspinor, ("Different values of nspinor in "
                                             "header and k-point's block. "
                                             "Probably a bug in Abinit...")
-            assert nband == self.nband[ik], ("Different number of bands in "
+            assert nband == self.nband[i], ("Different number of bands in "
                                              "header and k-point's block. "
                                              "Probably a bug in Abinit...")
 
@@ -351,7 +351,8 @@ class ParserAbinit():
 
             # 4th record: coefficients of expansions in plane waves
             if skip:
-                record = record_abinit(self.fWFK, "f8")
+                for iband in range(nband):
+                    record = record_abinit(self.fWFK, "f8")
             else:
                 CG = np.zeros((nband, npw * nspinor), dtype=complex)
                 for iband in range(nband):
-- 
2.43.0


From 4ceb007b88caddbb853678c314f01bde57e4b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 12/19] fix: scale factor of the Cartesian positions of POSCAR
 and lines that are not positions

---
 irrep/readfiles.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 10526ab..4951668 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -422,8 +422,8 @@ class ParserVasp:
         fpos = (l.strip() for l in open(self.fPOS))
         title = next(fpos)  # title
         del title
-        lattice = float(
-            next(fpos)) * np.array([next(fpos).split() for i in range(3)], dtype=float)
+        scale = float(next(fpos))
+        lattice = scale * np.array([next(fpos).split() for i in range(3)], dtype=float)
         try:
             nat = np.array(next(fpos).split(), dtype=int)
         except BaseException:
@@ -449,14 +449,14 @@ class ParserVasp:
                 positions[i] = np.array(l.split()[:3])
                 i += 1
             except Exception as err:
-                log_message(err, msg, 1)
+                log_message(err, v, 1)
                 pass
         if sum(nat) != i:
             raise RuntimeError(
                 "not all atomic positions were read : {0} of {1}".format(
                     i, sum(nat)))
         if cartesian:
-            positions = positions.dot(np.linalg.inv(lattice))
+            positions = scale * positions.dot(np.linalg.inv(lattice))
         return lattice, positions, typat
 
     def parse_header(self):
-- 
2.43.0


From 9ea45094980008ffe0e29f249f2ec11969c32b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 13/19] fix: mp_grid of the .win file separated by blanks

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 4951668..b517abf 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -796,7 +796,7 @@ class ParserW90:
             EF = self.get_param("fermi_energy", float, None)
         except RuntimeError:
             EF = None
-        self.NK = np.prod(np.array(self.get_param("mp_grid", str).split(), dtype=int))
+        self.NK = np.prod(np.array(self.get_param("mp_grid", str, join=True).split(), dtype=int))
 
         return self.NK, self.NBin, self.spinor, EF
 
-- 
2.43.0


From d3961959ef78f66fe872e1ad76211adf5957a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 14/19] fix: the caller's list of k-points is not modified

---
 irrep/bandstructure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 203972f..87394eb 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -304,8 +304,7 @@ class BandStructure:
         if kplist is None:
             kplist = range(NK)
         else:
-            kplist -= 1
-            kplist = np.array([k for k in kplist if k >= 0 and k < NK])
+            kplist = np.array([k - 1 for k in kplist if k >= 1 and k <= NK])
 
         # Parse wave functions at each k-point
         self.kpoints = []
-- 
2.43.0


From 8bb48e45748f1467aa7b3fcf6b787a7f576c8cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:48 +0000
Subject: [PATCH 15/19] fix: sign of complex numbers written as a-bi

---
 irrep/utility.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/irrep/utility.py b/irrep/utility.py
index 17efc44..6e44d79 100644
--- a/irrep/utility.py
+++ b/irrep/utility.py
@@ -94,12 +94,7 @@ def compstr(string):
         `float` if `string` does not have imaginary part, `complex` otherwise.
     """
     if "i" in string:
-        if "+" in string:
-            return float(string.split("+")[0]) + 1j * \
-                float(string.split("+")[1].strip("i"))
-        elif "-" in string:
-            return float(string.split("-")[0]) + 1j * \
-                float(string.split("-")[1].strip("i"))
+        return complex(string.replace(" ", "").replace("i", "j"))
     else:
         return float(string)
 
-- 
2.43.0


From 6c6ec0f4d6430b09e0f30a45eab02483fc70c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:48 +0000
Subject: [PATCH 16/19] fix: number of decimals of the imaginary part in short

---
 irrep/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/utility.py b/irrep/utility.py
index 6e44d79..0ffba74 100644
--- a/irrep/utility.py
+++ b/irrep/utility.py
@@ -206,7 +206,7 @@ def short(x, nd=3):
         return fmt.format(x.real)
     if abs(x.real) < 10 ** (-nd):
         return fmt.format(x.imag) + "j"
-    return short(x.real, nd) + short(1j * x.imag)
+    return short(x.real, nd) + short(1j * x.imag, nd)
 
 
 def split(l):
-- 
2.43.0


From 8abb21fa87cd82a2a4d1446433fafaa4a23c6e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:48 +0000
Subject: [PATCH 17/19] fix: atoms_cart block of the .win file before the unit
 cell or with units

---
 irrep/readfiles.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index b517abf..11e8475 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -822,6 +822,7 @@ class ParserW90:
         lattice = None
         kpred = None
         found_atoms = False
+        cartesian = False
 
         for l in self.iterwin:
 
@@ -870,6 +871,7 @@ class ParserW90:
                     found_atoms = True
                     positions = []
                     nameat = []
+                    units_atoms = "ang"
                     while True:
                         l1 = next(self.iterwin)
                         if l1[0] == "end":
@@ -881,13 +883,20 @@ class ParserW90:
                                 )
                             else:
                                 break
+                        if len(nameat) == 0 and l1[0] in ("bohr", "ang"):
+                            units_atoms = l1[0]
+                            continue
                         nameat.append(l1[0])
                         positions.append(l1[1:4])
                     typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
-                    if l[1][6:10] == "cart":  # from cartesian to direct coords
-                        positions = positions.dot(np.linalg.inv(lattice))
+                    if units_atoms == "bohr":
+                        positions *= BOHR
+                    cartesian = l[1][6:10] == "cart"
+
+        if cartesian:  # from cartesian to direct coords
+            positions = positions.dot(np.linalg.inv(lattice))
 
         return lattice, positions, typat, kpred
 
-- 
2.43.0


From 3bf4119c8d9a6fadf0692b5a7d5ca8b25739572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:53 +0000
Subject: [PATCH 18/19] fix: types of the atoms of a WFK file with one atom

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 11e8475..bb03422 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -236,7 +236,7 @@ class ParserAbinit():
                     ntypat=ntypat)
                )
         record = record_abinit(self.fWFK, fmt)[0]
-        typat = record[6]
+        typat = np.atleast_1d(record[6])
         kpt = record[7]
         nband = record[1]
         istwfk = record[0]
-- 
2.43.0


From 66f99cb0f23fe5c17910efda0a3268cfbbb0ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 19/19] fix: .eig file with one line

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index bb03422..672fdcc 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -913,7 +913,7 @@ class ParserW90:
         '''
 
         feig = self.prefix + ".eig"
-        Energy = np.loadtxt(self.prefix + ".eig")
+        Energy = np.loadtxt(self.prefix + ".eig", ndmin=2)
         try:
             if Energy.shape[0] != self.NBin * self.NK:
                 raise RuntimeError("wrong number of entries ")
-- 
2.43.0

