From 9d33962264850fd85197b9d6c256b058c1e88089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:31 +0000
Subject: [PATCH 01/77] fix: sign of the second term of the 3x3 determinant in
 the C extension

det_array had the wrong sign for the arr[1] cofactor, so the real-space
dipole sum was wrong for non-diagonal dielectric tensors when using C
---
 c/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/util.c b/c/util.c
index a4aeab4..39edd02 100644
--- a/c/util.c
+++ b/c/util.c
@@ -24,7 +24,7 @@ void copy_array(const int size, const double *arr, double *copy) {
 double det_array(const double arr[9]) {
    double det;
    det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) +
-         arr[1]*(arr[3]*arr[8] - arr[6]*arr[5]) +
+         arr[1]*(arr[6]*arr[5] - arr[3]*arr[8]) +
          arr[2]*(arr[3]*arr[7] - arr[6]*arr[4]);
    return det;
 }
-- 
2.43.0


From 19d1dff1f5ec15ae84da65387c2d58c986f16c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 02/77] fix: convert dielectric units in
 from_total_fc_with_dipole

The magnitude was used as is, so the wrong dipole term was subtracted for a
dielectric not given in e**2/(bohr*hartree)
---
 euphonic/force_constants.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 252b595..fe88a89 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1787,11 +1787,13 @@ class ForceConstants:
         sc_born = np.tile(born.to(ureg('e')).magnitude,
                           (n_cells, 1, 1))
         # Now initialise, calculate and subtract the dipole correction
+        sc_dielectric = dielectric.to(
+            ureg('e**2/(bohr*hartree)').units).magnitude
         dipole_data = cls._dipole_correction_init(
-            sc_crystal, sc_born, dielectric.magnitude)
+            sc_crystal, sc_born, sc_dielectric)
         corr = cls._calculate_dipole_correction(
             np.array([0., 0., 0.]), sc_crystal, sc_born,
-            dielectric.magnitude, dipole_data)
+            sc_dielectric, dipole_data)
         corr = np.transpose(
             np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
             axes=[0, 2, 1])
-- 
2.43.0


From 7fd4b6e8a04e7d386e9b9fe245dbb96334ab4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 03/77] fix: keep the real-space dipole sum for crystals with a
 single atom

The sum was ended at the first shell, as the shell at R=0 has no terms for a
cell with one atom
---
 euphonic/force_constants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index fe88a89..6401651 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1059,9 +1059,10 @@ class ForceConstants:
                         - np.einsum('i,jk->ijk', f2, inv_dielectric))
             # End series when current terms are less than the fractional
             # tolerance multiplied by the term for the cell at R=0
-            if n == 0:
+            # (a cell with 1 atom has no terms at R=0, so use the next shell)
+            if n == 0 or (n == 1 and r0_max == 0):
                 r0_max = np.amax(np.abs(H_ab_tmp))
-            if np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
+            if n == 0 or np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
                 H_ab = np.concatenate((H_ab, H_ab_tmp))
                 cells = np.concatenate((cells, cells_tmp))
             else:
-- 
2.43.0


From f7a063f264e7d98551bff66332061f12c0847ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 04/77] fix: cell volume is positive for left-handed cell
 vectors

Its sign reversed the reciprocal part of the dipole correction and the
non-analytic correction, and gave negative mode widths
---
 c/util.c            | 2 +-
 euphonic/crystal.py | 3 ++-
 euphonic/util.py    | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/util.c b/c/util.c
index 39edd02..f385e98 100644
--- a/c/util.c
+++ b/c/util.c
@@ -57,7 +57,7 @@ double cell_volume(const double *cell_vec) {
     for (i = 0; i < 3; i++) {
         vol += cell_vec[i]*bxc[i];
     }
-    return vol;
+    return fabs(vol);
 }
 
 void cmult(const double c1[2], const double c2[2], double result[2]) {
diff --git a/euphonic/crystal.py b/euphonic/crystal.py
index 57191a5..be09a53 100644
--- a/euphonic/crystal.py
+++ b/euphonic/crystal.py
@@ -118,7 +118,8 @@ class Crystal:
         bxc = np.cross(cv[1], cv[2])
         cxa = np.cross(cv[2], cv[0])
         axb = np.cross(cv[0], cv[1])
-        vol = self.cell_volume()
+        # Signed, negative if the cell vectors are left-handed
+        vol = np.dot(cv[0], bxc)
         norm = 2*np.pi/vol
 
         return np.vstack((norm * bxc, norm * cxa, norm * axb))
diff --git a/euphonic/util.py b/euphonic/util.py
index f1d3d0a..70efe46 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -439,7 +439,7 @@ def _cell_vectors_to_volume(cell_vectors: Quantity) -> Quantity:
     volume = np.dot(cell_vectors[0],
                     np.cross(cell_vectors[1], cell_vectors[2]))
     assert isinstance(volume, Quantity)
-    return volume
+    return abs(volume)
 
 
 def _get_unique_elems_and_idx(
-- 
2.43.0


From 65180e68af685e28af2a56c75c9b07dd5a048fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 05/77] fix: supercell atom positions for a non-symmetric
 sc_matrix

from_total_fc_with_dipole used the transpose of the inverse supercell matrix,
so the wrong dipole term was subtracted if it was not symmetric
---
 euphonic/force_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 6401651..31e27bf 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1778,7 +1778,7 @@ class ForceConstants:
         # First create Crystal and Born charges for supercell
         sc_atom_r = (np.repeat(cell_origins, n_atoms, axis=0)
                      + np.tile(crystal.atom_r, (n_cells, 1)))
-        sc_to_u_matrix = np.linalg.inv(sc_matrix).transpose()
+        sc_to_u_matrix = np.linalg.inv(sc_matrix)
         sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, sc_to_u_matrix)
         sc_vecs = np.einsum('ji,ik->jk', sc_matrix, crystal._cell_vectors)
         sc_mass = np.tile(crystal._atom_mass, n_cells)
-- 
2.43.0


From e0ad43c9860442f16e615ccbde7d2a1d07a69efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 06/77] fix: pass atom positions, Born charges and q-points to
 C as contiguous doubles

---
 euphonic/force_constants.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 31e27bf..42d9771 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -661,9 +661,10 @@ class ForceConstants:
                 n_reigenvecs += 1
             reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
                                   dtype=np.complex128)
-            cell_vectors = self.crystal._cell_vectors
+            cell_vectors = self.crystal._cell_vectors.astype(np.float64)
             recip_vectors = self.crystal.reciprocal_cell().to(
                 '1/bohr').magnitude
+            reduced_qpts = reduced_qpts.astype(np.float64)
             # Get conj transpose - the dynamical matrix calculated in C
             # is passed to Fortran libs so uses Fortran ordering, make
             # sure reciprocal correction matches this. This only makes
@@ -680,10 +681,15 @@ class ForceConstants:
                  dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
                  all_origins_cart)
             attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
-            dipole_attrs = ['atom_r', '_born', '_dielectric', '_H_ab',
-                            '_cells', '_gvec_phases', '_gvecs_cart',
-                            '_dipole_q0']
-            _ensure_contiguous_attrs(self, attrs, opt_attrs=dipole_attrs)
+            _ensure_contiguous_attrs(self, attrs)
+            if dipole:
+                # These are read as double arrays in C, even if they were
+                # provided as integers
+                for obj, attr_name in [(self, '_born'),
+                                       (self, '_dielectric'),
+                                       (self.crystal, 'atom_r')]:
+                    setattr(obj, attr_name, np.ascontiguousarray(
+                        getattr(obj, attr_name), dtype=np.float64))
             with threadpool_limits(limits=1):
                 euphonic_c.calculate_phonons(
                     self, cell_vectors, recip_vectors, reduced_qpts,
-- 
2.43.0


From f4187d9263aebecb78eedd55db6324d4849725df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 07/77] fix: recalculate cached intermediate results when the
 data they depend on changes

---
 euphonic/force_constants.py | 46 +++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 42d9771..5f7e21b 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -538,7 +538,9 @@ class ForceConstants:
 
         n_sc_shells = 2  # How many supercells out to search for atom images
         # Construct list of supercell atom images
-        if not hasattr(self, '_sc_image_i'):
+        sc_image_inputs = (self.crystal._cell_vectors, self.crystal.atom_r,
+                           self.cell_origins, self.sc_matrix)
+        if not self._is_cached('_sc_image_i', *sc_image_inputs):
             self._calculate_supercell_images(n_sc_shells)
 
         # Get a list of all the unique supercell image origins and cell
@@ -579,15 +581,17 @@ class ForceConstants:
         dyn_mat_weighting = 1/np.sqrt(masses*np.transpose(masses))
 
         # Initialise dipole correction calc to FC matrix if required
-        if dipole and (not hasattr(self, '_dipole_init_data') or
-                       dipole_parameter != self._dipole_init_data[
-                           'dipole_parameter']):
+        if dipole and not self._is_cached(
+                '_dipole_init_data', dipole_parameter,
+                self.crystal._cell_vectors, self.crystal.atom_r,
+                self._born, self._dielectric):
             self._dipole_init_data = self._dipole_correction_init(
                 self.crystal, self._born, self._dielectric, dipole_parameter)
 
         force_constants = self._force_constants
         if asr == 'realspace':
-            if not hasattr(self, '_force_constants_asr'):
+            if not self._is_cached('_force_constants_asr',
+                                   self._force_constants, *sc_image_inputs):
                 self._force_constants_asr = self._enforce_realspace_asr()
             force_constants = self._force_constants_asr
         # Precompute fc matrix weighted by number of supercell atom
@@ -741,6 +745,38 @@ class ForceConstants:
                     f'meV*{str(self.crystal.cell_vectors.units)}')
         return qpts, freqs, weights, eigenvectors, mode_gradients
 
+    def _is_cached(self, attr_name: str, *inputs: Any) -> bool:
+        """
+        Check if an attribute containing an intermediate result has
+        already been calculated, and that the data it depends on hasn't
+        changed since. If it hasn't been calculated or is out of date, a
+        copy of the new inputs is stored and the caller must
+        (re)calculate the attribute
+
+        Parameters
+        ----------
+        attr_name
+            The name of the attribute
+        *inputs
+            Everything the attribute is calculated from
+
+        Returns
+        -------
+        is_cached
+            True if the attribute is up to date
+        """
+        if not hasattr(self, '_cache_inputs'):
+            self._cache_inputs = {}
+        cached_inputs = self._cache_inputs.get(attr_name)
+        if (hasattr(self, attr_name) and cached_inputs is not None
+                and all(np.array_equal(x, y)
+                        for x, y in zip(inputs, cached_inputs))):
+            return True
+        if hasattr(self, attr_name):
+            delattr(self, attr_name)
+        self._cache_inputs[attr_name] = [np.array(x) for x in inputs]
+        return False
+
     def _calculate_phonons_at_q(
             self,
             qpt: np.ndarray,
-- 
2.43.0


From fb904bf5e22407a85db8fa6cd3bee6b20c945009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 08/77] fix: give spglib cells in angstroms whatever the
 crystal's length unit

---
 euphonic/crystal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/euphonic/crystal.py b/euphonic/crystal.py
index be09a53..1b05a8a 100644
--- a/euphonic/crystal.py
+++ b/euphonic/crystal.py
@@ -173,12 +173,13 @@ class Crystal:
         -------
         cell
             cell = (lattice, positions, numbers), where lattice is the
-            lattice vectors, positions are the fractional atomic
+            lattice vectors in angstroms, positions are the fractional atomic
             positions, and numbers are integers distinguishing the
             atomic species
         """
         _, unique_atoms = np.unique(self.atom_type, return_inverse=True)
-        cell = (self.cell_vectors.magnitude.tolist(),
+        # spglib's tolerances assume lengths are in angstroms
+        cell = (self.cell_vectors.to('angstrom').magnitude.tolist(),
                 self.atom_r.tolist(),
                 unique_atoms.tolist())
         return cell
@@ -235,7 +236,7 @@ class Crystal:
 
         """
         tol_calc = tol.to('bohr').magnitude
-        symprec = tol.to(self.cell_vectors_unit).magnitude
+        symprec = tol.to('angstrom').magnitude
         # Sometimes if symprec is very low, even the identity
         # symmetry op won't be found, and None will be returned
         # For some reason this can't always be reproduced
-- 
2.43.0


From 792ef3396c4846de0222978603a1d1770a96dbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 09/77] fix: reorder_frequencies does not modify arrays shared
 with other objects

---
 euphonic/qpoint_phonon_modes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 2f63253..67035fe 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -159,11 +159,13 @@ class QpointPhononModes(QpointFrequencies):
             else:
                 mode_map[i] = mode_map[i-1]
 
-        # Actually rearrange frequencies/eigenvectors
-        for i in range(n_qpts):
-            self._frequencies[i] = self._frequencies[i, mode_map[i]]
-            evec_tmp = np.copy(self.eigenvectors[i, mode_map[i]])
-            self.eigenvectors[i] = evec_tmp
+        # Actually rearrange frequencies/eigenvectors. Create new arrays
+        # rather than reordering in place, as the current arrays may be
+        # shared with other objects
+        self._frequencies = np.take_along_axis(
+            self._frequencies, mode_map, axis=1)
+        self.eigenvectors = np.take_along_axis(
+            self.eigenvectors, mode_map[:, :, np.newaxis, np.newaxis], axis=1)
 
     def calculate_structure_factor(
         self,
-- 
2.43.0


From 621d22149382f3d3f97c7f45f9691ef9a88e198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 10/77] fix: reject units that are not proportional to those of
 the stored data

---
 euphonic/spectra.py  | 20 ++++++++++----------
 euphonic/validate.py | 18 ++++++++++++++----
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index e260927..0f6b6ce 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -38,7 +38,8 @@ class Spectrum(ABC):
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-                               ['x_data_unit', 'y_data_unit'])
+                               ['x_data_unit', 'y_data_unit', 'z_data_unit'],
+                               context='reciprocal_spectroscopy')
         super().__setattr__(name, value)
 
     def _set_data(self, data: Quantity, attr_name: str) -> None:
@@ -55,7 +56,8 @@ class Spectrum(ABC):
     @x_data.setter
     def x_data(self, value: Quantity) -> None:
         self.x_data_unit = str(value.units)
-        self._x_data = value.to(self._internal_x_data_unit).magnitude
+        self._x_data = value.to(self._internal_x_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     @property
     def y_data(self) -> Quantity:
@@ -65,7 +67,8 @@ class Spectrum(ABC):
     @y_data.setter
     def y_data(self, value: Quantity) -> None:
         self.y_data_unit = str(value.units)
-        self._y_data = value.to(self._internal_y_data_unit).magnitude
+        self._y_data = value.to(self._internal_y_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1501,18 +1504,14 @@ class Spectrum2D(Spectrum):
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(self._internal_z_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
         self.z_data = self.z_data * other
         return self
 
-    def __setattr__(self, name: str, value: Any) -> None:
-        _check_unit_conversion(self, name, value,
-                               ['z_data_unit'])
-        super(Spectrum2D, self).__setattr__(name, value)
-
     def _split_by_indices(self,
                           indices: Union[Sequence[int], np.ndarray]
                           ) -> List[T]:
@@ -1920,7 +1919,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(self._internal_z_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
diff --git a/euphonic/validate.py b/euphonic/validate.py
index 21d38cc..a235585 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -3,7 +3,7 @@ from typing import List, Any, Union, Type, Tuple, Optional
 import numpy as np
 from pint import DimensionalityError
 
-from euphonic import ureg
+from euphonic import Quantity
 
 
 def _check_constructor_inputs(
@@ -56,7 +56,8 @@ def _check_constructor_inputs(
 
 
 def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
-                           unit_attrs: List[str]) -> None:
+                           unit_attrs: List[str],
+                           context: Optional[str] = None) -> None:
     """
     If setting an attribute on an object that relates to the units of a
     Quantity (e.g. 'frequencies_unit' in QpointPhononModes) check that
@@ -73,6 +74,8 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     unit_attrs
         Only check the unit conversion if the attribute is one of
         unit_attrs
+    context
+        Pint context in which the Quantity will be converted
 
     Raises
     ------
@@ -81,10 +84,17 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     """
     if hasattr(obj, attr_name):
         if attr_name in unit_attrs:
+            values = Quantity(np.array([1., 2., 3.]), getattr(obj, attr_name))
+            contexts = [] if context is None else [context]
             try:
-                ureg(getattr(obj, attr_name)).ito(attr_value,
-                                                  "reciprocal_spectroscopy")
+                diff = np.diff(values.to(attr_value, *contexts).magnitude)
+                # Spectroscopy contexts also allow conversion between
+                # reciprocally related units (e.g. energy to wavelength),
+                # but these don't describe the same Quantity
+                valid = np.isclose(diff[0], diff[1], rtol=1e-6, atol=0.)
             except DimensionalityError:
+                valid = False
+            if not valid:
                 raise ValueError((
                     f'"{attr_value}" is not a known dimensionally-consistent '
                     f'unit for "{attr_name}"'))
-- 
2.43.0


From 3e5ebc138619e22021058016ebc645e6cf581ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 11/77] fix: structure factors carry over the q-point weights
 of the phonon modes

---
 euphonic/qpoint_phonon_modes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 67035fe..d15631b 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -295,6 +295,7 @@ class QpointPhononModes(QpointFrequencies):
         return StructureFactor(
             self.crystal, self.qpts, self.frequencies,
             sf*ureg('bohr**2').to('mbarn'),
+            weights=self.weights,
             temperature=temperature)
 
     def calculate_debye_waller(
-- 
2.43.0


From 0d525c147274a552a17f4e4278b78ca4c3fb1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 12/77] fix: Debye-Waller exponent is not NaN when a masked
 frequency is zero

---
 euphonic/qpoint_phonon_modes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index d15631b..52ae59d 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -384,14 +384,16 @@ class QpointPhononModes(QpointFrequencies):
         mass_term = 1/(4*atom_mass)
 
         # Mask out frequencies below frequency_min
-        freq_mask = np.ones(freqs.shape)
-        freq_mask[freqs < freq_min] = 0
+        freq_mask = ~(freqs < freq_min)
 
         if temp > 0:
             x = freqs/(2*kB*temp)
-            freq_term = 1/(freqs*np.tanh(x))
+            inv_freq_term = freqs*np.tanh(x)
         else:
-            freq_term = 1/(freqs)
+            inv_freq_term = freqs
+        # A masked frequency may be zero, so would give an infinite term
+        freq_term = np.divide(1, inv_freq_term, where=freq_mask,
+                              out=np.zeros(freqs.shape))
         dw = np.zeros((n_atoms, 3, 3))
         # Calculating the e.e* term is expensive, do in chunks
         chunk = 1000
@@ -404,9 +406,9 @@ class QpointPhononModes(QpointFrequencies):
                           evecs[qi:qf],
                           np.conj(evecs[qi:qf])))
 
-            dw += (np.einsum('i,k,ij,ij,ijklm->klm',
+            dw += (np.einsum('i,k,ij,ijklm->klm',
                              weights[qi:qf], mass_term, freq_term[qi:qf],
-                             freq_mask[qi:qf], evec_term))
+                             evec_term))
 
         dw = dw/np.sum(weights)
         if symmetrise:
-- 
2.43.0


From e4792bffac6ac6867adc6a3e31112f7bf5517fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 13/77] fix: read quantities whose unit has an offset from dict

---
 euphonic/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index e89a095..3289731 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -5,7 +5,7 @@ from typing import Dict, Type, TypeVar, Sequence, Any
 
 import numpy as np
 
-from euphonic import ureg, Quantity, __version__
+from euphonic import Quantity, __version__
 
 T = TypeVar('T')
 
@@ -91,7 +91,9 @@ def _process_dict(dictionary: Dict[str, Any], quantities: Sequence[str] = [],
     for qkey in quantities:
         val = dictionary.pop(qkey)
         if val is not None:
-            val = val*ureg(dictionary.pop(qkey + '_unit'))
+            # Avoid val*ureg(unit), this isn't possible for units with an
+            # offset e.g. degree_Celsius
+            val = Quantity(val, dictionary.pop(qkey + '_unit'))
         dictionary[qkey] = val
     return dictionary
 
-- 
2.43.0


From cc7fbe927408bf0394d95fa0ccf75dceb5b85955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 14/77] fix: Bose factor for temperatures in units with an
 offset

---
 euphonic/structure_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/structure_factor.py b/euphonic/structure_factor.py
index 97d2ddb..405d5a6 100644
--- a/euphonic/structure_factor.py
+++ b/euphonic/structure_factor.py
@@ -332,7 +332,7 @@ class StructureFactor(QpointFrequencies):
         kB = (1*ureg.k).to('E_h/K').magnitude
         temp = temperature.to('K').magnitude
         bose = np.zeros(self._frequencies.shape)
-        if temperature > 0:
+        if temp > 0:
             bose = 1/(np.exp(np.absolute(self._frequencies)/(kB*temp)) - 1)
         else:
             bose = 0
-- 
2.43.0


From 4e08cb673274bd50326b678c659d093a1160a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 15/77] fix: write complex arrays of any precision or memory
 layout to JSON

---
 euphonic/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index 3289731..9df0e70 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -16,8 +16,8 @@ def _to_json_dict(dictionary: Dict[str, Any]) -> Dict[str, Any]:
     """
     for key, val in dictionary.items():
         if isinstance(val, np.ndarray):
-            if val.dtype == np.complex128:
-                val = val.view(np.float64).reshape(val.shape + (2,))
+            if np.iscomplexobj(val):
+                val = np.stack((val.real, val.imag), axis=-1)
             dictionary[key] = val.tolist()
         elif isinstance(val, dict):
             if key != 'metadata':
-- 
2.43.0


From 4d447561986da035a7c69c744fa60e996a4a9860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:41 +0000
Subject: [PATCH 16/77] fix: to_dict does not share metadata with the object

---
 euphonic/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/io.py b/euphonic/io.py
index 9df0e70..8e96bc7 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -71,6 +71,9 @@ def _obj_to_dict(obj: T, attrs: Sequence[str]) -> Dict[str, Any]:
             dout[attr + '_unit'] = str(val.units)
         elif hasattr(val, 'to_dict'):
             dout[attr] = val.to_dict()
+        elif isinstance(val, dict):
+            # Metadata could contain mutable values
+            dout[attr] = copy.deepcopy(val)
         else:
             dout[attr] = val
     return dout
-- 
2.43.0


From 60e6333dbfccd370e9f2f0ea774e8fad672e076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 17/77] fix: multiplying a Spectrum2DCollection scales its
 spectral data

---
 euphonic/spectra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 0f6b6ce..baf406c 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -763,6 +763,11 @@ class SpectrumCollectionMixin(ABC):
     def _get_item_data_unit(cls, item: Spectrum) -> str:
         return getattr(item, f"{cls._spectrum_axis}_data_unit")
 
+    def __imul__(self, other: Real) -> Self:
+        """Scale spectral data in-place"""
+        self._set_raw_spectrum_data(self._get_raw_spectrum_data() * other)
+        return self
+
     def sum(self) -> Spectrum:
         """
         Sum collection to a single spectrum
-- 
2.43.0


From e749b39162decd96109b0e58783114533c6d1e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 18/77] fix: Spectrum2DCollection.from_spectra uses data in the
 units of the spectra

---
 euphonic/spectra.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index baf406c..adc1eca 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1953,9 +1953,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
-            spectrum_i_raw_data = cls._get_item_raw_data(spectrum)
-            spectrum_i_data_units = cls._get_item_data_unit(spectrum)
-            assert spectrum_i_data_units == spectrum_data_units
+            spectrum_i_data = cls._get_item_data(spectrum)
+            assert spectrum_i_data.units == spectrum_data_units
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
@@ -1963,7 +1962,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                 assert item_bins.units == ref_bins.units
 
             assert spectrum.x_tick_labels == x_tick_labels
-            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_raw_data
+            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_data.magnitude
 
         metadata = cls._combine_metadata([spec.metadata for spec in spectra])
         spectrum_data = Quantity(spectrum_data_magnitude, spectrum_data_units)
-- 
2.43.0


From accf1e9649f7f94ff7ef2b6da936518fa184eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 19/77] fix: kinematic limits for angle ranges including
 back-scattering past 360 degrees

---
 euphonic/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index adc1eca..7bda027 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -2075,7 +2075,7 @@ def _get_cos_range(angle_range: Tuple[float]) -> Tuple[float]:
     a cosine max/min point lies within the angle range, 1/-1 respectively.
 
     Method: the angle range is translated such that it starts within 0-2π; then
-    we check for the presence of turning points at π and 2π.
+    we check for the presence of turning points at π, 2π and 3π.
     """
     limiting_values = np.cos(angle_range).tolist()
 
@@ -2085,6 +2085,8 @@ def _get_cos_range(angle_range: Tuple[float]) -> Tuple[float]:
         limiting_values.append(-1.)
     if lower_angle < 2 * np.pi < upper_angle:
         limiting_values.append(1.)
+    if lower_angle < 3 * np.pi < upper_angle:
+        limiting_values.append(-1.)
     return max(limiting_values), min(limiting_values)
 
 
-- 
2.43.0


From a0a52d2429961101946e920e7644ba426f9a7067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 20/77] fix: Spectrum2D.broaden without widths returns a new
 object

---
 euphonic/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 7bda027..73bf34a 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1623,7 +1623,7 @@ class Spectrum2D(Spectrum):
                                   copy.copy(self.x_tick_labels),
                                   copy.deepcopy(self.metadata))
         else:
-            spectrum = self
+            spectrum = self.copy()
 
         # Then apply variable-width broadening to any axes with Callable
         for axis, width, lower_limit in (('x', x_width, x_width_lower_limit),
-- 
2.43.0


From 3fbbc20ddf2800c18402e61e5b37371a96f165f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 21/77] fix: refuse a list of bool as spectrum collection index

---
 euphonic/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 73bf34a..9cb718c 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -852,7 +852,8 @@ class SpectrumCollectionMixin(ABC):
                 raise IndexError(f'index "{item.stop}" out of range')
             return
 
-        if not all(isinstance(i, Integral) for i in item):
+        if not all(isinstance(i, Integral) and not isinstance(i, bool)
+                   for i in item):
             raise TypeError(
                 f'Index "{item}" should be an integer, slice '
                 f'or sequence of ints')
-- 
2.43.0


From f72ab29fa5e02bb4ec34e1cb47879caf63255a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 22/77] fix: check for equal bins before broadening does not
 depend on the unit

---
 euphonic/spectra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 9cb718c..b92d631 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -251,7 +251,8 @@ class Spectrum(ABC):
             for ax, (width, bin_data) in enumerate(zip(widths, bin_centres)):
                 if width is not None:
                     bin_widths = np.diff(bin_data)
-                    if not np.all(np.isclose(bin_widths, bin_widths[0])):
+                    if not np.all(np.isclose(bin_widths, bin_widths[0],
+                                             atol=0.)):
                         unequal_bin_axes += [axes[ax]]
             if len(unequal_bin_axes) > 0:
                 msg = (f'{" and ".join(unequal_bin_axes)} bin widths are '
@@ -1658,7 +1659,7 @@ class Spectrum2D(Spectrum):
         bins = spectrum.get_bin_edges(bin_ax=axis)
         bin_widths = np.diff(bins)
 
-        if not np.all(np.isclose(bin_widths, bin_widths[0])):
+        if not np.all(np.isclose(bin_widths, bin_widths[0], atol=0.)):
             bin_width = bin_widths.mean()
         else:
             bin_width = bin_widths[0]
-- 
2.43.0


From e894f121c9ee2dba7f3fafef063059a3bd9cb447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 23/77] fix: converting quantities read from or assigned to a
 spectrum does not change its data

---
 euphonic/spectra.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index b92d631..24bb21d 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -50,25 +50,27 @@ class Spectrum(ABC):
 
     @property
     def x_data(self) -> Quantity:
-        return ureg.Quantity(self._x_data, self._internal_x_data_unit
+        return ureg.Quantity(self._x_data.copy(), self._internal_x_data_unit
                              ).to(self.x_data_unit, "reciprocal_spectroscopy")
 
     @x_data.setter
     def x_data(self, value: Quantity) -> None:
         self.x_data_unit = str(value.units)
-        self._x_data = value.to(self._internal_x_data_unit,
-                                "reciprocal_spectroscopy").magnitude
+        self._x_data = np.array(
+            value.to(self._internal_x_data_unit,
+                     "reciprocal_spectroscopy").magnitude)
 
     @property
     def y_data(self) -> Quantity:
-        return ureg.Quantity(self._y_data, self._internal_y_data_unit).to(
+        return ureg.Quantity(self._y_data.copy(), self._internal_y_data_unit).to(
             self.y_data_unit, "reciprocal_spectroscopy")
 
     @y_data.setter
     def y_data(self, value: Quantity) -> None:
         self.y_data_unit = str(value.units)
-        self._y_data = value.to(self._internal_y_data_unit,
-                                "reciprocal_spectroscopy").magnitude
+        self._y_data = np.array(
+            value.to(self._internal_y_data_unit,
+                     "reciprocal_spectroscopy").magnitude)
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1505,14 +1507,15 @@ class Spectrum2D(Spectrum):
     @property
     def z_data(self) -> Quantity:
         return ureg.Quantity(
-            self._z_data, self._internal_z_data_unit
+            self._z_data.copy(), self._internal_z_data_unit
         ).to(self.z_data_unit, "reciprocal_spectroscopy")
 
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit,
-                                "reciprocal_spectroscopy").magnitude
+        self._z_data = np.array(
+            value.to(self._internal_z_data_unit,
+                     "reciprocal_spectroscopy").magnitude)
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1920,14 +1923,15 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
     @property
     def z_data(self) -> Quantity:
         return ureg.Quantity(
-            self._z_data, self._internal_z_data_unit
+            self._z_data.copy(), self._internal_z_data_unit
         ).to(self.z_data_unit, "reciprocal_spectroscopy")
 
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit,
-                                "reciprocal_spectroscopy").magnitude
+        self._z_data = np.array(
+            value.to(self._internal_z_data_unit,
+                     "reciprocal_spectroscopy").magnitude)
 
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
-- 
2.43.0


From d5f98206f1d8c84d5e1b48f2a6fc2a79cab712fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:48 +0000
Subject: [PATCH 24/77] fix: spectra obtained by splitting do not share
 metadata

---
 euphonic/spectra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 24bb21d..895060b 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -483,7 +483,7 @@ class Spectrum1D(Spectrum):
         return [type(self)(self.x_data[x0:x1], self.y_data[x0:x1],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     def copy(self: T) -> T:
@@ -1214,7 +1214,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
         return [type(self)(self.x_data[x0:x1], self.y_data[:, x0:x1],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     @classmethod
@@ -1531,7 +1531,7 @@ class Spectrum2D(Spectrum):
                            self.z_data[x0:x1, :],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     def broaden(self: T,
@@ -1917,7 +1917,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                            self.z_data[:, x0:x1, :],
                            x_tick_labels=self._cut_x_ticks(
                                self.x_tick_labels, x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     @property
-- 
2.43.0


From 57eb7e13a6c70cbc585e6e7d1245b230770e4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 25/77] fix: bins of Spectrum2DCollection are compared with the
 matching data axis

---
 euphonic/spectra.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 895060b..69784ea 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1722,7 +1722,7 @@ class Spectrum2D(Spectrum):
         bin_ax
             The axis to get the bin edges for, 'x' or 'y'
         """
-        enum = {'x': 0, 'y': 1}
+        enum = {'x': -2, 'y': -1}
         bin_data = getattr(self, f'{bin_ax}_data')
         data_ax_len = self.z_data.shape[enum[bin_ax]]
         if self._is_bin_edge(data_ax_len, bin_data.shape[0]):
@@ -1745,7 +1745,7 @@ class Spectrum2D(Spectrum):
         bin_ax
             The axis to get the bin centres for, 'x' or 'y'
         """
-        enum = {'x': 0, 'y': 1}
+        enum = {'x': -2, 'y': -1}
         bin_data = getattr(self, f'{bin_ax}_data')
         data_ax_len = self.z_data.shape[enum[bin_ax]]
         if self._is_bin_edge(data_ax_len, bin_data.shape[0]):
@@ -1933,6 +1933,12 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
             value.to(self._internal_z_data_unit,
                      "reciprocal_spectroscopy").magnitude)
 
+    # Bins are on two axes, so the methods inherited from Spectrum don't apply
+    get_bin_edges = Spectrum2D.get_bin_edges
+    get_bin_centres = Spectrum2D.get_bin_centres
+    get_bin_widths = Spectrum2D.get_bin_widths
+    assert_regular_bins = Spectrum2D.assert_regular_bins
+
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
         if len(spectra) < 1:
-- 
2.43.0


From 8a7795a53963bfe42e21f438bad655bf3f7255ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 26/77] fix: spacing of Lorentzian kernels follows the
 requested interpolation error

---
 euphonic/broadening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/broadening.py b/euphonic/broadening.py
index 0cb59e4..5884072 100644
--- a/euphonic/broadening.py
+++ b/euphonic/broadening.py
@@ -179,7 +179,7 @@ def _get_spacing(error,
             cheby = Chebyshev(
                 [1.26039672, 0.39900457, 0.20392176, 0.08602507,
                  0.03337662, 0.00878684, 0.00619626],
-                window=[1., 1.],
+                window=[-1., 1.],
                 domain=[-4.99146317, -1.34655197])
             safe_domain = [-4, -1.35]
 
-- 
2.43.0


From 037755df6db0fed3ba447e0165d046599ec61f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:36 +0000
Subject: [PATCH 27/77] fix: Spectrum2D.broaden refuses widths that are not
 quantities or functions

---
 euphonic/spectra.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 69784ea..76020da 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1600,6 +1600,11 @@ class Spectrum2D(Spectrum):
         ValueError
             If method is None and bins are not of equal size
         """
+        for width in (x_width, y_width):
+            if not (width is None or isinstance(width, (Quantity, Callable))):
+                raise TypeError(
+                    "x_width and y_width must be a Quantity or Callable")
+
         # First apply fixed-width broadening; this can be applied to both axes
         # in one function call if both are specified.
         widths_in_bin_units = [None]*2
-- 
2.43.0


From fbe170714db726bfa5ad2c03df21749f5a55c692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:44 +0000
Subject: [PATCH 28/77] fix: refuse unknown kernel shapes in variable-width
 broadening

---
 euphonic/broadening.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/broadening.py b/euphonic/broadening.py
index 5884072..e8763ac 100644
--- a/euphonic/broadening.py
+++ b/euphonic/broadening.py
@@ -248,6 +248,9 @@ def _width_interpolated_broadening(
     elif shape == 'lorentz':
         kernels = _lorentzian(x_values, gamma=width_samples[:, np.newaxis]
                               ) * bin_width
+    else:
+        raise ValueError(f'Invalid value for shape, got {shape}, should be '
+                         'one of ("gauss", "lorentz")')
 
     kernels_idx = np.searchsorted(width_samples, widths, side="right")
 
-- 
2.43.0


From 866f708601db16aa415e29d8233026413e8e795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:52 +0000
Subject: [PATCH 29/77] fix: spherical_polar_improved yields npts points (the
 last one was lost to rounding, e.g. npts=216..249)

---
 euphonic/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index b36f9bc..eea80e0 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -300,7 +300,9 @@ def spherical_polar_improved(npts: int,
     theta_circumferences = 2 * np.pi * np.abs(np.sin(theta_sequence))
     bin_edges = np.concatenate([[0], np.cumsum(theta_circumferences)])
 
-    counts, _ = np.histogram(np.linspace(0, theta_circumferences.sum(), npts),
+    # The last edge is the end of the samples, otherwise rounding error
+    # could leave the last sample outside the bins
+    counts, _ = np.histogram(np.linspace(0, bin_edges[-1], npts),
                              bins=bin_edges, density=False)
 
     for row_theta, count in zip(theta_sequence, counts):
-- 
2.43.0


From aff9fef1f5ba50972d3c54d409043f575974583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:37 +0000
Subject: [PATCH 30/77] fix: jittered points of regular_square stay in the unit
 square

---
 euphonic/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index eea80e0..844d39e 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -97,8 +97,8 @@ def regular_square(n_rows: int, n_cols: int,
         else:
             delta_x, delta_y = 0, 0
 
-        yield (x + x_offset + delta_x,
-               y + y_offset + delta_y)
+        yield ((x + x_offset + delta_x) % 1,
+               (y + y_offset + delta_y) % 1)
 
 
 def _spherical_polar_to_cartesian(phi, theta):
-- 
2.43.0


From 0bc6f2d7c5ef41c2a8fee8891565b2704a08cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:21 +0000
Subject: [PATCH 31/77] fix: sphere sampling scheme names are case-insensitive
 as documented

---
 euphonic/powder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/powder.py b/euphonic/powder.py
index b51105e..d949955 100644
--- a/euphonic/powder.py
+++ b/euphonic/powder.py
@@ -364,6 +364,8 @@ def _get_qpts_sphere(npts: int,
                                    spherical_polar_improved,
                                    random_sphere)
 
+    sampling = sampling.lower()
+
     if sampling == 'golden':
         return np.asarray(list(golden_sphere(npts, jitter=jitter)))
     elif sampling == 'sphere-projected-grid':
-- 
2.43.0


From 1c6cdb51d3d8de5d9097dac907e6594979b32cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:07 +0000
Subject: [PATCH 32/77] fix: message of grid samplings reports the rounded-up
 number of points

---
 euphonic/powder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/powder.py b/euphonic/powder.py
index d949955..c21a140 100644
--- a/euphonic/powder.py
+++ b/euphonic/powder.py
@@ -390,5 +390,5 @@ def _check_gridpts(npts: int) -> int:
     actual_npts = n_cols**2 * 2
     if actual_npts != npts:
         print("Requested npts ∉ {2x^2, x ∈ Z, x > 1}; "
-              f"rounding up to {npts}.")
+              f"rounding up to {actual_npts}.")
     return n_cols
-- 
2.43.0


From f8cafa763fe553ff251f594694d19cd5101989ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 33/77] fix: spherical_polar_grid with a single ring or a
 single meridian

---
 euphonic/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index 844d39e..9d2e2a7 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -218,12 +218,12 @@ def spherical_polar_grid(n_phi: int, n_theta: int,
         (r, phi, theta) spherical coordinates.
     """
     phi_sequence = np.linspace(-np.pi, np.pi, n_phi + 1)[:-1]
-    phi_spacing = phi_sequence[1] - phi_sequence[0]
+    phi_spacing = 2 * np.pi / n_phi
 
     # Offset theta samples to avoid redundancy at pole
     theta_sequence = (np.linspace(0, np.pi, n_theta + 1)[:-1]
                       + np.pi / (2 * n_theta))
-    theta_spacing = theta_sequence[1] - theta_sequence[0]
+    theta_spacing = np.pi / n_theta
 
     for phi, theta in product(phi_sequence, theta_sequence):
         if jitter:
-- 
2.43.0


From dc8f3c4ece3663ab9b73682f3e08f9bc591cb0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 34/77] fix: label q-points only with the symbol of an
 equivalent special point

Permuted coordinates were accepted for any symmetry (e.g. R labelled M in a
tetragonal cell); special points with coordinates outside [0,1] and q-points
a rounding error below an integer were not recognised.
---
 euphonic/util.py | 50 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 70efe46..e77cdfc 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -10,6 +10,7 @@ import warnings
 
 import numpy as np
 import seekpath
+import spglib
 from seekpath.hpkot import SymmetryDetectionError
 from pint import UndefinedUnitError
 
@@ -562,6 +563,7 @@ def _recip_space_labels(qpts: np.ndarray,
             [True]))
     qpts_with_labels = np.where(qpt_has_label)[0]
 
+    rotations = None
     if cell is None:
         sym_label_to_coords = _generic_qpt_labels()
     else:
@@ -571,6 +573,9 @@ def _recip_space_labels(qpts: np.ndarray,
                 # don't care to see those for now
                 warnings.simplefilter("ignore", category=DeprecationWarning)
                 sym_label_to_coords = seekpath.get_path(cell)["point_coords"]
+                symmetry = spglib.get_symmetry(cell)
+                if symmetry is not None:
+                    rotations = symmetry['rotations']
 
         except (SymmetryDetectionError, TypeError) as err:
             if isinstance(err, TypeError):
@@ -585,7 +590,8 @@ def _recip_space_labels(qpts: np.ndarray,
     # Get labels for each q-point
     labels = np.array([])
     for qpt in qpts[qpts_with_labels]:
-        labels = np.append(labels, _get_qpt_label(qpt, sym_label_to_coords))
+        labels = np.append(
+            labels, _get_qpt_label(qpt, sym_label_to_coords, rotations))
 
     return labels, qpts_with_labels
 
@@ -610,7 +616,8 @@ def _generic_qpt_labels() -> dict[str, tuple[float, float, float]]:
 
 
 def _get_qpt_label(qpt: np.ndarray,
-                   point_labels: dict[str, tuple[float, float, float]]
+                   point_labels: dict[str, tuple[float, float, float]],
+                   rotations: Optional[np.ndarray] = None
                    ) -> str:
     """
     Gets a label for a particular q-point, based on the high symmetry
@@ -626,6 +633,10 @@ def _get_qpt_label(qpt: np.ndarray,
         (e.g. 'GAMMA', 'X'), to their 3-dimensional coordinates (e.g.
         [0.0, 0.0, 0.0]) where N = number of high symmetry points for a
         particular space group
+    rotations
+        Shape (n_rotations, 3, 3) integer ndarray. The rotations of the
+        space group in fractional coordinates. If provided, a match
+        with permuted coordinates must be an equivalent q-point
 
     Returns
     -------
@@ -634,8 +645,10 @@ def _get_qpt_label(qpt: np.ndarray,
         point label is just an empty string
     """
 
+    TOL = 1e-6
+
     # Normalise qpt to [0,1]
-    qpt_norm = [x - math.floor(x) for x in qpt]
+    qpt_norm = [x - math.floor(x + TOL) for x in qpt]
 
     # Split dict into keys and values so labels can be looked up by
     # comparing q-point coordinates with the dict values
@@ -645,16 +658,20 @@ def _get_qpt_label(qpt: np.ndarray,
     label_coords = [point_labels[x] for x in labels]
 
     # Check for matching symmetry point coordinates (roll q-point
-    # coordinates if no match is found)
-    TOL = 1e-6
+    # coordinates if no match is found and this gives an equivalent point)
     matching_label_index = np.where((np.isclose(
         label_coords, qpt_norm, atol=TOL)).all(axis=1))[0]
+    for shift in (1, 2):
+        rolled = np.roll(qpt_norm, shift)
+        if (matching_label_index.size == 0
+                and _is_equivalent_qpt(qpt_norm, rolled, rotations)):
+            matching_label_index = np.where((np.isclose(
+                label_coords, rolled, atol=TOL)).all(axis=1))[0]
     if matching_label_index.size == 0:
+        # The coordinates of symmetry points are not always in [0,1]
+        diff = np.subtract(label_coords, qpt_norm)
         matching_label_index = np.where((np.isclose(
-            label_coords, np.roll(qpt_norm, 1), atol=TOL)).all(axis=1))[0]
-    if matching_label_index.size == 0:
-        matching_label_index = np.where((np.isclose(
-            label_coords, np.roll(qpt_norm, 2), atol=TOL)).all(axis=1))[0]
+            diff, np.rint(diff), atol=TOL)).all(axis=1))[0]
 
     label = ''
     if matching_label_index.size > 0:
@@ -663,6 +680,21 @@ def _get_qpt_label(qpt: np.ndarray,
     return label
 
 
+def _is_equivalent_qpt(qpt: np.ndarray, other: np.ndarray,
+                       rotations: Optional[np.ndarray] = None) -> bool:
+    """
+    Whether a rotation (in real space fractional coordinates) or time
+    reversal relates 2 q-points, apart from a reciprocal lattice vector.
+    All q-points are considered equivalent if rotations is None.
+    """
+    if rotations is None:
+        return True
+    images = np.einsum('j,ijk->ik', qpt, rotations)
+    diff = np.concatenate((images, -images)) - other
+    return bool(np.any(
+        np.isclose(diff, np.rint(diff), atol=1e-5).all(axis=1)))
+
+
 def _get_supercell_relative_idx(cell_origins: np.ndarray,
                                 sc_matrix: np.ndarray) -> np.ndarray:
     """"
-- 
2.43.0


From 43ac40aaaae52a6225a62b30f9045f244d4c0aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:27 +0000
Subject: [PATCH 35/77] fix: get_all_origins with a step larger than one
 (repeated origins or ValueError)

---
 euphonic/util.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index e77cdfc..80f03a9 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -120,14 +120,15 @@ def get_all_origins(max_xyz: tuple[int, int, int],
     Returns
     -------
     origins
-        Shape (prod(max_xyz - min_xyz)/step, 3) int ndarray. The cell
-        origins
+        Shape (n_origins, 3) int ndarray. The cell origins, where
+        n_origins is the product of the number of origins in each
+        direction
     """
-    diff = np.absolute(np.subtract(max_xyz, min_xyz))
-    nx = np.repeat(range(min_xyz[0], max_xyz[0], step), diff[1]*diff[2])
-    ny = np.repeat(np.tile(range(min_xyz[1], max_xyz[1], step), diff[0]),
-                   diff[2])
-    nz = np.tile(range(min_xyz[2], max_xyz[2], step), diff[0]*diff[1])
+    x, y, z = [range(start, stop, step)
+               for start, stop in zip(min_xyz, max_xyz)]
+    nx = np.repeat(x, len(y)*len(z))
+    ny = np.repeat(np.tile(y, len(x)), len(z))
+    nz = np.tile(z, len(x)*len(y))
 
     return np.column_stack((nx, ny, nz))
 
-- 
2.43.0


From a8ec99deb82b436024174d5a26e29782c0eb9653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:04 +0000
Subject: [PATCH 36/77] fix: mode reordering could repeat a mode and drop
 another when eigenvectors have zero overlap

---
 euphonic/qpoint_phonon_modes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 52ae59d..94dcc69 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -150,9 +150,10 @@ class QpointPhononModes(QpointFrequencies):
                     mode = int(max_i/n_branches)
                     # Prev q-pt modes are columns
                     prev_mode = max_i % n_branches
-                    # Ensure modes aren't mapped more than once
-                    dot_mat[mode, :] = 0
-                    dot_mat[:, prev_mode] = 0
+                    # Ensure modes aren't mapped more than once, even if
+                    # all remaining dot products are zero
+                    dot_mat[mode, :] = -1
+                    dot_mat[:, prev_mode] = -1
 
                     prev_mode_idx = np.where(mode_map[i-1] == prev_mode)[0][0]
                     mode_map[i, prev_mode_idx] = mode
-- 
2.43.0


From 70b82da2cdf4156a3cb77526a5ed37948e2a5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:51 +0000
Subject: [PATCH 37/77] fix: get_reference_data dropped species whose value is
 written as an integer

---
 euphonic/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 80f03a9..11247ea 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -260,7 +260,8 @@ def get_reference_data(collection: str = 'Sears1992',
 
     return {key: value * unit
             for key, value in data.items()
-            if isinstance(value, (float, complex))}
+            if isinstance(value, (int, float, complex))
+            and not isinstance(value, bool)}
 
 
 def mode_gradients_to_widths(mode_gradients: Quantity, cell_vectors: Quantity
-- 
2.43.0


From 67855aae50e51bfad6db5ee7cb1792fd0eb72583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:24 +0000
Subject: [PATCH 38/77] fix: y-limits of plot_1d with several subplots only
 accounted for the first

---
 euphonic/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 7b42724..333e400 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -182,7 +182,9 @@ def plot_1d(spectra: Union[Spectrum1D,
             leg_handles, leg_labels = ax.get_legend_handles_labels()
             if len(leg_labels) > 0:
                 ax.legend()
-        ax.set_ylim(bottom=ymin, top=ymax)
+    # The y-axis is shared by the subplots. Only set limits once everything
+    # has been plotted as this disables autoscaling
+    subplots[0, 0].set_ylim(bottom=ymin, top=ymax)
 
     # Add an invisible large axis for common labels
     ax = fig.add_subplot(111, frameon=False)
-- 
2.43.0


From 11f79dbc5db5a789a676e3e519da9e5cdbdc8f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:07 +0000
Subject: [PATCH 39/77] fix: plotting spectra with an empty list of tick labels
 failed

---
 euphonic/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 333e400..bbcd05b 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -330,6 +330,9 @@ def _set_x_tick_labels(ax: Axes,
                        x_tick_labels: Optional[Sequence[Tuple[int, str]]],
                        x_data: Quantity) -> None:
     if x_tick_labels is not None:
+        if len(x_tick_labels) == 0:
+            ax.set_xticks([])
+            return
         locs, labels = [list(x) for x in zip(*x_tick_labels)]
         x_values = x_data.magnitude  # type: np.ndarray
         ax.set_xticks(x_values[locs])
-- 
2.43.0


From d4620c3d9c2860d626867f7da58c591439910c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 40/77] fix: plot_2d colour scale was wrong for spectra in
 different units

---
 euphonic/plot.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index bbcd05b..4edc891 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -286,6 +286,10 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
     if isinstance(spectra, Spectrum2D):
         spectra = [spectra]
 
+    # The colour scale and y-axis are shared by the subplots, so they must be
+    # in the same units
+    spectra = [_to_units_of(spectrum, spectra[0]) for spectrum in spectra]
+
     x_unit = spectra[0].x_data.units
 
     def _get_q_range(data: Quantity) -> float:
@@ -326,6 +330,18 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
     return fig
 
 
+def _to_units_of(spectrum: Spectrum2D, reference: Spectrum2D) -> Spectrum2D:
+    """Return spectrum in the same units as reference, copying if needed"""
+    unit_attrs = ['x_data_unit', 'y_data_unit', 'z_data_unit']
+    if all(getattr(spectrum, attr) == getattr(reference, attr)
+           for attr in unit_attrs):
+        return spectrum
+    spectrum = spectrum.copy()
+    for attr in unit_attrs:
+        setattr(spectrum, attr, getattr(reference, attr))
+    return spectrum
+
+
 def _set_x_tick_labels(ax: Axes,
                        x_tick_labels: Optional[Sequence[Tuple[int, str]]],
                        x_data: Quantity) -> None:
-- 
2.43.0


From e5370a7edbfed7cf989263ffcafd06a8800d58e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:21 +0000
Subject: [PATCH 41/77] fix: y-limits of plot_2d with several subplots only
 accounted for the last

---
 euphonic/plot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 4edc891..ee021df 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -315,8 +315,13 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
 
     norm = Normalize(vmin=vmin, vmax=vmax)
 
+    y_limits = []
     for spectrum, ax in zip(spectra, axes.flatten()):
         plot_2d_to_axis(spectrum, ax, cmap=cmap, norm=norm)
+        y_limits.append(ax.get_ylim())
+    # The y-axis is shared by the subplots so should include all of the data
+    axes[0, 0].set_ylim(min(limits[0] for limits in y_limits),
+                        max(limits[1] for limits in y_limits))
 
     # Add an invisible large axis for common labels
     ax = fig.add_subplot(111, frameon=False)
-- 
2.43.0


From 1a67c4f72c64f6bbe841f250c12aaa0669a264d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:31 +0000
Subject: [PATCH 42/77] fix: euphonic-dos used instrument FWHM as standard
 deviation when combined with adaptive broadening

---
 euphonic/cli/dos.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/euphonic/cli/dos.py b/euphonic/cli/dos.py
index 7933932..4949bf1 100644
--- a/euphonic/cli/dos.py
+++ b/euphonic/cli/dos.py
@@ -2,7 +2,7 @@ from argparse import ArgumentParser
 from typing import List, Optional
 
 import matplotlib.style
-from numpy import sqrt
+from numpy import log, sqrt
 from numpy.polynomial import Polynomial
 
 from euphonic import ureg, ForceConstants, QpointFrequencies
@@ -74,12 +74,13 @@ def main(params: Optional[List[str]] = None) -> None:
             if args.inst_broadening and args.shape == 'gauss':
                 # Combine instrumental broadening and adaptive sample
                 # broadening: the convolution of a Gaussian with a Gaussian is
-                # a Gaussian with sigma = sqrt(sigma1^2 + sigma2^2)
-                mode_widths = sqrt(
-                    mode_widths**2
-                    + (energy_broadening_poly(modes.frequencies
+                # a Gaussian with sigma = sqrt(sigma1^2 + sigma2^2). The
+                # instrumental broadening is specified as FWHM.
+                fwhm = energy_broadening_poly(modes.frequencies
                                               .to(args.energy_unit).magnitude
-                                              ) * ureg(args.energy_unit))**2)
+                                              ) * ureg(args.energy_unit)
+                sigma = fwhm / sqrt(8 * log(2))
+                mode_widths = sqrt(mode_widths**2 + sigma**2)
         else:
             modes = data.calculate_qpoint_phonon_modes(
                 mp_grid(grid_spec), **_calc_modes_kwargs(args))
-- 
2.43.0


From a755a40e0d134bb2dc08641f776d8680b2177977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:17 +0000
Subject: [PATCH 43/77] fix: BrilleInterpolator.from_force_constants modified
 the interpolation_kwargs given

---
 euphonic/brille.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/brille.py b/euphonic/brille.py
index 4b33a62..475bda4 100644
--- a/euphonic/brille.py
+++ b/euphonic/brille.py
@@ -240,8 +240,9 @@ class BrilleInterpolator:
                'Calculating frequencies/eigenvectors...')
         if interpolation_kwargs is None:
             interpolation_kwargs = {}
-        interpolation_kwargs['insert_gamma'] = False
-        interpolation_kwargs['reduce_qpts'] = False
+        interpolation_kwargs = {**interpolation_kwargs,
+                                'insert_gamma': False,
+                                'reduce_qpts': False}
         phonons = force_constants.calculate_qpoint_phonon_modes(
             grid.rlu, **interpolation_kwargs)
 
-- 
2.43.0


From 48e81e22e00607ad1154a923a00e314f00c1b4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:43 +0000
Subject: [PATCH 44/77] fix: euphonic-intensity-map ignored all but the first
 --energy-broadening coefficient

---
 euphonic/cli/intensity_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/euphonic/cli/intensity_map.py b/euphonic/cli/intensity_map.py
index 3256489..46a49d5 100755
--- a/euphonic/cli/intensity_map.py
+++ b/euphonic/cli/intensity_map.py
@@ -9,6 +9,7 @@ from euphonic import ureg, Spectrum2D, QpointFrequencies, ForceConstants
 import euphonic.plot
 from euphonic.util import get_qpoint_labels
 from euphonic.styles import base_style
+from .powder_map import _get_broaden_kwargs
 from .utils import (_bands_from_force_constants, _calc_modes_kwargs,
                     _compose_style, _plot_label_kwargs,
                     get_args, _get_debye_waller,
@@ -72,11 +73,11 @@ def main(params: Optional[List[str]] = None) -> None:
 
     if args.q_broadening or args.energy_broadening:
         spectrum = spectrum.broaden(
-            x_width=(args.q_broadening * recip_length_unit
-                     if args.q_broadening else None),
-            y_width=(args.energy_broadening[0] * ebins.units
-                     if args.energy_broadening else None),
-            shape=args.shape, method='convolve')
+            shape=args.shape, method='convolve',
+            **_get_broaden_kwargs(q_broadening=args.q_broadening,
+                                  q_unit=recip_length_unit,
+                                  energy_broadening=args.energy_broadening,
+                                  energy_unit=args.energy_unit))
 
     print("Plotting figure")
     plot_label_kwargs = _plot_label_kwargs(
-- 
2.43.0


From fd486f757a772ad9e011d9bfaaccf1ae3cf997e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:18 +0000
Subject: [PATCH 45/77] fix: euphonic-dos --pdos failed for a material of one
 species

---
 euphonic/cli/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index 4dd3628..a6f623f 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -400,7 +400,8 @@ def _arrange_pdos_groups(pdos: Spectrum1DCollection,
         # Only label total DOS if there are other lines on the plot
         dos.metadata['label'] = 'Total'
         pdos = pdos.group_by('species')
-        for line_metadata in pdos.metadata['line_data']:
+        # There is no line-specific metadata if there is only one species
+        for line_metadata in pdos.metadata.get('line_data', [pdos.metadata]):
             line_metadata['label'] = line_metadata['species']
         if len(cl_arg_pdos) > 0:
             pdos = pdos.select(species=cl_arg_pdos)
-- 
2.43.0


From edf8eeb599e1a1a9b75a0ecc726fa964c7179b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 46/77] fix: euphonic-dos --adaptive --instrument-broadening
 failed with energy units such as THz

---
 euphonic/cli/dos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/cli/dos.py b/euphonic/cli/dos.py
index 4949bf1..994d7d5 100644
--- a/euphonic/cli/dos.py
+++ b/euphonic/cli/dos.py
@@ -79,7 +79,8 @@ def main(params: Optional[List[str]] = None) -> None:
                 fwhm = energy_broadening_poly(modes.frequencies
                                               .to(args.energy_unit).magnitude
                                               ) * ureg(args.energy_unit)
-                sigma = fwhm / sqrt(8 * log(2))
+                # Squared units such as THz^2 can't be converted to meV^2
+                sigma = (fwhm / sqrt(8 * log(2))).to(mode_widths.units)
                 mode_widths = sqrt(mode_widths**2 + sigma**2)
         else:
             modes = data.calculate_qpoint_phonon_modes(
-- 
2.43.0


From 22c6a682a2a5346cd7ef62042fa5a59b583c7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:31 +0000
Subject: [PATCH 47/77] fix: read force constants from .h5 and .hd5 files, and
 no other format name

---
 euphonic/readers/phonopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index b1b0bc9..0b678f7 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -713,7 +713,7 @@ def read_interpolation_data(
             with open(fc_pathname, 'r') as fc_file:
                 summary_dict['force_constants'] = _extract_force_constants(
                     fc_pathname, n_atoms, n_cells, summary_pathname)
-        elif fc_format in 'hdf5':
+        elif fc_format in hdf5_exts:
             summary_dict['force_constants'] =  _extract_force_constants_hdf5(
                 fc_pathname, n_atoms, n_cells, summary_pathname)
         else:
-- 
2.43.0


From 0b4ddcfbf8435435c6190028c02a5f0eaf1f7b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:22 +0000
Subject: [PATCH 48/77] fix: read Phonopy force constants for supercell
 matrices that are not symmetric

---
 euphonic/readers/phonopy.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 0b678f7..a3106c1 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -516,21 +516,15 @@ def _extract_summary(filename: str, fc_extract: bool = False
     summary_dict['atom_mass'] = atom_mass
 
     if fc_extract:
-        # Get matrix to convert from primitive cell to unit cell
-        u_to_sc_matrix = np.array(summary_object['supercell_matrix'])
-        if 'primitive_matrix' in summary_object:
-            u_to_p_matrix = np.array(summary_object['primitive_matrix'])
-            # Matrix to convert from primitive to supercell
-            p_to_u_matrix = np.linalg.inv(u_to_p_matrix).transpose()
-            p_to_sc_matrix = np.rint(
-                np.matmul(u_to_sc_matrix, p_to_u_matrix)).astype(np.int32)
-        else:
-            u_to_p_matrix = np.identity(3, dtype=np.int32)
-            p_to_sc_matrix = u_to_sc_matrix
-
         # Get supercell info
-        _, _, satom_r, _, _, sc_idx_in_pc = _extract_crystal_data(
+        sc_vectors, _, satom_r, _, _, sc_idx_in_pc = _extract_crystal_data(
             summary_object['supercell'])
+        # Get matrix to convert from primitive cell to supercell vectors.
+        # Use the vectors rather than supercell_matrix as it is the
+        # supercell/unit cell matrix, and its columns (not rows) are the
+        # supercell vectors
+        p_to_sc_matrix = np.rint(np.matmul(
+            sc_vectors, np.linalg.inv(cell_vectors))).astype(np.int32)
         # Coords of supercell atoms in frac coords of the prim cell
         satom_r_pcell = np.einsum('ij,jk->ik', satom_r, p_to_sc_matrix)
         # Determine mapping from atoms in the supercell to the prim cell
-- 
2.43.0


From ce4727759073e170d1b6fab43590a18245c69a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:24 +0000
Subject: [PATCH 49/77] fix: use the given supercell index of each atom when
 converting force constants

---
 euphonic/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 11247ea..9c01a24 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -426,8 +426,7 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
         # shaped array may not be in the same cell within the supercell,
         # but Euphonic's interpolation requires this, so use equivalent
         # cell vector indices to arrange the force constants correctly
-        atom_idx = np.where(sc_to_uc_atom_idx == i)[0][0]
-        cell_idx = cell_origins_map[atom_idx]
+        cell_idx = cell_origins_map[uc_to_sc_atom_idx[i]]
         sc_relative_idx = _get_supercell_relative_idx(cell_origins, sc_matrix)
         fc_converted[i, sc_relative_idx[cell_idx]] = fc_tmp
 
-- 
2.43.0


From 7c34820e3880e1416ecd861b6d1f244967082b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:16 +0000
Subject: [PATCH 50/77] fix: use the same normalised coordinates for Phonopy
 crystals and cell origins

---
 euphonic/readers/phonopy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index a3106c1..18a0d5d 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -749,15 +749,15 @@ def read_interpolation_data(
         ulength).to(cell_vectors_unit).magnitude
     cry_dict['cell_vectors_unit'] = cell_vectors_unit
     # Normalise atom coordinates
-    cry_dict['atom_r'] = (summary_dict['atom_r']
-                          - np.floor(summary_dict['atom_r']))
+    atom_r = summary_dict['atom_r'] - np.floor(summary_dict['atom_r'])
+    cry_dict['atom_r'] = atom_r
     cry_dict['atom_type'] = summary_dict['atom_type']
     cry_dict['atom_mass'] = summary_dict['atom_mass']*ureg(
         umass).to(atom_mass_unit).magnitude
     cry_dict['atom_mass_unit'] = atom_mass_unit
 
     fc, cell_origins = convert_fc_phases(
-         summary_dict['force_constants'], summary_dict['atom_r'],
+         summary_dict['force_constants'], atom_r,
          summary_dict['sc_atom_r'], summary_dict['pc_to_sc_atom_idx'],
          summary_dict['sc_to_pc_atom_idx'], summary_dict['sc_matrix'])
     data_dict['force_constants'] = fc*ureg(
-- 
2.43.0


From ade63bf295d98bd5ad047c6500696f3ab9f68092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 51/77] fix: read .phonon_dos files with a single bin

---
 euphonic/readers/castep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 2e150c5..a88a525 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -71,7 +71,7 @@ def read_phonon_dos_data(
             raise RuntimeError(
                 f'Expected "BEGIN DOS" in {filename}, got {line}')
 
-        dos_data = np.loadtxt(f, max_rows=n_bins)
+        dos_data = np.loadtxt(f, max_rows=n_bins, ndmin=2)
 
     data_dict: Dict[str, Any] = {}
     cry_dict = data_dict['crystal'] = {}
-- 
2.43.0


From 17d609eb874d67f3ec3ebc4c95760372cb221f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 52/77] fix: reject incomplete Phonopy mesh/band/qpoints yaml
 files

---
 euphonic/readers/phonopy.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 18a0d5d..3575c86 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -84,6 +84,20 @@ def _extract_phonon_data_yaml(filename: str,
     phonons = [phon for phon in phonon_data['phonon']]
     bands_data_each_qpt = [bands_data['band'] for bands_data in phonons]
 
+    # Check the contents agree with the declared sizes, so an incomplete
+    # file is not mistaken for a smaller calculation
+    n_qpts = phonon_data.get('nqpoint', len(phonons))
+    n_atoms = phonon_data.get('natom', len(bands_data_each_qpt[0])//3)
+    if len(phonons) != n_qpts:
+        raise ValueError(f'Expected {n_qpts} q-points in {filename}, '
+                         f'found {len(phonons)}')
+    if any(len(bands) != 3*n_atoms for bands in bands_data_each_qpt):
+        raise ValueError(f'Expected {3*n_atoms} bands at each q-point in '
+                         f'{filename}')
+    if len(phonon_data.get('points', range(n_atoms))) != n_atoms:
+        raise ValueError(f'Expected {n_atoms} points in {filename}, found '
+                         f'{len(phonon_data["points"])}')
+
     data_dict['qpts'] = np.array([phon['q-position'] for phon in phonons])
     data_dict['frequencies'] = np.array(
         [[band_data['frequency'] for band_data in bands_data]
-- 
2.43.0


From 62fc77071798a1cb392ae7a0bfd1549ae1d8ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:51 +0000
Subject: [PATCH 53/77] fix: raise at the end of a CASTEP file without unit
 cell

---
 euphonic/readers/castep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index a88a525..8f46854 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -300,8 +300,10 @@ def _read_crystal_info(
         Shape (n_atoms,) float ndarray. The mass of each atom in the
         unit cell in atomic mass units
     """
-    while 'Unit cell vectors' not in f.readline():
-        pass
+    while 'Unit cell vectors' not in (line := f.readline()):
+        if not line:
+            raise EOFError('Unexpected end of file before '
+                           '"Unit cell vectors"')
     cell_vectors = np.array([[float(x) for x in f.readline().split()[0:3]]
                              for i in range(3)])
     f.readline()  # Skip fractional co-ordinates label
-- 
2.43.0


From e74f88f6cb8fbb6295d48e5a1baa5de0b549f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:27 +0000
Subject: [PATCH 54/77] fix: reject .phonon files with fewer wavevectors than
 declared

---
 euphonic/readers/castep.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 8f46854..621d2be 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -184,12 +184,14 @@ def read_phonon_data(
         # Need to loop through file using while rather than number of
         # q-points as points are duplicated on LO-TO splitting
         idx = 0
+        qpt_ids = set()
         previous_qpt_id = -1
         repeated_qpt_ids = defaultdict(set)
         loto_split_indices = set()
 
         for frequency_block in _read_frequency_blocks(f, n_branches):
             qpt_id = frequency_block.qpt_id
+            qpt_ids.add(qpt_id)
 
             if prefer_non_loto and frequency_block.direction is not None:
                 loto_split_indices.add(idx)
@@ -229,6 +231,10 @@ def read_phonon_data(
                     eigenvecs = np.concatenate((eigenvecs, [qeigenvec]))
             idx += 1
 
+    if len(qpt_ids) < n_qpts:
+        raise RuntimeError(f'Expected {n_qpts} wavevectors in {filename}, '
+                           f'found {len(qpt_ids)}')
+
     # Multiple qpts with same CASTEP q-pt index: correct weights
     for qpt_id, indices in repeated_qpt_ids.items():
         if (prefer_non_loto
-- 
2.43.0


From 756ec8d2e47e9c0d4c7014470a6d055c72995065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:05 +0000
Subject: [PATCH 55/77] fix: reject .phonon_dos files with an incomplete DOS
 block

---
 euphonic/readers/castep.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 621d2be..9cef259 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -71,7 +71,13 @@ def read_phonon_dos_data(
             raise RuntimeError(
                 f'Expected "BEGIN DOS" in {filename}, got {line}')
 
-        dos_data = np.loadtxt(f, max_rows=n_bins, ndmin=2)
+        dos_lines = [f.readline() for _ in range(n_bins)]
+        dos_data = np.loadtxt(dos_lines, ndmin=2)
+        line = f.readline()
+        if len(dos_data) != n_bins or 'END DOS' not in line:
+            raise RuntimeError(
+                f'Expected {n_bins} DOS bins followed by "END DOS" in '
+                f'{filename}')
 
     data_dict: Dict[str, Any] = {}
     cry_dict = data_dict['crystal'] = {}
-- 
2.43.0


From ca064b38e2b8ad1229472164cd0998832dc26fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:42 +0000
Subject: [PATCH 56/77] fix: reject FORCE_CONSTANTS files with unreadable
 values

---
 euphonic/readers/phonopy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 3575c86..1fc240b 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -387,6 +387,10 @@ def _extract_force_constants(fc_pathname: str, n_atoms: int, n_cells: int,
         fc = np.genfromtxt(fc_pathname, skip_header=1,
                            max_rows=4*(n_atoms*n_cells)**2, usecols=(0,1,2),
                            invalid_raise=False)
+    # Values which cannot be read as numbers are given as NaN
+    if not np.all(np.isfinite(fc)):
+        raise ValueError(f'Could not read all force constants in '
+                         f'{fc_pathname}')
     return fc.reshape(fc_dims + [3, 3])
 
 
-- 
2.43.0


From 5ed07da0934c0398062f36d3dac75ca15c2869fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:20 +0000
Subject: [PATCH 57/77] fix: name the q-point in the error for several
 non-split blocks

---
 euphonic/readers/castep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 9cef259..eb7b3c7 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -253,7 +253,7 @@ def read_phonon_data(
                 weights[indices] = 0
             else:
                 raise ValueError(
-                    "Found multiple non-split blocks for q-point {qpt_id},"
+                    f"Found multiple non-split blocks for q-point {qpt_id},"
                     " cannot determine which to use.")
 
         elif average_repeat_points:
-- 
2.43.0


From daaa8d4b4ceb304b09302cf9d4be60e5bf8719ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:48 +0000
Subject: [PATCH 58/77] fix: raise when a .phonon file ends inside a q-point
 block

---
 euphonic/readers/castep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index eb7b3c7..03de254 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -210,6 +210,8 @@ def read_phonon_data(
             [f.readline() for x in range(2)]  # Skip 2 label lines
             evec_lines = np.array(
                 [f.readline() for x in range(n_atoms*n_branches)])
+            if '' in evec_lines:
+                raise EOFError(f'Unexpected end of file in {filename}')
             if read_eigenvectors:
                 evec_lines = np.array([x.split()[2:] for x in evec_lines],
                                       dtype=np.float64)
-- 
2.43.0


From 48f8457f7c4af124dffbbece166a5de34a63f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:33 +0000
Subject: [PATCH 59/77] fix: reject CASTEP binary records which are not a whole
 number of elements

---
 euphonic/readers/castep.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 03de254..28bcc59 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -669,7 +669,10 @@ def _read_entry(file_obj: BinaryIO, dtype: str = ''
     begin = record_mark_read(file_obj)
     if dtype:
         n_bytes = int(dtype[-1])
-        n_elems = int(begin/n_bytes)
+        n_elems, remainder = divmod(begin, n_bytes)
+        if remainder:
+            raise IOError(f'Problem reading binary file: record of {begin} '
+                          f'bytes cannot be read as type {dtype}')
         if n_elems > 1:
             data = np.fromfile(file_obj, dtype=dtype, count=n_elems)
             if 'i' in dtype:
-- 
2.43.0


From eb633127d7b63b7323c5a4abf318bc1c39fbbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:06 +0000
Subject: [PATCH 60/77] fix: check the shape of Quantities with a scalar
 magnitude

---
 euphonic/validate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/euphonic/validate.py b/euphonic/validate.py
index a235585..3b27dc9 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -46,12 +46,14 @@ def _check_constructor_inputs(
         if not any(isinstance(obj, t) for t in typ):
             raise TypeError((f'The type of {name} {type(obj)} doesn\'t '
                              f'match the expected type(s) {typ}'))
-        if hasattr(obj, 'shape') and shape:
+        # Quantities with a scalar magnitude have no shape attribute
+        if (hasattr(obj, 'shape') or isinstance(obj, Quantity)) and shape:
             if not isinstance(shape, list):
                 shape = [shape]
-            if not any(obj.shape == _replace_dim(s, obj.shape) for s in shape):
+            obj_shape = getattr(obj, 'shape', ())
+            if not any(obj_shape == _replace_dim(s, obj_shape) for s in shape):
                 raise ValueError((
-                    f'The shape of {name} {obj.shape} doesn\'t match '
+                    f'The shape of {name} {obj_shape} doesn\'t match '
                     f'the expected shape(s) {shape}'))
 
 
-- 
2.43.0


From 52b5a2d5b5ca2d379cd5b358f815483c5d32068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:07 +0000
Subject: [PATCH 61/77] fix: reject non-scalar temperatures

---
 euphonic/debye_waller.py     |  4 +++-
 euphonic/structure_factor.py |  4 +++-
 euphonic/validate.py         | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/euphonic/debye_waller.py b/euphonic/debye_waller.py
index c05dcea..eb5379e 100644
--- a/euphonic/debye_waller.py
+++ b/euphonic/debye_waller.py
@@ -1,7 +1,8 @@
 import inspect
 from typing import TypeVar, Dict, Any, Type
 
-from euphonic.validate import _check_constructor_inputs, _check_unit_conversion
+from euphonic.validate import (_check_constructor_inputs, _check_scalar,
+                               _check_unit_conversion)
 from euphonic.io import (_obj_to_json_file, _obj_from_json_file,
                          _obj_to_dict, _process_dict)
 from euphonic import ureg, Quantity, Crystal
@@ -50,6 +51,7 @@ class DebyeWaller:
             [Quantity, Quantity],
             [(n_atoms, 3, 3), ()],
             inspect.getfullargspec(self.__init__)[0][2:])
+        _check_scalar(temperature, 'temperature')
         self.crystal = crystal
         self._debye_waller = debye_waller.to(ureg.bohr**2).magnitude
         self._temperature = temperature.to(ureg.K).magnitude
diff --git a/euphonic/structure_factor.py b/euphonic/structure_factor.py
index 405d5a6..fc19369 100644
--- a/euphonic/structure_factor.py
+++ b/euphonic/structure_factor.py
@@ -3,7 +3,8 @@ import warnings
 
 import numpy as np
 
-from euphonic.validate import _check_constructor_inputs, _check_unit_conversion
+from euphonic.validate import (_check_constructor_inputs, _check_scalar,
+                               _check_unit_conversion)
 from euphonic.io import _obj_to_dict, _process_dict
 from euphonic import (ureg, Quantity, Crystal, QpointFrequencies, Spectrum1D,
                       Spectrum2D)
@@ -83,6 +84,7 @@ class StructureFactor(QpointFrequencies):
         self.structure_factors_unit = str(structure_factors.units)
 
         if temperature is not None:
+            _check_scalar(temperature, 'temperature')
             self._temperature = temperature.to(ureg.K).magnitude
             self.temperature_unit = str(temperature.units)
         else:
diff --git a/euphonic/validate.py b/euphonic/validate.py
index 3b27dc9..726e466 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -57,6 +57,20 @@ def _check_constructor_inputs(
                     f'the expected shape(s) {shape}'))
 
 
+def _check_scalar(obj: Quantity, name: str) -> None:
+    """
+    Make sure a Quantity is a scalar
+
+    Raises
+    ------
+    ValueError
+        If the Quantity is an array
+    """
+    if np.ndim(obj.magnitude) != 0:
+        raise ValueError(f'{name} should be a scalar, got shape '
+                         f'{np.shape(obj.magnitude)}')
+
+
 def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
                            unit_attrs: List[str],
                            context: Optional[str] = None) -> None:
-- 
2.43.0


From 5fa7780cb41427e78dd6ab25b58204de57864a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:58 +0000
Subject: [PATCH 62/77] fix: require born and dielectric together

---
 euphonic/force_constants.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 5f7e21b..a36e269 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -100,6 +100,9 @@ class ForceConstants:
                 [Quantity, type(None)]],
             [(n_sc, 3*n_at, 3*n_at), (n_sc, 3), (n_at, 3, 3), (3, 3)],
             ['force_constants', 'cell_origins', 'born', 'dielectric'])
+        if (born is None) != (dielectric is None):
+            raise ValueError('born and dielectric should either both be '
+                             'provided, or both be None')
         self.crystal = crystal
         self._force_constants = force_constants.to(
             'hartree/bohr**2').magnitude
-- 
2.43.0


From 4c56c690a4ba7e2a514cbf48304c4454923876a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:33 +0000
Subject: [PATCH 63/77] fix: raise ValueError for an unknown asr

---
 euphonic/force_constants.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index a36e269..636068a 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -470,6 +470,10 @@ class ForceConstants:
             Shape (n_qpts, 3*n_atoms, 3) float Quantity in
             energy*length units. The phonon mode gradients
         """
+        asr_opts = ('realspace', 'reciprocal', None)
+        if asr not in asr_opts:
+            raise ValueError(f'Invalid value for asr, got {asr}, '
+                             f'should be one of {asr_opts}')
         # Check weights is of appropriate type and shape, to avoid doing all
         # the interpolation only for it to fail creating QpointPhononModes
         _check_constructor_inputs(
-- 
2.43.0


From 7f345cf74a671243618b4abab494289a69029fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:10 +0000
Subject: [PATCH 64/77] fix: raise ValueError for an unknown bin_ax

---
 euphonic/spectra.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 76020da..2923ab1 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1728,6 +1728,9 @@ class Spectrum2D(Spectrum):
             The axis to get the bin edges for, 'x' or 'y'
         """
         enum = {'x': -2, 'y': -1}
+        if bin_ax not in enum:
+            raise ValueError(f'Invalid value for bin_ax, got {bin_ax}, '
+                             f'should be one of {tuple(enum)}')
         bin_data = getattr(self, f'{bin_ax}_data')
         data_ax_len = self.z_data.shape[enum[bin_ax]]
         if self._is_bin_edge(data_ax_len, bin_data.shape[0]):
@@ -1751,6 +1754,9 @@ class Spectrum2D(Spectrum):
             The axis to get the bin centres for, 'x' or 'y'
         """
         enum = {'x': -2, 'y': -1}
+        if bin_ax not in enum:
+            raise ValueError(f'Invalid value for bin_ax, got {bin_ax}, '
+                             f'should be one of {tuple(enum)}')
         bin_data = getattr(self, f'{bin_ax}_data')
         data_ax_len = self.z_data.shape[enum[bin_ax]]
         if self._is_bin_edge(data_ax_len, bin_data.shape[0]):
-- 
2.43.0


From 289ea6178d5cd9d2c42ff525702d8c4350e0557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 65/77] fix: use width_convention when broadening by a fixed
 width

---
 euphonic/spectra.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 2923ab1..adf5dc2 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -228,6 +228,7 @@ class Spectrum(ABC):
                       widths: Sequence[float],
                       shape: KernelShape = 'gauss',
                       method: Optional[Literal['convolve']] = None,
+                      width_convention: Literal['fwhm', 'std'] = 'fwhm',
                       ) -> np.ndarray:
         """
         Broaden data along each axis by widths, returning the broadened
@@ -239,6 +240,15 @@ class Spectrum(ABC):
         if shape not in shape_opts:
             raise ValueError(f'Invalid value for shape, got {shape}, '
                              f'should be one of {shape_opts}')
+        if width_convention.lower() == 'std':
+            if shape == 'lorentz':
+                raise ValueError('Standard deviation unavailable for '
+                                 'Lorentzian function: please use FWHM.')
+            widths = [None if width is None
+                      else width*2*math.sqrt(2*math.log(2))
+                      for width in widths]
+        elif width_convention.lower() != 'fwhm':
+            raise ValueError('width_convention must be "std" or "fwhm".')
         method_opts = ('convolve', None)
         if method not in method_opts:
             raise ValueError(f'Invalid value for method, got {method}, '
@@ -656,7 +666,7 @@ class Spectrum1D(Spectrum):
                 self.y_data.magnitude,
                 [self.get_bin_centres().magnitude],
                 [x_width.to(self.x_data_unit).magnitude],
-                shape=shape, method=method)
+                shape=shape, method=method, width_convention=width_convention)
             y_broadened = ureg.Quantity(y_broadened, units=self.y_data_unit)
 
         elif isinstance(x_width, Callable):
@@ -1387,7 +1397,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
             for i, yi in enumerate(self.y_data.magnitude):
                 y_broadened[i] = self._broaden_data(
                     yi, x_centres, x_width_calc, shape=shape,
-                    method=method)
+                    method=method, width_convention=width_convention)
 
             new_spectrum = self.copy()
             new_spectrum.y_data = ureg.Quantity(y_broadened, units=self.y_data_unit)
@@ -1626,7 +1636,8 @@ class Spectrum2D(Spectrum):
                                              bin_centres,
                                              widths_in_bin_units,
                                              shape=shape,
-                                             method=method)
+                                             method=method,
+                                             width_convention=width_convention)
             spectrum = Spectrum2D(np.copy(self.x_data),
                                   np.copy(self.y_data),
                                   ureg.Quantity(z_broadened, units=self.z_data_unit),
-- 
2.43.0


From 55705e91920e2abb0055fc19e7218752d04e810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:33 +0000
Subject: [PATCH 66/77] fix: declare loop variables of the C extension per
 thread

---
 c/_euphonic.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index 84ce901..ea2c201 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -86,7 +86,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
     int modegs_len;
     int asr_corr_len;
     int n_split_qpts;
-    int q, i, qpos;
+    int q;
     int max_ims;
     int dmat_elems;
     // Extra vars only required if dipole = True
@@ -223,6 +223,8 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         }
         #pragma omp for
         for (q = 0; q < n_rqpts; q++) {
+            // Declared here so that each thread has its own copy
+            int i, qpos;
             double *qpt, *dmat, *eval, *modeg;
             qpt = (rqpts + 3*q);
             eval = (evals + q*3*n_atoms);
-- 
2.43.0


From 292297e5c359b9fa3f8822c0d5b5acc9128ff72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:22 +0000
Subject: [PATCH 67/77] fix: cell origins given as floats were misread by the C
 extension

---
 euphonic/force_constants.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 636068a..abdeb2f 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -691,8 +691,12 @@ class ForceConstants:
                  q_dirs, fc_img_weighted, sc_origins, recip_asr_correction,
                  dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
                  all_origins_cart)
-            attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
+            attrs = ['_n_sc_images', '_sc_image_i']
             _ensure_contiguous_attrs(self, attrs)
+            # This is read as an int array in C, even if it was provided
+            # as floats
+            self.cell_origins = np.ascontiguousarray(
+                self.cell_origins, dtype=np.int32)
             if dipole:
                 # These are read as double arrays in C, even if they were
                 # provided as integers
-- 
2.43.0


From 0081640feb387a88d1647bc105ee62cd8a23547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:14 +0000
Subject: [PATCH 68/77] fix: workspace query of zheevd wrote past its variable

---
 c/dyn_mat.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c/dyn_mat.c b/c/dyn_mat.c
index 85f43ba..cd32fd4 100644
--- a/c/dyn_mat.c
+++ b/c/dyn_mat.c
@@ -350,18 +350,19 @@ int diagonalise_dyn_mat_zheevd(const int n_atoms, const double qpt[3],
     int info;
 
     // Query vars
-    double lworkopt, lrworkopt;
+    // lworkopt is a complex number
+    double lworkopt[2], lrworkopt;
     int liworkopt;
 
     // Workspace query
-    (*zheevdptr)(&jobz, &uplo, &order, dyn_mat, &lda, eigenvalues, &lworkopt, &lwork,
+    (*zheevdptr)(&jobz, &uplo, &order, dyn_mat, &lda, eigenvalues, lworkopt, &lwork,
         &lrworkopt, &lrwork, &liworkopt, &liwork, &info);
     if (info != 0) {
         printf("INFO: Zheevd failed querying workspace with info %i at "
                "q-point %f %f %f\n", info, qpt[0], qpt[1], qpt[2]);
         return info;
     }
-    lwork = (int)lworkopt;
+    lwork = (int)lworkopt[0];
     lrwork = (int)lrworkopt;
     liwork = liworkopt;
 
-- 
2.43.0


From c98a68dfaf02a41e3aeb503d70afa1870c22f53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:07 +0000
Subject: [PATCH 69/77] fix: overflow of array offsets for large outputs of the
 C extension

---
 c/_euphonic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index ea2c201..62ce991 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -232,10 +232,10 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
             if (dmats_len == 0) {
                 dmat = dmat_per_q;
             } else {
-                dmat = (dmats + q*dmat_elems);
+                dmat = (dmats + (size_t)q*dmat_elems);
             }
             if (calc_dmat_grad) {
-                modeg = (modegs + q*3*n_atoms*6);
+                modeg = (modegs + (size_t)q*3*n_atoms*6);
             }
             calculate_dyn_mat_at_q(qpt, n_atoms, n_cells, max_ims, n_sc_ims,
                 sc_im_idx, cell_ogs, sc_ogs, fc, all_ogs_cart, calc_dmat_grad,
-- 
2.43.0


From 92ec56b48106b618ecc71bc0aeb4b1b51e35aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:28 +0000
Subject: [PATCH 70/77] fix: euphonic-brille-convergence accepts broadening
 polynomials

---
 euphonic/cli/brille_convergence.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/euphonic/cli/brille_convergence.py b/euphonic/cli/brille_convergence.py
index 23887e1..1a2a8fb 100644
--- a/euphonic/cli/brille_convergence.py
+++ b/euphonic/cli/brille_convergence.py
@@ -15,6 +15,7 @@ from euphonic.cli.utils import (_get_cli_parser, get_args,
                                 _brille_calc_modes_kwargs,
                                 load_data_from_file,
                                 _get_energy_bins)
+from euphonic.cli.powder_map import _get_broaden_kwargs
 from euphonic.sampling import recurrence_sequence
 
 
@@ -32,7 +33,7 @@ def check_brille_settings(
         brille_npts: int = 5000,
         brille_npts_density: Optional[int] = None,
         n: int = 0,
-        energy_broadening: Optional[float] = None,
+        energy_broadening: Optional[Sequence[float]] = None,
         ebins: int = 500,
         e_min: Optional[float] = None,
         e_max: Optional[float] = None,
@@ -57,8 +58,11 @@ def check_brille_settings(
     sf = modes.calculate_structure_factor()
     ebins = _get_energy_bins(modes, ebins + 1, emin=e_min, emax=e_max)
     sqw_avg = sf.calculate_1d_average(ebins)
-    if energy_broadening is not None:
-        sqw_avg = sqw_avg.broaden(energy_broadening*ebins.units, shape=shape)
+    # More than one broadening value is a polynomial in energy
+    energy_width = _get_broaden_kwargs(energy_broadening=energy_broadening,
+                                       energy_unit=energy_unit)['y_width']
+    if energy_width is not None:
+        sqw_avg = sqw_avg.broaden(energy_width, shape=shape)
 
     # Set up axis labels
     frequency_label = f'Frequency / {modes.frequencies.units:~P}'
@@ -88,9 +92,8 @@ def check_brille_settings(
     sqw1d_n = []
     if n > 0:
         sqw = sf.calculate_sqw_map(ebins)
-        if energy_broadening is not None:
-            sqw = sqw.broaden(y_width=energy_broadening*ebins.units,
-                              shape=shape)
+        if energy_width is not None:
+            sqw = sqw.broaden(y_width=energy_width, shape=shape)
         for idx in range(n):
             # Use idx + 1 to avoid Q=[0., 0., 0.] at idx=0
             sqw1d = Spectrum1D(sqw.y_data, sqw.z_data[idx + 1])
@@ -120,9 +123,8 @@ def check_brille_settings(
         brille_modes.frequencies_unit = energy_unit
         brille_sf = brille_modes.calculate_structure_factor()
         brille_sqw_avg = brille_sf.calculate_1d_average(ebins)
-        if energy_broadening is not None:
-            brille_sqw_avg = brille_sqw_avg.broaden(
-                energy_broadening*ebins.units, shape=shape)
+        if energy_width is not None:
+            brille_sqw_avg = brille_sqw_avg.broaden(energy_width, shape=shape)
 
         # Create plot labels
         actual_brille_npts = len(brille_fc._grid.rlu)
@@ -150,9 +152,9 @@ def check_brille_settings(
         # Plot q-point specific intensity & residuals
         if n > 0:
             brille_sqw = brille_sf.calculate_sqw_map(ebins)
-            if energy_broadening is not None:
-                brille_sqw = brille_sqw.broaden(
-                    y_width=energy_broadening*ebins.units, shape=shape)
+            if energy_width is not None:
+                brille_sqw = brille_sqw.broaden(y_width=energy_width,
+                                                shape=shape)
             for idx, ax_sqw in enumerate(ax_sqwn):
                 brille_sqw1d = Spectrum1D(brille_sqw.y_data,
                                           brille_sqw.z_data[idx + 1])
-- 
2.43.0


From 582de50f050abebbbd8d01d5fd0f30e3928f7aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:59 +0000
Subject: [PATCH 71/77] fix: Search far enough for the periodic images of atoms
 given outside the first supercell

---
 euphonic/force_constants.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index abdeb2f..17886bb 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -543,7 +543,8 @@ class ForceConstants:
             split_idx = np.array([])
             q_dirs = np.array([])
 
-        n_sc_shells = 2  # How many supercells out to search for atom images
+        # How many supercells out to search for atom images
+        n_sc_shells = self._get_n_sc_shells()
         # Construct list of supercell atom images
         sc_image_inputs = (self.crystal._cell_vectors, self.crystal.atom_r,
                            self.cell_origins, self.sc_matrix)
@@ -1620,6 +1621,28 @@ class ForceConstants:
 
         return sc_phases, cell_phases
 
+    def _get_n_sc_shells(self, min_shells: int = 2) -> int:
+        """
+        Get how many supercells out the periodic images of the atoms in
+        the supercell have to be searched for. 2 is enough unless some
+        atoms are given 2 or more supercells away from each other (the
+        fractional atom coordinates don't have to be in the first cell)
+
+        Parameters
+        ----------
+        min_shells
+            The minimum number of shells to return
+        """
+        sc_atom_r = np.matmul(
+            self.cell_origins[:, np.newaxis, :] + self.crystal.atom_r,
+            np.linalg.inv(self.sc_matrix))
+        max_sep = max(
+            np.max(np.max(sc_atom_r[0], axis=0)
+                   - np.min(sc_atom_r, axis=(0, 1))),
+            np.max(np.max(sc_atom_r, axis=(0, 1))
+                   - np.min(sc_atom_r[0], axis=0)))
+        return max(min_shells, int(max_sep) + 1)
+
     def _calculate_supercell_images(self, n_sc_shells: int) -> None:
         """
         For each displacement of ion i in the unit cell and ion j in
-- 
2.43.0


From e7c150c4339cf782133b8a52c795c7d19f8091ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:57 +0000
Subject: [PATCH 72/77] fix: Conjugate the eigenvectors in the reciprocal-space
 sum rule correction

---
 euphonic/force_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 17886bb..0df0158 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1507,7 +1507,7 @@ class ForceConstants:
                                         dtype=np.complex128)
         for i, ac in enumerate(ac_i):
             recip_asr_correction -= (tol*i + g_evals[ac])*np.einsum(
-                'i,j->ij', g_evecs[:, ac], g_evecs[:, ac])
+                'i,j->ij', g_evecs[:, ac], np.conj(g_evecs[:, ac]))
 
         return recip_asr_correction
 
-- 
2.43.0


From b440e3fdd5cdb9589fd622c39a06617f923827e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:23 +0000
Subject: [PATCH 73/77] fix: Find equivalent cell origins any number of
 supercells away in convert_fc_phases

---
 euphonic/util.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 9c01a24..fb69f65 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -391,9 +391,7 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
     # origins for atoms 1..n onto the equivalent cell origins for
     # atom 0, so the same cell origins can be used for all atoms
     cell_origins_map = np.zeros((n_atoms_sc), dtype=np.int32)
-    # Get origins of adjacent supercells in prim cell frac coords
-    sc_origins = get_all_origins((2, 2, 2), min_xyz=(-1, -1, -1))
-    sc_origins_pcell = np.einsum('ij,jk->ik', sc_origins, sc_matrix)
+    inv_sc_matrix = np.linalg.inv(sc_matrix)
     for i in range(n_atoms_sc):
         co_idx = np.where(
             (cell_origins_per_atom[i] == cell_origins).all(axis=1))[0]
@@ -401,18 +399,18 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
         if len(co_idx) == 1:
             co_idx = co_idx[0]
         else:
-            # Get equivalent cell origin in surrounding supercells
-            origin_in_scs = cell_origins_per_atom[i] - sc_origins_pcell
-
-            # Find which of the 'unique' cell origins is equivalent
-            for j, cell_origin in enumerate(cell_origins):
-                if np.any((origin_in_scs == cell_origin).all(axis=1)):
-                    co_idx = j
-                    break
-            else:
+            # Find which of the 'unique' cell origins is equivalent, i.e.
+            # is a whole number of supercells away
+            n_supercells = np.matmul(
+                cell_origins_per_atom[i] - cell_origins, inv_sc_matrix)
+            co_idx = np.where(np.all(
+                np.abs(n_supercells - np.rint(n_supercells)) < 1e-5,
+                axis=1))[0]
+            if len(co_idx) == 0:
                 raise ValueError(
                     "Couldn't determine cell origins for "
                     "force constants matrix")
+            co_idx = co_idx[0]
         cell_origins_map[i] = co_idx
 
     if force_constants.shape[0] == force_constants.shape[1]:
-- 
2.43.0


From 36ded67ec80219ec84ad5c055f173ea98782fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:41 +0000
Subject: [PATCH 74/77] fix: Sum the real-space dipole term up to the images of
 atoms given in different cells

---
 euphonic/force_constants.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 0df0158..0d964c6 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1084,6 +1084,10 @@ class ForceConstants:
         cells = np.zeros((0, 3))
         atom_r_cart = np.einsum('ij,jk->ik', atom_r, cell_vectors)
         atom_r_e = np.einsum('ij,jk->ik', atom_r_cart, inv_dielectric)
+        # Atoms can be given in different cells, so their nearest images
+        # may be several shells away
+        max_sep = int(np.amax(np.ptp(atom_r, axis=0)))
+        r0_max = 0.
         for n in range(max_shells):
             cells_tmp = ForceConstants._get_shell_origins(n)
             cells_cart = np.einsum('ij,jk->ik', cells_tmp, cell_vectors)
@@ -1114,9 +1118,9 @@ class ForceConstants:
             # End series when current terms are less than the fractional
             # tolerance multiplied by the term for the cell at R=0
             # (a cell with 1 atom has no terms at R=0, so use the next shell)
-            if n == 0 or (n == 1 and r0_max == 0):
-                r0_max = np.amax(np.abs(H_ab_tmp))
-            if n == 0 or np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
+            if n <= max_sep or (n == 1 and r0_max == 0):
+                r0_max = max(r0_max, np.amax(np.abs(H_ab_tmp)))
+            if n <= max_sep or np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
                 H_ab = np.concatenate((H_ab, H_ab_tmp))
                 cells = np.concatenate((cells, cells_tmp))
             else:
-- 
2.43.0


From 070620191cee88108838a0b36b7e443aa16c0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:29 +0000
Subject: [PATCH 75/77] fix: Spectra on different axes were accepted into a
 collection if the numbers were small

---
 euphonic/spectra.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index adf5dc2..e3fbb13 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1248,7 +1248,9 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
             assert spectrum.y_data.units == y_data_units
-            assert np.allclose(spectrum.x_data, x_data)
+            # The absolute tolerance should not depend on the choice of units
+            assert np.allclose(spectrum.x_data.magnitude, x_data.magnitude,
+                               atol=1e-8*np.max(np.abs(x_data.magnitude)))
             assert spectrum.x_data.units == x_data.units
             assert spectrum.x_tick_labels == x_tick_labels
             y_data_magnitude[i + 1, :] = spectrum.y_data.magnitude
@@ -1992,7 +1994,10 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
-                assert np.allclose(item_bins.magnitude, ref_bins.magnitude)
+                # The absolute tolerance should not depend on the choice of units
+                assert np.allclose(
+                    item_bins.magnitude, ref_bins.magnitude,
+                    atol=1e-8*np.max(np.abs(ref_bins.magnitude)))
                 assert item_bins.units == ref_bins.units
 
             assert spectrum.x_tick_labels == x_tick_labels
-- 
2.43.0


From 7391a684ef087cb0e77d8fdb5c62af1cff491d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:09 +0000
Subject: [PATCH 76/77] fix: Valid supercells were rejected because of rounding
 errors

---
 euphonic/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index fb69f65..a8b4e88 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -718,6 +718,9 @@ def _get_supercell_relative_idx(cell_origins: np.ndarray,
         equivalent vector in cell_origins
     """
     n_cells = len(cell_origins)
+    # Inequivalent cells differ by at least 1/n_cells, so this only has
+    # to be larger than the rounding errors
+    tol = 1e-8
     ax = np.newaxis
 
     # Get cell origins in supercell fractional coordinates
@@ -749,9 +752,9 @@ def _get_supercell_relative_idx(cell_origins: np.ndarray,
             replace = dist_min_current < dist_min
             sc_relative_index[nc, replace] = ci + scri_current[replace]
             dist_min[replace] = dist_min_current[replace]
-            if np.all(dist_min <= 16*sys.float_info.epsilon):
+            if np.all(dist_min <= tol):
                 break
-        if np.any(dist_min > 16*sys.float_info.epsilon):
+        if np.any(dist_min > tol):
             raise ValueError('Couldn\'t find supercell relative index')
     return sc_relative_index
 
-- 
2.43.0


From da371f3251cc1f85d9a241f1da931e76660a3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:51 +0000
Subject: [PATCH 77/77] fix: Do not break band paths at segments without
 intermediate points

---
 euphonic/cli/utils.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index a6f623f..17dd377 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -256,22 +256,15 @@ def _get_break_points(bandpath: dict) -> List[int]:
     break_points
         Indices at which the spectrum should be split into subplots
     """
-    # Find break points between continuous spectra: wherever there are two
-    # adjacent labels
-    labels = np.array(bandpath["explicit_kpoints_labels"])
+    # Find break points between continuous spectra: wherever a segment of the
+    # path does not share its first point with the end of the previous segment
+    # (Adjacent labels are not sufficient to identify these, as a short segment
+    # may consist of only its two labelled end points.)
+    segments = bandpath["explicit_segments"]
 
-    special_point_bools = np.fromiter(
-        map(bool, labels), dtype=bool)
-
-    # [T F F T T F T] -> [F F T T F T] AND [T F F T T F] = [F F F T F F] -> 3,
-    adjacent_non_empty_labels = np.logical_and(special_point_bools[:-1],
-                                               special_point_bools[1:])
-
-    adjacent_different_labels = (labels[:-1] != labels[1:])
-
-    break_points = np.where(np.logical_and(adjacent_non_empty_labels,
-                                           adjacent_different_labels))[0]
-    return (break_points + 1).tolist()
+    return [start for (_, previous_stop), (start, _)
+            in zip(segments[:-1], segments[1:])
+            if start == previous_stop]
 
 
 def _insert_gamma(bandpath: dict) -> None:
@@ -285,6 +278,10 @@ def _insert_gamma(bandpath: dict) -> None:
 
     rel_kpts = bandpath['explicit_kpoints_rel'].tolist()
     labels = bandpath['explicit_kpoints_labels']
+    bandpath['explicit_segments'] = [
+        tuple(int(i + np.sum(gamma_indices < i)) for i in segment)
+        for segment in bandpath['explicit_segments']]
+
     for i in reversed(gamma_indices.tolist()):
         rel_kpts.insert(i, [0., 0., 0.])
         labels.insert(i, 'GAMMA')
@@ -296,7 +293,6 @@ def _insert_gamma(bandpath: dict) -> None:
     # to leave None than incorrect values
     bandpath['explicit_kpoints_abs'] = None
     bandpath['explicit_kpoints_linearcoord'] = None
-    bandpath['explicit_segments'] = None
 
 
 XTickLabels = List[Tuple[int, str]]
-- 
2.43.0

