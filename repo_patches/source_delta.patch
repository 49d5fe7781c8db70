From 3db8e7e8fe7527b788ed9071bb355a8001aa068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 01/71] fix: supercell lattice vectors of non-orthogonal cells
 with unequal factors

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 3d5b51e..66a9f2d 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -88,7 +88,7 @@ class Structure:
     def get_cell(self, supercell=None):
 
         if supercell is not None:
-            return np.dot(self._cell, np.diag(supercell))
+            return np.dot(np.diag(supercell), self._cell)
 
         return self._cell
 
-- 
2.43.0


From bb0f9c1d939b2a8394fb14fac0d2fbc56651e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 02/71] fix: compare unit cell masses when assigning atom types
 from a supercell request

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 66a9f2d..7b055c8 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -285,7 +285,7 @@ class Structure:
     def get_atom_type_index(self, supercell=None):
 
         # Tolerance for accepting equivalent atoms in super cell
-        masses = self.get_masses(supercell=supercell)
+        masses = self.get_masses()
         tolerance = 0.001
         if self._atom_type_index is None:
             primitive_cell_inverse = np.linalg.inv(self.get_primitive_cell())
-- 
2.43.0


From 7141a4c57c0b08a638582f0926200ec4f0d5654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 03/71] fix: take the element with the closest mass when only
 masses are given

---
 dynaphopy/atoms.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 7b055c8..fbe5a04 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -56,9 +56,7 @@ class Structure:
         if atomic_elements is None and masses is not None:
             self._atomic_elements = []
             for i in masses:
-                for j in atom_data:
-                    if "{0:.1f}".format(i) == "{0:.1f}".format(j[3]):
-                        self._atomic_elements.append(j[1])
+                self._atomic_elements.append(min(atom_data, key=lambda j: abs(j[3] - i))[1])
 
         # Get atomic numbers and masses from available information
         if atomic_numbers is None and self._atomic_elements is not None:
-- 
2.43.0


From 2045080ff6971dfe8d14702314882b29e703827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 04/71] fix: element counts of written POSCAR files when the
 elements are not contiguous

---
 dynaphopy/generate_cell.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dynaphopy/generate_cell.py b/dynaphopy/generate_cell.py
index f527ec0..12db74b 100644
--- a/dynaphopy/generate_cell.py
+++ b/dynaphopy/generate_cell.py
@@ -1,3 +1,4 @@
+import itertools
 import numpy as np
 
 
@@ -7,13 +8,10 @@ def generate_VASP_structure(structure, scaled=False, supercell=(1, 1, 1)):
 
     types = structure.get_atomic_elements(supercell=supercell)
 
-    atom_type_unique = np.unique(types, return_index=True)
-
-    # To use unique without sorting
-    sort_index = np.argsort(atom_type_unique[1])
-    elements = np.array(atom_type_unique[0])[sort_index]
-    elements_count= np.diff(np.append(np.array(atom_type_unique[1])[sort_index], [len(types)]))
-
+    # One entry per run of equal elements, so that the order of the atoms is kept
+    runs = [(element, len(list(atoms))) for element, atoms in itertools.groupby(types)]
+    elements = [element for element, count in runs]
+    elements_count = [count for element, count in runs]
 
     vasp_POSCAR = 'Generated using dynaphopy\n'
     vasp_POSCAR += '1.0\n'
-- 
2.43.0


From 3d8099927f5854386861b28156019d518144e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 05/71] fix: apply the POSCAR scale factor to Cartesian
 positions

---
 dynaphopy/interface/iofile/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 047f259..fc1b239 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -320,6 +320,9 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
         atomic_types = [item for sublist in atomic_types for item in sublist]
         # atomic_types = np.array(atomic_types).flatten().tolist()
 
+    if positions is not None:
+        positions *= multiply  # the scale factor also applies to Cartesian coordinates
+
     return atomtest.Structure(cell=direct_cell,  # cell_matrix, lattice vectors in rows
                               scaled_positions=scaled_positions,
                               positions=positions,
-- 
2.43.0


From 84f86aadd3f8693950913353fc4dce597e42352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 06/71] fix: XDATCAR times of the frames before the reading
 window are dropped

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 550f507..9515357 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -433,6 +433,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
             #Initial cut control
             if initial_cut > counter:
+                time = []
                 continue
 
             #Reading coordinates
-- 
2.43.0


From 63683b6759ff4e119bf85b2c9a884a205fbc63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 07/71] fix: create the XDATCAR memory map only once

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 9515357..7b042dd 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -423,7 +423,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             file_map.seek(position_number)
             time.append(float(file_map.readline().split(b'=')[1]))
 
-            if memmap:
+            if memmap and counter == 1:
                 if end_cut:
                     data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
                 else:
-- 
2.43.0


From ab69355da6362e200a56a6c277c90b576683d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 08/71] fix: apply the scale factor of XDATCAR files

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 7b042dd..384e976 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -404,11 +404,12 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
         file_map = mmap.mmap(f.fileno(), 0)
 
         #Read cell
-        for i in range(2): file_map.readline()
+        file_map.readline()
+        scale = float(file_map.readline())
         a = file_map.readline().split()
         b = file_map.readline().split()
         c = file_map.readline().split()
-        super_cell = np.array([a, b, c], dtype='double')
+        super_cell = np.array([a, b, c], dtype='double') * scale
 
         for i in range(1): file_map.readline()
         number_of_atoms = np.array(file_map.readline().split(), dtype=int).sum()
-- 
2.43.0


From c798c64992a5d0035b4c88c176263bc8a48fc32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 09/71] fix: OUTCAR reader skips the frames before the reading
 window

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 384e976..c429bc2 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -74,9 +74,6 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
         while True:
 
             counter +=1
-            #Initial cut control
-            if initial_cut > counter:
-                continue
 
             position_number=file_map.find(b'POSITION')
             if position_number < 0 : break
@@ -85,6 +82,10 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
             file_map.readline()
             file_map.readline()
 
+            #Initial cut control
+            if initial_cut > counter:
+                continue
+
             read_coordinates = []
             for i in range (number_of_atoms):
                 read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
-- 
2.43.0


From 4d56cff35df185c94db14bce2794286421636850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 10/71] fix: memory mapped trajectories keep only the steps
 read from the file

---
 .../interface/iofile/trajectory_parsers.py    | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index c429bc2..e82c4b2 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -326,12 +326,14 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        data = data[:len(time)]  # the file may end before the requested range
+    else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     # Check position/velocity dump
@@ -471,12 +473,14 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        data = data[:len(time)]  # the file may end before the requested range
+    else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     return dyn.Dynamics(structure=structure,
-- 
2.43.0


From 6a3357056bb6077715b984028374f4bced0cab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 11/71] fix: an incomplete last step of a trajectory file is
 dropped together with its time

---
 .../interface/iofile/trajectory_parsers.py    | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index e82c4b2..ffb41d5 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -296,13 +296,12 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
             read_coordinates = []
             for i in range (number_of_atoms):
                 read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
-            read_coordinates = np.array(read_coordinates, dtype=float)
-
-            if template is not None:
-                indexing = np.argsort(template)
-                read_coordinates = read_coordinates[indexing, :]
-
             try:
+                read_coordinates = np.array(read_coordinates, dtype=float).reshape(number_of_atoms, number_of_dimensions)
+                if template is not None:
+                    indexing = np.argsort(template)
+                    read_coordinates = read_coordinates[indexing, :]
+
                 read_coordinates = np.dot(read_coordinates, transformation_mat)
                 if memmap:
                     data[counter-initial_cut, :, :] = read_coordinates #in angstroms
@@ -311,6 +310,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
             except ValueError:
                 print("Error reading step {0}".format(counter))
+                time.pop()
                 break
                 # print(read_coordinates)
 
@@ -445,12 +445,12 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             for i in range (number_of_atoms):
                 read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
 
-            read_coordinates = np.array(read_coordinates, dtype=float)  # in angstroms
-            if template is not None:
-                indexing = np.argsort(template)
-                read_coordinates = read_coordinates[indexing, :]
-
             try:
+                read_coordinates = np.array(read_coordinates, dtype=float).reshape(number_of_atoms, number_of_dimensions)
+                if template is not None:
+                    indexing = np.argsort(template)
+                    read_coordinates = read_coordinates[indexing, :]
+
                 if memmap:
                     data[counter-initial_cut, :, :] = read_coordinates #in angstroms
                 else:
@@ -458,6 +458,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
             except ValueError:
                 print("Error reading step {0}".format(counter))
+                time.pop()
                 break
                 # print(read_coordinates)
 
-- 
2.43.0


From ba654854c1e3dade743cbd3b67c84b6cf018fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 12/71] fix: times of a window of a HDF5 file

---
 dynaphopy/interface/iofile/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index fc1b239..22678a4 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -705,6 +705,11 @@ def initialize_from_hdf5_file(file_name, structure, read_trajectory=True, initia
         print("Load trajectory projected onto {0}".format(reduced_q_vector))
 
     time = hdf5_file['time'][:]
+    if final_cut is not None:
+        time = time[initial_cut-1:final_cut]
+    else:
+        time = time[initial_cut-1:]
+
     supercell = hdf5_file['super_cell'][:]
     hdf5_file.close()
 
-- 
2.43.0


From 5cada2e4be9a2ab604096540b26baa6644f2ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 13/71] fix: concath5 writes one time per joined step

---
 scripts/concath5 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/concath5 b/scripts/concath5
index e9e6a80..67471d2 100755
--- a/scripts/concath5
+++ b/scripts/concath5
@@ -116,6 +116,12 @@ for arg in args.input[1:]:
     if vc is not  None:
         vc = np.concatenate((vc, new_vc[first:]), axis=0)
 
+# The joined steps are evenly spaced with the time step of the first file
+number_of_steps = next(data.shape[0] for data in (velocity, vc, trajectory) if data is not None)
+if len(time) > 1:
+    time_step = (time[-1] - time[0]) / (len(time) - 1)
+    time = time[min(first, len(time)-1)] + time_step * np.arange(number_of_steps)
+
 print ('Final: ', args.output[0])
 
 save_data_hdf5(args.output[0],
-- 
2.43.0


From 63c0ec790d866038b1ecc0c761db31138cb2831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 14/71] fix: automatic atom order for any supercell and any
 periodic image

---
 dynaphopy/interface/iofile/__init__.py | 17 ++++++++---------
 dynaphopy/interface/lammps_link.py     |  2 +-
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 22678a4..d24439e 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -35,12 +35,12 @@ def check_atoms_order(filename, trajectory_reading_function, structure):
     # Only using first step
     reference = trajectory.trajectory[0]
 
-    template = get_correct_arrangement(reference, structure)
+    template = get_correct_arrangement(reference, structure, supercell=trajectory.get_supercell_matrix())
 
     return template
 
 
-def get_correct_arrangement(reference, structure):
+def get_correct_arrangement(reference, structure, supercell=None):
 
     # print structure.get_scaled_positions()
     scaled_coordinates = []
@@ -51,7 +51,10 @@ def get_correct_arrangement(reference, structure):
 
     number_of_cell_atoms = structure.get_number_of_atoms()
     number_of_supercell_atoms = len(scaled_coordinates)
-    supercell_dim = np.array(np.round(np.max(scaled_coordinates, axis=0)), dtype=int)
+    if supercell is None:
+        supercell_dim = np.array(np.round(np.max(scaled_coordinates, axis=0)), dtype=int)
+    else:
+        supercell_dim = np.array(supercell, dtype=int)
 
     unit_cell_scaled_coordinates = scaled_coordinates - np.array(scaled_coordinates, dtype=int)
 
@@ -61,8 +64,7 @@ def get_correct_arrangement(reference, structure):
 
         diff = np.abs(np.array([coordinate]*number_of_cell_atoms) - structure.get_scaled_positions())
 
-        diff[diff >= 0.5] -= 1.0
-        diff[diff < -0.5] += 1.0
+        diff -= np.round(diff)
 
         # print 'diff', diff
         # print 'postions', structure.get_scaled_positions()
@@ -92,10 +94,7 @@ def get_correct_arrangement(reference, structure):
         # print 'c', i, coordinate, coordinate2
 
         for k in range(3):
-            if lattice_points_coordinates[k] > supercell_dim[k] - 0.5:
-                lattice_points_coordinates[k] = lattice_points_coordinates[k] - supercell_dim[k]
-            if lattice_points_coordinates[k] < -0.5:
-                lattice_points_coordinates[k] = lattice_points_coordinates[k] + supercell_dim[k]
+            lattice_points_coordinates[k] = np.mod(lattice_points_coordinates[k] + 0.5, supercell_dim[k]) - 0.5
 
         comparison_cell = np.array([lattice_points_coordinates]*number_of_supercell_atoms)
         diference = np.linalg.norm(diff_matrix(original_conf, comparison_cell, supercell_dim), axis=1)
diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index a2ec130..a60f60c 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -102,7 +102,7 @@ def generate_lammps_trajectory(structure,
     # xc = lmp.gather_atoms("x", 1, 3)
     # reference = np.array([xc[i] for i in range(na*3)]).reshape((na,3))
 
-    template = get_correct_arrangement(reference, structure)
+    template = get_correct_arrangement(reference, structure, supercell=supercell)
     indexing = np.argsort(template)
 
     lmp.command('variable energy equal pe'.format(int(relaxation_time/time_step)))
-- 
2.43.0


From efa9f6b416fcf28e48dc6f6d54a3e6020d0e1219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 15/71] fix: maximum entropy method uses every data point and
 none beyond the end

---
 c/mem.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/mem.c b/c/mem.c
index ba344f2..67e8a73 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -207,15 +207,15 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
     double  *wkm = malloc(NumberOfCoefficients*sizeof(double));
 
 
-    for (j=1; j <= NumberOfData; j++) p += pow(Data[j], 2);
+    for (j=1; j <= NumberOfData; j++) p += pow(Data[j-1], 2);
     MeanSquareDiscrepancy = p / NumberOfData;
 
-    wk1[1] = Data[1];
-    wk2[NumberOfData-1] = Data[NumberOfData];
+    wk1[1] = Data[0];
+    wk2[NumberOfData-1] = Data[NumberOfData-1];
 
     for (j=2; j <= NumberOfData-1; j++) {
-        wk1[j]=Data[j];
-        wk2[j-1]=Data[j];
+        wk1[j]=Data[j-1];
+        wk2[j-1]=Data[j-1];
     }
 
     for (k=1; k <= NumberOfCoefficients; k++) {
-- 
2.43.0


From 70e90a83b78f4b033bb013b3b4d54a6136479cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 16/71] fix: memory kept by each call of the maximum entropy
 method

---
 c/mem.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/mem.c b/c/mem.c
index 67e8a73..7907900 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -173,6 +173,7 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
 
     // Free memory
     free(Velocity_r);
+    free(Velocity_i);
     free(Coefficients_r);
     free(Coefficients_i);
 
@@ -226,7 +227,10 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
             Denominator += pow(wk1[j],2) + pow(wk2[j], 2);
         }
 
-        if (fabs(Denominator) < 1.0e-6) return 0.0;
+        if (fabs(Denominator) < 1.0e-6) {
+            MeanSquareDiscrepancy = 0.0;
+            break;
+        }
 
         Coefficients[k] = 2.0 * Numerator / Denominator;
 
-- 
2.43.0


From 986baa310da3f1ab3b4b42904ba5b489265b10e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 17/71] fix: phase of the direct Fourier transform of the
 correlation function

---
 c/correlation.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/c/correlation.c b/c/correlation.c
index 02261d5..567b4b5 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -152,22 +152,21 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
 // Averaged
 double EvaluateCorrelation (double Frequency, _Dcomplex * Velocity, int NumberOfData, double TimeStep, int Increment, int IntMethod) {
     _Dcomplex Correl = _Cbuild(0.0, 0.0);
-    _Dcomplex Correl_i, Correl_j;
+    _Dcomplex Correl_i;
     for (int i = 0; i < NumberOfData; i += Increment) {
         for (int j = 0; j < (NumberOfData-i-Increment); j++) {
-            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
+            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency*(i*TimeStep))));
             Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
             switch (IntMethod) {
                 case 0: //	Trapezoid Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1)));
-                    Correl_j = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency * (i+Increment), 1)));
-                    Correl = _Cbuild(creal(Correl) + creal(Correl_i) + creal(Correl_j), cimag(Correl) + cimag(Correl_i) + cimag(Correl_j));
+                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(0, Frequency*((i+Increment)*TimeStep))));
+                    Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
 
                     //Correl += (conj(Velocity[j]) * Velocity[j+i+Increment] * cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1))
                     //           +   conj(Velocity[j]) * Velocity[j+i]           * cexp(_Complex_I*Frequency * (i*TimeStep) ))/2.0 ;
                     break;
                 case 1: //	Rectangular Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
+                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency*(i*TimeStep))));
                     Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
                     // Correl +=  conj(Velocity[j]) * Velocity[j+i] * cexp(_Complex_I*Frequency * (i*TimeStep));
                     break;
-- 
2.43.0


From 6f820d8fe7b19d30d80e0b3d685c22535edd9d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 18/71] fix: memory kept by each call of the direct Fourier
 transform

---
 c/correlation.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/c/correlation.c b/c/correlation.c
index 567b4b5..e71fbf7 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -136,7 +136,10 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
 
     // Maximum Entropy Method Algorithm
     if (IntMethod < 0 || IntMethod > 1) {
-        puts ("\nIntegration method selected does not exist\n");
+        Py_DECREF(velocity_array);
+        Py_DECREF(frequency_array);
+        Py_DECREF(PowerSpectrum_object);
+        PyErr_SetString(PyExc_ValueError, "Integration method selected does not exist");
         return NULL;
     }
 
@@ -145,6 +148,10 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
         AngularFrequency = Frequency[i]*2.0*M_PI;
         PowerSpectrum[i] = EvaluateCorrelation(AngularFrequency, Velocity, NumberOfData, TimeStep, Increment, IntMethod);
     }
+    // Free python memory
+    Py_DECREF(velocity_array);
+    Py_DECREF(frequency_array);
+
     //Returning Python array
     return(PyArray_Return(PowerSpectrum_object));
 }
-- 
2.43.0


From 7a8728aebe0f04b1a1939e1c6b4768ef78e3e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 19/71] fix: crop trajectories with memory mapping

---
 dynaphopy/dynamics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 9771bcf..6c29e4a 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -95,12 +95,13 @@ class Dynamics:
         self._velocity_mass_average = None
 
         if self._memmap:
-            filename = self._relative_trajectory.filename
+            filename = getattr(self._relative_trajectory, 'filename', None)
             self._relative_trajectory = None
-            try:
-                os.remove(filename)
-            except:
-                pass
+            if filename is not None:
+                try:
+                    os.remove(filename)
+                except OSError:
+                    pass
         else:
             self._relative_trajectory = None
 
-- 
2.43.0


From 58a0e329405d32b6b06aa609ea7e365e35abe098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 20/71] fix: cropping a trajectory discards what was calculated
 from all its steps

---
 dynaphopy/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 6c29e4a..5f78474 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -93,6 +93,8 @@ class Dynamics:
         self.velocity = self.velocity[-last_steps:, :, :]
 
         self._velocity_mass_average = None
+        self._time_step_average = None
+        self._mean_displacement_matrix = None
 
         if self._memmap:
             filename = getattr(self._relative_trajectory, 'filename', None)
-- 
2.43.0


From 1c6a1053a178e039540e604ef7f4bfb6f7555914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 21/71] fix: mean displacement matrix with and without average
 positions are kept apart

---
 dynaphopy/dynamics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 5f78474..a22ea44 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -28,7 +28,7 @@ class Dynamics:
         self._relative_trajectory = None
         self._supercell_matrix = None
         self._number_of_atoms = None
-        self._mean_displacement_matrix = None
+        self._mean_displacement_matrix = {}
 
         if structure is not None:
             self._structure = structure
@@ -94,7 +94,7 @@ class Dynamics:
 
         self._velocity_mass_average = None
         self._time_step_average = None
-        self._mean_displacement_matrix = None
+        self._mean_displacement_matrix = {}
 
         if self._memmap:
             filename = getattr(self._relative_trajectory, 'filename', None)
@@ -209,7 +209,7 @@ class Dynamics:
 
     def get_mean_displacement_matrix(self, use_average_positions=False):
 
-        if self._mean_displacement_matrix is None:
+        if use_average_positions not in self._mean_displacement_matrix:
 
             atom_type = self.structure.get_atom_type_index()
             number_atom_primitive_equivalent = np.unique(atom_type, return_counts=True)[1]
@@ -237,9 +237,9 @@ class Dynamics:
                                                                              displacements[:, i, :] - position_difference[i]
                                                                              ).real / primtive_normalization
 
-            self._mean_displacement_matrix = mean_displacement_matrix / (number_of_equivalent_atoms * number_of_data)
+            self._mean_displacement_matrix[use_average_positions] = mean_displacement_matrix / (number_of_equivalent_atoms * number_of_data)
 
-        return self._mean_displacement_matrix
+        return self._mean_displacement_matrix[use_average_positions]
 
     def average_positions(self, number_of_samples=None, to_unit_cell=False):
 
-- 
2.43.0


From c025d473f8447a66372e262507c0fee5cae37d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 22/71] fix: average positions of a random sample with current
 numpy

---
 dynaphopy/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index a22ea44..1f43e7e 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -257,7 +257,7 @@ class Dynamics:
             if length < number_of_samples:
                 number_of_samples = length
             normalized_trajectory = normalized_trajectory
-            samples = np.random.random_integers(length, size=(number_of_samples,))-1
+            samples = np.random.randint(length, size=(number_of_samples,))
             normalized_trajectory = normalized_trajectory[samples, :]
 
         averaged_positions = np.average(normalized_trajectory, axis=0)
-- 
2.43.0


From 241c1168f75f3e47fc4f76f4de976841370c414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 23/71] fix: average positions in the unit cell with several
 equivalent atoms

---
 dynaphopy/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 1f43e7e..6582145 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -273,12 +273,12 @@ class Dynamics:
             index_type = self.structure.get_atom_type_index(supercell=supercell)
 
             number_of_atom_types = self.structure.get_number_of_atom_types()
-            normalization = np.prod(supercell)
+            normalization = np.bincount(index_type, minlength=number_of_atom_types)
 
             averaged_unit_cell = np.zeros((number_of_atom_types, number_of_dimensions), dtype=complex)
 
             for i, coordinates  in enumerate(averaged_positions):
-                averaged_unit_cell[index_type[i], :] += coordinates/normalization
+                averaged_unit_cell[index_type[i], :] += coordinates/normalization[index_type[i]]
 
             averaged_positions = []
             for i in range(positions.shape[0]):
-- 
2.43.0


From 8dabedfa58d1914e69727bf57486709063198a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 24/71] fix: remove every temporary file of the memory mapped
 arrays

---
 dynaphopy/dynamics.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 6582145..e8aca34 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -53,13 +53,12 @@ class Dynamics:
     def __del__(self):
         #Clean all temporal files from memmap
         if self._memmap:
-            for mapped_array in [self._velocity, self._trajectory, self._relative_trajectory, self._velocity_mass_average]:
-                try:
-                    filename = mapped_array.filename
-                except AttributeError:
-                    continue
+            for mapped_array in [self._velocity, self._trajectory, self._scaled_trajectory,
+                                 self._relative_trajectory, self._velocity_mass_average]:
+                filename = getattr(mapped_array, 'filename', None)
                 del mapped_array
-                os.remove(filename)
+                if filename is not None and os.path.isfile(filename):
+                    os.remove(filename)
 
 # A bit messy, has to be fixed
     def crop_trajectory(self, last_steps):
-- 
2.43.0


From 5e453c5e75c5de8ae4b479eac97643e318049e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 25/71] fix: trajectories of one process do not share memory
 mapped files

---
 dynaphopy/dynamics.py                         | 20 ++++++++++++++++---
 .../interface/iofile/trajectory_parsers.py    |  4 ++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index e8aca34..3fca27d 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -1,6 +1,20 @@
 import numpy as np
 from dynaphopy.displacements import atomic_displacements
 import os
+import tempfile
+
+
+def get_temporary_file_name(directory, name):
+    """
+    Creates an empty temporary file not used by any other trajectory of this process
+
+    :param directory: directory of the file (empty: current directory)
+    :param name: beginning of the file name
+    :return: name of the file
+    """
+    handle, file_name = tempfile.mkstemp(prefix='{0}.{1}.'.format(name, os.getpid()), dir=directory or os.curdir)
+    os.close(handle)
+    return file_name
 
 
 class Dynamics:
@@ -145,7 +159,7 @@ class Dynamics:
     def get_velocity_mass_average(self):
         if self._velocity_mass_average is None:
             if self._memmap:
-                self._velocity_mass_average = np.memmap(self._temp_directory+'velocity_mass.{0}'.format(os.getpid()),
+                self._velocity_mass_average = np.memmap(get_temporary_file_name(self._temp_directory, 'velocity_mass'),
                                                         dtype='complex', mode='w+', shape=self.velocity.shape)
             else:
                 self._velocity_mass_average = np.empty_like(self.velocity)
@@ -169,7 +183,7 @@ class Dynamics:
 
 
             if self._memmap:
-                normalized_trajectory = np.memmap(self._temp_directory+'r_trajectory.{0}'.format(os.getpid()),
+                normalized_trajectory = np.memmap(get_temporary_file_name(self._temp_directory, 'r_trajectory'),
                                                   dtype='complex', mode='w+', shape=trajectory.shape)
             else:
                 normalized_trajectory = self.trajectory.copy()
@@ -317,7 +331,7 @@ class Dynamics:
         if self._velocity is None:
             print('No velocity provided! calculating it from coordinates...')
             if self._memmap:
-                self._velocity = np.memmap(self._temp_directory+'velocity.{0}'.format(os.getpid()),
+                self._velocity = np.memmap(get_temporary_file_name(self._temp_directory, 'velocity'),
                                            dtype='complex',
                                            mode='w+',
                                            shape=self.get_relative_trajectory().shape)
diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index ffb41d5..b1adaf9 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -277,7 +277,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
                 if memmap:
                     if end_cut:
-                        data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+                        data = np.memmap(dyn.get_temporary_file_name(temp_directory, 'trajectory'), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
                     else:
                         print('Memory mapping requires to define reading range (use read_from/read_to option)')
                         exit()
@@ -429,7 +429,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
             if memmap and counter == 1:
                 if end_cut:
-                    data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
+                    data = np.memmap(dyn.get_temporary_file_name(temp_directory, 'trajectory'), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
                 else:
                     print('Memory mapping requires to define reading range (use read_from/read_to option)')
                     exit()
-- 
2.43.0


From 30bb69f3d70b4bb02398d761bb76e9e050d8052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 26/71] fix: partial power spectra are calculated again when
 the settings change

---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1ffe149..c655269 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -68,6 +68,7 @@ class Quasiparticle:
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_partials = None
         self.force_constants_clear()
 
     def force_constants_clear(self):
-- 
2.43.0


From 46c3fd679eb2416f011ab1025e296a8d7e7d8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 27/71] fix: projections are calculated again when the
 projected atom changes

---
 dynaphopy/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index c655269..248802e 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -132,6 +132,9 @@ class Quasiparticle:
 
     def set_projection_onto_atom_type(self, atom_type):
         if atom_type in range(self.dynamic.structure.get_number_of_primitive_atoms()):
+            if atom_type != self.parameters.project_on_atom:
+                self.full_clear()
+                self.power_spectra_clear()
             self.parameters.project_on_atom = atom_type
         else:
             print('Atom type {} does not exist'.format(atom_type))
-- 
2.43.0


From dd7687b40a86648298ab5127bdcd5e77ab641fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 28/71] fix: QHA force constants are applied to commensurate
 points already calculated

---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 248802e..b4eea98 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1448,6 +1448,7 @@ class Quasiparticle:
 
     # QHA methods
     def set_qha_force_constants(self, fc_qha_file):
+        self.force_constants_clear()
         self._force_constants_qha = pho_interface.get_force_constants_from_file(fc_qha_file,
                                                                                 fc_supercell=self.dynamic.structure.get_supercell_phonon())
 
-- 
2.43.0


From 3596f6967dec553a4d4a3ea41b45d37d5fc3de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 29/71] fix: full power spectrum is calculated again for
 another coordinate

---
 dynaphopy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index b4eea98..af7f04b 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -33,6 +33,7 @@ class Quasiparticle:
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_coordinate = None
         self._power_spectrum_partials = None
         self._bands = None
         self._renormalized_bands = None
@@ -788,7 +789,7 @@ class Quasiparticle:
         number_of_dimensions = self.dynamic.structure.get_number_of_dimensions()
         projected_atom_type = self.parameters.project_on_atom
 
-        if self._power_spectrum_direct is None:
+        if self._power_spectrum_direct is None or self._power_spectrum_coordinate != projection_on_coordinate:
             print("Calculation full power spectrum")
 
             velocity_mass_average = self.dynamic.get_velocity_mass_average()
@@ -832,6 +833,7 @@ class Quasiparticle:
                     self.parameters)
 
             self._power_spectrum_direct = np.sum(self._power_spectrum_direct, axis=1)
+            self._power_spectrum_coordinate = projection_on_coordinate
         return self._power_spectrum_direct
 
     def get_power_spectrum_partials(self, save_to_file=None):
-- 
2.43.0


From 91a7402629abd211959e783a8e670d9d7c41c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 30/71] fix: cropping the trajectory discards the results of
 the previous steps

---
 dynaphopy/__init__.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index af7f04b..9641df0 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -27,6 +27,7 @@ class Quasiparticle:
 
         self._dynamic = dynamic
         self._vc = vc
+        self._only_vc = vc is not None  # projected velocity loaded from a file
         self._eigenvectors = None
         self._frequencies = None
         self._vq = None
@@ -40,6 +41,7 @@ class Quasiparticle:
         self._renormalized_force_constants = None
         self._commensurate_points_data = None
         self._temperature = None
+        self._temperature_fit = None
         self._force_constants_qha = None
         self._parameters = parameters.Parameters()
         self.crop_trajectory(last_steps)
@@ -47,14 +49,22 @@ class Quasiparticle:
 
     # Crop trajectory
     def crop_trajectory(self, last_steps):
-        if self._vc is None:
+        if self._vc is None or not self._only_vc:
             self._dynamic.crop_trajectory(last_steps)
+            if last_steps is not None and last_steps > 0:
+                self._vc = None
             print("Using {0} steps".format(len(self._dynamic.velocity)))
         else:
-            if last_steps is not None:
+            if last_steps is not None and last_steps > 0:
                 self._vc = self._vc[-last_steps:, :, :]
+                self._dynamic.set_time(self._dynamic.get_time()[-last_steps:])
             print("Using {0} steps".format(len(self._vc)))
 
+        if last_steps is not None and last_steps > 0:
+            self._vq = None
+            self._temperature_fit = None
+            self.power_spectra_clear()
+
     # Memory clear methods
     def full_clear(self):
         self._eigenvectors = None
@@ -1090,12 +1100,14 @@ class Quasiparticle:
         energy.boltzmann_distribution(self.dynamic, self.parameters)
 
     def get_temperature(self):
-        if not self._temperature:
+        if self._temperature:
+            return self._temperature
+        if not self._temperature_fit:
             save_status = self.parameters.silent
             self.parameters.silent = True
-            self._temperature = energy.boltzmann_distribution(self.dynamic, self.parameters)
+            self._temperature_fit = energy.boltzmann_distribution(self.dynamic, self.parameters)
             self.parameters.silent = save_status
-        return self._temperature
+        return self._temperature_fit
 
     def set_temperature(self, temperature):
         self._temperature = temperature
-- 
2.43.0


From f42121b84cc06b07714b7e70f0c182ea8d74a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 31/71] fix: print phonon dispersion bands

---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 9641df0..6e54bc5 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -585,7 +585,7 @@ class Quasiparticle:
     def print_phonon_dispersion_bands(self):
         if self._bands is None:
             self._bands = pho_interface.obtain_phonon_dispersion_bands(self.dynamic.structure,
-                                                                       self.get_band_ranges_and_labels(),
+                                                                       self.get_band_ranges_and_labels()['ranges'],
                                                                        NAC=self.parameters.use_NAC)
         np.set_printoptions(linewidth=200)
         for i, freq in enumerate(self._bands[1]):
-- 
2.43.0


From c3c81f1f0fb520b0f1734c75e8f17be95eb76224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 32/71] fix: option to save the renormalized frequencies

---
 dynaphopy/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/parameters.py b/dynaphopy/parameters.py
index a8e014c..7868725 100644
--- a/dynaphopy/parameters.py
+++ b/dynaphopy/parameters.py
@@ -268,7 +268,7 @@ class Parameters(metaclass=Singleton):
 
     @save_renormalized_frequencies.setter
     def save_renormalized_frequencies(self, save_renormalized_frequencies):
-        self._save_renormalized_frequenciese = save_renormalized_frequencies
+        self._save_renormalized_frequencies = save_renormalized_frequencies
 
     @property
     def mesh_phonopy(self):
-- 
2.43.0


From 7090d869e2c6633ff46e1d1a0c8fbb39fc01f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 33/71] fix: --fcsymm symmetrizes the force constants

---
 scripts/dynaphopy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dynaphopy b/scripts/dynaphopy
index b108877..4720273 100755
--- a/scripts/dynaphopy
+++ b/scripts/dynaphopy
@@ -299,7 +299,7 @@ calculation.parameters.get_data_from_dict(input_parameters)
 
 # Set Parameters
 calculation.parameters.silent = args.silent
-calculation.parameters.degenerate = args.fcsymm
+calculation.parameters.symmetrize = args.fcsymm
 calculation.parameters.use_MD_cell_commensurate = args.MD_commensurate
 calculation.parameters.save_renormalized_frequencies = args.save_renormalized_frequencies
 calculation.parameters.use_NAC = args.nac
-- 
2.43.0


From 77291715db0f1c16fc99c348ec6e1fc4fa2b430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 34/71] fix: symmetrize force constants with current phonopy
 and any cell

---
 dynaphopy/interface/phonopy_link.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index d5c647e..dd526aa 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -393,8 +393,8 @@ def get_renormalized_force_constants(renormalized_frequencies, eigenvectors, str
     if symmetrize:
         print('Symmetrizing force constants')
         set_tensor_symmetry_PJ(force_constants.get_array(),
-                               phonon.supercell.get_cell(),
-                               phonon.supercell.get_scaled_positions(),
+                               phonon.supercell.cell.T,  # lattice vectors in columns
+                               phonon.supercell.scaled_positions,
                                phonon.symmetry)
 
     return force_constants
-- 
2.43.0


From ce1ba427cc5af3d2694ca4e95e797810826dc7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 35/71] fix: the initial phase of a test trajectory is a phase

---
 dynaphopy/interface/iofile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index d24439e..a3d4be0 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -410,7 +410,7 @@ def generate_test_trajectory(structure, supercell=(1, 1, 1),
                 if abs(frequencies_r[i_long][i_freq]) > minimum_frequency: # Prevent error due to small frequencies
                     amplitude = np.sqrt(number_of_dimensions * kb_boltzmann * temperature / number_of_primitive_cells * atoms_relation)/(frequencies_r[i_long][i_freq] * 2 * np.pi) # + random.uniform(-1,1)*0.05
                     normal_mode = amplitude * np.exp(-1j * frequencies_r[i_long][i_freq] * 2.0 * np.pi * time)
-                    phase = np.exp(1j * np.dot(q_vector, positions.T) + phase_0)
+                    phase = np.exp(1j * (np.dot(q_vector, positions.T) + phase_0))
 
                     coordinates += (1.0 / np.sqrt(masses)[None].T *
                                    eigenvectors_r[i_long][i_freq, atom_type] *
-- 
2.43.0


From 2152a9dc4aa1b096681a85331a650f1d431b6680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 36/71] fix: fitdata uses the first row of the file

---
 scripts/fitdata | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/fitdata b/scripts/fitdata
index 6fd8ee5..3920510 100755
--- a/scripts/fitdata
+++ b/scripts/fitdata
@@ -64,6 +64,7 @@ except IOError:
 if args.bi is None:
     data_num = len(input_file.readline().split())
     degeneracy = [[i] for i in range(1, data_num)]
+    input_file.seek(0)
 else:
     degeneracy = [[int(j) for j in i.split()] for i in ' '.join(args.bi).split(',')]
 
-- 
2.43.0


From b2cf9c3ff5f87b1b0a2ca1488117858b0f1b466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 37/71] fix: rfc_calc reads the quasiparticle data written by
 dynaphopy

---
 scripts/rfc_calc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 35f78ab..cfbafeb 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -58,10 +58,10 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
     with open(freq_filename, 'r') as stream:
         data_dict = yaml.safe_load(stream)
         for wv in com_points:
-            for q_point in data_dict.values():
+            for q_point in (data_dict.values() if isinstance(data_dict, dict) else data_dict):
                 # print q_point
                 # print q_point['frequencies']
-                if np.array(q_point['reduced_wave_vector'] == wv).all():
+                if np.allclose(q_point['reduced_wave_vector'], wv, atol=1e-6):
                     renormalized_frequencies.append(q_point['frequencies'])
                     # com_points.append(q_point['reduced_wave_vector'])
 
-- 
2.43.0


From 3c4f53e09a00a8d6fdf4c4e4aa559f117ec1bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 38/71] fix: rfc_calc uses the supercell given by --dim

---
 scripts/rfc_calc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index cfbafeb..70d81ff 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -49,6 +49,8 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
         else:
             print('please define supercell phonon in inputfile')
             exit()
+    else:
+        fc_supercell = np.diag(args.dim)
 
     com_points = pho_interface.get_commensurate_points(structure, fc_supercell)
 
-- 
2.43.0


From 29211301eff0b4f7c5c4f397b8d5d1b1f5ec6cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 39/71] fix: rfc_calc plots the bands of the input file

---
 scripts/rfc_calc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 70d81ff..2d177f0 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -84,7 +84,7 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
 def plot_renormalized_phonon_bands(structure, renormalized_force_constants):
 
     if '_band_ranges' in input_parameters:
-        band_ranges = input_parameters['_band_ranges']
+        band_ranges = input_parameters['_band_ranges']['ranges']
     else:
         band_ranges = structure.get_path_using_seek_path()['ranges']
 
-- 
2.43.0


From 50508949a40f98e2a0147c3c1d351da8c5e704ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 40/71] fix: cell mismatches of opposite sign do not cancel

---
 dynaphopy/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 3fca27d..bacda0d 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -210,8 +210,9 @@ class Dynamics:
             supercell_matrix_real = np.divide(parameters(self.get_supercell()), parameters(self.structure.get_cell()))
             self._supercell_matrix = np.around(supercell_matrix_real).astype("int")
 
-            if abs(sum(self._supercell_matrix - supercell_matrix_real)/np.linalg.norm(supercell_matrix_real)) > tolerance:
-                print(abs(sum(self._supercell_matrix - supercell_matrix_real) / np.linalg.norm(supercell_matrix_real)))
+            mismatch = np.sum(np.abs(self._supercell_matrix - supercell_matrix_real))
+            if mismatch / np.linalg.norm(supercell_matrix_real) > tolerance:
+                print(mismatch / np.linalg.norm(supercell_matrix_real))
                 print('Warning! Defined unit cell and MD supercell do not match!')
                 print('Cell size relation is not integer: {0}'.format(supercell_matrix_real))
                 exit()
-- 
2.43.0


From 154bff0be24cb04d7a198a1422c7d91923ce9327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 41/71] fix: compute the quasi-harmonic shift from the harmonic
 frequencies of the same wave vector

---
 dynaphopy/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 6e54bc5..73b83a0 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1474,7 +1474,10 @@ class Quasiparticle:
             qha_frequencies = pho_interface.obtain_eigenvectors_and_frequencies(structure_qha,
                                                                                 reduced_q_vector,
                                                                                 print_data=False)[1]
-            return qha_frequencies - self.get_frequencies()
+            frequencies = pho_interface.obtain_eigenvectors_and_frequencies(self.dynamic.structure,
+                                                                            reduced_q_vector,
+                                                                            print_data=False)[1]
+            return qha_frequencies - frequencies
         else:
             return None
 
-- 
2.43.0


From d3f79164935dbaa6e9f8e875683387fdf582b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 42/71] fix: do not average equivalent wave vectors that do not
 fit in the MD supercell

---
 dynaphopy/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 73b83a0..39e150a 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -637,6 +637,15 @@ class Quasiparticle:
 
         return commensurate
 
+    def _get_equivalent_q_points(self):
+        # The MD supercell may have less symmetry than the crystal: only commensurate points can be averaged
+        q_points_equivalent = pho_interface.get_equivalent_q_points_by_symmetry(self.get_reduced_q_vector(),
+                                                                                self.dynamic.structure)
+        if self.check_commensurate(self.get_reduced_q_vector()):
+            q_points_equivalent = [q_point for q_point in q_points_equivalent if self.check_commensurate(q_point)]
+
+        return q_points_equivalent
+
     # Projections related methods
     def get_vc(self):
         if self._vc is None:
@@ -740,8 +749,7 @@ class Quasiparticle:
             if self.parameters.use_symmetry:
                 initial_reduced_q_point = self.get_reduced_q_vector()
                 power_spectrum_phonon = []
-                q_points_equivalent = pho_interface.get_equivalent_q_points_by_symmetry(self.get_reduced_q_vector(),
-                                                                                        self.dynamic.structure)
+                q_points_equivalent = self._get_equivalent_q_points()
                 #                print(q_points_equivalent)
                 for q_point in q_points_equivalent:
                     self.set_reduced_q_vector(q_point)
@@ -768,8 +776,7 @@ class Quasiparticle:
             if self.parameters.use_symmetry:
                 initial_reduced_q_point = self.get_reduced_q_vector()
                 power_spectrum_wave_vector = []
-                q_points_equivalent = pho_interface.get_equivalent_q_points_by_symmetry(self.get_reduced_q_vector(),
-                                                                                        self.dynamic.structure)
+                q_points_equivalent = self._get_equivalent_q_points()
                 #  print(q_points_equivalent)
                 for q_point in q_points_equivalent:
                     self.set_reduced_q_vector(q_point)
-- 
2.43.0


From c9bb8b16a2d33ab3f11028010908dc7247b3d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 43/71] fix: free energy and entropy at low temperatures

---
 dynaphopy/analysis/thermal_properties.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/analysis/thermal_properties.py b/dynaphopy/analysis/thermal_properties.py
index c6dad4f..f4ac134 100644
--- a/dynaphopy/analysis/thermal_properties.py
+++ b/dynaphopy/analysis/thermal_properties.py
@@ -15,6 +15,11 @@ h_bar = 6.626070040e-22  # J * ps
 warnings.simplefilter("ignore")
 
 
+def log_2sinh(x):
+    # log(2 sinh(x)) without overflow
+    return x + np.log1p(-np.exp(-2.0 * x))
+
+
 def get_dos(temp, frequency, power_spectrum, n_size, bose_einstein_statistics=False):
 
     conversion_factor = 1.60217662e-19 # eV -> J
@@ -48,7 +53,7 @@ def get_total_energy(temperature, frequency, dos):
 
 def get_free_energy(temperature, frequency, dos):
 
-    free_energy = np.nan_to_num([dos[i] * k_b * temperature * np.log(2 * np.sinh(h_bar * freq / (2 * k_b * temperature)))
+    free_energy = np.nan_to_num([dos[i] * k_b * temperature * log_2sinh(h_bar * freq / (2 * k_b * temperature))
                                  for i, freq in enumerate(frequency)])
 
     free_energy[0] = 0
@@ -88,10 +93,10 @@ def get_free_energy_correction_dos(temperature, frequency, dos, dos_r):
 def get_entropy(temperature, frequency, dos):
 
     def coth(x):
-        return  np.cosh(x)/np.sinh(x)
+        return 1.0/np.tanh(x)
 
     entropy = np.nan_to_num([dos[i]*(1.0 / (2. * temperature) * h_bar * freq * coth(h_bar * freq / (2 * k_b * temperature))
-                                     - k_b * np.log(2 * np.sinh(h_bar * freq / (2 * k_b * temperature))))
+                                     - k_b * log_2sinh(h_bar * freq / (2 * k_b * temperature)))
                              for i, freq in enumerate(frequency)])
     entropy = simps(entropy, x=frequency) * N_a # J/K/mol
     return entropy
-- 
2.43.0


From e5b84a08bac6cc432cf26728b08a7ad356a0d07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 44/71] fix: free energy includes the first frequency when it
 is not zero

---
 dynaphopy/analysis/thermal_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/thermal_properties.py b/dynaphopy/analysis/thermal_properties.py
index f4ac134..ac9979b 100644
--- a/dynaphopy/analysis/thermal_properties.py
+++ b/dynaphopy/analysis/thermal_properties.py
@@ -56,7 +56,7 @@ def get_free_energy(temperature, frequency, dos):
     free_energy = np.nan_to_num([dos[i] * k_b * temperature * log_2sinh(h_bar * freq / (2 * k_b * temperature))
                                  for i, freq in enumerate(frequency)])
 
-    free_energy[0] = 0
+    free_energy[np.array(frequency) == 0] = 0
     free_energy = simps(free_energy, x=frequency) * N_a / 1000  # KJ/K/mol
     return free_energy
 
-- 
2.43.0


From f5b0f9d9555fa5272f9f965c4d6396ac32d9a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 45/71] fix: evaluate every column of the thermal properties
 table in the same frequency range

---
 dynaphopy/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 39e150a..6a0334d 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1350,8 +1350,11 @@ class Quasiparticle:
                   'Cv:                            {2:12.4f}  {5:12.4f}   J/K/mol\n'.format(
                 *(harmonic_properties + renormalized_properties)))
 
+        # May change the frequency range, so it is obtained before any of the properties
+        renormalized_force_constants = self.get_renormalized_force_constants()
+
         harmonic_properties = self.get_thermal_properties(normalize_dos=normalize_dos)
-        renormalized_properties = self.get_thermal_properties(force_constants=self.get_renormalized_force_constants(),
+        renormalized_properties = self.get_thermal_properties(force_constants=renormalized_force_constants,
                                                               normalize_dos=normalize_dos)
         frequency_range = self.get_frequency_range()
         resolution = frequency_range[1] - frequency_range[0]
-- 
2.43.0


From 874486a2228e6a261fef8faa4115c1892d34915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 46/71] fix: correction of the free energy with a normalized
 density of states

---
 dynaphopy/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 6a0334d..9de5b0b 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1314,6 +1314,11 @@ class Quasiparticle:
                                                              projected_on_atom=self.parameters.project_on_atom,
                                                              NAC=self.parameters.use_NAC)
 
+            if normalize_dos:
+                phonopy_dos_h[1] *= integration / (simps(phonopy_dos_h[1], x=phonopy_dos_h[0]) / (
+                        self.dynamic.structure.get_number_of_atoms() *
+                        self.dynamic.structure.get_number_of_dimensions()))
+
             free_energy += thm.get_free_energy_correction_dos(temperature, phonopy_dos_h[0], phonopy_dos_h[1],
                                                               phonopy_dos[1])
             total_energy += thm.get_free_energy_correction_dos(temperature, phonopy_dos_h[0], phonopy_dos_h[1],
-- 
2.43.0


From 345989e542ded1e7f6ccb76306872191e888fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 47/71] fix: cropping removes the temporary files no longer
 used

---
 dynaphopy/dynamics.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index bacda0d..a9fb23f 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -64,15 +64,21 @@ class Dynamics:
         except KeyError:
             self._temp_directory = ''
 
+    def _get_mapped_files(self):
+        mapped_arrays = [self._velocity, self._trajectory, self._scaled_trajectory,
+                         self._relative_trajectory, self._velocity_mass_average]
+        return set(mapped_array.filename for mapped_array in mapped_arrays
+                   if getattr(mapped_array, 'filename', None) is not None)
+
+    def _remove_files(self, file_names):
+        if self._memmap:
+            for file_name in file_names:
+                if os.path.isfile(file_name):
+                    os.remove(file_name)
+
     def __del__(self):
         #Clean all temporal files from memmap
-        if self._memmap:
-            for mapped_array in [self._velocity, self._trajectory, self._scaled_trajectory,
-                                 self._relative_trajectory, self._velocity_mass_average]:
-                filename = getattr(mapped_array, 'filename', None)
-                del mapped_array
-                if filename is not None and os.path.isfile(filename):
-                    os.remove(filename)
+        self._remove_files(self._get_mapped_files())
 
 # A bit messy, has to be fixed
     def crop_trajectory(self, last_steps):
@@ -80,6 +86,8 @@ class Dynamics:
         if last_steps is None or last_steps <= 0:
             return
 
+        mapped_files = self._get_mapped_files()
+
         if self._trajectory is not None:
             self._trajectory = self._trajectory[-last_steps:, :, :]
             self._relative_trajectory = None
@@ -109,16 +117,9 @@ class Dynamics:
         self._time_step_average = None
         self._mean_displacement_matrix = {}
 
-        if self._memmap:
-            filename = getattr(self._relative_trajectory, 'filename', None)
-            self._relative_trajectory = None
-            if filename is not None:
-                try:
-                    os.remove(filename)
-                except OSError:
-                    pass
-        else:
-            self._relative_trajectory = None
+        mapped_files.update(self._get_mapped_files())
+        self._relative_trajectory = None
+        self._remove_files(mapped_files.difference(self._get_mapped_files()))
 
         # print("Using {0} steps".format(self.velocity.shape[0]))
 
-- 
2.43.0


From 67b0ad9732ec4a339ac710f82f8eb6f17fc5b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 48/71] fix: sections that follow the bands of the input file

---
 dynaphopy/interface/iofile/__init__.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index a3d4be0..7ea526e 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -579,21 +579,15 @@ def read_parameters_from_input_file(file_name, number_of_dimensions=3):
         if "BANDS" in line:
             bands = []
             labels = []
-            while i < len(input_file)-1:
-                line = input_file[i + 1].replace('\n', '')
+            for band_line in input_file[i+1:]:
+                fields = band_line.replace('\n', '').split(':')
                 try:
-                    labels.append(line.split(':')[1].replace('\n','').split(','))
-                    line = line.split(':')[0]
-                except:
-                    pass
-                try:
-                    band = np.array(line.replace(',',' ').split(), dtype=float).reshape((2,3))
-                except IOError:
-                    break
+                    band = np.array(fields[0].replace(',',' ').split(), dtype=float).reshape((2,3))
                 except ValueError:
                     break
-                i += 1
                 bands.append(band)
+                if len(fields) > 1:
+                    labels.append(fields[1].split(','))
             labels = [(label[0].replace(' ',''), label[1].replace(' ','')) for label in labels]
 
             if labels != []:
-- 
2.43.0


From b8364813404cef5611a35f84188569e9cb8646f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 49/71] fix: every branch appears once when bands are ordered
 by eigenvector

---
 dynaphopy/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 9de5b0b..ad8d7d1 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -11,6 +11,7 @@ import dynaphopy.analysis.thermal_properties as thm
 import numpy as np
 import matplotlib.pyplot as plt
 
+from scipy.optimize import linear_sum_assignment
 
 from dynaphopy.power_spectrum import power_spectrum_functions
 try:
@@ -419,7 +420,7 @@ class Quasiparticle:
                 if i > 0:
                     ref = bands[3][i-1][-1]
                     metric = np.abs(np.dot(ref.conjugate().T, ev_bands[0]))
-                    order = np.argmax(metric, axis=1)
+                    order = linear_sum_assignment(-metric)[1]
                     bands[2][i] = bands[2][i].T[order].T
                     bands[3][i] = bands[3][i].T[order].T
 
@@ -442,7 +443,7 @@ class Quasiparticle:
             metric = np.zeros_like(np.abs(np.dot(ev_bands[0].conjugate().T, ev_renormalized[0])))
             for ev_ref, ev in zip(ev_bands, ev_renormalized):
                 metric += np.abs(np.dot(ev_ref.conjugate().T, ev))
-            order = np.argmax(metric, axis=1,)
+            order = linear_sum_assignment(-metric)[1]
             return order
 
         def set_order(bands, renormalized_bands):
-- 
2.43.0


From e89002ef8f1e418d419c33ac67c73b3d2bc429ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 50/71] fix: linewidths of a mesh in the order of the
 frequencies

---
 dynaphopy/__init__.py               | 23 +++++++++++++++--------
 dynaphopy/interface/phonopy_link.py |  4 ++--
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index ad8d7d1..0cd69a3 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -561,10 +561,11 @@ class Quasiparticle:
                                                                    fc_supercell,
                                                                    symmetrize=self.parameters.symmetrize)
 
-        _, _, linewidths_mesh = pho_interface.obtain_phonopy_mesh_from_force_constants(self.dynamic.structure,
-                                                                                       force_constants=linewidths_fc,
-                                                                                       mesh=self.parameters.mesh_phonopy,
-                                                                                       NAC=None)
+        _, _, linewidths_mesh, ev_linewidths = pho_interface.obtain_phonopy_mesh_from_force_constants(
+            self.dynamic.structure,
+            force_constants=linewidths_fc,
+            mesh=self.parameters.mesh_phonopy,
+            NAC=None)
 
         frequencies_fc = pho_interface.get_renormalized_force_constants(renormalized_frequencies,
                                                                         eigenvectors,
@@ -572,10 +573,16 @@ class Quasiparticle:
                                                                         fc_supercell,
                                                                         symmetrize=self.parameters.symmetrize)
 
-        qpoints, multiplicity, frequencies_mesh = pho_interface.obtain_phonopy_mesh_from_force_constants(self.dynamic.structure,
-                                                                                        force_constants=frequencies_fc,
-                                                                                        mesh=self.parameters.mesh_phonopy,
-                                                                                        NAC=None)
+        qpoints, multiplicity, frequencies_mesh, ev_mesh = pho_interface.obtain_phonopy_mesh_from_force_constants(
+            self.dynamic.structure,
+            force_constants=frequencies_fc,
+            mesh=self.parameters.mesh_phonopy,
+            NAC=None)
+
+        # each linewidth belongs to the frequency with the same eigenvector
+        for i in range(len(qpoints)):
+            overlap = np.abs(np.dot(ev_mesh[i].conjugate().T, ev_linewidths[i])) ** 2
+            linewidths_mesh[i] = linewidths_mesh[i][linear_sum_assignment(-overlap)[1]]
 
         return qpoints, multiplicity, frequencies_mesh, linewidths_mesh
 
diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index dd526aa..9225f2f 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -292,10 +292,10 @@ def obtain_phonopy_mesh_from_force_constants(structure, force_constants, mesh=(4
                         NAC=NAC)
     phonon.set_force_constants(force_constants.get_array())
 
-    phonon.run_mesh(mesh)
+    phonon.run_mesh(mesh, with_eigenvectors=True)
     mesh_dict = phonon.get_mesh_dict()
 
-    return mesh_dict['qpoints'], mesh_dict['weights'], mesh_dict['frequencies']
+    return mesh_dict['qpoints'], mesh_dict['weights'], mesh_dict['frequencies'], mesh_dict['eigenvectors']
 
 
 def obtain_phonon_dispersion_bands(structure, bands_ranges, force_constants=None,
-- 
2.43.0


From 7fdc029a4836772c16451e8dce5b2d9ab9ffcb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 51/71] fix: bands file holds plain numbers for the ends of the
 segments

---
 dynaphopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 0cd69a3..17fda40 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -520,7 +520,8 @@ class Quasiparticle:
         for i, q_path in enumerate(_bands[1]):
 
             band = {'q_path_distances': q_path.tolist(),
-                    'q_bounds': {'inf': list(band_ranges[i][0]), 'sup': list(band_ranges[i][1])},
+                    'q_bounds': {'inf': np.array(band_ranges[i][0], dtype=float).tolist(),
+                                 'sup': np.array(band_ranges[i][1], dtype=float).tolist()},
                     'harmonic_frequencies': {'branch_{}'.format(key): value.tolist() for (key, value) in
                                              enumerate(_bands[2][i].T)},
                     'renormalized_frequencies': {'branch_{}'.format(key): value.tolist() for (key, value) in
-- 
2.43.0


From b43c90498e962ce56d76e878b9c32274fa5f890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 52/71] fix: extra properties are only written when requested

---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 17fda40..1884f91 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1275,7 +1275,7 @@ class Quasiparticle:
         pho_interface.save_force_constants_to_file(force_constants, filename)
 
     def write_quasiparticles_data(self, filename="quasiparticles_data.yaml", with_extra=False):
-        quasiparticle_data = self.get_commensurate_points_data()
+        quasiparticle_data = dict(self.get_commensurate_points_data())
         if with_extra:
             quasiparticle_data.update(self.get_commensurate_points_properties())
         reading.save_quasiparticle_data_to_file(quasiparticle_data, filename)
-- 
2.43.0


From 3f37422d08564c24cd4a10bf6bfed332a2a0573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 53/71] fix: group velocities in the order of the frequencies

---
 dynaphopy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1884f91..04273a6 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1263,7 +1263,9 @@ class Quasiparticle:
                                                              reduced_q_vector,
                                                              force_constants=self.get_renormalized_force_constants())
 
-            group_velocity_list.append(gv)
+            # phonopy sorts the modes by their (renormalized) frequency
+            order = np.argsort(np.argsort(self.get_commensurate_points_data()['frequencies'][i]))
+            group_velocity_list.append(gv[order])
             q_points_list.append(reduced_q_vector)
 
         return {'group_velocity': group_velocity_list,
-- 
2.43.0


From 1d8fc7fd186be8d73194ffd5fa18fff364bb0f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:13 +0000
Subject: [PATCH 54/71] fix: automatic band path for any unit and primitive
 cell

---
 dynaphopy/atoms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index fbe5a04..156615c 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -361,9 +361,11 @@ class Structure:
             positions = self.get_scaled_positions()
             numbers = np.unique(self.get_atomic_elements(), return_inverse=True)[1]
             structure = (cell, positions, numbers)
-            path_data = seekpath.get_path(structure)
+            path_data = seekpath.get_path_orig_cell(structure)
 
-            labels = path_data['point_coords']
+            # wave vectors in reciprocal vectors of the primitive cell instead of the unit cell
+            labels = {label: np.dot(coordinates, self.get_primitive_matrix()).tolist()
+                      for label, coordinates in path_data['point_coords'].items()}
 
             band_ranges = []
             for set in path_data['path']:
-- 
2.43.0


From 67b470f26829c4d0a675222baccbbc5dbe6411d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 55/71] fix: count each equivalent wave vector once whatever
 the rounding

---
 dynaphopy/__init__.py               | 2 +-
 dynaphopy/interface/phonopy_link.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 04273a6..981b0b9 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1512,7 +1512,7 @@ class Quasiparticle:
 def _vector_in_list(vector_test_list, vector_full_list):
     for vector_test in vector_test_list:
         for i, vector_full in enumerate(vector_full_list):
-            if (vector_full == vector_test).all():
+            if np.allclose(vector_full, vector_test, rtol=0, atol=1e-8):
                 return i
     return 0
 
diff --git a/dynaphopy/interface/phonopy_link.py b/dynaphopy/interface/phonopy_link.py
index 9225f2f..7f7b304 100644
--- a/dynaphopy/interface/phonopy_link.py
+++ b/dynaphopy/interface/phonopy_link.py
@@ -355,12 +355,13 @@ def get_equivalent_q_points_by_symmetry(q_point, structure, symprec=None):
         operation_matrix_q = np.dot(operation_matrix_q, structure.get_primitive_matrix())
 
         q_point_test = np.dot(q_point, operation_matrix_q)
+        # The products leave rounding errors: the same point must not be counted twice (or missed on a zero component)
+        q_point_test = np.where(np.abs(q_point_test) < 1e-8, 0, q_point_test)
 
-        if (q_point_test >= 0).all():
+        if (q_point_test >= 0).all() and not np.isclose(tot_points, q_point_test, rtol=0, atol=1e-8).all(axis=1).any():
                 tot_points.append(list(q_point_test))
 
-    tot_points_unique = [list(x) for x in set(tuple(x) for x in tot_points)]
-    return tot_points_unique
+    return tot_points
 
 
 def get_renormalized_force_constants(renormalized_frequencies, eigenvectors, structure, fc_supercell, symmetrize=False):
-- 
2.43.0


From de1e0912cc6f868ec945241342126e52a8bfe552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 56/71] fix: qha_extract sorts the force constants with the
 volumes

---
 scripts/qha_extract | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/qha_extract b/scripts/qha_extract
index 7178267..c7a4d37 100755
--- a/scripts/qha_extract
+++ b/scripts/qha_extract
@@ -128,7 +128,7 @@ for filename in fc_filenames:
     force_constants = phonopy_link.get_force_constants_from_file(filename, fc_supercell=fc_supercell)
     force_constants_mat.append(force_constants.get_array())
 
-force_constants_mat = np.array(force_constants_mat).T
+force_constants_mat = np.array(force_constants_mat)[sort_index].T
 f_temperature = interp1d(volumes, force_constants_mat, kind='quadratic')
 
 # Get force constants at the requested temperature
-- 
2.43.0


From c9f542acedaeed2026fad576f25ce3a60ca41831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 57/71] fix: time axis of the trajectory and projection plots

---
 dynaphopy/__init__.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 981b0b9..2b1b299 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -685,8 +685,7 @@ class Quasiparticle:
         plt.xlabel('Time [ps]')
         plt.ylabel('$u^{1/2}\AA/ps$')
 
-        time = np.linspace(0, self.get_vc().shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.get_vc().shape[0])
+        time = np.arange(self.get_vc().shape[0]) * self.dynamic.get_time_step_average()
 
         for mode in modes:
             plt.plot(time, self.get_vq()[:, mode].real, label='mode: ' + str(mode))
@@ -698,8 +697,7 @@ class Quasiparticle:
             atoms = [0]
         if not coordinates:
             coordinates = [0]
-        time = np.linspace(0, self.get_vc().shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.get_vc().shape[0])
+        time = np.arange(self.get_vc().shape[0]) * self.dynamic.get_time_step_average()
 
         plt.suptitle('Wave vector projection')
         plt.xlabel('Time [ps]')
@@ -977,8 +975,7 @@ class Quasiparticle:
         if coordinates is None: coordinates = [0]
 
         plt.suptitle('Trajectory')
-        time = np.linspace(0, self.dynamic.trajectory.shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.dynamic.trajectory.shape[0])
+        time = np.arange(self.dynamic.trajectory.shape[0]) * self.dynamic.get_time_step_average()
         for atom in atoms:
             for coordinate in coordinates:
                 plt.plot(time, self.dynamic.trajectory[:, atom, coordinate].real,
@@ -994,8 +991,7 @@ class Quasiparticle:
         if not coordinates: coordinates = [0]
 
         plt.suptitle('Velocity')
-        time = np.linspace(0, self.dynamic.velocity.shape[0] * self.dynamic.get_time_step_average(),
-                           num=self.dynamic.velocity.shape[0])
+        time = np.arange(self.dynamic.velocity.shape[0]) * self.dynamic.get_time_step_average()
 
         for atom in atoms:
             for coordinate in coordinates:
-- 
2.43.0


From f4471380416b916bca03218d56597ebdac4a552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 58/71] fix: draw the arrows of the phonon modes with current
 matplotlib

---
 dynaphopy/analysis/modes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/analysis/modes.py b/dynaphopy/analysis/modes.py
index 73dcd61..017df32 100644
--- a/dynaphopy/analysis/modes.py
+++ b/dynaphopy/analysis/modes.py
@@ -10,10 +10,14 @@ class Arrow3D(FancyArrowPatch):
         FancyArrowPatch.__init__(self, (0.0, 0.0), (0.0, 0.0), *args, **kwargs)
         self._verts3d = xs, ys, zs
 
-    def draw(self, renderer):
+    def do_3d_projection(self, renderer=None):
         xs3d, ys3d, zs3d = self._verts3d
-        xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, renderer.M)
+        xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, self.axes.M)
         self.set_positions((xs[0], ys[0]), (xs[1], ys[1]))
+        return min(zs)
+
+    def draw(self, renderer):
+        self.do_3d_projection()
         FancyArrowPatch.draw(self, renderer)
 
 
-- 
2.43.0


From 066e1f5a08d812ad45146ceb398c50deb23bb054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 59/71] fix: phonon mode arrows use the mass of each atom

---
 dynaphopy/analysis/modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/modes.py b/dynaphopy/analysis/modes.py
index 017df32..8217be8 100644
--- a/dynaphopy/analysis/modes.py
+++ b/dynaphopy/analysis/modes.py
@@ -80,7 +80,7 @@ def plot_phonon_modes(structure, eigenvectors, q_vector,
         for i, position in enumerate(positions):
             eigenvector_atom = np.array(eigenvectors[i_phonon, atom_type[i], :])
             phase = 1.j * np.dot(position, q_vector)
-            vector = (eigenvector_atom / np.sqrt(masses[atom_type[i]]) * np.exp(phase) * vectors_scale).real
+            vector = (eigenvector_atom / np.sqrt(masses[i]) * np.exp(phase) * vectors_scale).real
  #           vector = np.dot(vector, np.linalg.inv(structure.get_primitive_matrix().T))
             a = Arrow3D([position[0], position[0]+vector[0]], [position[1], position[1]+vector[1]],
                         [position[2], position[2]+vector[2]], mutation_scale=20, lw=3, arrowstyle="-|>", color="r")
-- 
2.43.0


From 04e74a669ec9bed6e1b8f18aca7f2612356522cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 60/71] fix: coefficient scan of phonons without spectrum

---
 dynaphopy/power_spectrum/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/power_spectrum/__init__.py b/dynaphopy/power_spectrum/__init__.py
index 28b69e9..3ec0c02 100644
--- a/dynaphopy/power_spectrum/__init__.py
+++ b/dynaphopy/power_spectrum/__init__.py
@@ -145,7 +145,7 @@ def mem_coefficient_scan_analysis(vq, trajectory, parameters):
             fitting_parameters = fitting_function.get_fitting()
 
 
-            if not fitting_parameters['all_good']:
+            if not fitting_parameters['all_good'] or not np.isfinite(fitting_parameters['global_error']):
                 print('Warning: Fitting error, skipping point {0}'.format(number_of_coefficients))
                 continue
 
-- 
2.43.0


From ac2fb8edd08e1c5f09e396dc8fbc07aacd2adef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:48 +0000
Subject: [PATCH 61/71] fix: interactive change of the number of MEM
 coefficients clears the old spectra

---
 dynaphopy/interface/interactive_ui.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dynaphopy/interface/interactive_ui.py b/dynaphopy/interface/interactive_ui.py
index 809e984..8ae16d7 100755
--- a/dynaphopy/interface/interactive_ui.py
+++ b/dynaphopy/interface/interactive_ui.py
@@ -308,8 +308,7 @@ def interactive_interface(calculation, trajectory, args, structure_file):
 
                 # SUB OPT 3 : # Number of MEM coefficients
                 if x2 == ord('3'):
-               # calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
-                    calculation.parameters.number_of_coefficients_mem = int(get_param(screen, "Insert number of coefficients"))
+                    calculation.set_number_of_mem_coefficients(int(get_param(screen, "Insert number of coefficients")))
                     curses.endwin()
 
                 # SUB OPT 4 : # Number of bins histogram (coordinates and Boltzmann dist.)
-- 
2.43.0


From 98acd2b2c3925be28d03cb76cb3f0e22c3bcd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 62/71] fix: order of the atoms of LAMMPS runs follows their id

---
 dynaphopy/interface/lammps_link.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index a60f60c..1adef14 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -94,7 +94,7 @@ def generate_lammps_trajectory(structure,
 
     na = lmp.get_natoms()
     id = lmp.extract_atom("id", 0)
-    id = np.array([id[i] - 1 for i in range(na)], dtype=int)
+    id = np.argsort([id[i] for i in range(na)])
 
     xp = lmp.extract_atom("x", 3)
     reference = np.array([[xp[i][0], xp[i][1], xp[i][2]] for i in range(na)], dtype=float)[id, :]
@@ -123,7 +123,7 @@ def generate_lammps_trajectory(structure,
         energy.append(lmp.extract_variable('energy', 'all', 0))
 
         id = lmp.extract_atom("id", 0)
-        id = np.array([id[i] - 1 for i in range(na)], dtype=int)
+        id = np.argsort([id[i] for i in range(na)])
 
         vc = lmp.extract_atom("v", 3)
         velocity.append(np.array([[vc[i][0], vc[i][1], vc[i][2]] for i in range(na)], dtype=float)[id, :][indexing, :])
-- 
2.43.0


From d83cab215c692bccb1eef8f4381b1ffafdbb7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 63/71] fix: number of steps of LAMMPS runs does not depend on
 rounding

---
 dynaphopy/interface/lammps_link.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/lammps_link.py b/dynaphopy/interface/lammps_link.py
index 1adef14..f683b57 100644
--- a/dynaphopy/interface/lammps_link.py
+++ b/dynaphopy/interface/lammps_link.py
@@ -105,13 +105,13 @@ def generate_lammps_trajectory(structure,
     template = get_correct_arrangement(reference, structure, supercell=supercell)
     indexing = np.argsort(template)
 
-    lmp.command('variable energy equal pe'.format(int(relaxation_time/time_step)))
-    lmp.command('run {}'.format(int(relaxation_time/time_step)))
+    lmp.command('variable energy equal pe'.format(int(round(relaxation_time/time_step))))
+    lmp.command('run {}'.format(int(round(relaxation_time/time_step))))
 
     if not silent:
         _progress_bar(0, 'lammps')
 
-    n_loops = int(total_time / time_step / sampling_interval)
+    n_loops = int(round(total_time / time_step)) // sampling_interval
     for i in range(n_loops):
         if not silent:
             _progress_bar(float((i+1) * time_step * sampling_interval) / total_time, 'lammps', )
-- 
2.43.0


From 92f0b17d3f664625460d448ac4b54463b5539a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 64/71] fix: number of atoms of force sets of supercells that
 are not diagonal

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 156615c..c84772f 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -185,7 +185,7 @@ class Structure:
 
         if not isinstance(self._force_sets,type(None)):
             force_atoms_file = self._force_sets.get_dict()['natom']
-            force_atoms_input = np.prod(np.diagonal(self._force_sets.get_supercell())) * self.get_number_of_atoms()
+            force_atoms_input = int(round(abs(np.linalg.det(self._force_sets.get_supercell())))) * self.get_number_of_atoms()
 
             if force_atoms_file != force_atoms_input:
                 print("Error: FORCE_SETS file does not match with SUPERCELL MATRIX")
-- 
2.43.0


From 278a762782d3518b71c6800fedfd331259770feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:43 +0000
Subject: [PATCH 65/71] fix: rfc_calc draws all the bands in one set of axes

---
 scripts/rfc_calc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 2d177f0..a6b69c1 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -101,8 +101,8 @@ def plot_renormalized_phonon_bands(structure, renormalized_force_constants):
     for i,freq in enumerate(renormalized_bands[1]):
         plt.plot(bands[1][i],bands[2][i],color ='b', label='Harmonic (0K)')
         plt.plot(renormalized_bands[1][i],renormalized_bands[2][i],color ='r', label='Renormalized')
-        plt.axes().get_xaxis().set_visible(False)
-    plt.axes().get_xaxis().set_ticks([])
+        plt.gca().get_xaxis().set_visible(False)
+    plt.gca().get_xaxis().set_ticks([])
     plt.ylabel('Frequency [THz]')
     plt.xlabel('Wave vector')
     plt.xlim([0, renormalized_bands[1][-1][-1]])
-- 
2.43.0


From a745e1f227ca50efa4a539927707080a46fe7832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 66/71] fix: maximum number of steps read from trajectory files

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index b1adaf9..9ce3ce2 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -102,7 +102,7 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
             energy.append(np.array(read_energy, dtype=float))
 
             #security routine to limit maximum of steps to read and put in memory
-            if limit_number_steps+initial_cut < counter:
+            if limit_number_steps <= counter - max(initial_cut, 1) + 1:
                 print("Warning! maximum number of steps reached! No more steps will be read")
                 break
 
@@ -315,7 +315,7 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
                 # print(read_coordinates)
 
             #security routine to limit maximum of steps to read and put in memory
-            if limit_number_steps+initial_cut < counter:
+            if limit_number_steps <= counter - max(initial_cut, 1) + 1:
                 print("Warning! maximum number of steps reached! No more steps will be read")
                 break
 
@@ -463,7 +463,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
                 # print(read_coordinates)
 
             #security routine to limit maximum of steps to read and put in memory
-            if limit_number_steps+initial_cut < counter:
+            if limit_number_steps <= counter - max(initial_cut, 1) + 1:
                 print("Warning! maximum number of steps reached! No more steps will be read")
                 break
 
-- 
2.43.0


From 1973b2b758570f5854814e88669a0c4d0a688082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:14 +0000
Subject: [PATCH 67/71] fix: force constants of another supercell are refused
 as force sets are

---
 dynaphopy/atoms.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index c84772f..3d10b2b 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -176,6 +176,15 @@ class Structure:
         self._force_constants = force_constants
 
     def get_force_constants(self):
+
+        if self._force_constants is not None and self._force_constants.get_supercell() is not None:
+            force_atoms_file = self._force_constants.get_array().shape[1]
+            force_atoms_input = int(round(abs(np.linalg.det(self._force_constants.get_supercell())))) * self.get_number_of_atoms()
+
+            if force_atoms_file != force_atoms_input:
+                print("Error: FORCE_CONSTANTS file does not match with SUPERCELL MATRIX")
+                exit()
+
         return self._force_constants
 
     def set_force_set(self, force_set):
-- 
2.43.0


From db0693e074ab73f2487bd7cafbc688332466c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 68/71] fix: elements of structures given by atomic numbers

---
 dynaphopy/atoms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 3d10b2b..cc2f0a4 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -57,6 +57,8 @@ class Structure:
             self._atomic_elements = []
             for i in masses:
                 self._atomic_elements.append(min(atom_data, key=lambda j: abs(j[3] - i))[1])
+        elif atomic_elements is None and atomic_numbers is not None:
+            self._atomic_elements = [atom_data[i][1] for i in atomic_numbers]
 
         # Get atomic numbers and masses from available information
         if atomic_numbers is None and self._atomic_elements is not None:
-- 
2.43.0


From 2f22e2259e6bf189898e04aec98ec1290f79e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 69/71] fix: positions set after they were read

---
 dynaphopy/atoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index cc2f0a4..e46521f 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -134,6 +134,7 @@ class Structure:
 
     # Positions related methods
     def set_positions(self, cart_positions):
+        self._positions = np.array(cart_positions, dtype='double')
         self._scaled_positions = np.dot(cart_positions, np.linalg.inv(self.get_cell()))
 
     def get_positions(self, supercell=None):
-- 
2.43.0


From 2e643f07049fdd56b87168f120c055c3c01b8287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 70/71] fix: acoustic modes at Gamma below which there are
 imaginary ones

---
 dynaphopy/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 2b1b299..4aec5df 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1192,12 +1192,10 @@ class Quasiparticle:
                 widths = data['widths']
                 if (reduced_q_vector == [0, 0, 0]).all():
                     print('Fixing gamma point 0 frequencies')
-                    positions[0] = 0.
-                    positions[1] = 0.
-                    positions[2] = 0.
-                    widths[0] = 0.
-                    widths[1] = 0.
-                    widths[2] = 0.
+                    # Acoustic modes: optical ones may be below them (imaginary harmonic frequencies)
+                    for i in np.argsort(np.abs(self.get_frequencies()))[:3]:
+                        positions[i] = 0.
+                        widths[i] = 0.
 
                 renormalized_frequencies.append(positions)
                 linewidths.append(widths)
-- 
2.43.0


From 16e32331d9ebb9ac7b5f81adc0d5875f4e4a4e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:04 +0000
Subject: [PATCH 71/71] fix: isotopes exported to LAMMPS keep their own mass

---
 dynaphopy/generate_cell.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/generate_cell.py b/dynaphopy/generate_cell.py
index 12db74b..10b7c88 100644
--- a/dynaphopy/generate_cell.py
+++ b/dynaphopy/generate_cell.py
@@ -38,7 +38,10 @@ def generate_VASP_structure(structure, scaled=False, supercell=(1, 1, 1)):
 
 def generate_LAMMPS_structure(structure, supercell=(1, 1, 1)):
 
-    types = structure.get_atomic_elements(supercell=supercell)
+    masses = structure.get_masses(supercell=supercell)
+
+    # One type per element and mass (isotopes)
+    types = ['{0} {1}'.format(*atom) for atom in zip(structure.get_atomic_elements(supercell=supercell), masses)]
 
     type_index_unique = np.unique(types, return_index=True)[1]
 
@@ -58,7 +61,6 @@ def generate_LAMMPS_structure(structure, supercell=(1, 1, 1)):
     for i, v in enumerate(atom_index_unique):
         index_dict[types[v]] = i + 1
 
-    masses = structure.get_masses(supercell=supercell)
     charges = structure.get_charges(supercell=supercell)
 
     positions = structure.get_positions(supercell=supercell)
-- 
2.43.0

