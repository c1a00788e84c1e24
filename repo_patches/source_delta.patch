From a2d7b64117a43ae48cac6952d369f28ec4e20238 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 01/42] fix: mem: read the samples Data[0..N-1] instead of
 Data[1..N] (heap over-read, first sample ignored)

---
 c/mem.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c/mem.c b/c/mem.c
index ba344f2..57c3db0 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -207,15 +207,15 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
     double  *wkm = malloc(NumberOfCoefficients*sizeof(double));
 
 
-    for (j=1; j <= NumberOfData; j++) p += pow(Data[j], 2);
+    for (j=0; j < NumberOfData; j++) p += pow(Data[j], 2);
     MeanSquareDiscrepancy = p / NumberOfData;
 
-    wk1[1] = Data[1];
-    wk2[NumberOfData-1] = Data[NumberOfData];
+    wk1[1] = Data[0];
+    wk2[NumberOfData-1] = Data[NumberOfData-1];
 
     for (j=2; j <= NumberOfData-1; j++) {
-        wk1[j]=Data[j];
-        wk2[j-1]=Data[j];
+        wk1[j]=Data[j-1];
+        wk2[j-1]=Data[j-1];
     }
 
     for (k=1; k <= NumberOfCoefficients; k++) {
-- 
2.43.0


From 2c9d925c5a56390c8db04a430e2de0ae64af201a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 02/42] fix: mem: release the work arrays on every path

---
 c/mem.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/mem.c b/c/mem.c
index 57c3db0..4210fbf 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -173,6 +173,7 @@ static PyObject* MaximumEntropyMethod (PyObject* self, PyObject *arg, PyObject *
 
     // Free memory
     free(Velocity_r);
+    free(Velocity_i);
     free(Coefficients_r);
     free(Coefficients_i);
 
@@ -226,7 +227,12 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
             Denominator += pow(wk1[j],2) + pow(wk2[j], 2);
         }
 
-        if (fabs(Denominator) < 1.0e-6) return 0.0;
+        if (fabs(Denominator) < 1.0e-6) {
+            free(wk1);
+            free(wk2);
+            free(wkm);
+            return 0.0;
+        }
 
         Coefficients[k] = 2.0 * Numerator / Denominator;
 
-- 
2.43.0


From e516a994750dcaf1006e5b0235daaf9884c62ef3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 03/42] fix: correlation: use the phase exp(i w t) of each lag,
 and give both integration rules the same weight

---
 c/correlation.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/c/correlation.c b/c/correlation.c
index 02261d5..eaf7296 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -152,22 +152,21 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
 // Averaged
 double EvaluateCorrelation (double Frequency, _Dcomplex * Velocity, int NumberOfData, double TimeStep, int Increment, int IntMethod) {
     _Dcomplex Correl = _Cbuild(0.0, 0.0);
-    _Dcomplex Correl_i, Correl_j;
+    _Dcomplex Correl_i;
     for (int i = 0; i < NumberOfData; i += Increment) {
         for (int j = 0; j < (NumberOfData-i-Increment); j++) {
-            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
+            Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency*(i*TimeStep))));
             Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
             switch (IntMethod) {
                 case 0: //	Trapezoid Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1)));
-                    Correl_j = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency * (i+Increment), 1)));
-                    Correl = _Cbuild(creal(Correl) + creal(Correl_i) + creal(Correl_j), cimag(Correl) + cimag(Correl_i) + cimag(Correl_j));
+                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i+Increment]), cexp(_Cbuild(0, Frequency * ((i+Increment)*TimeStep))));
+                    Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
 
                     //Correl += (conj(Velocity[j]) * Velocity[j+i+Increment] * cexp(_Cbuild(Frequency * ((i+Increment)*TimeStep), 1))
                     //           +   conj(Velocity[j]) * Velocity[j+i]           * cexp(_Complex_I*Frequency * (i*TimeStep) ))/2.0 ;
                     break;
                 case 1: //	Rectangular Integration
-                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(Frequency*(i*TimeStep), 1)));
+                    Correl_i = _Cmulcc(_Cmulcc(conj(Velocity[j]), Velocity[j+i]), cexp(_Cbuild(0, Frequency*(i*TimeStep))));
                     Correl = _Cbuild(creal(Correl) + creal(Correl_i), cimag(Correl) + cimag(Correl_i));
                     // Correl +=  conj(Velocity[j]) * Velocity[j+i] * cexp(_Complex_I*Frequency * (i*TimeStep));
                     break;
-- 
2.43.0


From 16c2c0c61fc280ce03aef03a56d51aef68903412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 04/42] fix: supercell lattice vectors are the rows of the cell
 multiplied by the supercell, not its columns

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 3d5b51e..66a9f2d 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -88,7 +88,7 @@ class Structure:
     def get_cell(self, supercell=None):
 
         if supercell is not None:
-            return np.dot(self._cell, np.diag(supercell))
+            return np.dot(np.diag(supercell), self._cell)
 
         return self._cell
 
-- 
2.43.0


From 93094a024245ce9425c7e3e76d1bf20448d9ca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 05/42] fix: atom type index compares unit cell masses whatever
 supercell is requested first

---
 dynaphopy/atoms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 66a9f2d..7b055c8 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -285,7 +285,7 @@ class Structure:
     def get_atom_type_index(self, supercell=None):
 
         # Tolerance for accepting equivalent atoms in super cell
-        masses = self.get_masses(supercell=supercell)
+        masses = self.get_masses()
         tolerance = 0.001
         if self._atom_type_index is None:
             primitive_cell_inverse = np.linalg.inv(self.get_primitive_cell())
-- 
2.43.0


From a8579a75cdc5cccb21a4baf0a201d50002dd4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 06/42] fix: unit cell / MD cell mismatches along different
 axes no longer cancel out

---
 dynaphopy/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 9771bcf..4153099 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -194,8 +194,8 @@ class Dynamics:
             supercell_matrix_real = np.divide(parameters(self.get_supercell()), parameters(self.structure.get_cell()))
             self._supercell_matrix = np.around(supercell_matrix_real).astype("int")
 
-            if abs(sum(self._supercell_matrix - supercell_matrix_real)/np.linalg.norm(supercell_matrix_real)) > tolerance:
-                print(abs(sum(self._supercell_matrix - supercell_matrix_real) / np.linalg.norm(supercell_matrix_real)))
+            if sum(abs(self._supercell_matrix - supercell_matrix_real))/np.linalg.norm(supercell_matrix_real) > tolerance:
+                print(sum(abs(self._supercell_matrix - supercell_matrix_real)) / np.linalg.norm(supercell_matrix_real))
                 print('Warning! Defined unit cell and MD supercell do not match!')
                 print('Cell size relation is not integer: {0}'.format(supercell_matrix_real))
                 exit()
-- 
2.43.0


From e8b0499b6a7b6f311f4f51d9115091797af2b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 07/42] fix: cropping a memory mapped trajectory before its
 displacements were computed

---
 dynaphopy/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 4153099..bcdd357 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -94,7 +94,7 @@ class Dynamics:
 
         self._velocity_mass_average = None
 
-        if self._memmap:
+        if self._memmap and self._relative_trajectory is not None:
             filename = self._relative_trajectory.filename
             self._relative_trajectory = None
             try:
-- 
2.43.0


From 818121952f028d890c5a9fb807638a8a30c4c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 08/42] fix: mean displacement matrix follows the requested
 reference positions and the cropped trajectory

---
 dynaphopy/dynamics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index bcdd357..b608e00 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -29,6 +29,7 @@ class Dynamics:
         self._supercell_matrix = None
         self._number_of_atoms = None
         self._mean_displacement_matrix = None
+        self._mean_displacement_average = None
 
         if structure is not None:
             self._structure = structure
@@ -93,6 +94,7 @@ class Dynamics:
         self.velocity = self.velocity[-last_steps:, :, :]
 
         self._velocity_mass_average = None
+        self._mean_displacement_matrix = None
 
         if self._memmap and self._relative_trajectory is not None:
             filename = self._relative_trajectory.filename
@@ -206,7 +208,7 @@ class Dynamics:
 
     def get_mean_displacement_matrix(self, use_average_positions=False):
 
-        if self._mean_displacement_matrix is None:
+        if self._mean_displacement_matrix is None or self._mean_displacement_average != use_average_positions:
 
             atom_type = self.structure.get_atom_type_index()
             number_atom_primitive_equivalent = np.unique(atom_type, return_counts=True)[1]
@@ -235,6 +237,7 @@ class Dynamics:
                                                                              ).real / primtive_normalization
 
             self._mean_displacement_matrix = mean_displacement_matrix / (number_of_equivalent_atoms * number_of_data)
+            self._mean_displacement_average = use_average_positions
 
         return self._mean_displacement_matrix
 
-- 
2.43.0


From f997530a968e11893b063698f33513087c667241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 09/42] fix: average positions from samples
 (np.random.random_integers no longer exists)

---
 dynaphopy/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index b608e00..437bed7 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -257,7 +257,7 @@ class Dynamics:
             if length < number_of_samples:
                 number_of_samples = length
             normalized_trajectory = normalized_trajectory
-            samples = np.random.random_integers(length, size=(number_of_samples,))-1
+            samples = np.random.randint(0, length, size=(number_of_samples,))
             normalized_trajectory = normalized_trajectory[samples, :]
 
         averaged_positions = np.average(normalized_trajectory, axis=0)
-- 
2.43.0


From 32b8d983f72fb3b08076c18c6f790932d2e6af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 10/42] fix: save_renormalized_frequencies setter stores the
 parameter that is read

---
 dynaphopy/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/parameters.py b/dynaphopy/parameters.py
index a8e014c..7868725 100644
--- a/dynaphopy/parameters.py
+++ b/dynaphopy/parameters.py
@@ -268,7 +268,7 @@ class Parameters(metaclass=Singleton):
 
     @save_renormalized_frequencies.setter
     def save_renormalized_frequencies(self, save_renormalized_frequencies):
-        self._save_renormalized_frequenciese = save_renormalized_frequencies
+        self._save_renormalized_frequencies = save_renormalized_frequencies
 
     @property
     def mesh_phonopy(self):
-- 
2.43.0


From 8fe6dfe87d5227926c4647efc508ef6f643e301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 11/42] fix: OUTCAR parser skips the frames before the
 requested first one

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 550f507..3489c18 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -74,9 +74,6 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
         while True:
 
             counter +=1
-            #Initial cut control
-            if initial_cut > counter:
-                continue
 
             position_number=file_map.find(b'POSITION')
             if position_number < 0 : break
@@ -85,6 +82,10 @@ def read_vasp_trajectory(file_name, structure=None, time_step=None,
             file_map.readline()
             file_map.readline()
 
+            #Initial cut control
+            if initial_cut > counter:
+                continue
+
             read_coordinates = []
             for i in range (number_of_atoms):
                 read_coordinates.append(file_map.readline().split()[0:number_of_dimensions])
-- 
2.43.0


From 622a395c93e25d97781deed9c1990bd64e94d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 12/42] fix: XDATCAR parser drops the time of skipped frames

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 3489c18..b1cab55 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -434,6 +434,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
             #Initial cut control
             if initial_cut > counter:
+                time = []
                 continue
 
             #Reading coordinates
-- 
2.43.0


From 9a1fa17b8618b5f57ab98583e6f9787e1f2c3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 13/42] fix: XDATCAR parser creates the memory map once, not at
 every frame

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index b1cab55..73cd4f7 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -424,7 +424,7 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
             file_map.seek(position_number)
             time.append(float(file_map.readline().split(b'=')[1]))
 
-            if memmap:
+            if memmap and len(data) == 0:
                 if end_cut:
                     data = np.memmap(temp_directory+'trajectory.{0}'.format(os.getpid()), dtype='complex', mode='w+', shape=(end_cut - initial_cut+1, number_of_atoms, number_of_dimensions))
                 else:
-- 
2.43.0


From aa9802c3d477215e65b117e327338ad4d1aaaf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 14/42] fix: XDATCAR parser applies the lattice scale factor

---
 dynaphopy/interface/iofile/trajectory_parsers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index 73cd4f7..f23ebdc 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -405,11 +405,12 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
         file_map = mmap.mmap(f.fileno(), 0)
 
         #Read cell
-        for i in range(2): file_map.readline()
+        file_map.readline()
+        multiply = float(file_map.readline())
         a = file_map.readline().split()
         b = file_map.readline().split()
         c = file_map.readline().split()
-        super_cell = np.array([a, b, c], dtype='double')
+        super_cell = np.array([a, b, c], dtype='double') * multiply
 
         for i in range(1): file_map.readline()
         number_of_atoms = np.array(file_map.readline().split(), dtype=int).sum()
-- 
2.43.0


From 71bb5a89f43c44e765fce79e3a0e67aaa4d7fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 15/42] fix: reading a range of steps from hdf5 also selects
 their times

---
 dynaphopy/interface/iofile/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 047f259..584b45e 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -702,6 +702,11 @@ def initialize_from_hdf5_file(file_name, structure, read_trajectory=True, initia
         print("Load trajectory projected onto {0}".format(reduced_q_vector))
 
     time = hdf5_file['time'][:]
+    if final_cut is not None:
+        time = time[initial_cut-1:final_cut]
+    else:
+        time = time[initial_cut-1:]
+
     supercell = hdf5_file['super_cell'][:]
     hdf5_file.close()
 
-- 
2.43.0


From f1916337d923cde4b243141ab1a1dd5bd4595ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 16/42] fix: concath5 writes one time per concatenated step

---
 scripts/concath5 | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scripts/concath5 b/scripts/concath5
index e9e6a80..af2ce98 100755
--- a/scripts/concath5
+++ b/scripts/concath5
@@ -92,6 +92,8 @@ if args.velocity_only:
     trajectory = None
     vc = None
 
+time = time[first:]
+
 if velocity is not None:
     velocity = velocity[first:]
 
@@ -105,7 +107,12 @@ print(args.input[0])
 
 for arg in args.input[1:]:
     print(arg)
-    new_vc, new_velocity, new_trajectory = read_file_hdf5(arg)[0:3]
+    new_vc, new_velocity, new_trajectory, new_time = read_file_hdf5(arg)[0:4]
+
+    # Each file starts its own time, continue from the last step with the same time step
+    new_time = new_time[first:]
+    if len(new_time) > 0:
+        time = np.concatenate((time, new_time - new_time[0] + time[-1] + (time[1] - time[0])))
 
     if trajectory is not None:
         trajectory = np.concatenate((trajectory, new_trajectory[first:]), axis=0)
-- 
2.43.0


From ae5c39034019daeddac5d3f2fc79f3987dece18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 17/42] fix: rfc_calc reads the list written in the
 quasiparticle data file

---
 scripts/rfc_calc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/rfc_calc b/scripts/rfc_calc
index 35f78ab..46f02ee 100755
--- a/scripts/rfc_calc
+++ b/scripts/rfc_calc
@@ -58,7 +58,7 @@ def get_renormalized_constants(freq_filename, structure, symmetrize=False, degen
     with open(freq_filename, 'r') as stream:
         data_dict = yaml.safe_load(stream)
         for wv in com_points:
-            for q_point in data_dict.values():
+            for q_point in data_dict:
                 # print q_point
                 # print q_point['frequencies']
                 if np.array(q_point['reduced_wave_vector'] == wv).all():
-- 
2.43.0


From a4281233eaf58bb0dfc589a60a5be0cb0b18d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 18/42] fix: POSCAR of structures whose atoms are not grouped
 by element

---
 dynaphopy/generate_cell.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dynaphopy/generate_cell.py b/dynaphopy/generate_cell.py
index f527ec0..f339620 100644
--- a/dynaphopy/generate_cell.py
+++ b/dynaphopy/generate_cell.py
@@ -7,12 +7,10 @@ def generate_VASP_structure(structure, scaled=False, supercell=(1, 1, 1)):
 
     types = structure.get_atomic_elements(supercell=supercell)
 
-    atom_type_unique = np.unique(types, return_index=True)
-
-    # To use unique without sorting
-    sort_index = np.argsort(atom_type_unique[1])
-    elements = np.array(atom_type_unique[0])[sort_index]
-    elements_count= np.diff(np.append(np.array(atom_type_unique[1])[sort_index], [len(types)]))
+    # Consecutive atoms of the same element (an element can appear in several blocks)
+    block_start = [i for i in range(len(types)) if i == 0 or types[i] != types[i-1]]
+    elements = [types[i] for i in block_start]
+    elements_count = np.diff(block_start + [len(types)])
 
 
     vasp_POSCAR = 'Generated using dynaphopy\n'
-- 
2.43.0


From 3912547c7180ee0cc153d10751e6580e1a611de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 19/42] fix: u A^2 THz -> eV ps conversion factor (1 u A^2/ps^2
 is 1.03643e-4 eV)

---
 dynaphopy/power_spectrum/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/power_spectrum/__init__.py b/dynaphopy/power_spectrum/__init__.py
index 28b69e9..64f233c 100644
--- a/dynaphopy/power_spectrum/__init__.py
+++ b/dynaphopy/power_spectrum/__init__.py
@@ -6,7 +6,7 @@ import matplotlib.pyplot as plt
 from dynaphopy.power_spectrum import mem
 from dynaphopy.power_spectrum import correlation
 
-unit_conversion = 0.00010585723  # u * A^2 * THz -> eV*ps
+unit_conversion = 0.000103642697  # u * A^2 * THz -> eV*ps
 
 
 def _progress_bar(progress, label):
-- 
2.43.0


From 55276c62941ba1a8e1a7d6d170c48073cd570a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 20/42] fix: partial power spectra are recomputed after the
 settings they depend on change

---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 1ffe149..c655269 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -68,6 +68,7 @@ class Quasiparticle:
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_partials = None
         self.force_constants_clear()
 
     def force_constants_clear(self):
-- 
2.43.0


From 53a16ae01e1f2fa9055ae9572ccc2ae06372a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 21/42] fix: projecting onto another atom type discards the
 previous projections and spectra

---
 dynaphopy/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index c655269..ea216fd 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -27,6 +27,7 @@ class Quasiparticle:
 
         self._dynamic = dynamic
         self._vc = vc
+        self._vc_loaded = vc is not None
         self._eigenvectors = None
         self._frequencies = None
         self._vq = None
@@ -132,6 +133,11 @@ class Quasiparticle:
 
     def set_projection_onto_atom_type(self, atom_type):
         if atom_type in range(self.dynamic.structure.get_number_of_primitive_atoms()):
+            if atom_type != self.parameters.project_on_atom:
+                self._vq = None
+                if not self._vc_loaded:
+                    self._vc = None
+                self.power_spectra_clear()
             self.parameters.project_on_atom = atom_type
         else:
             print('Atom type {} does not exist'.format(atom_type))
-- 
2.43.0


From 42870de70cb0584fef67234759c0e7afa944e1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 22/42] fix: cropping also crops the data behind projections
 and spectra already computed

---
 dynaphopy/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index ea216fd..28d4603 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -47,13 +47,16 @@ class Quasiparticle:
 
     # Crop trajectory
     def crop_trajectory(self, last_steps):
-        if self._vc is None:
+        if not self._vc_loaded:
+            self._vc = None
             self._dynamic.crop_trajectory(last_steps)
             print("Using {0} steps".format(len(self._dynamic.velocity)))
         else:
             if last_steps is not None:
                 self._vc = self._vc[-last_steps:, :, :]
             print("Using {0} steps".format(len(self._vc)))
+        self._vq = None
+        self.power_spectra_clear()
 
     # Memory clear methods
     def full_clear(self):
-- 
2.43.0


From c1887f969848738b99ff95f9f0b6617730cf4eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 23/42] fix: renormalized data is recomputed after setting the
 QHA force constants

---
 dynaphopy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 28d4603..7b143ce 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1456,6 +1456,7 @@ class Quasiparticle:
     def set_qha_force_constants(self, fc_qha_file):
         self._force_constants_qha = pho_interface.get_force_constants_from_file(fc_qha_file,
                                                                                 fc_supercell=self.dynamic.structure.get_supercell_phonon())
+        self.force_constants_clear()
 
     def get_qha_shift(self, reduced_q_vector):
         if self._force_constants_qha is not None:
-- 
2.43.0


From 8db450e4f77e8031b95d573de58406ba12b6ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 24/42] fix: full power spectrum follows the requested
 coordinate

---
 dynaphopy/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 7b143ce..438cc2e 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -34,6 +34,7 @@ class Quasiparticle:
         self._power_spectrum_phonon = None
         self._power_spectrum_wave_vector = None
         self._power_spectrum_direct = None
+        self._power_spectrum_direct_coordinate = None
         self._power_spectrum_partials = None
         self._bands = None
         self._renormalized_bands = None
@@ -794,7 +795,8 @@ class Quasiparticle:
         number_of_dimensions = self.dynamic.structure.get_number_of_dimensions()
         projected_atom_type = self.parameters.project_on_atom
 
-        if self._power_spectrum_direct is None:
+        if self._power_spectrum_direct is None or self._power_spectrum_direct_coordinate != projection_on_coordinate:
+            self._power_spectrum_direct_coordinate = projection_on_coordinate
             print("Calculation full power spectrum")
 
             velocity_mass_average = self.dynamic.get_velocity_mass_average()
-- 
2.43.0


From ffaa56dda06bad7814fe9c19e6e7765b282c3082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 25/42] fix: extra quasiparticle data does not leak into later
 files

---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 438cc2e..7041f67 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -1253,7 +1253,7 @@ class Quasiparticle:
         pho_interface.save_force_constants_to_file(force_constants, filename)
 
     def write_quasiparticles_data(self, filename="quasiparticles_data.yaml", with_extra=False):
-        quasiparticle_data = self.get_commensurate_points_data()
+        quasiparticle_data = dict(self.get_commensurate_points_data())
         if with_extra:
             quasiparticle_data.update(self.get_commensurate_points_properties())
         reading.save_quasiparticle_data_to_file(quasiparticle_data, filename)
-- 
2.43.0


From 0f9bfa718b3528838a237c937f8a125ca06b75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 26/42] fix: print_phonon_dispersion_bands passes the band
 ranges

---
 dynaphopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/__init__.py b/dynaphopy/__init__.py
index 7041f67..84a6a01 100644
--- a/dynaphopy/__init__.py
+++ b/dynaphopy/__init__.py
@@ -581,7 +581,7 @@ class Quasiparticle:
     def print_phonon_dispersion_bands(self):
         if self._bands is None:
             self._bands = pho_interface.obtain_phonon_dispersion_bands(self.dynamic.structure,
-                                                                       self.get_band_ranges_and_labels(),
+                                                                       self.get_band_ranges_and_labels()['ranges'],
                                                                        NAC=self.parameters.use_NAC)
         np.set_printoptions(linewidth=200)
         for i, freq in enumerate(self._bands[1]):
-- 
2.43.0


From 47d50a245c86dc3a165709b877f291d5ec01e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 27/42] fix: occupation number and fit temperature use the
 phonon energy h*f of a frequency in THz

---
 dynaphopy/analysis/fitting/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynaphopy/analysis/fitting/__init__.py b/dynaphopy/analysis/fitting/__init__.py
index a63d981..1db2adf 100644
--- a/dynaphopy/analysis/fitting/__init__.py
+++ b/dynaphopy/analysis/fitting/__init__.py
@@ -95,12 +95,12 @@ def phonon_fitting_analysis(original, ps_frequencies,
             # Q2_lor = dt_Q2_lor / pow(position * 2 * np.pi, 2)
             # Q2_tot = dt_Q2_tot / pow(position * 2 * np.pi,2)
 
-            occupancy_lor = dt_Q2_lor / (position * h_planck_bar) - 0.5
-            occupancy_tot = dt_Q2_tot / (position * h_planck_bar) - 0.5
+            occupancy_lor = dt_Q2_lor / (position * h_planck) - 0.5
+            occupancy_tot = dt_Q2_tot / (position * h_planck) - 0.5
 
             # fit_temperature = dt_Q2_lor / kb_boltzmann  # High temperature limit
-            fit_temperature = h_planck_bar * position / (kb_boltzmann * np.log((1.0 / occupancy_lor + 1.0)))
-            fit_temperature_tot = h_planck_bar * position / (kb_boltzmann * np.log((1.0 / occupancy_tot + 1.0)))
+            fit_temperature = h_planck * position / (kb_boltzmann * np.log((1.0 / occupancy_lor + 1.0)))
+            fit_temperature_tot = h_planck * position / (kb_boltzmann * np.log((1.0 / occupancy_tot + 1.0)))
 
         except RuntimeWarning:
             # This warning happens in acoustic branches at gamma point because the peak
-- 
2.43.0


From 98947591eca2b0b466fb004fe77fd85d222b9840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 28/42] fix: phase_0 of the test trajectory is a phase, not an
 amplitude

---
 dynaphopy/interface/iofile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 584b45e..f62b80a 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -408,7 +408,7 @@ def generate_test_trajectory(structure, supercell=(1, 1, 1),
                 if abs(frequencies_r[i_long][i_freq]) > minimum_frequency: # Prevent error due to small frequencies
                     amplitude = np.sqrt(number_of_dimensions * kb_boltzmann * temperature / number_of_primitive_cells * atoms_relation)/(frequencies_r[i_long][i_freq] * 2 * np.pi) # + random.uniform(-1,1)*0.05
                     normal_mode = amplitude * np.exp(-1j * frequencies_r[i_long][i_freq] * 2.0 * np.pi * time)
-                    phase = np.exp(1j * np.dot(q_vector, positions.T) + phase_0)
+                    phase = np.exp(1j * (np.dot(q_vector, positions.T) + phase_0))
 
                     coordinates += (1.0 / np.sqrt(masses)[None].T *
                                    eigenvectors_r[i_long][i_freq, atom_type] *
-- 
2.43.0


From 24cb0c416558fda2c932f486cfbddf7097a2ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 29/42] fix: maximum entropy of fewer than two samples does not
 write outside its work arrays

---
 c/mem.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/mem.c b/c/mem.c
index 4210fbf..ac93f93 100644
--- a/c/mem.c
+++ b/c/mem.c
@@ -211,8 +211,10 @@ static double  GetCoefficients(double  *Data, int NumberOfData, int NumberOfCoef
     for (j=0; j < NumberOfData; j++) p += pow(Data[j], 2);
     MeanSquareDiscrepancy = p / NumberOfData;
 
-    wk1[1] = Data[0];
-    wk2[NumberOfData-1] = Data[NumberOfData-1];
+    if (NumberOfData > 1) {
+        wk1[1] = Data[0];
+        wk2[NumberOfData-1] = Data[NumberOfData-1];
+    }
 
     for (j=2; j <= NumberOfData-1; j++) {
         wk1[j]=Data[j-1];
-- 
2.43.0


From ef4f0fffcdb10b407a41422bc1d91d308782657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 30/42] fix: native kernels release their work arrays and array
 references

---
 c/correlation.c   | 5 +++++
 c/displacements.c | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/c/correlation.c b/c/correlation.c
index eaf7296..e196fdc 100644
--- a/c/correlation.c
+++ b/c/correlation.c
@@ -145,6 +145,11 @@ static PyObject* correlation_par (PyObject* self, PyObject *arg, PyObject *keywo
         AngularFrequency = Frequency[i]*2.0*M_PI;
         PowerSpectrum[i] = EvaluateCorrelation(AngularFrequency, Velocity, NumberOfData, TimeStep, Increment, IntMethod);
     }
+
+    // Free python memory
+    Py_DECREF(velocity_array);
+    Py_DECREF(frequency_array);
+
     //Returning Python array
     return(PyArray_Return(PowerSpectrum_object));
 }
diff --git a/c/displacements.c b/c/displacements.c
index a1ecf21..7d6f07a 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -184,7 +184,8 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     //Free memory
     for (int k=0 ; k<NumberOfDimensions; k++) free(Difference[k]); free(Difference);
     for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_i[k]); free(Cell_i);
- 	free(Cell_c);
+    for (int k=0 ; k<NumberOfDimensions; k++) free(Cell_c[k]); free(Cell_c);
+    free(Displacement);
 
     // Free python memory
     Py_DECREF(Trajectory_array);
@@ -260,6 +261,9 @@ static double  **matrix_inverse ( double ** a ,int n){
 		}
 	}
 
+    for (int i = 0; i < n; i++) free(cof[i]);
+    free(cof);
+
 	return b;
 
 };
-- 
2.43.0


From 0f336e4da014305f00f18f451f395d4aef2a83e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 31/42] fix: FFT segments have one length and reach both ends
 for every signal length

---
 dynaphopy/power_spectrum/__init__.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dynaphopy/power_spectrum/__init__.py b/dynaphopy/power_spectrum/__init__.py
index 64f233c..051540c 100644
--- a/dynaphopy/power_spectrum/__init__.py
+++ b/dynaphopy/power_spectrum/__init__.py
@@ -35,17 +35,14 @@ def _division_of_data(resolution, number_of_data, time_step):
     piece_size = round(1./(time_step*resolution))
     number_of_pieces = int((number_of_data-1)/piece_size)
 
-    if number_of_pieces > 0:
-        interval = (number_of_data - piece_size)/number_of_pieces
-    else:
-        interval = 0
+    if number_of_pieces == 0:
         number_of_pieces = 1
         piece_size = number_of_data
 
     pieces = []
     for i in range(number_of_pieces+1):
-        ini = int((piece_size/2+i*interval)-piece_size/2)
-        fin = int((piece_size/2+i*interval)+piece_size/2)
+        ini = i*(number_of_data - piece_size)//number_of_pieces
+        fin = ini + piece_size
         pieces.append([ini, fin])
 
     return pieces
-- 
2.43.0


From 5aa00e48700908dd8b7de49fd9bb103527e5b95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 32/42] fix: average positions in the unit cell average over
 all equivalent atoms

---
 dynaphopy/dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 437bed7..189b54a 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -273,12 +273,12 @@ class Dynamics:
             index_type = self.structure.get_atom_type_index(supercell=supercell)
 
             number_of_atom_types = self.structure.get_number_of_atom_types()
-            normalization = np.prod(supercell)
+            normalization = np.prod(supercell)*np.unique(index_type_unitcell, return_counts=True)[1]
 
             averaged_unit_cell = np.zeros((number_of_atom_types, number_of_dimensions), dtype=complex)
 
             for i, coordinates  in enumerate(averaged_positions):
-                averaged_unit_cell[index_type[i], :] += coordinates/normalization
+                averaged_unit_cell[index_type[i], :] += coordinates/normalization[index_type[i]]
 
             averaged_positions = []
             for i in range(positions.shape[0]):
-- 
2.43.0


From e262ff886e349f079c591aa7f3eb05a7d71e268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 33/42] fix: time step follows the cropped times

---
 dynaphopy/dynamics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 189b54a..55a4d88 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -87,6 +87,7 @@ class Dynamics:
             self._energy = self._energy[-last_steps:]
         if self._time is not None:
             self._time = self._time[-last_steps:]
+            self._time_step_average = None
 
         if last_steps > self.velocity.shape[0]:
             print("Warning: specified step number larger than available")
-- 
2.43.0


From 53b0f332a4e7394af82be29605bd25d4373cf815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 34/42] fix: set_positions replaces the positions already
 requested

---
 dynaphopy/atoms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dynaphopy/atoms.py b/dynaphopy/atoms.py
index 7b055c8..d4f900d 100644
--- a/dynaphopy/atoms.py
+++ b/dynaphopy/atoms.py
@@ -134,6 +134,7 @@ class Structure:
 
     # Positions related methods
     def set_positions(self, cart_positions):
+        self._positions = np.array(cart_positions)
         self._scaled_positions = np.dot(cart_positions, np.linalg.inv(self.get_cell()))
 
     def get_positions(self, supercell=None):
-- 
2.43.0


From 309c9f8af95a5f1e09baf5d86eba1e01aa916044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 35/42] fix: velocities derived from the trajectory are
 cropped, not recomputed, by crop_trajectory

---
 dynaphopy/dynamics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dynaphopy/dynamics.py b/dynaphopy/dynamics.py
index 55a4d88..84c0fd1 100644
--- a/dynaphopy/dynamics.py
+++ b/dynaphopy/dynamics.py
@@ -68,6 +68,8 @@ class Dynamics:
         if last_steps is None or last_steps <= 0:
             return
 
+        velocity = self.velocity
+
         if self._trajectory is not None:
             self._trajectory = self._trajectory[-last_steps:, :, :]
             self._relative_trajectory = None
@@ -89,10 +91,10 @@ class Dynamics:
             self._time = self._time[-last_steps:]
             self._time_step_average = None
 
-        if last_steps > self.velocity.shape[0]:
+        if last_steps > velocity.shape[0]:
             print("Warning: specified step number larger than available")
 
-        self.velocity = self.velocity[-last_steps:, :, :]
+        self.velocity = velocity[-last_steps:, :, :]
 
         self._velocity_mass_average = None
         self._mean_displacement_matrix = None
-- 
2.43.0


From 56e0110ee9279003ee273f244a8bb94fe0d3299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 36/42] fix: free energy keeps the first frequency unless it is
 zero

---
 dynaphopy/analysis/thermal_properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynaphopy/analysis/thermal_properties.py b/dynaphopy/analysis/thermal_properties.py
index c6dad4f..c6aa522 100644
--- a/dynaphopy/analysis/thermal_properties.py
+++ b/dynaphopy/analysis/thermal_properties.py
@@ -51,7 +51,8 @@ def get_free_energy(temperature, frequency, dos):
     free_energy = np.nan_to_num([dos[i] * k_b * temperature * np.log(2 * np.sinh(h_bar * freq / (2 * k_b * temperature)))
                                  for i, freq in enumerate(frequency)])
 
-    free_energy[0] = 0
+    if frequency[0] == 0:
+        free_energy[0] = 0
     free_energy = simps(free_energy, x=frequency) * N_a / 1000  # KJ/K/mol
     return free_energy
 
-- 
2.43.0


From cbab0ba9ab520450df2b35f637df00b867b2831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 37/42] fix: memory mapped readers keep only the steps in the
 file and honour last_steps

---
 .../interface/iofile/trajectory_parsers.py    | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dynaphopy/interface/iofile/trajectory_parsers.py b/dynaphopy/interface/iofile/trajectory_parsers.py
index f23ebdc..ebff126 100644
--- a/dynaphopy/interface/iofile/trajectory_parsers.py
+++ b/dynaphopy/interface/iofile/trajectory_parsers.py
@@ -326,12 +326,15 @@ def read_lammps_trajectory(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        # the file may have less steps than requested
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     # Check position/velocity dump
@@ -471,12 +474,15 @@ def read_VASP_XDATCAR(file_name, structure=None, time_step=None,
 
     time = np.array(time) * time_step
 
-    if not memmap:
+    if memmap:
+        # the file may have less steps than requested
+        data = data[:len(time)]
+    else:
         data = np.array(data, dtype=complex)
 
-        if last_steps is not None:
-            data = data[-last_steps:, :, :]
-            time = time[-last_steps:]
+    if last_steps is not None:
+        data = data[-last_steps:, :, :]
+        time = time[-last_steps:]
 
 
     return dyn.Dynamics(structure=structure,
-- 
2.43.0


From 83b20233be0e209ab6e7fcef2190d16615f03227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 38/42] fix: POSCAR scale factor applied to Cartesian positions

---
 dynaphopy/interface/iofile/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index f62b80a..2fbfff4 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -320,6 +320,10 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
         atomic_types = [item for sublist in atomic_types for item in sublist]
         # atomic_types = np.array(atomic_types).flatten().tolist()
 
+    # The scale factor applies to Cartesian positions too
+    if positions is not None:
+        positions *= multiply
+
     return atomtest.Structure(cell=direct_cell,  # cell_matrix, lattice vectors in rows
                               scaled_positions=scaled_positions,
                               positions=positions,
-- 
2.43.0


From d8130451c5a8a519971fb1ca1f53ce1dd6b6c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 39/42] fix: input section following the bands without a blank
 line

---
 dynaphopy/interface/iofile/__init__.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index 2fbfff4..f81a65c 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -582,18 +582,15 @@ def read_parameters_from_input_file(file_name, number_of_dimensions=3):
             bands = []
             labels = []
             while i < len(input_file)-1:
-                line = input_file[i + 1].replace('\n', '')
+                band_line, _, band_labels = input_file[i + 1].replace('\n', '').partition(':')
                 try:
-                    labels.append(line.split(':')[1].replace('\n','').split(','))
-                    line = line.split(':')[0]
-                except:
-                    pass
-                try:
-                    band = np.array(line.replace(',',' ').split(), dtype=float).reshape((2,3))
+                    band = np.array(band_line.replace(',',' ').split(), dtype=float).reshape((2,3))
                 except IOError:
                     break
                 except ValueError:
                     break
+                if band_labels != '':
+                    labels.append(band_labels.split(','))
                 i += 1
                 bands.append(band)
             labels = [(label[0].replace(' ',''), label[1].replace(' ','')) for label in labels]
-- 
2.43.0


From 88bf91d27310b1583ceca04d51c0bcb79d3a27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 40/42] fix: inverse of a one-dimensional cell in
 atomic_displacements

---
 c/displacements.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/displacements.c b/c/displacements.c
index 7d6f07a..d04568e 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -275,8 +275,8 @@ static double  Determinant(double  **a,int n)
    double  det = 0;
    double  **m = NULL;
 
-   if (n < 1) { /* Error */
-
+   if (n < 1) { /* Empty matrix */
+      det = 1;
    } else if (n == 1) { /* Shouldn't get used */
       det = a[0][0];
    } else if (n == 2) {
-- 
2.43.0


From 35486520683310b57dbf793ca96004d212ce41f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 41/42] fix: atomic_displacements rejects arrays whose shapes
 do not agree

---
 c/displacements.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/c/displacements.c b/c/displacements.c
index d04568e..0dbfe6a 100644
--- a/c/displacements.c
+++ b/c/displacements.c
@@ -106,13 +106,25 @@ static PyObject *atomic_displacements(PyObject *self, PyObject *arg, PyObject *k
     PyObject *Positions_array = PyArray_FROM_OTF(Positions_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     PyObject *Cell_array = PyArray_FROM_OTF(Cell_obj, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
 
-    if (Cell_array == NULL || Trajectory_array == NULL) {
+    if (Cell_array == NULL || Trajectory_array == NULL || Positions_array == NULL) {
          Py_XDECREF(Cell_array);
          Py_XDECREF(Trajectory_array);
          Py_XDECREF(Positions_array);
          return NULL;
     }
 
+    if (PyArray_NDIM((PyArrayObject *)Cell_array) != 2 || PyArray_NDIM((PyArrayObject *)Trajectory_array) != 2 ||
+        PyArray_NDIM((PyArrayObject *)Positions_array) != 1 ||
+        PyArray_DIM((PyArrayObject *)Cell_array, 1) != PyArray_DIM((PyArrayObject *)Cell_array, 0) ||
+        PyArray_DIM((PyArrayObject *)Trajectory_array, 1) != PyArray_DIM((PyArrayObject *)Cell_array, 0) ||
+        PyArray_DIM((PyArrayObject *)Positions_array, 0) != PyArray_DIM((PyArrayObject *)Cell_array, 0)) {
+         PyErr_SetString(PyExc_ValueError, "shapes of trajectory, positions and cell do not agree");
+         Py_DECREF(Cell_array);
+         Py_DECREF(Trajectory_array);
+         Py_DECREF(Positions_array);
+         return NULL;
+    }
+
 
 //  double _Complex *Cell           = (double _Complex*)PyArray_DATA(Cell_array);
     _Dcomplex *Trajectory     = (_Dcomplex*)PyArray_DATA((PyArrayObject *)Trajectory_array);
-- 
2.43.0


From ba0a1d89776d159757046cd097e678c2b9cc0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:25 +0000
Subject: [PATCH 42/42] fix: read a negative POSCAR scale factor as the volume
 of the cell

---
 dynaphopy/interface/iofile/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynaphopy/interface/iofile/__init__.py b/dynaphopy/interface/iofile/__init__.py
index f81a65c..9e5d7b8 100644
--- a/dynaphopy/interface/iofile/__init__.py
+++ b/dynaphopy/interface/iofile/__init__.py
@@ -280,6 +280,9 @@ def read_from_file_structure_poscar(file_name, number_of_dimensions=3):
     multiply = float(data_lines[1])
     direct_cell = np.array([data_lines[i].split()
                             for i in range(2, 2+number_of_dimensions)], dtype=float)
+    if multiply < 0:
+        # A negative scale factor is the volume of the cell
+        multiply = (-multiply/abs(np.linalg.det(direct_cell)))**(1./3)
     direct_cell *= multiply
     scaled_positions = None
     positions = None
-- 
2.43.0

