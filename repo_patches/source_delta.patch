From 8d7384d235fd9ecf444a83cdd7caeffbe01f30a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 01/51] fix: CNOTDihedral right multiplication uses the shift
 of the right factor

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index c51b3fb..ca4c6e6 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -455,7 +455,7 @@ class CNOTDihedral(BaseOperator):
             support = np.arange(self.num_qubits)[np.nonzero(self.linear[i])]
             poly = SpecialPolynomial(self.num_qubits)
             poly.set_pj(support)
-            if other.shift[i] == 1:
+            if self.shift[i] == 1:
                 poly = -1 * poly
                 poly.weight_0 = (poly.weight_0 + 1) % 8
             new_vars.append(poly)
-- 
2.43.0


From f99d02891ed7a216a7dbe638abfacbdf7408e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 02/51] fix: round u1 angles to the nearest multiple of pi/4
 and reject other angles

---
 .../ignis/verification/randomized_benchmarking/dihedral.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index ca4c6e6..6e2c3a3 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -901,7 +901,10 @@ def append_circuit(elem, circuit, qargs=None):
         elif (instr.name == 'u1' or gate.name == 'u1'):
             if (len(new_qubits) != 1 or len(instr.params) != 1):
                 raise QiskitError("Invalid qubits or params for 1-qubit gate u1.")
-            elem.phase(int(4 * instr.params[0] / np.pi), new_qubits[0])
+            tpow = 4 * instr.params[0] / np.pi
+            if not np.isclose(tpow, np.round(tpow)):
+                raise QiskitError("The angle of the u1 gate is not a multiple of pi/4.")
+            elem.phase(int(np.round(tpow)), new_qubits[0])
 
         elif (instr.name == 'cx' or gate.name == 'cx'):
             if len(new_qubits) != 2:
-- 
2.43.0


From d928376e9d4e699cd5c58205f3989767044862f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 03/51] fix: products of CNOTDihedral elements keep an array
 shift

---
 .../verification/randomized_benchmarking/dihedral.py      | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 6e2c3a3..c3a1978 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -422,8 +422,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(self.linear, other.shift), self.shift)]
+        result.shift = np.mod(self._z2matvecmul(self.linear, other.shift) + self.shift, 2)
         result.linear = self._z2matmul(self.linear, other.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
@@ -444,10 +443,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(other.linear,
-                                                       self.shift),
-                                     other.shift)]
+        result.shift = np.mod(self._z2matvecmul(other.linear, self.shift) + other.shift, 2)
         result.linear = self._z2matmul(other.linear, self.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
-- 
2.43.0


From 2d6e7335f38c84a22ff6a723d727be0286268f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:37 +0000
Subject: [PATCH 04/51] fix: build a CNOTDihedral from a CNOTDihedral

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index c3a1978..1b3ae02 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -358,6 +358,7 @@ class CNOTDihedral(BaseOperator):
         # Initialize from another CNOTDihedral by sharing the underlying
         # poly, linear and shift
         if isinstance(data, CNOTDihedral):
+            self._num_qubits = data.num_qubits
             self.linear = data.linear
             self.shift = data.shift
             self.poly = data.poly
-- 
2.43.0


From 78b5c8fcb22d3345f68449c5ab65630df5e34a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 05/51] fix: randomized_benchmarking_seq accepts seed 0 and a
 RandomState

---
 .../verification/randomized_benchmarking/circuits.py   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index e91ee38..938b7ab 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -441,9 +441,13 @@ def randomized_benchmarking_seq(nseeds: int = 1,
 
                 for _ in range(length_multiplier[rb_pattern_index]):
                     # make the seed unique for each element
-                    if rand_seed:
-                        rand_seed += (seed + 1)
-                    new_elmnt = rb_group.random(rb_q_num, rand_seed)
+                    if isinstance(rand_seed, RandomState):
+                        elmnt_seed = int(rand_seed.randint(2**31 - 1))
+                    else:
+                        if rand_seed is not None:
+                            rand_seed += (seed + 1)
+                        elmnt_seed = rand_seed
+                    new_elmnt = rb_group.random(rb_q_num, elmnt_seed)
                     Elmnts[rb_pattern_index] = rb_group.compose(
                         Elmnts[rb_pattern_index], new_elmnt)
                     general_circ += replace_q_indices(
-- 
2.43.0


From 157bd71ecbbb0022af423064547d04bb1b8613f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:11 +0000
Subject: [PATCH 06/51] fix: missing comma in the names of the CNOT-dihedral
 group

---
 qiskit/ignis/verification/randomized_benchmarking/rb_groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
index 7b333a5..4566634 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
@@ -37,7 +37,7 @@ class RBgroup():
                                                   'clifford'):
             self._rb_group = Clifford
         elif group_gates in ('1', 'Non-Clifford',
-                             'NonClifford'
+                             'NonClifford',
                              'CNOTDihedral',
                              'CNOT-Dihedral'):
             self._rb_group = CNOTDihedral
-- 
2.43.0


From cc8d249bcea8ff9a1c432dd43664e49bb2ceb9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:17 +0000
Subject: [PATCH 07/51] fix: RB fitters load the results they are given once

---
 .../verification/randomized_benchmarking/fitters.py      | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 5876991..06e6824 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -524,9 +524,6 @@ class InterleavedRBFitter(RBFitterBase):
         self._rbfit_interleaved = RBFitter(
             interleaved_result, cliff_lengths, rb_pattern)
 
-        self.rbfit_std.add_data(original_result)
-        self.rbfit_int.add_data(interleaved_result)
-
         if not (original_result is None and interleaved_result is None):
             self.fit_data()
 
@@ -808,8 +805,7 @@ class PurityRBFitter(RBFitterBase):
         self.add_zdict_ops()
 
         # rb purity fitter
-        self._rbfit_purity = RBFitter(purity_result, cliff_lengths,
-                                      rb_pattern)
+        self._rbfit_purity = RBFitter(None, cliff_lengths, rb_pattern)
         self.add_data(purity_result)
 
     @property
@@ -1184,9 +1180,6 @@ class CNOTDihedralRBFitter(RBFitterBase):
         self._rbfit_X = RBFitter(
             cnotdihedral_X_result, elmnts_lengths, rb_pattern)
 
-        self.rbfit_Z.add_data(cnotdihedral_Z_result)
-        self.rbfit_X.add_data(cnotdihedral_X_result)
-
         if not (cnotdihedral_Z_result is None and
                 cnotdihedral_X_result is None):
             self.fit_data()
-- 
2.43.0


From ebeb911c65fff151e00ff0e0dfa2d9d62b47846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:17 +0000
Subject: [PATCH 08/51] fix: PurityRBFitter.cliff_lengths recursed without end

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 06e6824..f9f4988 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -821,7 +821,7 @@ class PurityRBFitter(RBFitterBase):
     @property
     def cliff_lengths(self):
         """Return clifford lengths."""
-        return self.cliff_lengths
+        return self._cliff_lengths
 
     @property
     def ydata(self):
-- 
2.43.0


From 462e24de2ae886076f4c303b00bd76fe0e7f632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:17 +0000
Subject: [PATCH 09/51] fix: default rb_pattern of the interleaved and
 CNOT-dihedral RB fitters

---
 .../ignis/verification/randomized_benchmarking/fitters.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index f9f4988..572a5ee 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -515,6 +515,9 @@ class InterleavedRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = cliff_lengths
         self._rb_pattern = rb_pattern
         self._fit_interleaved = []
@@ -1171,6 +1174,9 @@ class CNOTDihedralRBFitter(RBFitterBase):
         """
 
         # Initialize a new CNOTDihedralRBFitter.
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         self._cliff_lengths = elmnts_lengths
         self._rb_pattern = rb_pattern
         self._fit_cnotdihedral = []
-- 
2.43.0


From b57e23eeaa0e1f51f95738fd2702d7fc7ae4b0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:39 +0000
Subject: [PATCH 10/51] fix: purity RB does not depend on how circuits are
 split over results

---
 .../verification/randomized_benchmarking/fitters.py      | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 572a5ee..3318a7e 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -920,7 +920,8 @@ class PurityRBFitter(RBFitterBase):
         if new_purity_result is None:
             return
 
-        self.rbfit_pur.add_data(new_purity_result, rerun_fit)
+        # the purities are calculated and fitted below
+        self.rbfit_pur.add_data(new_purity_result, False)
 
         if rerun_fit:
             self.calc_data()
@@ -942,16 +943,14 @@ class PurityRBFitter(RBFitterBase):
         """
         circ_counts = {}
         circ_shots = {}
-        result_count = 0
 
         # Calculating the result output
         for _, seed in enumerate(self.rbfit_pur.seeds):
 
             for pur in range(self._npurity):
 
-                self._circ_name_type = self.rbfit_pur.results[
-                    result_count].results[0].header.name.split("_length")[0]
-                result_count += 1
+                self._circ_name_type = 'rb_purity_' + ''.join(
+                    'ZXY'[(pur // 3 ** i) % 3] for i in range(self._nq))
 
                 for circ, _ in enumerate(self._cliff_lengths[0]):
                     circ_name = self._circ_name_type + '_length_%d_seed_%d' \
-- 
2.43.0


From 33e0732f04bad3f219c791bff05c194d05612ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:39 +0000
Subject: [PATCH 11/51] fix: keep the initial guess of the RB fit within its
 bounds

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 3318a7e..7e70c8e 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -429,6 +429,9 @@ class RBFitter(RBFitterBase):
                 fit_guess[0] = ((y0 - fit_guess[2]) /
                                 fit_guess[1]**self._cliff_lengths[patt_ind][0])
 
+            # the guess has to lie within the bounds of the fit
+            fit_guess = np.clip(fit_guess, 0, 1)
+
             self.fit_data_pattern(patt_ind, tuple(fit_guess))
 
     def plot_rb_data(self, pattern_index=0, ax=None,
-- 
2.43.0


From 3ace3069bbfc865ead7d282ed9678544d92161e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:36 +0000
Subject: [PATCH 12/51] fix: combine_counts does not change its first argument

---
 qiskit/ignis/verification/tomography/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 93e5ccb..7194c91 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -132,7 +132,7 @@ def combine_counts(counts1: Dict[str, int],
         >>> combine_counts(counts1, counts2)
         {'00': 7, '01': 5, '10': 7}
     """
-    ret = counts1
+    ret = dict(counts1)
     for key, val in counts2.items():
         if key in ret:
             ret[key] += val
-- 
2.43.0


From 89861946f6aa213967759f0ba0320b4a4c6ab784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:36 +0000
Subject: [PATCH 13/51] fix: marginal_counts over all qubits honours pad_zeros

---
 qiskit/ignis/verification/tomography/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 7194c91..2373eaf 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -62,6 +62,8 @@ def marginal_counts(counts: Dict[str, int],
         for key, val in counts.items():
             key = key.replace(' ', '')
             ret[key] = val
+        if pad_zeros is True:
+            ret = {key: ret.get(key, 0) for key in count_keys(num_qubits)}
         return ret
 
     # Sort the measured qubits into decending order
-- 
2.43.0


From 4301040783197d68005cda3baa82a6e3bb7ad098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:36 +0000
Subject: [PATCH 14/51] fix: keys of expectation_counts follow the documented
 qubit order

---
 qiskit/ignis/verification/tomography/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 2373eaf..e41d161 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -175,7 +175,7 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
     shots = np.sum(list(counts.values()))
 
     # Compute measured operators subsets in a data set
-    numq = len(list(counts.keys())[0])
+    numq = len(list(counts.keys())[0].replace(' ', ''))
 
     # Get operator subsets
     subsets = []
@@ -183,14 +183,14 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
         subsets += list(combinations(range(numq), r + 1))
 
     # Compute expectation values
-    exp_data = {'00': shots}
+    exp_data = {numq * '0': shots}
     for subset in subsets:
         exp_counts = 0
         exp_op = numq * ['0']
 
         # Get expectation operator
         for qubit in subset:
-            exp_op[qubit] = '1'
+            exp_op[numq - 1 - qubit] = '1'
 
         # Get expectation value
         for key, val in marginal_counts(counts,
-- 
2.43.0


From d4e2bce9dabe178cc357480bf402acd7d6d6bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:36 +0000
Subject: [PATCH 15/51] fix: tomography add_data uses the counts of every
 result

---
 .../verification/tomography/fitters/base_fitter.py    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index d31531d..be047d1 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -268,11 +268,16 @@ class TomographyFitter:
             counts = None
             for result in results:
                 try:
-                    counts = result.get_counts(circ)
+                    new_counts = result.get_counts(circ)
                 except QiskitError:
-                    pass
+                    continue
+                if counts is None:
+                    counts = new_counts
+                else:
+                    counts = combine_counts(counts, new_counts)
             if counts is None:
-                raise QiskitError("Result for {} not found".format(circ.name))
+                raise QiskitError("Result for {} not found".format(
+                    circ if isinstance(circ, str) else circ.name))
             if isinstance(circ, str):
                 tup = literal_eval(circ)
             elif isinstance(circ, QuantumCircuit):
-- 
2.43.0


From e72f170505392ef07aa6c96a16c20c28ff870567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:36 +0000
Subject: [PATCH 16/51] fix: state tomography of several qubits in a circuit
 with other classical registers

---
 qiskit/ignis/verification/tomography/fitters/base_fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index be047d1..55462c7 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -285,7 +285,8 @@ class TomographyFitter:
             else:
                 tup = circ
             if marginalize:
-                counts = marginal_counts(counts, range(len(tup[0])))
+                num_meas = len(tup[1]) if isinstance(tup[0], tuple) else len(tup)
+                counts = marginal_counts(counts, range(num_meas))
             if tup in self._data:
                 self._data[tup] = combine_counts(self._data[tup], counts)
             else:
-- 
2.43.0


From bba4d0639571020803aaa8809c07facfe72e5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:04 +0000
Subject: [PATCH 17/51] fix: gate set tomography gauge optimization starts from
 a vector

---
 qiskit/ignis/verification/tomography/fitters/gateset_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 55103d8..89ec7e1 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -283,7 +283,7 @@ class GaugeOptimize():
             The optimal gateset found by the gauge optimization
         """
         initial_value = np.array([(F @ self.rho).T[0] for F in self.Fs]).T
-        result = opt.minimize(self._obj_fn, initial_value)
+        result = opt.minimize(self._obj_fn, initial_value.ravel())
         return self._x_to_gateset(result.x)
 
 
-- 
2.43.0


From 30b5b08b9e1d9361a38d0e55d705736b4aeb77a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:04 +0000
Subject: [PATCH 18/51] fix: spam_matrix multiplies the gates in the order they
 are applied

---
 qiskit/ignis/verification/tomography/basis/gatesetbasis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
index e5c94c1..e2a16e2 100644
--- a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
+++ b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
@@ -221,7 +221,8 @@ class GateSetBasis:
         """
         spec = self.spam_spec[label]
         f_matrices = [self.gate_matrices[gate_label] for gate_label in spec]
-        result = functools.reduce(lambda a, b: a @ b, f_matrices)
+        # the first gate of the sequence acts first
+        result = functools.reduce(lambda a, b: b @ a, f_matrices)
         return result
 
     def get_tomography_basis(self) -> TomographyBasis:
-- 
2.43.0


From adecd750b0b04c37a2c2f714cad518a0f50e5948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:46 +0000
Subject: [PATCH 19/51] fix: subset_fitter reads the label of a qubit from the
 right

---
 qiskit/ignis/mitigation/measurement/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index cef15a4..bd214ce 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -156,7 +156,9 @@ class CompleteMeasFitter:
         q_q_mapping = []
         state_labels_reduced = []
         for label in self.state_labels:
-            tmplabel = [label[index] for index in qubit_sublist_ind]
+            # the label of the first qubit is the rightmost one
+            tmplabel = [label[-1-index] for index in
+                        reversed(qubit_sublist_ind)]
             state_labels_reduced.append(''.join(tmplabel))
 
         for sub_lab_ind, _ in enumerate(new_state_labels):
-- 
2.43.0


From 6a68ec50ac9bc79e4fd515e871a88b0e9399a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:46 +0000
Subject: [PATCH 20/51] fix: circlabel of the measurement fitters is not a
 regular expression

---
 qiskit/ignis/mitigation/measurement/fitters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index bd214ce..ed456e6 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -407,8 +407,9 @@ class TensoredMeasFitter():
                 circ_name = experiment.header.name
                 # extract the state from the circuit name
                 # this was the prepared state
-                circ_search = re.search('(?<=' + self._circlabel + 'cal_)\\w+',
-                                        circ_name)
+                circ_search = re.search(
+                    '(?<=' + re.escape(self._circlabel) + 'cal_)\\w+',
+                    circ_name)
 
                 # this experiment is not one of the calcs so skip
                 if circ_search is None:
-- 
2.43.0


From 3586acc8cc4722a1b14d40b3af986da4d90bb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:47 +0000
Subject: [PATCH 21/51] fix: measurement filters accept method None as
 documented

---
 qiskit/ignis/mitigation/measurement/filters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/mitigation/measurement/filters.py b/qiskit/ignis/mitigation/measurement/filters.py
index e8a9f69..0704974 100644
--- a/qiskit/ignis/mitigation/measurement/filters.py
+++ b/qiskit/ignis/mitigation/measurement/filters.py
@@ -105,6 +105,9 @@ class MeasurementFilter():
 
         """
 
+        if method is None:
+            method = 'least_squares'
+
         # check forms of raw_data
         if isinstance(raw_data, dict):
             # counts dictionary
@@ -308,6 +311,9 @@ class TensoredFilter():
         all_states = count_keys(self.nqubits)
         num_of_states = 2**self.nqubits
 
+        if method is None:
+            method = 'least_squares'
+
         # check forms of raw_data
         if isinstance(raw_data, dict):
             # counts dictionary
-- 
2.43.0


From d246a0fbd54779605cee9099dade48221c0df396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:15 +0000
Subject: [PATCH 22/51] fix: measurement calibration with a larger classical
 register

---
 qiskit/ignis/mitigation/measurement/fitters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index ed456e6..22d7a83 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -420,6 +420,8 @@ class TensoredMeasFitter():
                 # get the counts from the result
                 state_cnts = result.get_counts(circ_name)
                 for measured_state, counts in state_cnts.items():
+                    # a larger classical register has unused leading bits
+                    measured_state = measured_state[-self.nqubits:]
                     end_index = self.nqubits
                     for cal_ind, cal_mat in enumerate(self._cal_matrices):
 
-- 
2.43.0


From 2c64652005c69c718c0b2c3cce4b2468d51c8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:14 +0000
Subject: [PATCH 23/51] fix: CTMP mitigation does not use the removed numpy
 aliases int and float

---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index a50075b..29560ff 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -131,8 +131,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         gamma = self.noise_strength(qubits)
         bmat = self._sampling_matrix(qubits)
         values = bmat.data
-        indices = np.asarray(bmat.indices, dtype=np.int)
-        indptrs = np.asarray(bmat.indptr, dtype=np.int)
+        indices = np.asarray(bmat.indices, dtype=int)
+        indptrs = np.asarray(bmat.indptr, dtype=int)
 
         # Set a minimum number of CTMP samples
         shots = sum(counts.values())
@@ -184,7 +184,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits not in self._generator_mats:
             # Construct G from subset generators
             qubits_set = set(qubits)
-            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=np.float)
+            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=float)
             for gen, rate in zip(self._generators, self._rates):
                 if qubits_set.issuperset(gen[2]):
                     # Keep generator
@@ -301,7 +301,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
 
         # Apply CTMP sampling
         r_vals = rng.random(size=alphas.sum())
-        y_vals = np.zeros(x_vals.size, dtype=np.int)
+        y_vals = np.zeros(x_vals.size, dtype=int)
         _markov_chain_compiled(y_vals, x_vals, r_vals, alphas, csc_data, csc_indices,
                                csc_indptrs)
 
-- 
2.43.0


From 1521bb952ddcd3fd54b5ae4625ee0aa6a8511542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:49 +0000
Subject: [PATCH 24/51] fix: CTMP rates of single-qubit errors belong to the
 right direction

---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py    |  6 +++---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 12 ++----------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index 50cce64..fb3ffef 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -68,11 +68,11 @@ def _ctmp_err_rate_1_q(a: str, b: str, j: int,
     # pylint: disable=invalid-name
     rate_list = []
     if a == '0' and b == '1':
-        g1 = ('00', '10')
-        g2 = ('01', '11')
-    elif a == '1' and b == '0':
         g1 = ('10', '00')
         g2 = ('11', '01')
+    elif a == '1' and b == '0':
+        g1 = ('00', '10')
+        g2 = ('01', '11')
     else:
         raise ValueError('Invalid a,b encountered...')
     for k in range(num_qubits):
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 29560ff..d36543c 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -206,11 +206,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the measurement error mitigation matrix :math:`A^{-1}`.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
-        gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
+        gmat = self.generator_matrix(qubits).todense()
         return la.expm(-gmat)
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -226,11 +222,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the assignment matrix A.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
-        gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
+        gmat = self.generator_matrix(qubits).todense()
         return la.expm(gmat)
 
     def noise_strength(self, qubits: Optional[int] = None) -> float:
-- 
2.43.0


From 02c658cacb4d2885c4be3b42390413b93582ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:49 +0000
Subject: [PATCH 25/51] fix: matrices of the tensored expectation-value
 mitigator for a subset of qubits

---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index e203500..9793868 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -138,7 +138,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._mitigation_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._mitigation_mats[qubits[i]], mat)
+            mat = np.kron(self._mitigation_mats[i], mat)
         return mat
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -160,7 +160,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._assignment_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._assignment_mats[qubits[i]], mat)
+            mat = np.kron(self._assignment_mats[i], mat)
         return mat
 
     def assignment_fidelity(self, qubits: Optional[List[int]] = None) -> float:
-- 
2.43.0


From d703c00a905126bad7d75a362eb36de200f29d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:49 +0000
Subject: [PATCH 26/51] fix: mitigated expectation values of an observable on
 reordered qubits

---
 qiskit/ignis/mitigation/expval/complete_mitigator.py |  5 ++++-
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py     |  4 +++-
 qiskit/ignis/mitigation/expval/utils.py              | 11 ++++++++---
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/complete_mitigator.py b/qiskit/ignis/mitigation/expval/complete_mitigator.py
index 5d6b67a..8ab114e 100644
--- a/qiskit/ignis/mitigation/expval/complete_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/complete_mitigator.py
@@ -18,7 +18,8 @@ from typing import Optional, List, Dict, Tuple
 import numpy as np
 
 from qiskit.exceptions import QiskitError
-from .utils import (counts_probability_vector, _expval_with_stddev)
+from .utils import (counts_probability_vector, _expval_with_stddev,
+                    _sort_qubit_axes)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -102,6 +103,8 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
         # Get operator coeffs
         if diagonal is None:
             diagonal = self._z_diagonal(2 ** num_qubits)
+        # The probabilities are in the order of the sorted qubits
+        diagonal = _sort_qubit_axes(np.asarray(diagonal), qubits)
         # Apply transpose of mitigation matrix
         coeffs = mit_mat.T.dot(diagonal)
 
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index d36543c..1d5b7ff 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -25,7 +25,7 @@ from qiskit.exceptions import QiskitError
 from qiskit.ignis.numba import jit_fallback
 
 from .base_meas_mitigator import BaseExpvalMeasMitigator
-from .utils import counts_probability_vector
+from .utils import counts_probability_vector, _sort_qubit_axes
 from .ctmp_generator_set import Generator
 
 logger = logging.getLogger(__name__)
@@ -124,6 +124,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if diagonal is None:
             diagonal = self._z_diagonal(2**len(qubits))
         diagonal = np.asarray(diagonal, dtype=probs.dtype)
+        # The probabilities are in the order of the sorted qubits
+        diagonal = _sort_qubit_axes(diagonal, qubits)
 
         # Get arrays from CSC sparse matrix format
         # TODO: To use qubits kwarg we should compute the B-matrix and gamma
diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index bb9bb42..3432570 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -139,9 +139,7 @@ def counts_probability_vector(
     if qubits is not None:
         if len(qubits) != num_qubits:
             raise QiskitError("Num qubits does not match vector length.")
-        axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
-        vec = np.reshape(vec,
-                         num_qubits * [2]).transpose(axes).reshape(vec.shape)
+        vec = _sort_qubit_axes(vec, qubits)
     if return_shots:
         return vec, shots
     return vec
@@ -225,6 +223,13 @@ def assignment_matrix(cal_data: Dict[int, Dict[int, int]],
     return amat / renorm
 
 
+def _sort_qubit_axes(vec: np.ndarray, qubits: List[int]) -> np.ndarray:
+    """Reorder the bits of the index of a vector to ascending qubits."""
+    num_qubits = len(qubits)
+    axes = [num_qubits - 1 - i for i in reversed(np.argsort(qubits))]
+    return np.reshape(vec, num_qubits * [2]).transpose(axes).reshape(vec.shape)
+
+
 def _expval_with_stddev(coeffs: np.ndarray,
                         probs: np.ndarray,
                         shots: int) -> Tuple[float, float]:
-- 
2.43.0


From 7cdbe9093a99f9f2682ae21c7a6f7d45a4059561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:30 +0000
Subject: [PATCH 27/51] fix: mitigated expectation values with reordered
 classical bits

---
 qiskit/ignis/mitigation/expval/complete_mitigator.py | 3 ++-
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py     | 4 +++-
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 4 +++-
 qiskit/ignis/mitigation/expval/utils.py              | 8 ++++++++
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/complete_mitigator.py b/qiskit/ignis/mitigation/expval/complete_mitigator.py
index 8ab114e..1f9c459 100644
--- a/qiskit/ignis/mitigation/expval/complete_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/complete_mitigator.py
@@ -19,7 +19,7 @@ import numpy as np
 
 from qiskit.exceptions import QiskitError
 from .utils import (counts_probability_vector, _expval_with_stddev,
-                    _sort_qubit_axes)
+                    _qubits_of_clbits, _sort_qubit_axes)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -88,6 +88,7 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
             which physical qubits these bit-values correspond to as
             ``circuit.measure(qubits, clbits)``.
         """
+        qubits = _qubits_of_clbits(qubits, clbits)
         # Get probability vector
         probs, shots = counts_probability_vector(
             counts, clbits=clbits, qubits=qubits, return_shots=True)
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 1d5b7ff..bfbe567 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -25,7 +25,8 @@ from qiskit.exceptions import QiskitError
 from qiskit.ignis.numba import jit_fallback
 
 from .base_meas_mitigator import BaseExpvalMeasMitigator
-from .utils import counts_probability_vector, _sort_qubit_axes
+from .utils import (counts_probability_vector, _qubits_of_clbits,
+                    _sort_qubit_axes)
 from .ctmp_generator_set import Generator
 
 logger = logging.getLogger(__name__)
@@ -112,6 +113,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
             which physical qubits these bit-values correspond to as
             ``circuit.measure(qubits, clbits)``.
         """
+        qubits = _qubits_of_clbits(qubits, clbits)
         if qubits is None:
             qubits = list(range(self._num_qubits))
 
diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index 9793868..44b7f73 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -17,7 +17,8 @@ Single-qubit tensor-product measurement error mitigation generator.
 from typing import Optional, List, Dict, Tuple
 import numpy as np
 
-from .utils import (counts_probability_vector, _expval_with_stddev)
+from .utils import (counts_probability_vector, _expval_with_stddev,
+                    _qubits_of_clbits)
 from .base_meas_mitigator import BaseExpvalMeasMitigator
 
 
@@ -97,6 +98,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             which physical qubits these bit-values correspond to as
             ``circuit.measure(qubits, clbits)``.
         """
+        qubits = _qubits_of_clbits(qubits, clbits)
         # Get expectation value on specified qubits
         probs, shots = counts_probability_vector(
             counts, clbits=clbits, return_shots=True)
diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index 3432570..febcb6b 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -223,6 +223,14 @@ def assignment_matrix(cal_data: Dict[int, Dict[int, int]],
     return amat / renorm
 
 
+def _qubits_of_clbits(qubits: Optional[List[int]],
+                      clbits: Optional[List[int]]) -> Optional[List[int]]:
+    """Order qubits by the bits they are measured to, as marginal counts are."""
+    if qubits is None or clbits is None or len(qubits) != len(clbits):
+        return qubits
+    return [qubits[i] for i in np.argsort(clbits)]
+
+
 def _sort_qubit_axes(vec: np.ndarray, qubits: List[int]) -> np.ndarray:
     """Reorder the bits of the index of a vector to ascending qubits."""
     num_qubits = len(qubits)
-- 
2.43.0


From 63265bb769bb78e3449978009cda01f7bca58b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:30 +0000
Subject: [PATCH 28/51] fix: mitigated expectation values of the first qubits
 without naming them

---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py     | 3 ++-
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index bfbe567..9037e19 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -115,7 +115,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         """
         qubits = _qubits_of_clbits(qubits, clbits)
         if qubits is None:
-            qubits = list(range(self._num_qubits))
+            num_bits = len(next(iter(counts)) if clbits is None else clbits)
+            qubits = list(range(num_bits))
 
         # Convert counts to probs
         probs, shots = counts_probability_vector(
diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index 44b7f73..11aff75 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -107,7 +107,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits is not None:
             ainvs = self._mitigation_mats[list(qubits)]
         else:
-            ainvs = self._mitigation_mats
+            ainvs = self._mitigation_mats[:num_qubits]
 
         # Get operator coeffs
         if diagonal is None:
-- 
2.43.0


From ed4639d5ad751adf5bb65643fedc080a18084e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:09 +0000
Subject: [PATCH 29/51] fix: CTMP mitigation of a single qubit

---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index fb3ffef..d1573ac 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -50,7 +50,7 @@ def fit_ctmp_meas_mitigator(cal_data: Dict[int, Dict[int, int]],
 
     gen_mat_dict = {}
     for gen in generators + _supplementary_generators(generators):
-        if len(gen[2]) > 1:
+        if len(gen[2]) > 1 or num_qubits == 1:
             mat = _local_g_matrix(gen, cal_data, num_qubits)
             gen_mat_dict[gen] = mat
 
@@ -66,6 +66,8 @@ def _ctmp_err_rate_1_q(a: str, b: str, j: int,
                        num_qubits: int) -> float:
     """Compute the 1q error rate for a given generator."""
     # pylint: disable=invalid-name
+    if num_qubits == 1:
+        return g_mat_dict[(b, a, (j,))][int(b, 2), int(a, 2)]
     rate_list = []
     if a == '0' and b == '1':
         g1 = ('10', '00')
@@ -129,14 +131,13 @@ def _local_g_matrix(gen: Generator,
     """Computes the G(j,k) matrix in the basis [00, 01, 10, 11]."""
     # pylint: disable=invalid-name
     _, _, c = gen
-    j, k = c
-    a_mat = assignment_matrix(cal_data, num_qubits, [j, k])
+    a_mat = assignment_matrix(cal_data, num_qubits, list(c))
     g = la.logm(a_mat)
     if np.linalg.norm(np.imag(g)) > 1e-3:
         raise QiskitError('Encountered complex entries in G_i={}'.format(g))
     g = np.real(g)
-    for i in range(4):
-        for j in range(4):
+    for i in range(len(g)):
+        for j in range(len(g)):
             if i != j:
                 if g[i, j] < 0:
                     g[i, j] = 0
-- 
2.43.0


From 0d3674494342614fb62b272ef12565c360e78997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:13 +0000
Subject: [PATCH 30/51] fix: minimum weight matching with weighted syndrome
 graphs

make_error_graph truncated distances to integers, so the weights computed by
weight_syndrome_graph were mostly lost (and unseen errors raised an
OverflowError)
---
 qiskit/ignis/verification/topological_codes/fitters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/topological_codes/fitters.py b/qiskit/ignis/verification/topological_codes/fitters.py
index 6060983..e87abb7 100755
--- a/qiskit/ignis/verification/topological_codes/fitters.py
+++ b/qiskit/ignis/verification/topological_codes/fitters.py
@@ -240,8 +240,8 @@ class GraphDecoder():
             for source in E[subgraph]:
                 for target in E[subgraph]:
                     if target != (source):
-                        distance = int(nx.shortest_path_length(
-                            self.S, source, target, weight='distance'))
+                        distance = nx.shortest_path_length(
+                            self.S, source, target, weight='distance')
                         E[subgraph].add_edge(source, target, weight=-distance)
 
         return E
-- 
2.43.0


From c7f1efd539b5a9677be2551d251bae7ffe0edcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:13 +0000
Subject: [PATCH 31/51] fix: accreditation fitters no longer share their list
 of outputs

---
 qiskit/ignis/verification/accreditation/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 6bbdda2..930efae 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -43,11 +43,13 @@ class AccreditationFitter:
     N_acc = 0
     num_runs = 0
     flag = 'accepted'
-    outputs = []
     num_runs = 0
     num_traps = 0
     g_num = 1
 
+    def __init__(self):
+        self.outputs = []
+
     def single_protocol_run(self, results, postp_list, v_zero):
         """
         Single protocol run of accreditation protocol on simul backend
-- 
2.43.0


From ede8796bc2608152be067deac5309e94cd28682e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:39 +0000
Subject: [PATCH 32/51] fix: accreditation fitter raises the errors it
 constructs

---
 .../verification/accreditation/fitters.py     | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 930efae..816949a 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -58,20 +58,17 @@ class AccreditationFitter:
             results (Result): results of the quantum job
             postp_list (list): list of strings used to post-process outputs
             v_zero (int): position of target
-        """
-        self.num_runs = self.num_runs + 1
-        self.flag = 'accepted'
 
+        Raises:
+            QiskitError: if the data is not a single shot of at least 3 traps
+                and the target, with the same number of traps in every run
+        """
         # Check that correct number of traps is input
-        if self.num_runs == 1:
-            self.num_traps = len(postp_list)-1
-        else:
-            if len(postp_list)-1 != self.num_traps:
-                QiskitError("ERROR: Run protocol with the"
-                            "same number of traps")
-
-        if self.num_traps < 3:
-            QiskitError("ERROR: run the protocol with at least 3 traps")
+        if self.num_runs and len(postp_list)-1 != self.num_traps:
+            raise QiskitError("ERROR: Run protocol with the "
+                              "same number of traps")
+        if len(postp_list)-1 < 3:
+            raise QiskitError("ERROR: run the protocol with at least 3 traps")
         allcounts = []
         for ind, postp in enumerate(postp_list):
 
@@ -84,8 +81,11 @@ class AccreditationFitter:
             for countstring, val in counts.items():
                 shots += val
             if shots != 1 or countstring is None:
-                QiskitError("ERROR: not single shot data")
+                raise QiskitError("ERROR: not single shot data")
             allcounts.append(countstring)
+        self.num_runs = self.num_runs + 1
+        self.num_traps = len(postp_list)-1
+        self.flag = 'accepted'
         for k, count in enumerate(allcounts):
             if k != v_zero:
                 # Check if trap returns correct output
@@ -104,10 +104,13 @@ class AccreditationFitter:
 
         Args:
             theta (float): number between 0 and 1
+
+        Raises:
+            QiskitError: if no run was accepted
         """
         if self.N_acc == 0:
-            QiskitError("ERROR: Variation distance requires"
-                        "at least one accepted run")
+            raise QiskitError("ERROR: Variation distance requires "
+                              "at least one accepted run")
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From b9b9f4e9d8bf806ab366afea403dbee9bdd3d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:39 +0000
Subject: [PATCH 33/51] fix: confidence of the accreditation bound follows
 Hoeffding's inequality

---
 qiskit/ignis/verification/accreditation/fitters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 816949a..d72944c 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -115,6 +115,7 @@ class AccreditationFitter:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
             self.bound = self.bound+1-self.g_num
-            self.confidence = 1-2*np.exp(-2*theta*self.num_runs*self.num_runs)
+            # Hoeffding's inequality
+            self.confidence = 1-2*np.exp(-2*self.num_runs*theta*theta)
         if self.bound > 1:
             self.bound = 1
-- 
2.43.0


From d37c80d5578e8d3522b413105bdde14a7fc015fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:39 +0000
Subject: [PATCH 34/51] fix: accreditation bound of an earlier theta is not
 kept when none applies

---
 qiskit/ignis/verification/accreditation/fitters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index d72944c..dcbbf2b 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -117,5 +117,9 @@ class AccreditationFitter:
             self.bound = self.bound+1-self.g_num
             # Hoeffding's inequality
             self.confidence = 1-2*np.exp(-2*self.num_runs*theta*theta)
+        else:
+            # no statement can be made at this theta
+            self.bound = 1
+            self.confidence = 1
         if self.bound > 1:
             self.bound = 1
-- 
2.43.0


From 0f15c9ec64e2da2503d5b6658267c5a082a4035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:42 +0000
Subject: [PATCH 35/51] fix: one-time pad correction follows the classical bits
 measured into

qubits measured into other classical bits than their own index (or moved by
the coupling map) were corrected with the pad of another qubit
---
 qiskit/ignis/verification/accreditation/qotp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index bfd82a7..ba9d8f7 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -213,8 +213,10 @@ def QOTP_fromlayers(layers, rng):
     temp_circ = transpile(temp_circ,
                           basis_gates=['u1', 'u2', 'u3'])
     qotp_circ = qotp_circ+temp_circ
-    # post operations
-    qotp_postp = np.flip(paulixs)
+    # post operations, in the order of the printed classical bits
+    qotp_postp = np.zeros(len(cregs), dtype=int)
+    for _, qsub, csub in layers['measlayer']:
+        qotp_postp[len(cregs)-1-csub[0].index] = paulixs[qsub[0].index]
     # measurements
     qotp_circ = qotp_circ+layers['measlayer']
     return qotp_circ, qotp_postp
-- 
2.43.0


From 052e253932d8dd5dc0d6a766ea43489027b65f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:44 +0000
Subject: [PATCH 36/51] fix: reject mid-circuit measurements and conditions in
 the one-time pad

they were silently moved to the end of the circuit
---
 qiskit/ignis/verification/accreditation/qotp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index ba9d8f7..1b9dcd8 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -63,12 +63,17 @@ def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
     measlayer = QuantumCircuit(qregs, cregs)
     # some flags for simplicity
     current2qs = []
+    measured = set()
     # loop through circuit (best to use the dag object)
     dag_internal = circuit_to_dag(circ_internal)
     for dag_layer in dag_internal.layers():
         circuit_layer = dag_to_circuit(dag_layer['graph'])
         for circelem, qsub, csub in circuit_layer:
             n = circelem.name
+            if circelem.condition is not None or (
+                    n not in ('barrier', 'measure') and measured.intersection(qsub)):
+                raise QiskitError("Conditional gates and gates after a measurement"
+                                  " are not implemented in qotp")
             if n == "barrier":
                 # if a barrier separates any two qubit gates
                 # start a new layer
@@ -109,6 +114,7 @@ def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
                 current2qs.append(q_1)
             elif n == "measure":
                 measlayer.append(circelem, qsub, csub)
+                measured.update(qsub)
             else:
                 raise QiskitError("Circuit element {0}".format(n)
                                   + " is not implemented in qotp")
-- 
2.43.0


From aa7e74d8e988fe953fdf67fbb475678a6a27e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 37/51] fix: ZZ circuits accept the documented list of gate
 numbers

---
 qiskit/ignis/characterization/hamiltonian/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index 0f112e1..b554c5b 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -56,7 +56,7 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         if qubit in spectators:
             raise ValueError("Qubits and spectators must be different")
 
-    xdata = gate_time * num_of_gates
+    xdata = gate_time * np.array(num_of_gates)
 
     qr = qiskit.QuantumRegister(max([max(qubits), max(spectators)])+1)
     cr = qiskit.ClassicalRegister(len(qubits))
-- 
2.43.0


From 7ecdd32368e617e262ecd8b4a099287179027c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 38/51] fix: artificial angle error of the last pulse in the 1Q
 angle calibration

---
 qiskit/ignis/characterization/gates/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/gates/circuits.py b/qiskit/ignis/characterization/gates/circuits.py
index 02e4198..9bdfb9c 100644
--- a/qiskit/ignis/characterization/gates/circuits.py
+++ b/qiskit/ignis/characterization/gates/circuits.py
@@ -112,7 +112,7 @@ def anglecal_1Q_circuits(max_reps, qubits, angleerr=0.0):
                     circ.append(U2Gate(0.0, 0.0), [qr[qubit]])  # Yp
 
             if angleerr != 0:
-                circ.append(U1Gate(-angleerr), [qr[qubit]])
+                circ.append(U1Gate(-2*angleerr), [qr[qubit]])
             circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[qubit]])  # X90p
         for qind, qubit in enumerate(qubits):
             circ.measure(qr[qubit], cr[qind])
-- 
2.43.0


From fe9238bf94659d81ae182b405e0ae3e0e6dbdfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 39/51] fix: IQ fitter with single-shot data

---
 qiskit/ignis/characterization/fitters.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 5fa8f2e..3752ef2 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -448,11 +448,9 @@ class IQFitter(BaseFitter):
                 else:
 
                     # data is in single shot IQ mode
-                    iq_list[sname] = (result.shots *
-                                      single_result.get_memory(sname) +
-                                      iq_list.get(sname,
-                                                  np.zeros([result.shots,
-                                                            mem_slots])))
+                    iq_list[sname] = np.concatenate(
+                        [iq_list.get(sname, np.zeros([0, mem_slots])),
+                         single_result.get_memory(sname)])
 
         for sname in iq_list:
 
@@ -460,8 +458,8 @@ class IQFitter(BaseFitter):
                 iq_list_mean[sname] = iq_list[sname]/shots_list[sname]
                 iq_list_var[sname] = np.ones(len(iq_list_mean[sname]))*1e-4
             else:
-                iq_list_mean[sname] = np.sum(iq_list[sname])/shots_list[sname]
-                iq_list_var[sname] = np.std(iq_list[sname])
+                iq_list_mean[sname] = np.mean(iq_list[sname], axis=0)
+                iq_list_var[sname] = np.std(iq_list[sname], axis=0)
 
         return iq_list_mean, iq_list_var
 
-- 
2.43.0


From 6e37e0cfcf0468b988c6df3a0a69ca97eb5d2234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 40/51] fix: IQ projection keeps the signal when I and Q are
 anticorrelated

---
 qiskit/ignis/characterization/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 3752ef2..75694b1 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -499,6 +499,9 @@ class IQFitter(BaseFitter):
                 imag_ext = np.mean(np.abs(np.imag(mean_list)))
                 crot = real_ext/(real_ext**2+imag_ext**2)**0.5
                 srot = imag_ext/(real_ext**2+imag_ext**2)**0.5
+                # the extents have no sign: I and Q may be anticorrelated
+                if np.sum(np.real(mean_list)*np.imag(mean_list)) < 0:
+                    srot = -srot
                 mean_list = crot*np.real(mean_list)+srot*np.imag(mean_list)
                 self._ydata[serieslbl][-1]['mean'] = mean_list
 
-- 
2.43.0


From 723514ba127f8cf8e17dad74ba0f2586b8684201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 41/51] fix: rabi and drag schedules measure each qubit into
 its own position

---
 .../characterization/calibrations/pulse_schedules.py      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/characterization/calibrations/pulse_schedules.py b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
index 6c06129..a02dfbc 100644
--- a/qiskit/ignis/characterization/calibrations/pulse_schedules.py
+++ b/qiskit/ignis/characterization/calibrations/pulse_schedules.py
@@ -79,7 +79,9 @@ def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None,
         sched = pulse.Schedule(name='rabisched_%d_0' % index)
         for qubit in qubits:
             sched += pulse.Play(rabi_pulse, drives[qubit])
-        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(pulse_width)
+        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map,
+                         qubit_mem_slots={qubit: i for i, qubit in enumerate(qubits)}
+                         ).shift(pulse_width)
         rabi_scheds.append(sched)
 
     return rabi_scheds, xdata
@@ -148,7 +150,9 @@ def drag_schedules(beta_list, qubits, pulse_amp, pulse_width,
                                           name='drag_pulse_%d_%d' % (index, qubit))
             sched += pulse.Play(drag_pulse_p, drives[qubit])
             sched += pulse.Play(drag_pulse_m, drives[qubit])
-        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(2*pulse_width)
+        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map,
+                         qubit_mem_slots={qubit: i for i, qubit in enumerate(qubits)}
+                         ).shift(2*pulse_width)
         drag_scheds.append(sched)
 
     return drag_scheds, xdata
-- 
2.43.0


From 7da54bcf432cd5fc6a57d19eed6d699e44e3b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 42/51] fix: expected states of schedules given as Schedule
 objects

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 4a2c919..a4473cd 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -241,7 +241,7 @@ class BaseDiscriminationFitter(ABC):
         """
         expected_states = []
         for schedule in schedules:
-            if isinstance(schedules, Schedule):
+            if isinstance(schedule, Schedule):
                 name = schedule.name
             else:
                 name = schedule
-- 
2.43.0


From 7bf99da3e1915e1b5fa74103389cd1e0e4885571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 43/51] fix: discriminators take each schedule from the first
 result that has it

---
 qiskit/ignis/measurement/discriminator/iq_discriminators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index 09abba5..5ab4313 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -104,6 +104,7 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
                 for result in results:
                     try:
                         iq_data = result.get_memory(schedule)
+                        break
                     except QiskitError:
                         pass
             else:
@@ -153,6 +154,7 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
                     iq_data = result.get_memory(schedule)
                     n_shots = iq_data.shape[0]
                     ydata.extend([self._expected_state[shed_name]]*n_shots)
+                    break
                 except QiskitError:
                     pass
 
-- 
2.43.0


From 8241083b4d0dbd6ff0c1ede99ceaaf464c4c02e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 44/51] fix: expected states of averaged IQ data

---
 qiskit/ignis/measurement/discriminator/iq_discriminators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index 5ab4313..e1c4ade 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -152,7 +152,8 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
             for result in results:
                 try:
                     iq_data = result.get_memory(schedule)
-                    n_shots = iq_data.shape[0]
+                    # averaged data has one entry per slot and no shots
+                    n_shots = iq_data.shape[0] if iq_data.ndim == 2 else 1
                     ydata.extend([self._expected_state[shed_name]]*n_shots)
                     break
                 except QiskitError:
-- 
2.43.0


From b1e21d25aab2330ece109af01cb9833228329c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:34 +0000
Subject: [PATCH 45/51] fix: add_data keeps the earlier training data of a
 discriminator

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index a4473cd..b160354 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -115,8 +115,8 @@ class BaseDiscriminationFitter(ABC):
         self._backend_result_list.append(result)
         self._add_expected_states(expected_states, schedules)
         self._schedules.extend(schedules)
-        self._xdata = self.get_xdata(self._backend_result_list, 0, schedules)
-        self._ydata = self.get_ydata(self._backend_result_list, 0, schedules)
+        self._xdata = list(self._xdata) + list(self.get_xdata(result, 0, schedules))
+        self._ydata = self._ydata + self.get_ydata(result, 0, schedules)
 
         if refit:
             self.fit()
-- 
2.43.0


From 256370d665e74d21d6a082edbc10737fe65d0ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:35 +0000
Subject: [PATCH 46/51] fix: discrimination filter with averaged data

---
 qiskit/ignis/measurement/discriminator/filters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/filters.py b/qiskit/ignis/measurement/discriminator/filters.py
index f855e4f..e5e65bd 100644
--- a/qiskit/ignis/measurement/discriminator/filters.py
+++ b/qiskit/ignis/measurement/discriminator/filters.py
@@ -76,7 +76,8 @@ class DiscriminationFilter:
         shots_per_experiment_result = []
         for result in new_results.results:
             if result.meas_level == 1:
-                shots_per_experiment_result.append(result.shots)
+                shots_per_experiment_result.append(
+                    1 if result.meas_return == 'avg' else result.shots)
                 to_be_discriminated.append(result)
 
         new_results.results = to_be_discriminated
-- 
2.43.0


From 4f5ded44bd46164e92c6c3df33e313b181a35f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:35 +0000
Subject: [PATCH 47/51] fix: discrimination filter accepts a list of results

---
 qiskit/ignis/measurement/discriminator/filters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/filters.py b/qiskit/ignis/measurement/discriminator/filters.py
index e5e65bd..af2fe33 100644
--- a/qiskit/ignis/measurement/discriminator/filters.py
+++ b/qiskit/ignis/measurement/discriminator/filters.py
@@ -19,7 +19,7 @@
 Discrimination filters.
 """
 from copy import deepcopy
-from typing import List
+from typing import List, Union
 
 from qiskit.exceptions import QiskitError
 from qiskit.ignis.measurement.discriminator.discriminators import \
@@ -57,7 +57,8 @@ class DiscriminationFilter:
             self.base = DiscriminationFilter.get_base(
                 discriminator.expected_states)
 
-    def apply(self, raw_data: Result) -> Result:
+    def apply(self, raw_data: Union[Result, List[Result]]) \
+            -> Union[Result, List[Result]]:
         """
         Create a new result from the raw_data by converting level 1 data to
         level 2 data.
@@ -68,6 +69,9 @@ class DiscriminationFilter:
         Returns:
             A list of qiskit.Result or qiskit.Result.
         """
+        if isinstance(raw_data, list):
+            return [self.apply(result) for result in raw_data]
+
         new_results = deepcopy(raw_data)
 
         to_be_discriminated = []
-- 
2.43.0


From ea1d6973b6b33dc3419a781eaec4697018a92fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:27 +0000
Subject: [PATCH 48/51] fix: raw MQC fidelity uses the raw populations

---
 qiskit/ignis/verification/entanglement/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/analysis.py b/qiskit/ignis/verification/entanglement/analysis.py
index 25d2034..7f77036 100644
--- a/qiskit/ignis/verification/entanglement/analysis.py
+++ b/qiskit/ignis/verification/entanglement/analysis.py
@@ -189,7 +189,7 @@ class Plotter:
             print("Upper/Lower error mitigated fidelity bounds = ",
                   round(UB_m, 3), " +/- ", round(.01*UB_m, 3), " || ",
                   round(LB_m, 3), " +/- ", round(.01*LB_m, 3))
-            (F, F_m) = (.5*(P0_m + P1_m) + np.sqrt(np.absolute(fft[qn])),
+            (F, F_m) = (.5*(P0 + P1) + np.sqrt(np.absolute(fft[qn])),
                         .5*(P0_m + P1_m) + np.sqrt(np.absolute(fft_m[qn])))
             print("Raw fidelity = ", round(F, 3), " +/- ", round(.01*F, 3))
             print("Mitigated fidelity = ", round(F_m, 3),
-- 
2.43.0


From 70567e70ba85b666ce5cba8cce98a37626a2536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:33 +0000
Subject: [PATCH 49/51] fix: quantum volume circuits with seed 0 are
 reproducible

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 4f0a8b8..81d15db 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -72,7 +72,7 @@ def qv_circuits(qubit_lists, ntrials=1,
                               DeprecationWarning)
     depth_list = [len(qubit_list) for qubit_list in qubit_lists]
 
-    if seed:
+    if seed is not None:
         rng = np.random.default_rng(seed)
     else:
         _seed = None
@@ -83,7 +83,7 @@ def qv_circuits(qubit_lists, ntrials=1,
     for trial in range(ntrials):
         for depthidx, depth in enumerate(depth_list):
             n_q_max = np.max(qubit_lists[depthidx])
-            if seed:
+            if seed is not None:
                 _seed = rng.integers(1000)
             qv_circ = QuantumVolume(depth, depth, seed=_seed)
             qc2 = copy.deepcopy(qv_circ)
-- 
2.43.0


From 32b63a1bb907006391f4737c82a635c1c34f5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:33 +0000
Subject: [PATCH 50/51] fix: quantum volume circuits on qubits 1 to n

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 81d15db..70e8d9a 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -89,7 +89,7 @@ def qv_circuits(qubit_lists, ntrials=1,
             qc2 = copy.deepcopy(qv_circ)
             # TODO: Remove this when we remove support for doing pseudo-layout
             # via qubit lists
-            if n_q_max != depth:
+            if list(qubit_lists[depthidx]) != list(range(depth)):
                 qc = QuantumCircuit(int(n_q_max + 1))
                 qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
             else:
-- 
2.43.0


From d45eee7d13aee987227adc90022765eacf8912e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:33 +0000
Subject: [PATCH 51/51] fix: quantum volume circuits measure the qubits in the
 order of their list

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 70e8d9a..89802a6 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -22,6 +22,7 @@ import warnings
 
 import numpy as np
 
+from qiskit.circuit import ClassicalRegister
 from qiskit.circuit.library import QuantumVolume
 from qiskit.circuit.quantumcircuit import QuantumCircuit
 
@@ -94,7 +95,10 @@ def qv_circuits(qubit_lists, ntrials=1,
                 qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
             else:
                 qc = qv_circ
-            qc.measure_active()
+            creg = ClassicalRegister(depth, 'measure')
+            qc.add_register(creg)
+            qc.barrier()
+            qc.measure(qubit_lists[depthidx], creg)
             qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
             qc2.name = qc.name
 
-- 
2.43.0

