From 3f3020186e700a9c431171f11cc4330dcf34566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 01/12] fix: give each topological qubit its own params (shared
 dicts shared round counters)

---
 qtcodes/circuits/base.py       | 2 +-
 qtcodes/circuits/repetition.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index b6e8cec..de99d33 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -79,7 +79,7 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
 
         self.name = name
         self.circ = circ
-        self.params: Dict[str, Any] = params
+        self.params: Dict[str, Any] = dict(params)  # never share counters with the caller
         self._params_validate_and_generate()
 
         self.qregisters: Dict[str, QuantumRegister] = {}  # quantum
diff --git a/qtcodes/circuits/repetition.py b/qtcodes/circuits/repetition.py
index 0351952..4384b39 100644
--- a/qtcodes/circuits/repetition.py
+++ b/qtcodes/circuits/repetition.py
@@ -24,7 +24,7 @@ class RepetitionQubit(XXZZQubit):
         name: str = "tq",
         circ: Optional[QuantumCircuit] = None,
     ) -> None:
-        params = self._validate_params(params)
+        params = self._validate_params(dict(params) if params else None)
         super().__init__(params, name, circ)
 
     @staticmethod
-- 
2.43.0


From 62ea18e9a7b6f84873507542260a3cb3b20d3fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:22 +0000
Subject: [PATCH 02/12] fix: read out logical X and Z of one-dimensional XZZX
 lattices

---
 qtcodes/circuits/xzzx.py | 42 +++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 64ce8d5..a255594 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -54,7 +54,8 @@ class _XZZXLattice(_RotatedLattice):
 
     def reset_x(self):
         self.circ.reset(self.qregisters["data"])
-        self.circ.h(self.qregisters["data"][1::2])  # H|0> = |+>
+        if self.params["num_data"] > 1:
+            self.circ.h(self.qregisters["data"][1::2])  # H|0> = |+>
 
     def reset_z(self):
         self.circ.reset(self.qregisters["data"])
@@ -145,17 +146,19 @@ class _XZZXLattice(_RotatedLattice):
 
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
-        self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
-        self.circ.h(self.qregisters["ancilla"])
+        if x_readout_indxs:
+            self.circ.h(self.qregisters["ancilla"])
+            self.circ.cx(
+                self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
+            )
+            self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        if z_readout_indxs:
+            self.circ.cx(
+                self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
+            )
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
@@ -185,17 +188,19 @@ class _XZZXLattice(_RotatedLattice):
 
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
-        self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
-        self.circ.h(self.qregisters["ancilla"])
+        if x_readout_indxs:
+            self.circ.h(self.qregisters["ancilla"])
+            self.circ.cx(
+                self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
+            )
+            self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        if z_readout_indxs:
+            self.circ.cx(
+                self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
+            )
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
@@ -224,7 +229,8 @@ class _XZZXLattice(_RotatedLattice):
 
         # H|+> = |0>, H|-> = |1>
         # add H to measure along X for odd data qubits
-        self.circ.h(self.qregisters["data"][1::2])
+        if self.params["num_data"] > 1:
+            self.circ.h(self.qregisters["data"][1::2])
 
         self.circ.measure(self.qregisters["data"], self.cregisters[creg_name])
         self.circ.barrier()
-- 
2.43.0


From 2d6ed1cad9a00ae90a847599c567a4f04942a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 03/12] fix: reject negative code sizes with a LatticeError

---
 qtcodes/circuits/rotated_surface.py | 2 ++
 qtcodes/fitters/rotated_surface.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index d5af3f5..6f75a1e 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -74,6 +74,8 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         # validation
         dh = self.params["d"][self.H]
         dw = self.params["d"][self.W]
+        if dh < 1 or dw < 1:
+            raise LatticeError("Surface code distance must be positive!")
         if dh % 2 != 1 or dw % 2 != 1:
             raise LatticeError("Surface code distance must be odd in all dimensions!")
 
diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 1e40402..409a065 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -42,6 +42,8 @@ class RotatedDecoder(LatticeDecoder):
         dh = self.params["d"][constants.DH]
         dw = self.params["d"][constants.DW]
 
+        if dh < 1 or dw < 1:
+            raise LatticeError("Surface code height and width must be positive!")
         if dh % 2 != 1:
             raise LatticeError("Surface code height must be odd!")
         if dw % 2 != 1:
-- 
2.43.0


From 9bf5b341d64fd9fab3fafed26efc0749105215ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:00 +0000
Subject: [PATCH 04/12] fix: partial entangling of lattices without X or
 without Z syndromes

---
 qtcodes/circuits/base.py            | 4 ++--
 qtcodes/circuits/rotated_surface.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index de99d33..7454271 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -145,8 +145,8 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
                 List of stabilizers for each plaquette.
                 This is optional, and will be used instead of self.stabilizers if provided.
         """
-        qubit_indices = qubit_indices if qubit_indices else self.qubit_indices
-        stabilizers = stabilizers if stabilizers else self.stabilizers
+        qubit_indices = qubit_indices if qubit_indices is not None else self.qubit_indices
+        stabilizers = stabilizers if stabilizers is not None else self.stabilizers
 
         for i, stabilizer_cls in enumerate(stabilizers):
             stabilizer = stabilizer_cls(self.circ, qubit_indices[i])
diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 6f75a1e..edd1408 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -215,14 +215,14 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         """
         Build/entangle just the X Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[:num_x], self.stabilizers[:num_x])
 
     def entangle_z(self):
         """
         Build/entangle just the Z Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[num_x:], self.stabilizers[num_x:])
 
     def extract_final_stabilizer_and_logical_readout_x(
-- 
2.43.0


From 488ea99540e29d897c1e8f373b524ed86bcc5078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 05/12] fix: do not append virtual nodes to the caller's list
 of hits

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 9838c3b..b7787b0 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -104,7 +104,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
 
         # need to ensure there are an even number of nodes
         make_even = len(nodes) % 2 != 0
-        nodes += self.virtual[syndrome_graph_key]
+        nodes = list(nodes) + self.virtual[syndrome_graph_key]
 
         # add all nodes to error_graph
         for node in nodes:
-- 
2.43.0


From fe1f3f13ed60069685872e8d04dbcdbb64de2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:34 +0000
Subject: [PATCH 06/12] fix: degeneracy of boundary paths from the first
 syndrome node

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index b7787b0..364f726 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -198,7 +198,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             target = b_indx  # virtual
             source = a_indx
 
-        if source:
+        if source is not None:
             shortest_distance = shortest_distance_mat[source][target]
             virtual_nodes = self.virtual[syndrome_graph_key]
             total_deg = 0
-- 
2.43.0


From bb90d67ecb89b2f2dc5924a50020e4b2b237aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:48 +0000
Subject: [PATCH 07/12] fix: sweep_mp could not pickle its worker, and workers
 would race on the data file

---
 qtcodes/tools/benchmarking.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 7e908f9..dd60096 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -17,6 +17,7 @@ from typing import Dict, Optional, List
 
 plt.rcParams.update({"font.size": 14, "pdf.fonttype": 42, "ps.fonttype": 42})
 
+from functools import partial
 from multiprocessing import Pool
 
 
@@ -151,11 +152,13 @@ class TopologicalBenchmark:
             if physical_error_rates is not None
             else [0.04, 0.07, 0.10, 0.13, 0.16,],
         )
-        p = Pool(4)  # TODO change on HPC
-        single_lambda = lambda physical_error_rate: self.single(
-            physical_error_rate, save_data=save_data, shots=shots
-        )
-        logical_error_rates = p.map(single_lambda, physical_error_rates)
+        # workers only compute: they would race on the data file
+        single = partial(self.single, save_data=False, shots=shots)
+        with Pool(4) as p:  # TODO change on HPC
+            logical_error_rates = p.map(single, physical_error_rates)
+        if save_data:
+            for rates in zip(physical_error_rates, logical_error_rates):
+                self.append_data(*rates)
 
         self.data["physical_error_rates"] = physical_error_rates
         self.data["logical_error_rates"] = logical_error_rates
-- 
2.43.0


From bfbde840cc1ba60426e40966cc37de85bcd0d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 08/12] fix: keep logical CX onto a physical target coherent

---
 qtcodes/circuits/xxzz.py |  9 +++++----
 qtcodes/circuits/xzzx.py | 12 ++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/qtcodes/circuits/xxzz.py b/qtcodes/circuits/xxzz.py
index 189921f..34731ac 100644
--- a/qtcodes/circuits/xxzz.py
+++ b/qtcodes/circuits/xxzz.py
@@ -132,10 +132,11 @@ class _XXZZLattice(_RotatedLattice):
                 self.circ.cx(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            # TODO: we may not want to read into the ancilla,
-            # let's try to eliminate this intermediate method,
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row. Coupling each data qubit to the target directly
+            # leaves no copy of the logical value behind (e.g. in the ancilla).
+            for i in range(self.params["d"][self.W]):
+                self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index a255594..c154739 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -127,8 +127,16 @@ class _XZZXLattice(_RotatedLattice):
                     self.circ.cz(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row. Coupling each data qubit to the target directly
+            # leaves no copy of the logical value behind (e.g. in the ancilla).
+            for i in range(self.params["d"][self.W]):
+                if i % 2 == 0:  # X
+                    self.circ.h(target)
+                    self.circ.cx(target, self.qregisters["data"][i])
+                    self.circ.h(target)
+                else:  # Z
+                    self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
-- 
2.43.0


From 043211ac9d43711091cb7b0509380fc56088fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 09/12] fix: no phantom syndrome node in the graph a
 one-dimensional lattice does not have

---
 qtcodes/fitters/rotated_surface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 409a065..7a78914 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -59,6 +59,11 @@ class RotatedDecoder(LatticeDecoder):
         """
         start_nodes = {"Z": (0.5, 0.5), "X": (0.5, 1.5)}
         for syndrome_graph_key in self.syndrome_graph_keys:
+            # one-dimensional lattices have no syndromes of one type
+            if not self._valid_syndrome(
+                start_nodes[syndrome_graph_key], syndrome_graph_key
+            ):
+                continue
             # subgraphs for each time step
             for t in range(0, self.params["T"]):
                 start_node = start_nodes[syndrome_graph_key]
-- 
2.43.0


From 8cd8d98b8546ffba83de5cc54025341fe333c1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 10/12] fix: column index of the final X readout of rotated
 lattices

---
 qtcodes/circuits/rotated_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index edd1408..f0580f6 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -278,7 +278,7 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         # Z_{N}Z_{N-1}...Z_{0} is copied from previous syndrome measurement string
 
         logical_readout = 0
-        for idx in range(0, self.params["num_data"], self.params["d"][self.DW]):
+        for idx in range(0, self.params["num_data"], self.params["d"][self.W]):
             logical_readout = (logical_readout + readout_values[idx]) % 2
 
         return logical_readout, stabilizer_str
-- 
2.43.0


From 3a2783e105dca305859473abd2913e3b837b41a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:46 +0000
Subject: [PATCH 11/12] fix: plot an analysis on the axes it is given

---
 qtcodes/tools/benchmarking.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index dd60096..509c7a0 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -235,12 +235,12 @@ class TopologicalAnalysis:
         self.data["logical_error_rates"] = data["logical_error_rates"]  # TODO
 
     def plot(self, fig=None, ax=None, log=True, per_round=False, **kwargs):
-        if fig is None:
-            fig = plt.figure(figsize=(3.5, 2.5), dpi=200)
         if ax is None:
+            if fig is None:
+                fig = plt.figure(figsize=(3.5, 2.5), dpi=200)
             ax = fig.subplots()
 
-        plt.plot(
+        ax.plot(
             np.array(self.data["physical_error_rates"]),
             np.array(self.data["logical_error_rates"])
             / (self.params["T"] if per_round else 1.0),
@@ -248,8 +248,8 @@ class TopologicalAnalysis:
             **kwargs,
         )
         if log:
-            plt.yscale("log")
-            plt.xscale("log")
+            ax.set_yscale("log")
+            ax.set_xscale("log")
 
 
 class TopologicalBatchAnalysis:
-- 
2.43.0


From d04fe750fe81dd7e54ec0b400c919971e15409fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:46 +0000
Subject: [PATCH 12/12] fix: load both dimensions of a saved code as plain
 integers

---
 qtcodes/tools/benchmarking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 509c7a0..f40b94b 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -229,7 +229,7 @@ class TopologicalAnalysis:
 
     def load_data(self):
         data = np.load(self.filename)
-        self.params["d"] = (int(data["d"][0]), (data["d"][1]))
+        self.params["d"] = (int(data["d"][0]), int(data["d"][1]))
         self.params["T"] = int(data["T"])
         self.data["physical_error_rates"] = data["physical_error_rates"]  # TODO
         self.data["logical_error_rates"] = data["logical_error_rates"]  # TODO
-- 
2.43.0

