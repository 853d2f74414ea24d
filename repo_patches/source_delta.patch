From 9eb2aa0e74a364e2e31ff9cf5e5c5ea55775ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 01/61] fix: raise ValidationError even when the source code of
 the library cannot be read

---
 pydtmc/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 3028080..1d6d56c 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -191,7 +191,8 @@ def create_rng(seed: _oint) -> _trand:
 
 def create_validation_error(ex: _texception, trace: _tany) -> _ValidationError:
 
-    arguments = ''.join(trace[0][4]).split('=', 1)[0].strip()
+    code_context = trace[0][4] or []
+    arguments = ''.join(code_context).split('=', 1)[0].strip()
 
     if ',' in arguments:
         arguments = arguments[:arguments.index(',')]
-- 
2.43.0


From 93b54267fcb2ba13522d27ba3e23dc211c928dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 02/61] fix: reject files whose probabilities are not between 0
 and 1

---
 pydtmc/hidden_markov_model.py | 6 ++++++
 pydtmc/markov_chain.py        | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 118e388..f2feaab 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -787,6 +787,12 @@ class HiddenMarkovModel(_Model):
             else:
                 p[states.index(element_from), states.index(element_to)] = probability
 
+        if _np.any(p < 0.0) or _np.any(p > 1.0):  # pragma: no cover
+            raise ValueError('The transition matrix defined by the file must contain only values between 0.0 and 1.0.')
+
+        if _np.any(e < 0.0) or _np.any(e > 1.0):  # pragma: no cover
+            raise ValueError('The emission matrix defined by the file must contain only values between 0.0 and 1.0.')
+
         if not _np.allclose(_np.sum(p, axis=1), _np.ones(n, dtype=float)):  # pragma: no cover
             raise ValueError('The rows of the transition matrix defined by the dictionary must sum to 1.0.')
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index ac6bc6f..e9ced8c 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2453,6 +2453,9 @@ class MarkovChain(_Model):
         for (state_from, state_to), probability in d.items():
             p[states.index(state_from), states.index(state_to)] = probability
 
+        if _np.any(p < 0.0) or _np.any(p > 1.0):  # pragma: no cover
+            raise ValueError('The transition matrix defined by the file must contain only values between 0.0 and 1.0.')
+
         if not _np.allclose(_np.sum(p, axis=1), _np.ones(size, dtype=float)):  # pragma: no cover
             raise ValueError('The rows of the transition matrix defined by the file must sum to 1.0.')
 
-- 
2.43.0


From f71116f0473de6e5e7b9d1be7961a04608d0c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 03/61] fix: never select zero-probability states and symbols
 in HMM simulations when a null value is drawn

---
 pydtmc/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/simulations.py b/pydtmc/simulations.py
index 934d0fe..50ebd77 100644
--- a/pydtmc/simulations.py
+++ b/pydtmc/simulations.py
@@ -130,7 +130,7 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
         state = 0
 
         for j in range(n - 2, -1, -1):
-            if pr_i > pc[current_state, j]:
+            if pr_i >= pc[current_state, j]:
                 state = j + 1
                 break
 
@@ -138,7 +138,7 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
         symbol = 0
 
         for j in range(k - 2, -1, -1):
-            if er_i > ec[state, j]:
+            if er_i >= ec[state, j]:
                 symbol = j + 1
                 break
 
-- 
2.43.0


From 8edad1ca322f7c09057cc8e778b8213da766c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 04/61] fix: keep rows of random models stochastic when all the
 values drawn for a row are null

---
 pydtmc/generators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index a250d8b..7a0562d 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -128,6 +128,9 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
             if s > 0.0:
                 si = _np.sum(m[i, ~assigned_columns])
                 m[i, assigned_columns] *= (1.0 - si) / s
+            elif _np.any(assigned_columns):
+                si = _np.sum(m[i, ~assigned_columns])
+                m[i, assigned_columns] = (1.0 - si) / _np.sum(assigned_columns)
 
         return m
 
@@ -975,6 +978,9 @@ def mc_random(rng: _trand, size: int, zeros: int, mask: _tarray) -> _tmc_generat
         if s > 0.0:
             si = _np.sum(p[i, ~assigned_columns])
             p[i, assigned_columns] = p[i, assigned_columns] * ((1.0 - si) / s)
+        elif _np.any(assigned_columns):
+            si = _np.sum(p[i, ~assigned_columns])
+            p[i, assigned_columns] = (1.0 - si) / _np.sum(assigned_columns)
 
     state_names = [f'{i:d}' for i in range(1, size + 1)]
 
-- 
2.43.0


From a42a86289d785cde4c675c73b21e4e88eb3cb389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 05/61] fix: simulate models whose rows sum to 1 only within
 the validation tolerance

---
 pydtmc/simulations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydtmc/simulations.py b/pydtmc/simulations.py
index 50ebd77..a176bf6 100644
--- a/pydtmc/simulations.py
+++ b/pydtmc/simulations.py
@@ -114,7 +114,8 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
 
     current_state = initial_state
     states = [initial_state]
-    symbols = [rng.choice(k, size=1, p=hmm.e[current_state, :]).item()]
+    w = hmm.e[current_state, :]
+    symbols = [rng.choice(k, size=1, p=w / _np.sum(w)).item()]
 
     pr = rng.random(steps)
     pc = _np.cumsum(hmm.p, axis=1)
@@ -222,7 +223,7 @@ def mc_simulate(mc: _tmc, steps: int, initial_state: int, final_state: _oint, rn
     for _ in range(steps):
 
         w = p[current_state, :]
-        current_state = rng.choice(size, size=1, p=w).item()
+        current_state = rng.choice(size, size=1, p=w / _np.sum(w)).item()
         value.append(current_state)
 
         if check_final_state and current_state == final_state:
-- 
2.43.0


From 5bde74c534076afa4f33aecf2572d4191cc30935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 06/61] fix: do not modify the list of sequences provided by
 the caller

---
 pydtmc/validation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index ceb195d..70c1254 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -907,8 +907,7 @@ def validate_sequences(value: _tany, labels: _tlist_str, flex: bool) -> _tlists_
 
         raise TypeError('The "@arg@" parameter must be either a list of lists of integers or a list of lists of non-empty strings.')
 
-    if value_type in ['integer', 'string']:
-        value = [value]
+    value = [value] if value_type in ['integer', 'string'] else value.copy()
 
     for index, value_current in enumerate(value):
         try:
-- 
2.43.0


From 7a73fecd39ec53c2a997a4fda48ae87f689056a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 07/61] fix: do not expose the internal transition matrix
 through conditional probabilities

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index e9ced8c..fe12e85 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1192,7 +1192,7 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = self.__p[state, :]
+        value = _np.copy(self.__p[state, :])
 
         return value
 
-- 
2.43.0


From 5684d9398672b5ff04430d63007e080446c0a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 08/61] fix: do not share the internal lists of labels with the
 caller

---
 pydtmc/hidden_markov_model.py | 4 ++--
 pydtmc/markov_chain.py        | 2 +-
 pydtmc/validation.py          | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index f2feaab..977655b 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -277,7 +277,7 @@ class HiddenMarkovModel(_Model):
         A property representing the states of the hidden Markov model.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @property
     def symbols(self) -> _tlist_str:
@@ -286,7 +286,7 @@ class HiddenMarkovModel(_Model):
         A property representing the symbols of the hidden Markov model.
         """
 
-        return self.__symbols
+        return self.__symbols.copy()
 
     def decode(self, symbols: _tsequence, initial_status: _ostatus = None, use_scaling: bool = True) -> _ohmm_decoding:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index fe12e85..a1dc4e0 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -965,7 +965,7 @@ class MarkovChain(_Model):
         A property representing the states of the Markov chain.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @_cached_property
     def topological_entropy(self) -> float:
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 70c1254..7e5605a 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -610,6 +610,8 @@ def validate_labels_input(value: _tany, size: _oint = None) -> _tlist_str:
     if size is not None and labels_length != size:
         raise ValueError(f'The "@arg@" parameter must contain a number of elements equal to {size:d}.')
 
+    value = value.copy()
+
     return value
 
 
-- 
2.43.0


From 70b240db39d6a486cd00c0cdf1622e1309d41cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 09/61] fix: restore the interactive mode of Matplotlib when a
 plot fails

---
 pydtmc/plotting.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index a5f36cc..e75b334 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -987,7 +987,12 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
     else:
         func = _plot_mc_standard if model_mc else _plot_hmm_standard
 
-    figure, ax = func(model, nodes_color, nodes_shape, edges_label, dpi)
+    mpi = _mplp.isinteractive()
+
+    try:
+        figure, ax = func(model, nodes_color, nodes_shape, edges_label, dpi)
+    finally:
+        _mplp.interactive(mpi)
 
     if _mplp.isinteractive():  # pragma: no cover
         _mplp.show(block=False)
@@ -1260,7 +1265,12 @@ def plot_sequence(model: _tmodel, steps: int, initial_state: _ostate = None, plo
     else:
         func = _plot_matrix
 
-    figure, ax = func(walk_data, dpi)
+    mpi = _mplp.isinteractive()
+
+    try:
+        figure, ax = func(walk_data, dpi)
+    finally:
+        _mplp.interactive(mpi)
 
     if _mplp.isinteractive():  # pragma: no cover
         _mplp.show(block=False)
@@ -1534,10 +1544,14 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
         except Exception:  # pragma: no cover
             extended_graph = False
 
-    if extended_graph:
-        figure, ax = _plot_extended(hmm, initial_distribution, symbols, backward, forward, states_path, dpi)
-    else:
-        figure, ax = _plot_standard(hmm, initial_distribution, symbols, backward, forward, states_path, dpi)
+    func = _plot_extended if extended_graph else _plot_standard
+
+    mpi = _mplp.isinteractive()
+
+    try:
+        figure, ax = func(hmm, initial_distribution, symbols, backward, forward, states_path, dpi)
+    finally:
+        _mplp.interactive(mpi)
 
     if _mplp.isinteractive():  # pragma: no cover
         _mplp.show(block=False)
-- 
2.43.0


From 48e6b8f52fcdb55efca97cf78bb867b9657b0d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 10/61] fix: do not hide unrelated errors while searching for
 lumping partitions

---
 pydtmc/computations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index c2421ba..3bc76a3 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -255,7 +255,7 @@ def find_lumping_partitions(p: _tarray) -> _tpartitions:
 
         try:
             k = _np.dot(_npl.inv(_np.dot(rt, r)), rt)
-        except Exception:  # pragma: no cover
+        except _npl.LinAlgError:  # pragma: no cover
             continue
 
         left = _np.dot(_np.dot(_np.dot(r, k), p), r)
-- 
2.43.0


From 01172c1258828660121173af871f78aed6d38adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 11/61] fix: always validate the arguments of models created
 outside the library

---
 pydtmc/utilities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 1d6d56c..2b2da20 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -227,6 +227,11 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
 
 def get_caller(stack: _tstack) -> str:
 
+    frame = stack[1][0]
+
+    if frame.f_globals.get('__name__', '').split('.')[0] != __name__.split('.')[0]:
+        return ''
+
     caller = stack[1][3]
 
     return caller
-- 
2.43.0


From 13e251d065a771ca1620dc8a5642b7ad0beb43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 12/61] fix: do not silently alter labels containing
 whitespaces when models are written to files and read back

---
 pydtmc/files_io.py            | 9 ++++++---
 pydtmc/hidden_markov_model.py | 1 +
 pydtmc/markov_chain.py        | 1 +
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index df5e128..c4a2370 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -81,7 +81,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
                     if not isinstance(label, str) or len(label) < 3:  # pragma: no cover
                         raise ValueError('The file header is invalid.')
 
-                    label = label.strip()
+                    label = label.lstrip()
                     label_prefix = label[:2]
 
                     if label_prefix == 'E_':
@@ -306,9 +306,9 @@ def read_xml(mc: bool, file_path: _tpath) -> _tobj_dict:
         if sorted(attributes_keys) != valid_params_keys:  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
-        attributes_values = [attribute[1].strip() for attribute in attributes]
+        attributes_values = [attribute[1] for attribute in attributes]
 
-        if any(len(attributes_value) == 0 for attributes_value in attributes_values):  # pragma: no cover
+        if any(len(attributes_value.strip()) == 0 for attributes_value in attributes_values):  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
         values = []
@@ -409,6 +409,9 @@ def write_json(mc: bool, d: _tobj_dict, file_path: _tpath):
 
 def write_txt(d: _tobj_dict, file_path: _tpath):
 
+    if any(attribute.split() != [attribute] for key in d.keys() for attribute in key):
+        raise ValueError('The labels containing whitespaces cannot be written to text files.')
+
     with open(file_path, mode='w') as file:
 
         line = ''
diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 977655b..123ba99 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -509,6 +509,7 @@ class HiddenMarkovModel(_Model):
         :param file_path: the location of the file in which the hidden Markov model must be written.
         :raises OSError: if the file cannot be written.
         :raises ValidationError: if any input argument is not compliant.
+        :raises ValueError: if the labels cannot be represented in the given file format.
         """
 
         try:
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index a1dc4e0..2a381f7 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1967,6 +1967,7 @@ class MarkovChain(_Model):
         :param file_path: the location of the file in which the Markov chain must be written.
         :raises OSError: if the file cannot be written.
         :raises ValidationError: if any input argument is not compliant.
+        :raises ValueError: if the labels cannot be represented in the given file format.
         """
 
         try:
-- 
2.43.0


From bcabd9448f5bcb0f1c9824b08aaddf51e025d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 13/61] fix: use the same encoding for all the files regardless
 of the locale

---
 pydtmc/files_io.py   | 14 +++++++-------
 pydtmc/validation.py |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index c4a2370..4a2bc04 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -168,7 +168,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 
         return result
 
-    with open(file_path, mode='r', newline='') as file:
+    with open(file_path, mode='r', newline='', encoding='utf-8') as file:
         file.seek(0)
         reader = _csv.reader(file)
         data = [row for _, row in enumerate(reader)]
@@ -181,7 +181,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 # noinspection PyTypeChecker
 def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 
-    with open(file_path, mode='r') as file:
+    with open(file_path, mode='r', encoding='utf-8') as file:
         file.seek(0)
         data = _json.load(file)
 
@@ -232,7 +232,7 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 # noinspection PyTypeChecker
 def read_txt(mc: bool, file_path: _tpath) -> _tobj_dict:
 
-    with open(file_path, mode='r') as file:
+    with open(file_path, mode='r', encoding='utf-8') as file:
         file.seek(0)
         data = [line.strip().split() for line in file]
 
@@ -376,7 +376,7 @@ def write_csv(mc: bool, d: _tobj_dict, file_path: _tpath):
 
     header_out, rows_out = _write_csv_mc(d) if mc else _write_csv_hmm(d)
 
-    with open(file_path, mode='w', newline='') as file:
+    with open(file_path, mode='w', newline='', encoding='utf-8') as file:
 
         writer = _csv.writer(file, delimiter=',', quoting=_csv.QUOTE_MINIMAL, quotechar='"')
 
@@ -403,7 +403,7 @@ def write_json(mc: bool, d: _tobj_dict, file_path: _tpath):
 
         data.append(item)
 
-    with open(file_path, mode='w') as file:
+    with open(file_path, mode='w', encoding='utf-8') as file:
         _json.dump(data, file)
 
 
@@ -412,7 +412,7 @@ def write_txt(d: _tobj_dict, file_path: _tpath):
     if any(attribute.split() != [attribute] for key in d.keys() for attribute in key):
         raise ValueError('The labels containing whitespaces cannot be written to text files.')
 
-    with open(file_path, mode='w') as file:
+    with open(file_path, mode='w', encoding='utf-8') as file:
 
         line = ''
 
@@ -453,5 +453,5 @@ def write_xml(mc: bool, d: _tobj_dict, file_path: _tpath):
     xml_content = xml_content.replace('<Item', '\t<Item')
     xml_content = xml_content.replace('" />', '"/>\n')
 
-    with open(file_path, mode='w') as file:
+    with open(file_path, mode='w', encoding='utf-8') as file:
         file.write(xml_content)
diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 7e5605a..bcd23c7 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -315,7 +315,7 @@ def validate_file_path(value: _tany, accepted_extensions: _olist_str, write_perm
 
         try:
 
-            with open(file_path, mode='r') as file:
+            with open(file_path, mode='r', encoding='utf-8') as file:
                 file.seek(0)
 
                 if not file.read(1):
-- 
2.43.0


From 0de25f2d1e67206023ccba5a2fbc5b2bef8c5d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 14/61] fix: accumulate the expected transitions over all the
 steps

---
 pydtmc/measures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index a346288..1a06a83 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -176,11 +176,11 @@ def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribu
     if steps <= p.shape[0]:
 
         idist = initial_distribution
-        idist_sum = initial_distribution
+        idist_sum = _np.copy(initial_distribution)
 
         for _ in range(steps - 1):
-            pi = _np.dot(idist, p)
-            idist_sum += pi
+            idist = _np.dot(idist, p)
+            idist_sum += idist
 
         et = idist_sum[:, _np.newaxis] * p
 
-- 
2.43.0


From 993af48f0d2e735a7bb598f9d9917b2fe90e08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 15/61] fix: align the periods with the communicating classes
 when labels are not sorted

---
 pydtmc/computations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index 3bc76a3..d3f72a8 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -100,8 +100,8 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
 
     sccs = list(_nx.strongly_connected_components(graph))
 
-    classes = [sorted(scc) for scc in sccs]
-    indices = sorted(classes, key=lambda x: (-len(x), x[0]))
+    order = {node: index for index, node in enumerate(graph.nodes)}
+    indices = sorted(sccs, key=lambda x: (-len(x), min(order[node] for node in x)))
 
     periods = [0] * len(indices)
 
@@ -113,7 +113,7 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
             spl = _nx.shortest_path_length(graph, c).keys()
             scc_reachable = scc_reachable.union(spl)
 
-        index = indices.index(sorted(scc))
+        index = indices.index(scc)
 
         if (scc_reachable - scc) == set():
             periods[index] = _calculate_period(graph.subgraph(scc))
-- 
2.43.0


From 91768c57cbfa7334cfd284519f73bc2bba5fe78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 16/61] fix: raise the documented error when malformed CSV and
 JSON files are read

---
 pydtmc/files_io.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index 4a2bc04..e64384d 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -171,7 +171,11 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
     with open(file_path, mode='r', newline='', encoding='utf-8') as file:
         file.seek(0)
         reader = _csv.reader(file)
-        data = [row for _, row in enumerate(reader)]
+
+        try:
+            data = [row for _, row in enumerate(reader)]
+        except _csv.Error as ex:
+            raise ValueError('The file format is not compliant.') from ex
 
     d = _read_csv_mc(data) if mc else _read_csv_hmm(data)
 
@@ -183,7 +187,11 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
 
     with open(file_path, mode='r', encoding='utf-8') as file:
         file.seek(0)
-        data = _json.load(file)
+
+        try:
+            data = _json.load(file)
+        except RecursionError as ex:
+            raise ValueError('The file format is not compliant.') from ex
 
     if not isinstance(data, list):  # pragma: no cover
         raise ValueError('The file format is not compliant.')
@@ -212,7 +220,10 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
                 if not isinstance(value, (float, int, _np.floating, _np.integer)):  # pragma: no cover
                     raise ValueError('The file contains invalid elements.')
 
-                value = float(value)
+                try:
+                    value = float(value)
+                except OverflowError as ex:
+                    raise ValueError('The file contains invalid elements.') from ex
 
             elif param_type == 'string':
 
-- 
2.43.0


From 80d053e45dfe1d78baf35d944777f4acb9e54d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 17/61] fix: reject transition functions that do not produce a
 transition matrix

---
 pydtmc/fitting.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index e4c8357..65119ba 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -281,7 +281,12 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
             p[i, j] = f_result * weights[j]
 
     p[_np.where(~p.any(axis=1)), :] = _np.ones(size, dtype=float)
-    p /= _np.sum(p, axis=1, keepdims=True)
+    p_sums = _np.sum(p, axis=1, keepdims=True)
+
+    if _np.any(p < 0.0) or not _np.all(_np.isfinite(p_sums)):
+        return None, 'The transition function returned an invalid value.'
+
+    p /= p_sums
 
     return p, None
 
-- 
2.43.0


From e7711c50b9b4b6c926953707922e51e585d48278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 18/61] fix: avoid null rows when huge values are drawn from
 random distributions

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 2a381f7..e4d526d 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2733,7 +2733,7 @@ class MarkovChain(_Model):
             raise _create_validation_error(ex, _ins.trace()) from None
 
         p = f(size=(size, size), **kwargs).astype(float)
-        p = _np.clip(_np.nan_to_num(p, copy=False), 0.0, None)
+        p = _np.clip(_np.nan_to_num(p, copy=False), 0.0, _np.finfo(float).max / (2.0 * size))
         p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[1], dtype=float)
         p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From 8e0b8e0fd43a072c5dd1b1f73df573afaead7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 19/61] fix: reject random masks whose fixed rows do not sum to
 1

---
 pydtmc/generators.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 7a0562d..66e001c 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -152,11 +152,17 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
 
     p_full_rows, p_mask_unassigned, p_zeros_required, p_result = process_zeros(n, p_zeros, p_mask)
 
+    if not _np.all(p_full_rows | _np.any(p_mask_unassigned, axis=1)):
+        return None, None, None, None, 'The transition mask rows that contain no undefined probabilities must sum to 1.0.'
+
     if p_result:  # pragma: no cover
         return None, None, None, None, f'The number of null transition probabilities exceeds the maximum threshold of {p_zeros_required:d}.'
 
     e_full_rows, e_mask_unassigned, e_zeros_required, e_result = process_zeros(k, e_zeros, e_mask)
 
+    if not _np.all(e_full_rows | _np.any(e_mask_unassigned, axis=1)):
+        return None, None, None, None, 'The emission mask rows that contain no undefined probabilities must sum to 1.0.'
+
     if e_result:  # pragma: no cover
         return None, None, None, None, f'The number of null emission probabilities exceeds the maximum threshold of {e_zeros_required:d}.'
 
@@ -942,6 +948,10 @@ def mc_random(rng: _trand, size: int, zeros: int, mask: _tarray) -> _tmc_generat
     mask[_np.isnan(mask) & mask_full] = 0.0
 
     mask_unassigned = _np.isnan(mask)
+
+    if not _np.all(full_rows | _np.any(mask_unassigned, axis=1)):
+        return None, None, 'The mask rows that contain no undefined transition probabilities must sum to 1.0.'
+
     zeros_required = (_np.sum(mask_unassigned) - _np.sum(~full_rows)).item()
 
     if zeros > zeros_required:  # pragma: no cover
-- 
2.43.0


From c614cc53a9ea03451c34746a05163f4f8b4daee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 20/61] fix: avoid integer overflows in the accessibility
 matrix

---
 pydtmc/markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index e4d526d..d931685 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -394,8 +394,8 @@ class MarkovChain(_Model):
         a = self.adjacency_matrix
         i = _np.eye(self.__size, dtype=int)
 
-        am = _npl.matrix_power(i + a, self.__size - 1)
-        am = (am > 0).astype(int)
+        am = _npl.matrix_power((i + a) > 0, self.__size - 1)
+        am = am.astype(int)
 
         return am
 
-- 
2.43.0


From cd336e7ae764c43418d70d0a63280218e3de1ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:43 +0000
Subject: [PATCH 21/61] fix: do not decompose the transition matrix when it is
 not required

---
 pydtmc/markov_chain.py | 9 ++++++---
 pydtmc/measures.py     | 8 ++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index d931685..1b8fc97 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1246,7 +1246,8 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = _expected_transitions(self.__p, self.__rdl_decomposition, steps, initial_distribution)
+        rdl = self.__rdl_decomposition if steps > self.__size else None
+        value = _expected_transitions(self.__p, rdl, steps, initial_distribution)
 
         return value
 
@@ -1867,7 +1868,8 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = _time_correlations(self, self.__rdl_decomposition, sequence1, sequence2, time_points)
+        rdl = self.__rdl_decomposition if _np.max(time_points) > self.__size else None
+        value = _time_correlations(self, rdl, sequence1, sequence2, time_points)
 
         return value
 
@@ -1898,7 +1900,8 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = _time_relaxations(self, self.__rdl_decomposition, sequence, initial_distribution, time_points)
+        rdl = self.__rdl_decomposition if _np.max(time_points) > self.__size else None
+        value = _time_relaxations(self, rdl, sequence, initial_distribution, time_points)
 
         return value
 
diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 1a06a83..0093870 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -39,13 +39,13 @@ from .custom_types import (
     ohmm_decoding as _ohmm_decoding,
     oint as _oint,
     olist_int as _olist_int,
+    ordl as _ordl,
     osequence as _osequence,
     otimes_out as _otimes_out,
     tany as _tany,
     tarray as _tarray,
     tmc as _tmc,
     tlist_int as _tlist_int,
-    trdl as _trdl,
     tsequence as _tsequence,
     ttimes_in as _ttimes_in
 )
@@ -171,7 +171,7 @@ def mc_expected_rewards(p: _tarray, steps: int, rewards: _tarray) -> _tany:
     return er
 
 
-def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribution: _tarray) -> _tarray:
+def mc_expected_transitions(p: _tarray, rdl: _ordl, steps: int, initial_distribution: _tarray) -> _tarray:
 
     if steps <= p.shape[0]:
 
@@ -517,7 +517,7 @@ def mc_sensitivity(mc: _tmc, state: int) -> _oarray:
     return s
 
 
-def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2: _osequence, time_points: _ttimes_in) -> _otimes_out:
+def mc_time_correlations(mc: _tmc, rdl: _ordl, sequence1: _tsequence, sequence2: _osequence, time_points: _ttimes_in) -> _otimes_out:
 
     p, size, pi = mc.p, mc.size, mc.pi
 
@@ -609,7 +609,7 @@ def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2:
     return tcs
 
 
-def mc_time_relaxations(mc: _tmc, rdl: _trdl, sequence: _tsequence, initial_distribution: _tarray, time_points: _ttimes_in) -> _otimes_out:
+def mc_time_relaxations(mc: _tmc, rdl: _ordl, sequence: _tsequence, initial_distribution: _tarray, time_points: _ttimes_in) -> _otimes_out:
 
     p, size, pi = mc.p, mc.size, mc.pi
 
-- 
2.43.0


From ca2da9b0d6c91cace7c36e1c3c42b2b5e0edbbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 22/61] fix: refuse to write labels that XML cannot hold

---
 pydtmc/files_io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index e64384d..6076236 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -21,6 +21,7 @@ __all__ = [
 import csv as _csv
 import io as _io
 import json as _json
+import re as _re
 import xml.etree as _xmle
 import xml.etree.ElementTree as _xmlet
 
@@ -58,6 +59,8 @@ _valid_params_mc = {
     'probability': ('number', ())
 }
 
+_xml_invalid_characters = _re.compile('[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')
+
 
 #############
 # FUNCTIONS #
@@ -439,6 +442,9 @@ def write_txt(d: _tobj_dict, file_path: _tpath):
 
 def write_xml(mc: bool, d: _tobj_dict, file_path: _tpath):
 
+    if any(_xml_invalid_characters.search(attribute) for key in d.keys() for attribute in key):
+        raise ValueError('The labels containing control characters cannot be written to XML files.')
+
     valid_params_keys = tuple((_valid_params_mc if mc else _valid_params_hmm).keys())
     root_tag = 'MarkovChain' if mc else 'HiddenMarkovModel'
 
-- 
2.43.0


From 3ba275fa1a70842c285a80382b70c4585f8c8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 23/61] fix: Dirichlet process rows whose draws are all null no
 longer become undefined

---
 pydtmc/generators.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 66e001c..7188b62 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -814,18 +814,23 @@ def mc_dirichlet_process(rng: _trand, size: int, diffusion_factor: float, diagon
             weights.append(weight)
 
         weights = _np.stack(weights)
-        weights /= _np.sum(weights)
+        weights_sum = _np.sum(weights)
+
+        if weights_sum > 0.0:
+            weights /= weights_sum
+        else:
+            weights = _np.full(weights.size, 1.0 / weights.size, dtype=float)
 
         return weights
 
-    draws = rng.beta(1.0, diffusion_factor, (size, size))
+    draws = _np.nan_to_num(rng.beta(1.0, diffusion_factor, (size, size)))
     p = _np.apply_along_axis(_gem_allocation, axis=1, arr=draws)
 
     if shift_concentration:
         p = _np.fliplr(p)
 
     if diagonal_bias_factor is not None:
-        diagonal = rng.beta(diagonal_bias_factor, 1.0, size)
+        diagonal = _np.nan_to_num(rng.beta(diagonal_bias_factor, 1.0, size))
         p += + _np.diagflat(diagonal)
         p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From 7f6562bb229d5357ac5bff88ee606f822ea4e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 24/61] fix: decide the regularity of larger chains without
 numerical overflows

---
 pydtmc/markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 1b8fc97..46b055f 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -709,9 +709,9 @@ class MarkovChain(_Model):
         if nz > 0:
             k = (2 * self.__size) - nz - 1
         else:
-            k = self.__size**self.__size - (2 * self.__size) + 2
+            k = self.__size**2 - (2 * self.__size) + 2
 
-        result = _np.all(_npl.matrix_power(self.__p, k) > 0.0)
+        result = _np.all(_npl.matrix_power(self.__p > 0.0, k))
 
         return result
 
-- 
2.43.0


From fb14abc877d1cc2abdadf6449fc733175983010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 25/61] fix: reject matrices with imaginary parts instead of
 discarding them

---
 pydtmc/utilities.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 2b2da20..0d1a3d8 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -220,6 +220,14 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
         raise TypeError('The data type is not supported.')
 
     if dtype is not None:
+
+        if _np.iscomplexobj(output) and not _np.issubdtype(dtype, _np.complexfloating):
+
+            if _np.any(_np.imag(output) != 0.0):
+                raise TypeError('The data type is not supported.')
+
+            output = _np.real(output)
+
         output = output.astype(dtype)
 
     return output
-- 
2.43.0


From a8a929d740f926ed3ca7d09e0397a36b89118d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 26/61] fix: reject graphs with infinite edge weights

---
 pydtmc/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index bcd23c7..2b18ebe 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -393,8 +393,8 @@ def validate_graph(value: _tany, layers: _oint = None, edge_attributes: _oedge_a
 
     edge_weights = list(value.edges(data='weight', default=0.0))
 
-    if not all(_is_number(edge_weight[2]) and float(edge_weight[2]) > 0.0 for edge_weight in edge_weights):  # pragma: no cover
-        raise ValueError('The "@arg@" parameter must define edge weight attributes as non-negative numbers.')
+    if not all(_is_number(edge_weight[2]) and _np.isfinite(float(edge_weight[2])) and float(edge_weight[2]) > 0.0 for edge_weight in edge_weights):  # pragma: no cover
+        raise ValueError('The "@arg@" parameter must define edge weight attributes as finite positive numbers.')
 
     if edge_attributes is not None:
 
-- 
2.43.0


From c3f3796fc9332ed72d496636c8439e4fa9c40fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 27/61] fix: normalize matrices whose row sums overflow

---
 pydtmc/hidden_markov_model.py |  6 ++++--
 pydtmc/markov_chain.py        |  6 ++++--
 pydtmc/utilities.py           | 11 +++++++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 123ba99..7ee4226 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -101,7 +101,8 @@ from .utilities import (
     create_rng as _create_rng,
     create_validation_error as _create_validation_error,
     get_caller as _get_caller,
-    get_instance_generators as _get_instance_generators
+    get_instance_generators as _get_instance_generators,
+    handle_overflows as _handle_overflows
 )
 
 from .validation import (
@@ -846,6 +847,7 @@ class HiddenMarkovModel(_Model):
                 j = states.index(edge[1])
                 p[i, j] = float(edge_weight)
 
+        p, e = _handle_overflows(p), _handle_overflows(e)
         p_sums, e_sums = _np.sum(p, axis=1), _np.sum(e, axis=1)
 
         for i in range(n):
@@ -897,7 +899,7 @@ class HiddenMarkovModel(_Model):
             raise _ValidationError('State names and symbol names must be different.')
 
         n, k = mp.shape[0], me.shape[1]
-        p, e = _np.copy(mp), _np.copy(me)
+        p, e = _handle_overflows(_np.copy(mp)), _handle_overflows(_np.copy(me))
         p_sums, e_sums = _np.sum(p, axis=1), _np.sum(e, axis=1)
 
         for i in range(n):
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 46b055f..490002d 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -157,7 +157,8 @@ from .utilities import (
     create_validation_error as _create_validation_error,
     get_caller as _get_caller,
     get_instance_generators as _get_instance_generators,
-    get_numpy_random_distributions as _get_numpy_random_distributions
+    get_numpy_random_distributions as _get_numpy_random_distributions,
+    handle_overflows as _handle_overflows
 )
 
 from .validation import (
@@ -2496,6 +2497,7 @@ class MarkovChain(_Model):
             j = states.index(edge[1])
             p[i, j] = float(edge[2])
 
+        p = _handle_overflows(p)
         p_sums = _np.sum(p, axis=1)
 
         for i in range(size):
@@ -2532,7 +2534,7 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        p = _np.copy(m)
+        p = _handle_overflows(_np.copy(m))
         p_sums = _np.sum(p, axis=1)
 
         size = p.shape[1]
diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 0d1a3d8..9127c47 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -14,6 +14,7 @@ __all__ = [
     'get_instance_generators',
     'get_numpy_random_distributions',
     'extract_numeric',
+    'handle_overflows',
     'is_array',
     'is_boolean',
     'is_dictionary',
@@ -327,6 +328,16 @@ def get_numpy_random_distributions() -> _tlist_str:
     return random_distributions
 
 
+def handle_overflows(m: _tarray) -> _tarray:
+
+    with _np.errstate(over='ignore'):
+        indices = _np.isinf(_np.sum(m, axis=1))
+
+    m[indices, :] /= _np.max(m[indices, :], axis=1, keepdims=True)
+
+    return m
+
+
 def is_array(value: _tany) -> bool:
 
     return isinstance(value, _np.ndarray)
-- 
2.43.0


From dbc3c21bb087a7b330deb847d9000b8b21cdcde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 28/61] fix: validate the output_indices parameter of
 HiddenMarkovModel.predict

---
 pydtmc/hidden_markov_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 7ee4226..190b4a6 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -402,6 +402,7 @@ class HiddenMarkovModel(_Model):
             prediction_type = _validate_enumerator(prediction_type, ['map', 'mle', 'viterbi'])
             symbols = _validate_sequence(symbols, self.__symbols)
             initial_status = _np.full(self.__size[0], 1.0 / self.__size[0], dtype=float) if initial_status is None else _validate_status(initial_status, self.__states)
+            output_indices = _validate_boolean(output_indices)
 
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
-- 
2.43.0


From deb95496c4bc05d5e7928de7526bcdea43639546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 29/61] fix: report invalid parameters of random distributions
 as validation errors

---
 pydtmc/markov_chain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 490002d..993d5e4 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2737,7 +2737,11 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        p = f(size=(size, size), **kwargs).astype(float)
+        try:
+            p = f(size=(size, size), **kwargs).astype(float)
+        except (TypeError, ValueError) as ex:
+            raise _ValidationError(f'The random distribution function cannot be evaluated: {ex}') from None
+
         p = _np.clip(_np.nan_to_num(p, copy=False), 0.0, _np.finfo(float).max / (2.0 * size))
         p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[1], dtype=float)
         p /= _np.sum(p, axis=1, keepdims=True)
-- 
2.43.0


From 9e2d7253fd6c9fb8dde2616f3cc43747b9ac95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:10 +0000
Subject: [PATCH 30/61] fix: models could not be created by callers without a
 proper module name

---
 pydtmc/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 9127c47..cba12dc 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -238,7 +238,7 @@ def get_caller(stack: _tstack) -> str:
 
     frame = stack[1][0]
 
-    if frame.f_globals.get('__name__', '').split('.')[0] != __name__.split('.')[0]:
+    if str(frame.f_globals.get('__name__')).split('.')[0] != __name__.split('.')[0]:
         return ''
 
     caller = stack[1][3]
-- 
2.43.0


From a053bf24089e5a13fa889bc64af3c71a438e55b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 31/61] fix: reject undefined boundary conditions

---
 pydtmc/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 2b18ebe..0c86aa9 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -149,7 +149,7 @@ def validate_boundary_condition(value: _tany) -> _tbcond:
 
         value = float(value)
 
-        if (value < 0.0) or (value > 1.0):
+        if not _np.isfinite(value) or (value < 0.0) or (value > 1.0):
             raise ValueError('The "@arg@" parameter, when specified as a number, must have a value between 0 and 1.')
 
         return value
-- 
2.43.0


From c1e705f9b6e1f2c352d6c71736446edf4a44d40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 32/61] fix: report misplaced edges of hidden Markov model
 graphs as validation errors

---
 pydtmc/hidden_markov_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 190b4a6..a4ee17f 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -839,6 +839,9 @@ class HiddenMarkovModel(_Model):
             edge_type = [edge_type[2] for edge_type in edge_types if edge_type[0] == edge[0] and edge_type[1] == edge[1]][0]
             edge_weight = [edge_weight[2] for edge_weight in edge_weights if edge_weight[0] == edge[0] and edge_weight[1] == edge[1]][0]
 
+            if edge[0] not in states or edge[1] not in (symbols if edge_type == 'E' else states):
+                raise _ValidationError('The "graph" parameter must define only edges from states to states of type P and edges from states to symbols of type E.')
+
             i = states.index(edge[0])
 
             if edge_type == 'E':
-- 
2.43.0


From aa2d5832dfebe5e03db19da81e71efd13ec7c8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 33/61] fix: use the standard renderer when the Graphviz probe
 reports a failure

---
 pydtmc/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index e75b334..5c54e48 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -976,7 +976,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
 
     if extended_graph:
         try:
-            _sub.call(['dot', '-V'], stdout=_sub.PIPE, stderr=_sub.PIPE)
+            extended_graph = _sub.call(['dot', '-V'], stdout=_sub.PIPE, stderr=_sub.PIPE) == 0
         except Exception:  # pragma: no cover
             extended_graph = False
 
@@ -1540,7 +1540,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
     if extended_graph:
         try:
-            _sub.call(['dot', '-V'], stdout=_sub.PIPE, stderr=_sub.PIPE)
+            extended_graph = _sub.call(['dot', '-V'], stdout=_sub.PIPE, stderr=_sub.PIPE) == 0
         except Exception:  # pragma: no cover
             extended_graph = False
 
-- 
2.43.0


From 2ecc65575c5d127c4eef090ba94dc32f13f8eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 34/61] fix: accept every palette in flow plots, not only those
 made of listed colors

---
 pydtmc/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 5c54e48..5cb374c 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -366,7 +366,8 @@ def plot_flow(model: _tmodel, steps: int, interval: int, initial_status: _ostatu
 
         i = gc_d.shape[0]
 
-        cm = _np.array(_mplp.get_cmap(gc_pn).colors)
+        cm = _mplp.get_cmap(gc_pn)
+        cm = cm(_np.arange(cm.N))[:, :3]
 
         ipf = _spip.interp1d(_np.linspace(0.0, 1.0, cm.shape[0]), cm, kind='linear', axis=0)
         ipv = ipf(_np.linspace(0.0, 1.0, 3 + ((i - 1) * 10)))
-- 
2.43.0


From 4c13b8fa48a4ea5face688b0569fa52781f18af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 35/61] fix: show the last step of flow plots

---
 pydtmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 5cb374c..f048842 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -508,7 +508,7 @@ def plot_flow(model: _tmodel, steps: int, interval: int, initial_status: _ostatu
             if dv > 0.05:
                 ax.text(aj, bm[ai, aj], f'{dv:.3f}', horizontalalignment='center', verticalalignment='center')
 
-    _xticks_steps(ax, steps)
+    _xticks_steps(ax, distributions.shape[1])
 
     ax.set_ylim(0.0, 1.0)
     ax.invert_yaxis()
-- 
2.43.0


From 77f8c29500f4b98d1915d47a3acd76468d636eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 36/61] fix: draw the first edges of trellises from the states
 that are initially possible

---
 pydtmc/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index f048842..002c810 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1345,7 +1345,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             for col in range(f - 1):
 
-                if col == 0 and not gte_initial_distribution[col] > 0.0:
+                if col == 0 and not gte_initial_distribution[row] > 0.0:
                     continue
 
                 for row_next in range(n):
@@ -1401,7 +1401,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             for col in range(f - 1):
 
-                if col == 0 and not gts_initial_distribution[col] > 0.0:
+                if col == 0 and not gts_initial_distribution[row] > 0.0:
                     continue
 
                 for row_next in range(n):
-- 
2.43.0


From 6e46892ecce51fd9802ee0de815d1f2b04cd7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 37/61] fix: highlight the edges of the most probable path in
 standard backward trellises

---
 pydtmc/plotting.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 002c810..2524e39 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1393,8 +1393,6 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
                 node_index += 1
 
-        edge_colors = []
-
         for row in range(n):
 
             row_offset = row * f
@@ -1409,16 +1407,15 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
                     if hmm.p[row][row_next] > 0.0:
 
                         if gts_forward:
-                            trellis.add_edge(row_offset + col, (row_next * f) + col + 1)
-                            on_path = gts_states_path[col] == row and gts_states_path[col + 1] == row_next
+                            edge_from = row_offset + col
+                            edge_to = (row_next * f) + col + 1
                         else:
-                            trellis.add_edge((row_next * f) + col + 1, row_offset + col)
-                            on_path = gts_states_path[col] == row_next and gts_states_path[col + 1] == row
+                            edge_from = (row_next * f) + col + 1
+                            edge_to = row_offset + col
 
-                        if on_path:
-                            edge_colors.append(_default_color_path)
-                        else:
-                            edge_colors.append(_color_black)
+                        edge_color = _default_color_path if gts_states_path[col] == row and gts_states_path[col + 1] == row_next else _color_black
+
+                        trellis.add_edge(edge_from, edge_to, color=edge_color)
 
         for row in range(n):
 
@@ -1444,6 +1441,8 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             node_index += 1
 
+        edge_colors = [edge_color for _, _, edge_color in trellis.edges(data='color')]
+
         return trellis, node_colors, node_edges, node_labels, node_positions, edge_colors
 
     def _plot_extended(ps_hmm, ps_initial_distribution, ps_symbols, ps_backward, ps_forward, ps_states_path, ps_dpi):
-- 
2.43.0


From cecff33ddb2e9b96cc9fb67c56453869f66a0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 38/61] fix: quote labels in the graphs handed to Graphviz

---
 pydtmc/plotting.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 2524e39..820c86b 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -127,6 +127,13 @@ def _decode_image(g, dpi):
     return img, img_x, img_xo, img_y, img_yo
 
 
+def _quote(label):
+
+    label = label.replace('\\', '\\\\').replace('"', '\\"')
+
+    return f'"{label}"'
+
+
 def _xticks_labels(ax, size, labels_name, labels, minor_major):
 
     if labels_name is not None:
@@ -657,7 +664,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
             if phe_nodes_type:
                 node_attributes['shape'] = 'ellipse'
 
-            g_sub1.add_node(_pyd.Node(state, **node_attributes))
+            g_sub1.add_node(_pyd.Node(_quote(state), **node_attributes))
 
         for symbol in phe_hmm.symbols:
 
@@ -670,7 +677,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
             if phe_nodes_type:
                 node_attributes['shape'] = 'hexagon'
 
-            g_sub2.add_node(_pyd.Node(symbol, **node_attributes))
+            g_sub2.add_node(_pyd.Node(_quote(symbol), **node_attributes))
 
         for i in range(phe_hmm.n):
 
@@ -693,7 +700,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(tp, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, state_j, **edge_attributes))
+                    g.add_edge(_pyd.Edge(_quote(state_i), _quote(state_j), **edge_attributes))
 
             for j in range(phe_hmm.k):
 
@@ -712,7 +719,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(ep, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, symbol, **edge_attributes))
+                    g.add_edge(_pyd.Edge(_quote(state_i), _quote(symbol), **edge_attributes))
 
         img, img_x, img_xo, img_y, img_yo = _decode_image(g, phe_dpi)
 
@@ -852,7 +859,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                 else:
                     node_attributes['shape'] = 'ellipse'
 
-            g.add_node(_pyd.Node(state_i, **node_attributes))
+            g.add_node(_pyd.Node(_quote(state_i), **node_attributes))
 
             for j in range(pme_mc.size):
 
@@ -871,7 +878,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(tp, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, state_j, **edge_attributes))
+                    g.add_edge(_pyd.Edge(_quote(state_i), _quote(state_j), **edge_attributes))
 
         img, img_x, img_xo, img_y, img_yo = _decode_image(g, pme_dpi)
 
@@ -1313,7 +1320,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
         for row in range(n):
 
-            sub_label = gte_hmm.states[row]
+            sub_label = _quote(gte_hmm.states[row])
             sub.add_node(_pyd.Node(f'state{row}', color='transparent', label=sub_label, shape='plaintext'))
 
             if row > 0:
@@ -1325,7 +1332,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             path_current = gte_states_path[col]
 
-            sub_label = "<T<FONT POINT-SIZE='8'><SUB>0</SUB></FONT>>" if col == 0 else gte_hmm.symbols[gte_symbols[col]]
+            sub_label = "<T<FONT POINT-SIZE='8'><SUB>0</SUB></FONT>>" if col == 0 else _quote(gte_hmm.symbols[gte_symbols[col]])
             sub = _pyd.Subgraph(f'cluster_{col + 1}', color='transparent', label=sub_label)
 
             for row in range(n):
-- 
2.43.0


From 8b15ad815914db2fa2b81863eaa13b6477a25587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 39/61] fix: place the Newton-Cotes nodes inside of the
 quadrature interval

---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index 65119ba..d3df803 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -259,7 +259,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
 
         bandwidth = (b - a) / size
 
-        nodes = (_np.arange(size) + 0.5) * bandwidth
+        nodes = a + ((_np.arange(size) + 0.5) * bandwidth)
         weights = _np.repeat(bandwidth, size)
 
     p = _np.zeros((size, size), dtype=float)
-- 
2.43.0


From 465bef8b2a0e6e25799d7f057943143af1fd67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 40/61] fix: pass the arguments of transition functions by name
 when they are declared in another order

---
 pydtmc/validation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 0c86aa9..abefdb5 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -1044,6 +1044,13 @@ def validate_transition_function(value: _tany) -> _ttfunc:
     if not all(parameter in valid_parameters for parameter in sig.parameters.keys()):
         raise ValueError(f'The "@arg@" parameter must define the following input arguments: {", ".join(valid_parameters)}.')
 
+    if tuple(sig.parameters.keys()) != valid_parameters:
+
+        f = value
+
+        def value(x_index, x_value, y_index, y_value):
+            return f(x_index=x_index, x_value=x_value, y_index=y_index, y_value=y_value)
+
     try:
         result = value(1, 1.0, 1, 1.0)
     except Exception as ex:  # pragma: no cover
-- 
2.43.0


From 46510264168143e8784ef61dfae35b444f70dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 41/61] fix: let to_graph copy the graph without walking
 through its lazily filled attributes

deepcopy iterates over the attribute dictionary of the graph, which other threads computing
communicating classes or periods fill at the same time: 'dictionary changed size during iteration'.
---
 pydtmc/hidden_markov_model.py | 3 +--
 pydtmc/markov_chain.py        | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index a4ee17f..c9f93d6 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -11,7 +11,6 @@ __all__ = [
 
 # Standard
 
-import copy as _cp
 import inspect as _ins
 
 # Libraries
@@ -538,7 +537,7 @@ class HiddenMarkovModel(_Model):
         The method returns a directed graph representing the hidden Markov model.
         """
 
-        graph = _cp.deepcopy(self.__digraph)
+        graph = self.__digraph.copy()
 
         return graph
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 993d5e4..3b43592 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -11,7 +11,6 @@ __all__ = [
 
 # Standard
 
-import copy as _cp
 import inspect as _ins
 import itertools as _it
 import math as _mt
@@ -1998,7 +1997,7 @@ class MarkovChain(_Model):
         The method returns a directed graph representing the Markov chain.
         """
 
-        graph = _cp.deepcopy(self.__digraph)
+        graph = self.__digraph.copy()
 
         return graph
 
-- 
2.43.0


From d922a91878957980c3da6076bc7fbc7910fbaba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 42/61] fix: copy and pickle models from a snapshot of their
 state

deepcopy and pickle iterate over the attributes of a model and of its graph, which other threads
computing cached results fill at the same time: 'dictionary changed size during iteration'.
---
 pydtmc/base_classes.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pydtmc/base_classes.py b/pydtmc/base_classes.py
index bce6019..eb8ed86 100644
--- a/pydtmc/base_classes.py
+++ b/pydtmc/base_classes.py
@@ -13,6 +13,10 @@ __all__ = [
 
 import abc as _abc
 
+# Libraries
+
+import networkx as _nx
+
 
 ###########
 # CLASSES #
@@ -31,6 +35,17 @@ class Model(_abc.ABC):  # pragma: no cover
 
         return super().__new__(cls)
 
+    def __getstate__(self):
+
+        # Other threads may be filling the caches of the instance, hence a snapshot of them is taken.
+        state = self.__dict__.copy()
+
+        for name, value in state.items():
+            if isinstance(value, (dict, _nx.Graph)):
+                state[name] = value.copy()
+
+        return state
+
     @property
     @_abc.abstractmethod
     def n(self):
-- 
2.43.0


From b578697e05555dc1274416c3cadf31761c1d6345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 43/61] fix: restrict the emissions of hidden Markov models
 with fewer states than symbols

The number of symbols kept was compared with the number of states, so that the emission matrix could
keep columns of symbols that the submodel does not have.
---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 7188b62..de2dfe7 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -180,7 +180,7 @@ def hmm_restrict(p: _tarray, e: _tarray, states: _tlist_str, symbols: _tlist_str
     p, e = _np.copy(p), _np.copy(e)
 
     p_decrease = len(sub_states) < p.shape[0]
-    e_decrease = p_decrease or len(sub_symbols) < e.shape[0]
+    e_decrease = p_decrease or len(sub_symbols) < e.shape[1]
 
     if p_decrease:
         p = p[_np.ix_(sub_states, sub_states)]
-- 
2.43.0


From 281098fda20b3a5e12f740392fd378c82a2613bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 44/61] fix: lump chains that are lumpable up to rounding

The lumpability criterion compared sums of probabilities for exact equality, so that chains were refused
because of the last bits of the sums.
---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index de2dfe7..1e75c39 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -887,7 +887,7 @@ def mc_lump(p: _tarray, states: _tlist_str, partitions: _tlists_int) -> _tmc_gen
 
     left = _np.dot(_np.dot(_np.dot(r, k), p), r)
     right = _np.dot(p, r)
-    is_lumpable = _np.array_equal(left, right)
+    is_lumpable = _np.allclose(left, right)
 
     if not is_lumpable:  # pragma: no cover
         return None, None, 'The Markov chain is not lumpable with respect to the given partitions.'
-- 
2.43.0


From ee091139ec838b01f53264b4d13104efd4da04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 45/61] fix: decode long sequences of symbols without numerical
 underflows and overflows

---
 pydtmc/measures.py | 69 ++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 0093870..1d6bbef 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -57,59 +57,50 @@ from .custom_types import (
 
 def hmm_decode(p: _tarray, e: _tarray, initial_distribution: _tarray, symbols: _tlist_int, use_scaling: bool) -> _ohmm_decoding:
 
-    n, k = p.shape[1], e.shape[1]
+    def _log_sum(ls_values, ls_axis):
 
-    symbols = [k] + symbols
-    f = len(symbols)
+        ls_peak = _np.max(ls_values, axis=ls_axis, keepdims=True)
+        ls_peak[_np.isneginf(ls_peak)] = 0.0
 
-    scaling_factors = _np.zeros(f)
-    scaling_factors[0] = 1.0
+        return _np.squeeze(ls_peak, axis=ls_axis) + _np.log(_np.sum(_np.exp(ls_values - ls_peak), axis=ls_axis))
 
-    forward = _np.zeros((n, f), dtype=float)
-    forward[:, 0] = initial_distribution
+    n, f = p.shape[1], len(symbols) + 1
 
-    for i in range(1, f):
+    # The probabilities are handled on a logarithmic scale, since those of long sequences underflow and their ratios overflow.
+    with _np.errstate(divide='ignore', over='ignore', under='ignore'):
 
-        symbol = symbols[i]
-        forward_i = forward[:, i - 1]
+        p_log, e_log = _np.log(p), _np.log(e)
 
-        for state in range(n):
-            forward[state, i] = e[state, symbol] * _np.sum(_np.multiply(forward_i, p[:, state]))
+        forward_log = _np.zeros((n, f), dtype=float)
+        forward_log[:, 0] = _np.log(initial_distribution)
 
-        scaling_factor = _np.sum(forward[:, i])
+        for i in range(1, f):
+            forward_log[:, i] = e_log[:, symbols[i - 1]] + _log_sum(forward_log[:, i - 1, _np.newaxis] + p_log, 0)
 
-        if scaling_factor < 1e-300:
-            return None
-
-        scaling_factors[i] = scaling_factor
-        forward[:, i] /= scaling_factor
-
-    backward = _np.ones((n, f), dtype=float)
-
-    for i in reversed(range(f - 1)):
+        scale_log = _log_sum(forward_log, 0)
+        scale_log[0] = 0.0
 
-        symbol = symbols[i + 1]
-        e_i = e[:, symbol]
-        scaling_factor = 1.0 / scaling_factors[i + 1]
-        backward_i = backward[:, i + 1]
+        log_prob = scale_log[-1].item()
 
-        for state in range(n):
-            backward[state, i] = scaling_factor * _np.sum(_np.multiply(_np.multiply(p[state, :], backward_i), e_i))
-
-    posterior = _np.multiply(backward, forward)
-    posterior = posterior[:, 1:]
-
-    log_prob = _np.sum(_np.log(scaling_factors)).item()
+        if _np.isneginf(log_prob):
+            return None
 
-    if not use_scaling:
+        backward_log = _np.zeros((n, f), dtype=float)
 
-        backward_scale = _np.fliplr(_np.hstack((_np.ones((1, 1), dtype=float), _np.cumprod(scaling_factors[_np.newaxis, :0:-1], axis=1))))
-        backward = _np.multiply(backward, _np.tile(backward_scale, (n, 1)))
+        for i in reversed(range(f - 1)):
+            backward_log[:, i] = _log_sum(p_log + e_log[:, symbols[i]] + backward_log[:, i + 1], 1)
 
-        forward_scale = _np.cumprod(scaling_factors[_np.newaxis, :], axis=1)
-        forward = _np.multiply(forward, _np.tile(forward_scale, (n, 1)))
+        posterior = _np.exp(forward_log + backward_log - log_prob)
+        posterior = posterior[:, 1:]
 
-        scaling_factors = None
+        if use_scaling:
+            scaling_factors = _np.exp(_np.diff(scale_log, prepend=0.0))
+            forward = _np.exp(forward_log - scale_log)
+            backward = _np.minimum(_np.exp(backward_log + scale_log - log_prob), _np.finfo(float).max)
+        else:
+            scaling_factors = None
+            forward = _np.exp(forward_log)
+            backward = _np.exp(backward_log)
 
     return log_prob, posterior, backward, forward, scaling_factors
 
-- 
2.43.0


From 19f1ae57cb763d3be4d0172b402d84049b0e9f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 46/61] fix: make the top-down aggregation reach the requested
 number of states

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 1e75c39..42fa969 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -309,7 +309,7 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         vi = _np.ravel(_np.argwhere(cq_phi[:, cq_index] == 1.0))
         vi0, vi1 = vi[0], vi[1]
-        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):(vi1 - 1)], cq_eta[:, (vi1 + 1):]))
+        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):vi1], cq_eta[:, (vi1 + 1):]))
 
         z = phi_i.shape[1]
 
-- 
2.43.0


From cba684c94916daef778ffc584e81aee613b6eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:17 +0000
Subject: [PATCH 47/61] fix: end the top-down aggregation when a bipartition
 leaves a side empty

---
 pydtmc/generators.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 42fa969..19f8b52 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -346,11 +346,16 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         vt = _np.transpose(v[_np.newaxis, :])
 
+        bipartition = evector >= 0.0
+
+        if _np.all(bipartition) or not _np.any(bipartition):
+            bipartition = _np.arange(evector.shape[0])[:, _np.newaxis] == _np.argmax(_np.abs(evector))
+
         v1 = _np.copy(vt)
-        v1[indices] = evector >= 0.0
+        v1[indices] = bipartition
 
         v2 = _np.copy(vt)
-        v2[indices] = evector < 0.0
+        v2[indices] = ~bipartition
 
         cbc_phi = cbc_phi[:, :-1]
 
-- 
2.43.0


From 0690270053c031ef961925594430fc82399ab6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:28 +0000
Subject: [PATCH 48/61] fix: never leave a side empty in the bipartitions of
 the bottom-up aggregation

---
 pydtmc/generators.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 19f8b52..fcb1b54 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -241,11 +241,16 @@ def mc_aggregate_spectral_bottom_up(p: _tarray, pi: _tarray, s: int) -> _tmc_gen
 
         vt = _np.transpose(v[_np.newaxis, :])
 
+        bipartition = evector >= 0.0
+
+        if _np.all(bipartition) or not _np.any(bipartition):
+            bipartition = _np.arange(evector.shape[0])[:, _np.newaxis] == _np.argmax(_np.abs(evector))
+
         v1 = _np.copy(vt)
-        v1[indices] = evector >= 0.0
+        v1[indices] = bipartition
 
         v2 = _np.copy(vt)
-        v2[indices] = evector < 0.0
+        v2[indices] = ~bipartition
 
         bc_stack = _np.hstack((cbc_phi[:, :cbc_index], v1, v2, cbc_phi[:, (cbc_index + 1):]))
 
-- 
2.43.0


From 833a2fa259d08503cc178e849f5fc1391c01378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 49/61] fix: count the steps of a sequence regardless of how
 the labels of its states run into each other

---
 pydtmc/assessments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/assessments.py b/pydtmc/assessments.py
index ae3b6aa..95b4f66 100644
--- a/pydtmc/assessments.py
+++ b/pydtmc/assessments.py
@@ -271,8 +271,8 @@ def assess_markov_property(possible_states: _tlist_str, sequence: _tsequence, si
         fnp = _fnp_iteration(i, sts3, sts2, s02, p)
         chi2 += ((so3[i] - fnp)**2.0) / fnp
 
-    doubles = [f'{sequence_labels[i]}{sequence_labels[i + 1]}' for i in range(sequence_length - 1)]
-    triples = [f'{sequence_labels[i]}{sequence_labels[i + 1]}{sequence_labels[i + 2]}' for i in range(sequence_length - 2)]
+    doubles = [tuple(sequence_labels[i:i + 2]) for i in range(sequence_length - 1)]
+    triples = [tuple(sequence_labels[i:i + 3]) for i in range(sequence_length - 2)]
     dof = len(set(triples)) - len(set(doubles)) + len(set(sequence_labels)) - 1
 
     p_value = 0.0 if dof == 0 else 1.0 - _sps.chi2.cdf(chi2, dof)
-- 
2.43.0


From d96c82eff9b8faa79bfcbcd6e645c586124b0d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 50/61] fix: approximate autoregressive processes with a unit
 root without failures and undefined probabilities

---
 pydtmc/markov_chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 3b43592..df9aa6b 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2155,6 +2155,9 @@ class MarkovChain(_Model):
             if states is not None:  # pragma: no cover
                 states = _validate_labels_input(states, size)
 
+            if approximation_type != 'rouwenhorst' and _np.isclose(abs(rho), 1.0):
+                rho = _mt.copysign(1.0 - 1e-8, rho)
+
             if approximation_type == 'tauchen':
                 k = 3.0 if k is None else _validate_float(k, lower_limit=(1.0, False))
             elif approximation_type == 'tauchen-hussey':
-- 
2.43.0


From 82de53b4036361f04dc8324df4d5aafd34dcf192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 51/61] fix: return no negative probabilities from the closest
 reversible

---
 pydtmc/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index fcb1b54..fa5603f 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -803,6 +803,7 @@ def mc_closest_reversible(p: _tarray, initial_distribution: _tnumeric, weighted:
     for i in range(m):
         p += solution[i] * basis_vectors[i]
 
+    p = _np.clip(p, 0.0, None)
     p[_np.where(~p.any(axis=1)), :] = _np.ones(size, dtype=float)
     p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From 970f7e5cd3cc579f3475e52c8fcce6d1b83c373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 52/61] fix: compute the Tauchen-Hussey approximation without
 numerical underflows

---
 pydtmc/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index fa5603f..82b43ae 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -535,8 +535,9 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
             prime = prime_left + prime_right
 
             for j in range(size):
-                p[i, j] = (weights[j] * _sps.norm.pdf(nodes[j], prime, sigma) / _sps.norm.pdf(nodes[j], alpha, k))
+                p[i, j] = _np.log(weights[j]) + _sps.norm.logpdf(nodes[j], prime, sigma) - _sps.norm.logpdf(nodes[j], alpha, k)
 
+        p = _np.exp(p - _np.amax(p, axis=1, keepdims=True))
         p /= _np.sum(p, axis=1, keepdims=True)
 
     else:
-- 
2.43.0


From dab8d6c6a322bf1e216ab10a68b227246cadfd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 53/61] fix: compute the Adda-Cooper approximation
 independently of the scale of the process

---
 pydtmc/generators.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 82b43ae..a468a2b 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -402,11 +402,11 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
 def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: float, rho: float, k: _ofloat) -> _tmc_generation:
 
-    def _adda_cooper_integrand(aci_x, aci_sigma_z, aci_sigma, aci_rho, aci_alpha, z_j, z_jp1):
+    def _adda_cooper_integrand(aci_x, aci_sigma, aci_rho, z_j, z_jp1):
 
-        t1 = _np.exp((-1.0 * (aci_x - aci_alpha)**2.0) / (2.0 * aci_sigma_z**2.0))
-        t2 = _sps.norm.cdf((z_jp1 - (aci_alpha * (1.0 - aci_rho)) - (aci_rho * aci_x)) / aci_sigma)
-        t3 = _sps.norm.cdf((z_j - (aci_alpha * (1.0 - aci_rho)) - (aci_rho * aci_x)) / aci_sigma)
+        t1 = _np.exp(-0.5 * aci_x**2.0)
+        t2 = _sps.norm.cdf((z_jp1 - (aci_rho * aci_x)) / aci_sigma)
+        t3 = _sps.norm.cdf((z_j - (aci_rho * aci_x)) / aci_sigma)
         output = t1 * (t2 - t3)
 
         return output
@@ -436,10 +436,10 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 
     if approximation_type == 'adda-cooper':
 
-        z_sigma = sigma / (1.0 - rho**2.0)**0.5
-        z_sigma_factor = size / _np.sqrt(2.0 * _np.pi * z_sigma**2.0)
+        z_sigma = (1.0 - rho**2.0)**0.5
+        z_factor = size / _np.sqrt(2.0 * _np.pi)
 
-        z = (z_sigma * _sps.norm.ppf(_np.arange(size + 1) / size)) + alpha
+        z = _sps.norm.ppf(_np.arange(size + 1) / size)
 
         p = _np.zeros((size, size), dtype=float)
 
@@ -449,8 +449,10 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
             z_ip = z[i + 1]
 
             for j in range(size):
-                iq = _spi.quad(_adda_cooper_integrand, z_i, z_ip, args=(z_sigma, sigma, rho, alpha, z[j], z[j + 1]))
-                p[i, j] = z_sigma_factor * iq[0]
+                iq = _spi.quad(_adda_cooper_integrand, z_i, z_ip, args=(z_sigma, rho, z[j], z[j + 1]))
+                p[i, j] = z_factor * iq[0]
+
+        p /= _np.sum(p, axis=1, keepdims=True)
 
     elif approximation_type == 'rouwenhorst':
 
-- 
2.43.0


From a39f5fc968d2dfd13937a55c2a75d40782353673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:22 +0000
Subject: [PATCH 54/61] fix: treat only unit roots as unit roots in the
 approximations of autoregressive processes

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index df9aa6b..2fcad1c 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2155,7 +2155,7 @@ class MarkovChain(_Model):
             if states is not None:  # pragma: no cover
                 states = _validate_labels_input(states, size)
 
-            if approximation_type != 'rouwenhorst' and _np.isclose(abs(rho), 1.0):
+            if approximation_type != 'rouwenhorst' and abs(rho) > 1.0 - 1e-8:
                 rho = _mt.copysign(1.0 - 1e-8, rho)
 
             if approximation_type == 'tauchen':
-- 
2.43.0


From 7abf37b4916de542e14654eb442a4f3f6068d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:22 +0000
Subject: [PATCH 55/61] fix: take the second largest eigenvalue modulus of
 slowly mixing chains too

---
 pydtmc/computations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index d3f72a8..5373489 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -340,7 +340,7 @@ def rdl_decomposition(p: _tarray) -> _trdl:
 def slem(m: _tarray) -> _ofloat:
 
     ev = eigenvalues_sorted(m)
-    value = ev[~_np.isclose(ev, 1.0)][-1]
+    value = ev[-2]
 
     if _np.isclose(value, 0.0):
         return None
-- 
2.43.0


From 4788a1f2f6dea470d71adddcf7bd727cebe660ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:09 +0000
Subject: [PATCH 56/61] fix: keep the rows of small weights when models are
 built from graphs and matrices

---
 pydtmc/hidden_markov_model.py | 8 ++++----
 pydtmc/markov_chain.py        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index c9f93d6..4421e4a 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -857,14 +857,14 @@ class HiddenMarkovModel(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(n, dtype=float) / n
             else:
                 p[i, :] /= p_sums_i
 
             e_sums_i = e_sums[i]
 
-            if _np.isclose(e_sums_i, 0.0):  # pragma: no cover
+            if e_sums_i == 0.0:  # pragma: no cover
                 e[i, :] = _np.ones(k, dtype=float) / k
             else:
                 e[i, :] /= e_sums_i
@@ -909,14 +909,14 @@ class HiddenMarkovModel(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(n, dtype=float) / n
             else:
                 p[i, :] /= p_sums_i
 
             e_sums_i = e_sums[i]
 
-            if _np.isclose(e_sums_i, 0.0):  # pragma: no cover
+            if e_sums_i == 0.0:  # pragma: no cover
                 e[i, :] = _np.ones(k, dtype=float) / k
             else:
                 e[i, :] /= e_sums_i
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 2fcad1c..e99873d 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2506,7 +2506,7 @@ class MarkovChain(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(size, dtype=float) / size
             else:
                 p[i, :] /= p_sums_i
@@ -2545,7 +2545,7 @@ class MarkovChain(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(size, dtype=float) / size
             else:
                 p[i, :] /= p_sums_i
-- 
2.43.0


From 8a48b5ba25f6104ea413cbea1a4c46776e84e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:09 +0000
Subject: [PATCH 57/61] fix: call absorbing only the states that cannot be left

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index e99873d..95c0b4b 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -272,7 +272,7 @@ class MarkovChain(_Model):
     @_cached_property
     def __absorbing_states_indices(self) -> _tlist_int:
 
-        indices = [index for index in range(self.__size) if _np.isclose(self.__p[index, index], 1.0)]
+        indices = [index for index in range(self.__size) if _np.count_nonzero(self.__p[index, :]) == 1 and self.__p[index, index] > 0.0]
 
         return indices
 
-- 
2.43.0


From a65b81a2bd1803a0b2928dd11894e3bb198177b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:09 +0000
Subject: [PATCH 58/61] fix: give the mean recurrence times of rarely visited
 states

---
 pydtmc/measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 1d6bbef..fa71955 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -452,7 +452,7 @@ def mc_mean_recurrence_times(mc: _tmc) -> _oarray:
 
     pi = mc.pi[0]
 
-    mrt = _np.array([0.0 if _np.isclose(v, 0.0) else 1.0 / v for v in pi])
+    mrt = _np.array([0.0 if v == 0.0 else 1.0 / v for v in pi])
 
     return mrt
 
-- 
2.43.0


From aadf89917cebd430f708f599c65885166a484683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:09 +0000
Subject: [PATCH 59/61] fix: count the visits to transient states that are
 hardly ever left

---
 pydtmc/measures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index fa71955..1b16a25 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -371,7 +371,7 @@ def mc_mean_first_passage_times_to(mc: _tmc, targets: _olist_int) -> _oarray:
 
 def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
-    p, size, states, cm = mc.p, mc.size, mc.states, mc.communication_matrix
+    p, size, states, am, cm = mc.p, mc.size, mc.states, mc.accessibility_matrix, mc.communication_matrix
 
     ccis = [[*map(states.index, communicating_class)] for communicating_class in mc.communicating_classes]
     closed_states = [True] * size
@@ -426,7 +426,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
     for j in range(size):
 
-        ct1 = _np.isclose(hp[j, j], 1.0)
+        ct1 = closed_states[j]
 
         if ct1:
             z = _np.nan
@@ -435,7 +435,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
         for i in range(size):
 
-            if _np.isclose(hp[i, j], 0.0):
+            if am[i, j] == 0:
                 mnv[i, j] = 0.0
             elif ct1:
                 mnv[i, j] = _np.inf
-- 
2.43.0


From 76aaefb24c7ce2ecfcaf3f7a1030edb9c3e8e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:09 +0000
Subject: [PATCH 60/61] fix: keep the rare births and deaths of birth-death
 processes

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index a468a2b..4f75640 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -581,7 +581,7 @@ def mc_birth_death(p: _tarray, q: _tarray) -> _tmc_generation:
     r = 1.0 - q - p
 
     p = _np.diag(r) + _np.diag(p[0:-1], k=1) + _np.diag(q[1:], k=-1)
-    p[_np.isclose(p, 0.0)] = 0.0
+    p[_np.isclose(p, 0.0, atol=1e-15)] = 0.0
     p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[0], dtype=float)
     p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From f82ff08e91c2455c2559cb10a9eafb4834551d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:09 +0000
Subject: [PATCH 61/61] fix: solve for the hitting probabilities and times of
 slowly moving chains

---
 pydtmc/measures.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 1b16a25..fa2c117 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -30,7 +30,6 @@ __all__ = [
 
 import numpy as _np
 import numpy.linalg as _npl
-import scipy.optimize as _spo
 
 # Internal
 
@@ -266,12 +265,14 @@ def mc_hitting_probabilities(mc: _tmc, targets: _tlist_int) -> _tarray:
     non_target = _np.setdiff1d(_np.arange(size, dtype=int), target)
 
     hp = _np.ones(size, dtype=float)
+    hp[non_target] = 0.0
 
-    if non_target.size > 0:
-        a = p[non_target, :][:, non_target] - _np.eye(non_target.size)
-        b = _np.sum(-p[non_target, :][:, target], axis=1)
-        x = _spo.nnls(a, b)[0]
-        hp[non_target] = x
+    solve = non_target[_np.any(mc.accessibility_matrix[_np.ix_(non_target, target)] > 0, axis=1)]
+
+    if solve.size > 0:
+        a = _np.eye(solve.size) - p[_np.ix_(solve, solve)]
+        b = _np.sum(p[_np.ix_(solve, target)], axis=1)
+        hp[solve] = _npl.solve(a, b)
 
     return hp
 
@@ -302,8 +303,7 @@ def mc_hitting_times(mc: _tmc, targets: _tlist_int) -> _tarray:
     if solve.size > 0:
         a = p[solve, :][:, solve] - _np.eye(solve.size)
         b = -_np.ones(solve.size, dtype=float)
-        x = _spo.nnls(a, b)[0]
-        ht[solve] = x
+        ht[solve] = _npl.solve(a, b)
 
     return ht
 
-- 
2.43.0

