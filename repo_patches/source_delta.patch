From 455b9aaa741abb4e1de7241e2adbf379ab0626b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 01/28] fix: give each construct_operators call its own work
 stack

The stack was a mutable default argument shared by every call, so entries left
behind by an interrupted or concurrent call were consumed by the next one and
changed (or emptied) its result.
---
 neutrinomass/tensormethod/contract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index 7ef3183..c194ee9 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -217,13 +217,15 @@ def term_lorentz_singlet(term: Operator) -> List[Operator]:
     return contract_su2(left=fst, right=prod, out=0, ignore=["i"])
 
 
-def construct_operators(expr_tree: Prod, _stack=[], ignore=[]) -> List[Operator]:
+def construct_operators(expr_tree: Prod, _stack=None, ignore=[]) -> List[Operator]:
     """Constructs Operator objects from product tree. There will be more than one
     since there will be many ways to contract the indices at each step.
 
     """
     # Algorithm logic: unload tree into a stack and read off elements, calling
     # contract on them and building up the operators.
+    if _stack is None:
+        _stack = []
 
     while isinstance(expr_tree, Prod):
         irrep, left, right = expr_tree
-- 
2.43.0


From 18954e3bf8b20caad0e72cd206e0421ebe034e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 02/28] fix: never hand out a fresh index name that is already
 in use

Index.fresh numbered indices with a per-process counter only. Operators read
back from their pickled form (all of EFF_OPERATORS) carry names generated in
another process, so once the counter reached one of them contractions such as
colour_singlets(..., overcomplete=True) clashed with an existing index. Taking
the next number is also atomic now.
---
 neutrinomass/tensormethod/core.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index a6b5fef..7ab42c7 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -3,6 +3,7 @@
 
 from collections import defaultdict
 from copy import copy, deepcopy
+from itertools import count
 from itertools import groupby
 from string import ascii_lowercase
 from typing import Iterable
@@ -70,6 +71,11 @@ DOTTED = tensor.TensorIndexType("Dotted", metric=True, dummy_fmt="D", dim=2)
 class Index(tensor.TensorIndex):
     """A tensor index."""
 
+    # names of all of the indices constructed so far (however they were named)
+    # and the counters numbering the fresh ones, see the ``fresh`` method
+    _names = set()
+    _fresh_counters = {type_: count() for type_ in "udcig"}
+
     def __new__(cls, label: str, *args, **kwargs):
         if isinstance(label, Index):
             return label
@@ -90,6 +96,7 @@ class Index(tensor.TensorIndex):
             label = label[1:] + "_"
 
         tensor_type = cls.classify_index(label)
+        cls._names.add(label)
         return super(Index, cls).__new__(
             cls, name=label, tensortype=tensor_type, is_up=is_up
         )
@@ -167,13 +174,18 @@ class Index(tensor.TensorIndex):
 
     @classmethod
     def fresh(cls, type_) -> "Index":
-        """Return a fresh, unused index by mutating a global counter internal to sympy's
-        tensor module.
+        """Return a fresh, unused index by mutating a global counter.
+
+        Names already in use are skipped, e.g. those of operators read back in
+        from a pickled form, which were fresh in another process. The same goes
+        for names an index in use would have after conjugation.
 
         """
-        idx = cls(tensor.TensorIndex(True, cls.get_tensor_index_types()[type_]))
-        label = idx.label.replace("i", type_)
-        return cls(label)
+        swap = {"u": "d", "d": "u"}
+        for n in cls._fresh_counters[type_]:
+            used = {f"{type_}{n}_", f"{swap.get(type_, type_)}{n}_"} & cls._names
+            if not used:
+                return cls(f"_{type_}{n}")
 
     @classmethod
     def fresh_indices(cls, dynkin_str) -> str:
-- 
2.43.0


From 6888073761672585fc2dd152278550da2582eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 03/28] fix: completions() dispatches on its operator argument

The function referred to an undefined name and raised NameError for any input.
---
 neutrinomass/completions/completions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index d97eec2..9869649 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1272,11 +1272,11 @@ def deriv_operator_completions(
     return comps
 
 
-def completions(*args, **kwargs):
+def completions(operator: EffectiveOperator, *args, **kwargs):
     """General dispatch function for completions"""
     if "D" in operator.name:
-        return deriv_operator_completions(*args, **kwargs)
-    return operator_completions(*args, **kwargs)
+        return deriv_operator_completions(operator, *args, **kwargs)
+    return operator_completions(operator, *args, **kwargs)
 
 
 def collect_models(comps):
-- 
2.43.0


From aec80e4eccd8f103ce2f5cf1e5c9dea2d29db046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 04/28] fix: collect_completions keeps every completion

The input is not sorted by field content, so groupby yields the same key more
than once and later groups overwrote earlier ones; how many completions were
lost depended on the order of the input.
---
 neutrinomass/completions/completions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 9869649..10b78f7 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1103,11 +1103,10 @@ def collect_completions(
         key = lambda x: x.exotic_info()
 
     func = lambda c: tuple(sorted(key(c).values()))
-    for k, g in groupby(completions, key=func):
-        g_list = list(g)
-        # slow_remove_equivalent_completions(g_list)
-        k = tuple(sorted(set(k)))
-        out[k] = g_list
+    for c in completions:
+        # the same field content may come up again later
+        k = tuple(sorted(set(func(c))))
+        out.setdefault(k, []).append(c)
 
     return out
 
-- 
2.43.0


From dad6d8d644d2d81879b46aefd3146f2399e2a483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 05/28] fix: ModelDatabase.force upgrades the models of every
 operator

Each iteration replaced the whole data dictionary with the current operator's
models, so only the last operator survived. The database was also marked as
forced before the work was done, so a failure part-way could not be retried.
---
 neutrinomass/database/database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 5d2239c..28a225c 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -286,9 +286,8 @@ class ModelDatabase:
         if self.is_forced:
             return
 
+        self.data = {k: [m.force() for m in v] for k, v in self.data.items()}
         self.is_forced = True
-        for k, v in self.data.items():
-            self.data = {k: [m.force() for m in v]}
 
     def democratic_remove_equivalent_models(self):
         """Removes duplicate models only by field content"""
-- 
2.43.0


From ce8f17c749efdf271bed89b0fa2e3b42fbe7abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 06/28] fix: ModelDatabase keeps every record of a directory
 and can be filtered

When two files held models of the same operator the one listed last replaced
the other, and files were taken in directory-listing order. A database read
from a path never set is_ordered, so filter() raised AttributeError; one built
from data claimed to be ordered while the scales the mass filter needs were
missing.
---
 neutrinomass/database/database.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 28a225c..69de10c 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -167,16 +167,20 @@ class ModelDatabase:
             self.path = path
 
             # print("Initialising database...")
-            filenames = glob(os.path.join(self.path, "*.dat"))
-            mvdb_data = [dict(read_completions(f)) for f in filenames]
-            mv_dict = {k: v for d in mvdb_data for k, v in d.items()}
-            self.data = mv_dict
+            filenames = sorted(glob(os.path.join(self.path, "*.dat")))
+            mv_dict = defaultdict(list)
+            for filename in filenames:
+                for k, v in read_completions(filename).items():
+                    mv_dict[k] += v
+            self.data = dict(mv_dict)
 
         else:
             self.path = None
-            self.is_ordered = True
             self.data = data
 
+        # the filters need the data in order, see the `order` method
+        self.is_ordered = False
+
         # initialise prime dictionary
         exotics = {}
         counter = 1
-- 
2.43.0


From 9ba9f9ff1fe39e964082c049d32eb79327a16320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 07/28] fix: number the exotics of a database reproducibly

The primes were handed out while iterating over a set of strings, so the same
raw data gave differently numbered tables in every process.
---
 neutrinomass/database/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 69de10c..a3f663d 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -186,7 +186,7 @@ class ModelDatabase:
         counter = 1
         for k, v in self.data.items():
             for model in v:
-                for exotic in model.quantum_numbers:
+                for exotic in sorted(model.quantum_numbers):
                     if exotic not in exotics:
                         exotics[conjugate_field(exotic)] = prime(counter)
                         exotics[exotic] = prime(counter)
-- 
2.43.0


From e918215edd72dd4fdfd4702a2c851d42ee93877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 08/28] fix: an interrupted pickler run leaves no torn or
 mismatched tables

The pickles were written in place and never closed, and a run that stopped
after writing new exotics.p and terms.p left the old democratic.p next to them,
whose model numbers then decode to the wrong fields. Each file is now replaced
in one step and stale tables go before the registries they refer to.
---
 neutrinomass/database/pickler | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/neutrinomass/database/pickler b/neutrinomass/database/pickler
index 9949254..13e7caa 100755
--- a/neutrinomass/database/pickler
+++ b/neutrinomass/database/pickler
@@ -106,13 +106,30 @@ def one_loop_democratic_nums(db, models):
 unfiltered_path = os.path.join(args.output, "unfiltered.p")
 exotics_path = os.path.join(args.output, "exotics.p")
 terms_path = os.path.join(args.output, "terms.p")
+democratic_path = os.path.join(args.output, "democratic.p")
+
+
+def write_pickle(data, path):
+    """Replaces the file in one step, so that it is never seen half written."""
+    tmp_path = path + ".tmp"
+    with open(tmp_path, "wb") as f:
+        pickle.dump(data, f)
+        f.flush()
+        os.fsync(f.fileno())
+
+    os.replace(tmp_path, path)
+    print(f"{path} written!")
 
-pickle.dump(data_dict(DB), open(unfiltered_path, "wb"))
-print(f"{unfiltered_path} written!")
-pickle.dump(DB.exotic_prime_dict, open(exotics_path, "wb"))
-print(f"{exotics_path} written!")
-pickle.dump(DB.term_prime_dict, open(terms_path, "wb"))
-print(f"{terms_path} written!")
+
+# the model numbers in tables left by an earlier run don't match the exotics and
+# terms about to be written
+for stale_path in (democratic_path, unfiltered_path):
+    if os.path.exists(stale_path):
+        os.remove(stale_path)
+
+write_pickle(DB.exotic_prime_dict, exotics_path)
+write_pickle(DB.term_prime_dict, terms_path)
+write_pickle(data_dict(DB), unfiltered_path)
 
 # Process database and perform democratic filtering
 print("Removing equivalent models democratically...")
@@ -126,6 +143,4 @@ ONE_LOOP_WEINBERG = set(one_loop_democratic_nums(DB, generate_models()))
 DB.filter_one_loop_weinberg(ONE_LOOP_WEINBERG)
 
 # Write democratic file out
-democratic_path = os.path.join(args.output, "democratic.p")
-pickle.dump(data_dict(DB), open(democratic_path, "wb"))
-print(f"{democratic_path} written!")
+write_pickle(data_dict(DB), democratic_path)
-- 
2.43.0


From 7c4f8495aa8c2ba527291430d168a5ede863be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 09/28] fix: pair topology files by name and refuse incomplete
 or damaged ones

Partitions, diagrams and graphs were zipped in sorted order, so one missing
file (an interrupted generation, say) silently paired partitions with the graphs
of other topologies and dropped the last ones, and a truncated graph went
unnoticed.
---
 neutrinomass/completions/topologies.py | 31 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/completions/topologies.py b/neutrinomass/completions/topologies.py
index 993d878..a10f40e 100644
--- a/neutrinomass/completions/topologies.py
+++ b/neutrinomass/completions/topologies.py
@@ -8,6 +8,7 @@ import matplotlib.pyplot as plt
 import networkx as nx
 from typing import NamedTuple
 from neutrinomass.tensormethod.core import IndexedField
+from neutrinomass.completions.utils import flatten, chunks
 
 # PATH_TO_MV = "/Users/johngargalionis/Dropbox/PhD/mv/"
 TOPOLOGY_PATH = os.path.join(os.path.dirname(__file__), "topology_data")
@@ -53,25 +54,45 @@ def eval_graph(graph: str):
     return G
 
 
+def files_by_name(pattern: str):
+    """Returns a dictionary mapping the name of the topology to the path of its file."""
+    return {os.path.splitext(os.path.basename(p))[0]: p for p in glob(pattern)}
+
+
+def is_consistent(partition: tuple, graph: nx.Graph) -> bool:
+    """Checks that the graph is a tree whose external nodes are those of the
+    partition.
+
+    """
+    nodes = [node for _, node in chunks(list(flatten(partition)), 2)]
+    external_nodes = [n for n in graph.nodes if graph.degree(n) == 1]
+    return nx.is_tree(graph) and sorted(nodes) == sorted(external_nodes)
+
+
 def get_topology_data(n_scalars, n_fermions):
     """Returns a list of dictionaries with data from topology data files.
 
     [{"partition": parition_string, "graph": graph_string, "img": image}]
 
     """
-    partition_files = sorted(glob(PARTITIONS + f"/{n_scalars}s{n_fermions}f_*"))
-    diagram_files = sorted(glob(DIAGRAMS + f"/{n_scalars}s{n_fermions}f_*"))
-    graph_files = sorted(glob(GRAPHS + f"/{n_scalars}s{n_fermions}f_*"))
+    partition_files = files_by_name(PARTITIONS + f"/{n_scalars}s{n_fermions}f_*")
+    graph_files = files_by_name(GRAPHS + f"/{n_scalars}s{n_fermions}f_*")
 
     if not partition_files:
         raise Exception("Topologies not found, please generate them again.")
 
+    if partition_files.keys() != graph_files.keys():
+        raise Exception("Topologies incomplete, please generate them again.")
+
     out = []
-    for p, d, g in zip(partition_files, diagram_files, graph_files):
+    for name, p in sorted(partition_files.items()):
         topology = {}
         partition_string = eval_partition(read_topology_file(p))
         # img = plt.imread(d)
-        graph_string = eval_graph(read_topology_file(g))
+        graph_string = eval_graph(read_topology_file(graph_files[name]))
+
+        if not is_consistent(partition_string, graph_string):
+            raise Exception(f"Topology {name} damaged, please generate it again.")
 
         topology["partition"] = partition_string
         topology["graph"] = graph_string
-- 
2.43.0


From 2a5deb7c0794f6b928745fdb522ba338c52a0e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 10/28] fix: smeft works on its own copies of the Standard
 Model fields

---
 neutrinomass/tensormethod/smeft.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/neutrinomass/tensormethod/smeft.py b/neutrinomass/tensormethod/smeft.py
index 4d3949b..349584f 100644
--- a/neutrinomass/tensormethod/smeft.py
+++ b/neutrinomass/tensormethod/smeft.py
@@ -2,6 +2,7 @@
 
 """Functions to generate ΔL = 2 SMEFT operators"""
 
+from copy import copy
 from typing import List
 from itertools import combinations_with_replacement
 
@@ -11,13 +12,21 @@ from neutrinomass.tensormethod.core import Field, Operator, Prod, decompose_prod
 # from neutrinomass.tensormethod.contract import construct_operators
 
 
-# add lepton number
-L.charges["L"] = 1
-Q.charges["L"] = 0
-H.charges["L"] = 0
-ub.charges["L"] = 0
-db.charges["L"] = 0
-eb.charges["L"] = -1
+
+def with_lepton_number(field: Field, number: int) -> Field:
+    """Returns a copy of the field that also carries lepton number."""
+    field = copy(field)
+    field.charges = {**field.charges, "L": number}
+    return field
+
+
+# add lepton number (to copies, everyone else works with the original fields)
+L = with_lepton_number(L, 1)
+Q = with_lepton_number(Q, 0)
+H = with_lepton_number(H, 0)
+ub = with_lepton_number(ub, 0)
+db = with_lepton_number(db, 0)
+eb = with_lepton_number(eb, -1)
 
 SM = [L, Q, H, eb, ub, db]
 FIELDS = SM + [f.conj for f in SM]
-- 
2.43.0


From a8735db5c7c361c0ebc079de78e863cd013e24c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 11/28] fix: completions of derivative operators keep the
 charges and flavours of their fields

---
 neutrinomass/completions/completions.py | 3 +--
 neutrinomass/tensormethod/core.py       | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 10b78f7..4a59dd5 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1180,8 +1180,7 @@ def operator_strip_derivs(op: Operator) -> List[Operator]:
             if field.derivs:
                 assert field.derivs == 1
                 n_derivs += 1
-                data = field.stripped
-                new_field = Field(**data, is_conj=field.is_conj)
+                new_field = field.strip_derivs()
                 indices = field.gauge_indices
                 new_fields.append((new_field, " ".join(str(i) for i in indices)))
                 # new_fields.append((new_field, indices))
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 7ab42c7..41ee3bc 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -881,7 +881,7 @@ class IndexedField(tensor.Tensor, Field):
             "nf": self.nf,
             "derivs": 0,
             "charges": {k: v for k, v in self.charges.items()},
-            "stripped": self.stripped,
+            "stripped": None,
         }
 
         kwargs = {**self.stripped, **other}
-- 
2.43.0


From 2087c19e20c2e041ef805b877482d493632b692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 12/28] fix: npoint_fieldstrings leaves the charges of the
 Standard Model fields alone

---
 neutrinomass/tensormethod/lagrangian.py | 31 +++++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index b7ea95f..96b55ce 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -5,6 +5,7 @@ finding.
 
 """
 
+from copy import copy
 from itertools import combinations_with_replacement
 from alive_progress import alive_bar
 from sympy import Matrix
@@ -27,6 +28,9 @@ from neutrinomass.tensormethod.core import (
 from neutrinomass.tensormethod.sm import L, Q, db, H, ub, eb
 
 
+SM_MATTER = (L, eb, Q, db, ub, H)
+
+
 def make_coupling(symbol: str, indices: str, sym=None):
     indices_list = indices.split()
     if sym is None:
@@ -34,13 +38,23 @@ def make_coupling(symbol: str, indices: str, sym=None):
     return tensorhead(symbol, [Index(i) for i in indices_list], sym)
 
 
-def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None):
-    L.charges["l"] = 1
-    eb.charges["l"] = -1
-    Q.charges["l"] = 0
-    ub.charges["l"] = 0
-    db.charges["l"] = 0
-    H.charges["l"] = 0
+def with_lepton_number(field: Field) -> Field:
+    """Returns a copy of a Standard Model field that also carries lepton number,
+    other fields are returned as they are.
+
+    """
+    if field not in SM_MATTER and field.conj not in SM_MATTER:
+        return field
+
+    number = {"L": 1, "eb": -1}.get(field.label, 0)
+    field = copy(field)
+    field.charges = {**field.charges, "l": -number if field.is_conj else number}
+    return field
+
+
+def npoint_fieldstrings(n, fields=SM_MATTER, derivs=False, func=None):
+    # work with copies, everyone else relies on the charges of the original fields
+    fields = tuple(with_lepton_number(f) for f in fields)
 
     conjs = tuple([f.conj for f in fields])
     if derivs:
@@ -64,9 +78,6 @@ def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None
                 terms += [singlets[0]]
             bar()
 
-    # for f in [L, eb, Q, ub, db, H]:
-    #     del f.charges["l"]
-
     return terms
 
 
-- 
2.43.0


From bd44b723dbfd0ca866ce6c22a19d4551b9b7eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:55 +0000
Subject: [PATCH 13/28] fix: timeit measures elapsed time with a clock that is
 never set back

---
 neutrinomass/utils/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/utils/functions.py b/neutrinomass/utils/functions.py
index 9c9d8ea..7b79210 100644
--- a/neutrinomass/utils/functions.py
+++ b/neutrinomass/utils/functions.py
@@ -18,9 +18,9 @@ def timeit(method):
     """
 
     def timed(*args, **kw):
-        ts = time.time()
+        ts = time.perf_counter()
         result = method(*args, **kw)
-        te = time.time()
+        te = time.perf_counter()
         if "log_time" in kw:
             name = kw.get("log_name", method.__name__.upper())
             kw["log_time"][name] = int((te - ts) * 1000)
-- 
2.43.0


From 4ab462376b06553e83a4348149fa1c33658fcb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 14/28] fix: tikz_export reports success only if the diagram
 was generated

---
 neutrinomass/completions/tikzfeynman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutrinomass/completions/tikzfeynman.py b/neutrinomass/completions/tikzfeynman.py
index 38eb294..96f0b68 100644
--- a/neutrinomass/completions/tikzfeynman.py
+++ b/neutrinomass/completions/tikzfeynman.py
@@ -3,6 +3,7 @@
 """Functions to export networkx graphs to pdf with tikz-feynman."""
 
 import os
+import subprocess
 
 from neutrinomass.completions.completions import operator_completions
 from neutrinomass.completions.core import (
@@ -115,15 +116,14 @@ def tikz_export(g: nx.Graph, path: str) -> None:
     file_dir, file_name = os.path.split(path)
     build_dir = os.path.join(file_dir, "texbuild")
     print(build_dir)
-    mkdir = f"mkdir -p {build_dir}"
-    os.system(mkdir)
+    os.makedirs(build_dir, exist_ok=True)
 
     with open(path, "w+") as tex_file:
         tex_file.write(latex)
 
     # compile latex with lualatex
-    compile_command = rf"lualatex -output-directory={build_dir} {path}; "
-    os.system(compile_command)
+    compile_command = ["lualatex", f"-output-directory={build_dir}", path]
+    subprocess.run(compile_command, check=True)
     print(f"Successfully generated diagram at {path}!")
 
 
-- 
2.43.0


From 71ff582c418aa379f2f88f484d58e313bca689cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 15/28] fix: searches that show progress can run side by side

---
 neutrinomass/completions/completions.py |  4 ++--
 neutrinomass/tensormethod/lagrangian.py |  4 ++--
 neutrinomass/utils/functions.py         | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 4a59dd5..969c1cd 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -30,6 +30,7 @@ from neutrinomass.completions.utils import (
     allowed_lor_dyn,
 )
 from neutrinomass.utils.functions import remove_equivalent, remove_equivalent_nopop
+from neutrinomass.utils.functions import progress_bar
 from neutrinomass.completions.core import (
     Completion,
     Model,
@@ -50,7 +51,6 @@ from typing import Tuple, List, Dict, Union
 import networkx as nx
 import networkx.algorithms.isomorphism as iso
 from copy import copy, deepcopy
-from alive_progress import alive_bar
 
 from collections import Counter, defaultdict
 from itertools import permutations, groupby, combinations
@@ -966,7 +966,7 @@ def operator_completions(
 
     if verbose:
         print(f"Finding completions of {len(parts)} partitions...")
-        with alive_bar(len(parts)) as bar:
+        with progress_bar(len(parts)) as bar:
             for p in parts:
                 # completions.append(partition_completion(p))
                 comp = partition_completion(p)
diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index 96b55ce..4578b2f 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -7,7 +7,6 @@ finding.
 
 from copy import copy
 from itertools import combinations_with_replacement
-from alive_progress import alive_bar
 from sympy import Matrix
 from sympy.tensor.tensor import tensorhead
 from collections import Counter
@@ -16,6 +15,7 @@ from typing import List
 
 from neutrinomass.tensormethod.contract import invariants, unsimplified_invariants
 from neutrinomass.utils import remove_equivalent
+from neutrinomass.utils.functions import progress_bar
 from neutrinomass.tensormethod.core import (
     Operator,
     GENERATION,
@@ -63,7 +63,7 @@ def npoint_fieldstrings(n, fields=SM_MATTER, derivs=False, func=None):
 
     combos = list(combinations_with_replacement(fields + conjs, n))
     terms = []
-    with alive_bar(len(combos)) as bar:
+    with progress_bar(len(combos)) as bar:
         while combos:
             combo = combos.pop(0)
 
diff --git a/neutrinomass/utils/functions.py b/neutrinomass/utils/functions.py
index 7b79210..273ae93 100644
--- a/neutrinomass/utils/functions.py
+++ b/neutrinomass/utils/functions.py
@@ -1,8 +1,11 @@
 #!/usr/bin/env python3
 
 import time
+from contextlib import ExitStack, contextmanager
 from typing import List, Callable, TypeVar, Set
 
+from alive_progress import alive_bar
+
 T = TypeVar("T")
 
 
@@ -12,6 +15,23 @@ def chunks(lst, n):
         yield lst[i : i + n]
 
 
+@contextmanager
+def progress_bar(total: int):
+    """Context manager displaying a progress bar of length ``total``.
+
+    Only one can be displayed at a time, others that are started in the meantime
+    are not shown.
+
+    """
+    with ExitStack() as stack:
+        try:
+            bar = stack.enter_context(alive_bar(total))
+        except UserWarning:
+            bar = stack.enter_context(alive_bar(total, disable=True))
+
+        yield bar
+
+
 def timeit(method):
     """Decorator for timing function execution.
 
-- 
2.43.0


From e8d6a63f46870c4701a29e0ba276d6d7ed7b270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 16/28] fix: operators with colour deltas can be read back from
 their pickle form

---
 neutrinomass/tensormethod/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 41ee3bc..523839a 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -990,7 +990,12 @@ class Operator(tensor.TensMul):
 
         """
         fields = pickle_form["fields"]
-        epsilons = [eps(" ".join(indices)) for indices in pickle_form["epsilons"]]
+        epsilons = []
+        for indices in pickle_form["epsilons"]:
+            # two colour indices can only come from a delta
+            is_delta = len(indices) == 2 and Index(indices[0]).index_type == "Colour"
+            epsilons.append((delta if is_delta else eps)(" ".join(indices)))
+
         indexed_fields = [IndexedField(**d) for d in fields]
         return cls(*indexed_fields, *epsilons)
 
-- 
2.43.0


From 861ee7900aa4d8b6ffbbfaf95eac5aa0fab43131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 17/28] fix: threads drawing fresh spinor indices never get the
 same name

---
 neutrinomass/tensormethod/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 523839a..f5c10af 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -74,7 +74,9 @@ class Index(tensor.TensorIndex):
     # names of all of the indices constructed so far (however they were named)
     # and the counters numbering the fresh ones, see the ``fresh`` method
     _names = set()
-    _fresh_counters = {type_: count() for type_ in "udcig"}
+    # (shared by the types that conjugation swaps)
+    _fresh_counters = {type_: count() for type_ in "ucig"}
+    _fresh_counters["d"] = _fresh_counters["u"]
 
     def __new__(cls, label: str, *args, **kwargs):
         if isinstance(label, Index):
-- 
2.43.0


From f7cfb2546b235abdc84cf8f0280cea6aa1df847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 18/28] fix: exported models keep the LaTeX names of their
 exotics

---
 neutrinomass/database/export.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/neutrinomass/database/export.py b/neutrinomass/database/export.py
index a8caf6b..0a80ac8 100644
--- a/neutrinomass/database/export.py
+++ b/neutrinomass/database/export.py
@@ -22,7 +22,7 @@ def export_tensor(tensor):
             f"nf={tensor.nf}",
             f"dynkin='{tensor.dynkin}'",
             f"comm='{tensor.comm}'",
-            f"latex='{tensor.latex}'",
+            f"latex={tensor.latex!r}",
             f"is_conj={tensor.is_conj}",
         )
 
@@ -86,13 +86,14 @@ def export_graph(g: nx.Graph):
 
 def proc_partition(expr):
     if isinstance(expr, Leaf):
-        return Leaf(export_tensor(expr.field), expr.node)
+        return f"Leaf(field={export_tensor(expr.field)}, node={expr.node})"
 
-    return tuple([proc_partition(i) for i in expr])
+    guts = "".join(proc_partition(i) + ", " for i in expr)
+    return f"({guts})"
 
 
 def export_partition(partition):
-    return "Partition" + str(proc_partition(partition)).replace('"', "")
+    return "Partition" + proc_partition(partition)
 
 
 def export_terms(terms):
@@ -101,7 +102,8 @@ def export_terms(terms):
 
 
 def export_exotics(exotics: set):
-    return str(set([export_tensor(f) for f in exotics])).replace('"', "")
+    guts = ", ".join(sorted(set(export_tensor(f) for f in exotics)))
+    return "{" + guts + "}" if guts else "set()"
 
 
 def export_completion(c: Completion, lazy=True):
@@ -135,6 +137,6 @@ def export_completion(c: Completion, lazy=True):
         % (name, str(quantum_numbers), str(plain_terms), topo)
     )
     completion_string = f"Completion(operator={eff_op}, partition={part}, graph={graph}, exotics={exotics}, terms={terms}, topology='{topo}')"
-    export_string = f"""LazyCompletion(head={head}, tail="{completion_string}")"""
+    export_string = f"LazyCompletion(head={head}, tail={completion_string!r})"
 
     return export_string if lazy else completion_string
-- 
2.43.0


From 38ef61b2059ebe24563d0cae05fa3c86c0f6e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 19/28] fix: an interrupted ModelDatabase.force leaves a usable
 database

---
 neutrinomass/database/database.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index a3f663d..46e281f 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -290,8 +290,10 @@ class ModelDatabase:
         if self.is_forced:
             return
 
-        self.data = {k: [m.force() for m in v] for k, v in self.data.items()}
-        self.is_forced = True
+        data = {k: [m.force() for m in v] for k, v in self.data.items()}
+        # set both at once, an interrupt in between would leave completions behind
+        # that the next call tries to force again
+        self.data, self.is_forced = data, True
 
     def democratic_remove_equivalent_models(self):
         """Removes duplicate models only by field content"""
-- 
2.43.0


From cb26abb272b5f360fdba34966c61157254de1129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 20/28] fix: the pickler matches the hypercharges of one-loop
 models exactly

A field of hypercharge 1 was also taken to be one of hypercharge 1/2, so that
models were dropped that contain no one-loop model, or an assertion failed.
---
 neutrinomass/database/pickler | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/database/pickler b/neutrinomass/database/pickler
index 13e7caa..acb7e69 100755
--- a/neutrinomass/database/pickler
+++ b/neutrinomass/database/pickler
@@ -81,7 +81,7 @@ def field_options(db, field):
     includes baryon number
 
     """
-    return [k for k in db.exotic_prime_dict if k.startswith(field)]
+    return [k for k in db.exotic_prime_dict if k.startswith(field + ",")]
 
 
 def one_loop_democratic_nums(db, models):
-- 
2.43.0


From 8843069cf79b7b620614660d0deeb5072607b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 21/28] fix: tikz_export expands ~ in its path as its
 documentation shows

---
 neutrinomass/completions/tikzfeynman.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/completions/tikzfeynman.py b/neutrinomass/completions/tikzfeynman.py
index 96f0b68..6ddbaca 100644
--- a/neutrinomass/completions/tikzfeynman.py
+++ b/neutrinomass/completions/tikzfeynman.py
@@ -111,6 +111,7 @@ def tikz_export(g: nx.Graph, path: str) -> None:
     """
 
     latex = skeleton(proc_body(g))
+    path = os.path.expanduser(path)
 
     # make directory
     file_dir, file_name = os.path.split(path)
-- 
2.43.0


From 4d563f3c262a6976da4bc839dda14e25f79e3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 22/28] fix: the progress bar goes to the current standard
 output, not to the first one it saw

---
 neutrinomass/utils/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/utils/functions.py b/neutrinomass/utils/functions.py
index 273ae93..1f0215a 100644
--- a/neutrinomass/utils/functions.py
+++ b/neutrinomass/utils/functions.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python3
 
+import sys
 import time
 from contextlib import ExitStack, contextmanager
 from typing import List, Callable, TypeVar, Set
@@ -25,7 +26,7 @@ def progress_bar(total: int):
     """
     with ExitStack() as stack:
         try:
-            bar = stack.enter_context(alive_bar(total))
+            bar = stack.enter_context(alive_bar(total, file=sys.stdout))
         except UserWarning:
             bar = stack.enter_context(alive_bar(total, disable=True))
 
-- 
2.43.0


From 9b698e9724b477fae461e742e28c7385b9ef3722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 23/28] fix: related_models of a model with a single exotic
 field

---
 neutrinomass/database/database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 46e281f..7854964 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -144,8 +144,8 @@ class ModelDataFrame(pd.DataFrame):
             prod = reduce(operator.mul, group)
             indices += list(self[self["democratic_num"] == prod].index)
 
-        indices.remove(index)
-        return self.loc[indices]
+        # the model itself is not among them if it has a single exotic field
+        return self.loc[[i for i in indices if i != index]]
 
 
 class ModelDatabase:
-- 
2.43.0


From 1ce9947a9015be1e58fa946a36bcc150c5201138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 24/28] fix: pickling and copying of indices, fields, operators
 and completions

sympy rebuilds objects from their sympy arguments, which don't hold the sign
of an index, nor the charges, the statistics, the flavours, etc. of a field.
Copies of operators came out empty, and copies of completions without their
topology.
---
 neutrinomass/completions/core.py  | 16 ++++-------
 neutrinomass/tensormethod/core.py | 47 +++++++++++++++++++++++++------
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 04b4c37..aa68be9 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -70,17 +70,6 @@ class FieldType(IndexedField):
         }
         return hash(tuple(dict_.items()))
 
-    def __deepcopy__(self, memo):
-        return self.__class__(
-            label=self.label,
-            indices=deepcopy(self.indices, memo),
-            charges=deepcopy(self.charges, memo),
-            latex=self.latex,
-            is_conj=self.is_conj,
-            symmetry=deepcopy(self.symmetry, memo),
-            comm=self.comm,
-        )
-
 
 class ComplexScalar(FieldType):
     def __init__(
@@ -282,6 +271,10 @@ class VectorLikeDiracFermion(FieldType):
         assert self.is_fermion
         self.is_unbarred = is_unbarred
 
+    @property
+    def _dict(self):
+        return {**super()._dict, "is_unbarred": self.is_unbarred}
+
     @property
     def conj(self):
         """Returns a copy of self but conjugated"""
@@ -424,6 +417,7 @@ class Completion:
             graph=deepcopy(self.graph, memo),
             exotics=deepcopy(self.exotics, memo),
             terms=deepcopy(self.terms, memo),
+            topology=self.topology,
         )
 
     @property
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index f5c10af..b27c80c 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -108,6 +108,10 @@ class Index(tensor.TensorIndex):
             self.label = label.label
         self.label = str(label)  # the label that was passed in
 
+    def __reduce_ex__(self, protocol):
+        # (used by pickle and copy) the sympy arguments don't make an Index
+        return self.__class__, (self.label,)
+
     def __neg__(self):
         is_up = self.is_up
         new_label = "-" + self.label if is_up else self.label[1:]
@@ -683,6 +687,11 @@ class IndexedField(tensor.Tensor, Field):
         # self.comm = FERMI if self.is_fermion else BOSE
         self.index_labels = indices
 
+    def __reduce_ex__(self, protocol):
+        # (used by pickle and copy) the sympy arguments don't include the
+        # charges, the statistics, etc.
+        return cons_from_dict, (self.__class__, self._dict)
+
     @property
     def field(self):
         return Field(
@@ -992,15 +1001,23 @@ class Operator(tensor.TensMul):
 
         """
         fields = pickle_form["fields"]
-        epsilons = []
-        for indices in pickle_form["epsilons"]:
-            # two colour indices can only come from a delta
-            is_delta = len(indices) == 2 and Index(indices[0]).index_type == "Colour"
-            epsilons.append((delta if is_delta else eps)(" ".join(indices)))
-
+        epsilons = [cons_invariant_symbol(i) for i in pickle_form["epsilons"]]
         indexed_fields = [IndexedField(**d) for d in fields]
         return cls(*indexed_fields, *epsilons)
 
+    def __reduce_ex__(self, protocol):
+        # (used by pickle and copy) avoid the same trouble, keep the order of the
+        # tensors and the classes of the fields
+        parts = []
+        for t in self.tensors:
+            is_symbol = isinstance(t, tensor.Tensor) and is_invariant_symbol(t)
+            if is_symbol and all(isinstance(i, Index) for i in t.indices):
+                parts.append([i.label for i in t.indices])
+            else:
+                parts.append(t)
+
+        return cons_operator, (self.__class__, parts)
+
     @property
     def structures(self):
         """Like epsilons but returns sympy tensor objects."""
@@ -1197,9 +1214,6 @@ class Operator(tensor.TensMul):
     def _repr_html_(self):
         return f"${self.latex()}$"
 
-    def __deepcopy__(self, memo):
-        return self.__class__(tensors=deepcopy(self.tensors, memo))
-
     @property
     def mass_dim(self):
         return sum(f.mass_dim for f in self.fields)
@@ -1315,6 +1329,21 @@ def delta(indices: str):
     return Index.get_tensor_index_types()["c"].delta(*indices)
 
 
+def cons_invariant_symbol(indices: List[str]):
+    """Returns the epsilon or delta with the indices."""
+    # two colour indices can only come from a delta
+    is_delta = len(indices) == 2 and Index(indices[0]).index_type == "Colour"
+    return (delta if is_delta else eps)(" ".join(indices))
+
+
+def cons_from_dict(cls, kwargs: dict):
+    return cls(**kwargs)
+
+
+def cons_operator(cls, parts: list):
+    return cls(*[cons_invariant_symbol(p) if isinstance(p, list) else p for p in parts])
+
+
 def is_invariant_symbol(tensor):
     str_tensor = str(tensor)
     return (
-- 
2.43.0


From 8725964ed6844c6d62722d929e548a6c1944dca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 25/28] fix: an interrupt during a match is not a mismatch

---
 neutrinomass/utils/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/utils/match.py b/neutrinomass/utils/match.py
index 5edaa8c..548c9f4 100644
--- a/neutrinomass/utils/match.py
+++ b/neutrinomass/utils/match.py
@@ -13,7 +13,7 @@ def _match_on_collection(pattern, data, frame):
         return pattern_match(
             pattern[1:], data[1:], pattern_match(pattern[0], data[0], frame)
         )
-    except:
+    except IndexError:
         return False
 
 
-- 
2.43.0


From ec76626eb5e21e3c76152c391747fd1806ed9e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 26/28] fix: estimate scales of operators whose index names
 start with one another

---
 neutrinomass/database/closures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index de1be9f..a9951c7 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -221,8 +221,9 @@ def parse_operator(eff_op: Union[EffectiveOperator, Operator]):
     eval_str = ""
     indices = [("_i", "_j"), ("_k", "_l"), ("_m", "_n"), ("_p", "_q")]
     for (i, j), (a, b) in zip(epsilons, indices):
-        field_string = field_string.replace(str(-i), a)
-        field_string = field_string.replace(str(-j), b)
+        # with the brackets, since one name may be the start of another: i1, i10
+        field_string = field_string.replace(f"[{-i}]", f"[{a}]")
+        field_string = field_string.replace(f"[{-j}]", f"[{b}]")
         field_string += f"*eps[{a}][{b}]"
 
     loop_ranges = [1, 1, 1, 1, 1, 1, 1, 1]
-- 
2.43.0


From 56725ec8ce88a4a3859b4865574d50525e29e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 27/28] fix: number the free indices of operators whose
 contracted indices have those names

---
 neutrinomass/tensormethod/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index b27c80c..28d5df7 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1116,6 +1116,13 @@ class Operator(tensor.TensMul):
                 store[Index.get_index_labels()[index_type]] += 1
                 replacements.append((i, new_index))
 
+        # contracted indices make way for the new names
+        free, taken = set(self.free_indices), {j.name for _, j in replacements}
+        bound = {i for t in self.tensors for i in t.get_indices()} - free
+        for name in sorted(taken & {i.name for i in bound}):
+            fresh = Index.fresh(name[0])
+            replacements += [(Index(name), fresh), (-Index(name), -fresh)]
+
         tensors = [t.fun_eval(*replacements) for t in self.tensors]
         prod = normalise_operator_input(*tensors)
         return Operator(*prod)
-- 
2.43.0


From 4d80e0ec34bd82e0099d5eca1c937e359b77417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 28/28] fix: fields and pickled forms share no lists or
 dictionaries with each other

---
 neutrinomass/tensormethod/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 28d5df7..38a1f60 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -314,7 +314,7 @@ class Field:
         if nf != 1 and nf != 3:
             raise ValueError("Only currently supporting 1 or 3 generations.")
 
-        self.symmetry = symmetry
+        self.symmetry = [list(s) for s in symmetry]
         self.history = history
         self.charges = charges
         self.multiplicity = multiplicity
@@ -325,7 +325,7 @@ class Field:
         self.latex = latex
         self.nf = nf
         self.derivs = derivs
-        self.stripped = stripped
+        self.stripped = deepcopy(stripped)
 
     def __call__(self, indices: str) -> "IndexedField":
         """Returns an IndexedField object.
@@ -685,7 +685,7 @@ class IndexedField(tensor.Tensor, Field):
         )
 
         # self.comm = FERMI if self.is_fermion else BOSE
-        self.index_labels = indices
+        self.index_labels = copy(indices)
 
     def __reduce_ex__(self, protocol):
         # (used by pickle and copy) the sympy arguments don't include the
@@ -990,7 +990,7 @@ class Operator(tensor.TensMul):
 
         """
         return {
-            "fields": [f._dict for f in self.indexed_fields],
+            "fields": [deepcopy(f._dict) for f in self.indexed_fields],
             "epsilons": [[i.label for i in e.indices] for e in self.epsilons],
         }
 
@@ -1419,8 +1419,8 @@ def D(field, dynkin):
         new_field.stripped = {
             "label": field.label,
             "dynkin": field.dynkin,
-            "symmetry": field.symmetry,
-            "charges": field.charges,
+            "symmetry": deepcopy(field.symmetry),
+            "charges": copy(field.charges),
             "latex": field.latex,
         }
     return new_field
-- 
2.43.0

