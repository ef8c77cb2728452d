From d440c36fd8509285bb260693f6c0487223ee1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:02 +0000
Subject: [PATCH 01/42] fix: do not discretize gradient and structure twice in
 Method with split

After the implicit/explicit split, the discrete gradient was rebuilt as if the
explicit storages were quadratic (breaking the power balance for nonlinear
storages with explicit update), and the theta/trapezoidal substitution was
applied a second time to M(x) and z(x).
---
 pyphs/numerics/numerical_method/_method.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 9195922..0521859 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -149,14 +149,12 @@ class Method(Core):
         if self.config['split']:
             if VERBOSE >= 2:
                 print('    Split Implicit/Resolved...')
-            # Split implicit equations from explicit equations
+            # Split implicit equations from explicit equations. Notice the
+            # discrete gradient and structure are sorted accordingly: they must
+            # not be discretized twice.
             self.explicit_implicit()
             if VERBOSE >= 2:
                 print('    Re-Build numerical structure...')
-            # build the discrete evaluation for the gradient
-            build_gradient_evaluation(self)
-            # build the discrete evaluation for the structure
-            build_structure_evaluation(self)
             # build method updates
             set_structure(self)
 
-- 
2.43.0


From 126fde10693bd94ded60bdbd3f7633b399f55d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:02 +0000
Subject: [PATCH 02/42] fix: a quadratic storage coupled to a nonlinear one is
 not linear

linear_nonlinear kept as linear a state x1 with H = x1**2/2 + x1*x2 + x2**4/4,
so that H_l(x_l) = x_l^T.Q.x_l/2 + x_l^T.bl did not hold (bl depends on x2) and
the discrete gradient of Method with split missed the coupling term.
---
 pyphs/core/structure/splits.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyphs/core/structure/splits.py b/pyphs/core/structure/splits.py
index 1e9beaf..b3be33a 100644
--- a/pyphs/core/structure/splits.py
+++ b/pyphs/core/structure/splits.py
@@ -89,6 +89,18 @@ def linear_nonlinear(core, criterion=None):
             move_stor(core, nxl, core.dims.x()-1)
             hess = movefunc(hess, nxl, core.dims.x()-1)
 
+    # storages that are coupled to a nonlinear storage are nonlinear
+    if movefunc is movesquarematrixcolnrow:
+        i = 0
+        while i < nxl:
+            if all(elt == 0 for elt in hess[i, nxl:]):
+                i += 1
+            else:
+                move_stor(core, i, core.dims.x()-1)
+                hess = movefunc(hess, i, core.dims.x()-1)
+                nxl -= 1
+                i = 0
+
     # split dissipative part
     nwl = 0
     jacz = criterion[1][0]
-- 
2.43.0


From 6c58f7d49d5367be7a8cc2ad545776bfbbe554ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:10 +0000
Subject: [PATCH 03/42] fix: substitute the discrete gradient for g-symbols
 without shifting it

The symbols core.g() in M and z were replaced by the discrete gradient, the
states of which were then shifted again by theta*dx (sequential substitution);
with the trapezoidal rule they were left unresolved in one half of the mean.
---
 pyphs/numerics/numerical_method/_method.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index 0521859..fb3ae65 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -749,22 +749,24 @@ def build_structure_evaluation(method):
     else:
         theta = method.config['theta']
 
-    # substitutions associated with the chosen numerical method
-    subs = {}
+    # substitutions associated with the gradient evaluation
+    subs_g = {}
+    for gi, gi_discret in zip(method.g(), method.dxH()):
+        subs_g[gi] = gi_discret
 
-    # build substitutions associated with the gradient evaluation
-    for i, (gi, gi_discret) in enumerate(zip(method.g(), method.dxH())):
-        subs[gi] = gi_discret
+    # substitutions associated with the state evaluation. Every substitutions
+    # are simultaneous, so that the discrete gradient is not shifted.
+    subs = dict(subs_g)
 
     # if theta is a numeric => theta scheme
     if isinstance(theta, (int, float)):
         for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
             subs[xi] = xi+theta*dxi
         # Substitute symbols in core.M
-        method.M = method.M.subs(subs)
+        method.M = method.M.subs(subs, simultaneous=True)
         # Substitute symbols in core.z
         for i, z in enumerate(method.z):
-            method.z[i] = z.subs(subs)
+            method.z[i] = z.subs(subs, simultaneous=True)
 
     # else if theta == 'trapez' => trapezoidal
     else:
@@ -772,7 +774,9 @@ def build_structure_evaluation(method):
         for i, (xi, dxi) in enumerate(zip(method.x, method.dx())):
             subs[xi] = xi+dxi
         # Substitute symbols in core.M
-        method.M = 0.5*(method.M + method.M.subs(subs))
+        method.M = 0.5*(method.M.subs(subs_g, simultaneous=True) +
+                        method.M.subs(subs, simultaneous=True))
         # Substitute symbols in core.z
         for i, z in enumerate(method.z):
-            method.z[i] = 0.5*(z + z.subs(subs))
+            method.z[i] = 0.5*(z.subs(subs_g, simultaneous=True) +
+                               z.subs(subs, simultaneous=True))
-- 
2.43.0


From c4438d9209314014e40667cf69cc3ed66d1f8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:38 +0000
Subject: [PATCH 04/42] fix: do not hang on serial loops that close on an
 articulation node

A chain of serial edges leaving from and returning to the same node was
replaced by a self-loop, on which Graph.sp_split iterates forever.
---
 pyphs/graphs/tools.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyphs/graphs/tools.py b/pyphs/graphs/tools.py
index 75e17a9..32b6099 100644
--- a/pyphs/graphs/tools.py
+++ b/pyphs/graphs/tools.py
@@ -79,8 +79,6 @@ def serial_edges(graph):
     # init lists
     serial_nodes = list()
     all_edges = list()
-    # Check for datum termination
-    datum_end = False
     # for each node with degree 2 in the graph
     for node in g.nodes():
 
@@ -94,12 +92,12 @@ def serial_edges(graph):
 
             # continue the serial connection toward n1
             s1 = serial_next(g, node, n1)
-            datum_end = s1[-1] == datum
             s1.reverse()
 
             # continue the serial connection toward n2
             s2 = serial_next(g, node, n2)
-            if s2[-1] == datum and datum_end:
+            # open the chain if it is closed on itself
+            if s2[-1] == s1[0]:
                 s2 = s2[:-1]
 
             # nodes in the serial connection
-- 
2.43.0


From 5d529a940ef50854fd9b6fde4e0e721ecd3bf9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:27 +0000
Subject: [PATCH 05/42] fix: visit every indeterminate node in the graph
 analysis

iterate_nodes removed elements from the list it was iterating over, so that
nodes were skipped; when skipping left Lambda unchanged, the analysis was
considered locked and a realizable network was rejected.
---
 pyphs/graphs/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 059c3eb..c75d08f 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -165,7 +165,7 @@ Iteration over the list `graph.analysis.ic_nodes` of indeterminate nodes.
 First, it is checked that the correponding row of matrix graph.analysis.la
         """
         # iterate over indeterminate nodes
-        for n in self.ic_nodes:
+        for n in list(self.ic_nodes):
             # assert the potential on node n can be defined
             if self.Lambda[n, :].sum() == 0:
                 raise UndefinedPotential(self.nodes[n])
-- 
2.43.0


From 67cd90393f8ca8a95a900a52e7d7d6857c1de21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:44 +0000
Subject: [PATCH 06/42] fix: connector laws do not depend on the causality
 found by the analysis

Gyrators with effort-controlled edges and transformers whose first edge is
flux-controlled used the wrong ratio (sign, and inverse for transformers),
and a ratio was inverted in the graph itself, so that a second analysis of the
same graph inverted it back.
---
 pyphs/graphs/analysis.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index c75d08f..7aa9fcb 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -438,7 +438,7 @@ and the realizability of linked edge is chosen based on the connector type \
         if ctrl is 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
-                self.inverse_alpha(e)
+                self.inverse_alpha(e, minus=True)
                 # assert linked edge is not flux controlled
                 assert link_e not in self.fc_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -449,7 +449,6 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_ec(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
-#                self.inverse_alpha(e)
                 # assert linked edge is not effort controlled
                 assert link_e not in self.ec_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -472,6 +471,7 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_fc(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
+                self.inverse_alpha(e, minus=True)
                 # assert linked edge is not flux controlled
                 assert link_e not in self.fc_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -485,12 +485,14 @@ compatible'.format(e_label, link_e_label)
             self.verbose('link')
 
     def inverse_alpha(self, e, minus=False):
-        alpha = self.edges[e][2]['alpha']
+        n1, n2, data = self.edges[e]
+        alpha = data['alpha']
         if alpha is not None:
             a = alpha**-1
             if minus:
                 a = -a
-            self.edges[e][2]['alpha'] = a
+            # the data of the edge in the graph are left unchanged
+            self.edges[e] = (n1, n2, dict(data, alpha=a))
 
 
 def isequal(M1, M2):
-- 
2.43.0


From 0838af9879bc612af251d84e0b8b1cf048f68c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:57 +0000
Subject: [PATCH 07/42] fix: reduce_z with forced or coupled dissipations

The excluded components were moved out of the dissipative block of the
structure and the linear coefficients were lost; linear dissipations
coupled to nonlinear ones were reduced and the coupling dropped.
---
 pyphs/core/structure/R.py      | 31 +++++++++++++++++--------------
 pyphs/core/structure/splits.py | 13 +++++++++++++
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/pyphs/core/structure/R.py b/pyphs/core/structure/R.py
index 7fe52f1..a33f4a8 100644
--- a/pyphs/core/structure/R.py
+++ b/pyphs/core/structure/R.py
@@ -42,20 +42,23 @@ after this operation, and :code:`core.z()=core.znl()`.
 """
     # identify the linear components
     core.linear_nonlinear()
-    # identify the number of components excluded from the linear part
-    nforced = len(core.force_wnl)
-    # move linear and excluded components at the top of linear components list
-    if not nforced == 0:
-        i = 0
-        for _ in range(core.dims.wl()):
-            if core.w[i] in core.force_wnl:
-                core.move_dissipative(i, core.dims.wl())
-            else:
-                i += 1
-        # reduce number of linear components
-        core.dims._wl -= nforced
-        # reduce Zl
-        core.Zl = core.Zl[:-nforced, :-nforced]
+    # move the components that are excluded from the linear part (and those
+    # coupled with them) at the end of the list of linear components
+    nwl = core.dims.wl()
+    i = 0
+    while i < nwl:
+        coupling = list(core.Zl[i, nwl:]) + list(core.Zl[nwl:, i])
+        if (core.w[i] in core.force_wnl or
+                any(elt != 0 for elt in coupling)):
+            core.move_dissipative(i, core.dims.wl()-1)
+            nwl -= 1
+            i = 0
+        else:
+            i += 1
+    # reduce number of linear components
+    core.dims._wl = nwl
+    # reduce Zl
+    core.Zl = core.Zl[:nwl, :nwl]
     # build inverse of Dl
     iDl = types.matrix_types[0](sympy.eye(core.dims.wl())-core.Mwlwl()*core.Zl)
     # build Dl
diff --git a/pyphs/core/structure/splits.py b/pyphs/core/structure/splits.py
index b3be33a..c13dc67 100644
--- a/pyphs/core/structure/splits.py
+++ b/pyphs/core/structure/splits.py
@@ -119,6 +119,19 @@ def linear_nonlinear(core, criterion=None):
             move_diss(core, nwl, core.dims.w()-1)
             jacz = movefunc(jacz, nwl, core.dims.w()-1)
 
+    # dissipations that are coupled to a nonlinear dissipation are nonlinear
+    if movefunc is movesquarematrixcolnrow:
+        i = 0
+        while i < nwl:
+            coupling = list(jacz[i, nwl:]) + list(jacz[nwl:, i])
+            if all(elt == 0 for elt in coupling):
+                i += 1
+            else:
+                move_diss(core, i, core.dims.w()-1)
+                jacz = movefunc(jacz, i, core.dims.w()-1)
+                nwl -= 1
+                i = 0
+
     # number of linear components
     setattr(core.dims, '_xl', nxl)
     # Hamiltonian of linear components
-- 
2.43.0


From 3481b5bcc1c3df912e14ee0e58f19952cfc0dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:37 +0000
Subject: [PATCH 08/42] fix: copies and sums of cores do not share their
 connectors

---
 pyphs/core/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 912a404..f9de2d6 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -300,6 +300,7 @@ class Core:
                 setattr(target, attr_name, attr.copy())
             except AttributeError:
                 setattr(target, attr_name, copy.copy(attr))
+        core.connectors = copy.deepcopy(self.connectors)
         core.label = copy.copy(self.label)
         return core
 
@@ -352,7 +353,7 @@ class Core:
         # Concatenate lists of expressions
         core.setexpr('z', core1.z + core2.z)
 
-        core.connectors = core1.connectors + core2.connectors
+        core.connectors = copy.deepcopy(core1.connectors + core2.connectors)
         core.force_wnl = core1.force_wnl + core2.force_wnl
 
         for vari in core.dims.names:
-- 
2.43.0


From d328eae76934c2355c2fd35deca4d7efec73f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:44 +0000
Subject: [PATCH 09/42] fix: substitutions of chained expressions, connectors,
 and user dictionaries

Expressions of core.subs that refer to each other left orphan symbols, the
coefficients of connectors were not substituted, and the dictionary given by
the user was modified.
---
 pyphs/core/tools/_substitutions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyphs/core/tools/_substitutions.py b/pyphs/core/tools/_substitutions.py
index 5f0ce56..9d4cba0 100644
--- a/pyphs/core/tools/_substitutions.py
+++ b/pyphs/core/tools/_substitutions.py
@@ -186,9 +186,8 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
 
     """
 
-    # init substitution dic
-    if subs is None:
-        subs = {}
+    # init substitution dic (the user's dictionary is left unchanged)
+    subs = {} if subs is None else dict(subs)
 
     # append self subs dic
     if selfall:
@@ -196,7 +195,11 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
         subs.update(core.subs)
     # append only exprs in core subs dic
     elif selfexprs:
-        subs.update(core.subsexprs)
+        exprs = core.subsexprs
+        # these expressions can refer to each other
+        for _ in range(len(exprs)):
+            exprs = substitute_dict(exprs, dict(exprs))
+        subs.update(exprs)
 
     # substitutions in core's own subsitution dictionary
     core.subs = substitute_dict(core.subs, subs)
@@ -218,6 +221,10 @@ def substitute_core(core, subs=None, selfall=False, selfexprs=False,
             if simplify:
                 expr = simplify_func(expr)
 
+    # substitutions in the coefficients of connectors
+    for connector in core.connectors:
+        connector['alpha'] = substitute(connector['alpha'], subs)
+
     # remove entries in core.subs
     for k in subs.keys():
         try:
-- 
2.43.0


From bfcbc6b152c5fc6f1af5e292e5a2a6582a76199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:04 +0000
Subject: [PATCH 10/42] fix: numerical evaluation of vectors and scalar calls

Evaluations of vector expressions raised TypeError, vectorized functions
refused scalars and ignored the option vectorize=False.
---
 pyphs/numerics/tools/_evaluation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyphs/numerics/tools/_evaluation.py b/pyphs/numerics/tools/_evaluation.py
index 59105eb..c484cc1 100644
--- a/pyphs/numerics/tools/_evaluation.py
+++ b/pyphs/numerics/tools/_evaluation.py
@@ -19,11 +19,12 @@ def pyphs_vectorize(func):
     """
     #return numpy.vectorize(func)
     def vec_func(*args):
+        if all(numpy.ndim(a) == 0 for a in args):
+            return func(*args)
         len_args = len(args[0])
         if not all(len(a) == len_args for a in args[1:]):
             raise AttributeError('Can not call vectorized function {} since given arguments have not the same length.'.format(func.__name__))
-        for ith_args in zip(*args):
-            yield func(*ith_args)
+        return numpy.array([func(*ith_args) for ith_args in zip(*args)])
     return vec_func
 
 
@@ -95,6 +96,7 @@ class Evaluation(object):
             func, args, inds = self.expr_to_numeric(self.core, name,
                                                     self.args(),
                                                     theano=theano,
+                                                    vectorize=vectorize,
                                                     vslice=vslice)
             setattr(self, name, func)
             setattr(self, name+'_args', args)
@@ -140,6 +142,11 @@ class Evaluation(object):
 
         if expr is not None:
 
+            # slice vector expressions
+            if isinstance(expr, types.vector_types) and vslice is not None:
+                expr = expr[vslice]
+                vslice = None
+
             # recover symbols from expr
             symbs = free_symbols(expr)
 
@@ -149,13 +156,13 @@ class Evaluation(object):
             if isinstance(expr, types.vector_types):
                 func = vector_expr_to_numeric(
                     args,
-                    expr[vslice],
+                    expr,
                     subs=core.subs,
                     theano=theano,
                     vectorize=vectorize
                     )
             else:
-                if vslice is not None and not vslice.start == vslice.stop == vslice.step == None:
+                if vslice not in (None, slice(None)):
                     raise AttributeError("Can not slice evaluation of scalar expression: expr={}, vslice={}".format(expr, vslice))
                 func = scalar_expr_to_numeric(args, expr, subs=core.subs,
                                               theano=theano,
-- 
2.43.0


From 811216a12c0cf4590bc63a9e9777c2e769576d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:04 +0000
Subject: [PATCH 11/42] fix: freesymbols returned an empty set and output()
 ignored connectors

---
 pyphs/core/core.py             | 4 ++--
 pyphs/core/structure/output.py | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index f9de2d6..64cf412 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -532,8 +532,8 @@ class Core:
         symbs = set()
         for name in self.exprs_names:
             expr = geteval(self, name)
-            symbs.union(free_symbols(expr))
-        symbs.union(free_symbols(self.M))
+            symbs = symbs.union(free_symbols(expr))
+        symbs = symbs.union(free_symbols(self.M))
         return symbs
 
     def dxH(self):
diff --git a/pyphs/core/structure/output.py b/pyphs/core/structure/output.py
index d1e1182..e3f5dbe 100644
--- a/pyphs/core/structure/output.py
+++ b/pyphs/core/structure/output.py
@@ -43,7 +43,12 @@ y: list
         else:
             Vyw = types.matrix_types[0](sympy.zeros(core.dims.y(), 1))
 
-        out = list(Vyx + Vyw + Vyu)
+        if core.dims.cy() > 0:  # Check if system has pending connectors
+            Vyc = core.Mycy()*types.matrix_types[0](core.cu)
+        else:
+            Vyc = types.matrix_types[0](sympy.zeros(core.dims.y(), 1))
+
+        out = list(Vyx + Vyw + Vyu + Vyc)
 
     else:
         out = types.matrix_types[0](list(list()))
-- 
2.43.0


From 153b3b0e28186d05d8205383dccacb322db27301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:48 +0000
Subject: [PATCH 12/42] fix: dissipated power of systems with an empty
 structure

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index 64cf412..da9088f 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -393,8 +393,8 @@ class Core:
         output = sympify(0)
         for w, z in zip(self.w, self.z):
             output += w*z
-        output += sympy.SparseMatrix(self.a()).dot(matvecprod(self.R(),
-                                                              self.a()))
+        for a, Ra in zip(self.a(), matvecprod(self.R(), self.a())):
+            output += a*Ra
         return output
 
     def z_symbols(self):
-- 
2.43.0


From ce3b5d8b7278857e1cfa755a11bb81c2fdc427d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:55 +0000
Subject: [PATCH 13/42] fix: selections in simulation data (columns, strides,
 times), files left open

---
 pyphs/numerics/simulations/h5data/h5data.py | 56 +++++++++++----------
 pyphs/numerics/simulations/h5data/tools.py  |  5 +-
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/pyphs/numerics/simulations/h5data/h5data.py b/pyphs/numerics/simulations/h5data/h5data.py
index 8417f07..78483f8 100644
--- a/pyphs/numerics/simulations/h5data/h5data.py
+++ b/pyphs/numerics/simulations/h5data/h5data.py
@@ -167,10 +167,12 @@ class H5Data(object):
             Time index.
 
         """
+        # cope with the rounding of t=i/fs
+        i = int(numpy.round(t*self.fs, 6))
         if m == 'min':
-            return int(t*self.fs)
+            return i
         elif m == 'max':
-            return int(t*self.fs)+1
+            return i+1
         else:
             raise ValueError('unknown m={}'.format(m))
 
@@ -218,7 +220,7 @@ class H5Data(object):
             if not isinstance(t, (int, float)):
                 text = 'tstart must be a positive value: %s.' % str(t)
                 raise ValueError(text)
-        self.start = self._time2index(t, m='min')
+            self.start = self._time2index(t, m='min')
 
     # tstart: start = tstart*fs and slice for t is slice(start, stop, step)
     tstart = property(_get_tstart, _set_tstart)
@@ -355,10 +357,12 @@ or an integer nt (number of time steps).'
 
         # if seqp is not provided, a sequence of [[0]*np]*nt is assumed
         np = self.method.dims.p()
-        if seqp is None:
-            seqp = [[0]*np for _ in range(nt)]
         if isinstance(seqp, list):
             seqp = numpy.array(seqp)
+        elif hasattr(seqp, '__next__'):
+            seqp = numpy.array(list(seqp))
+        if seqp is None:
+            seqp = [[0]*np for _ in range(nt)]
         elif len(seqp.shape) == 1:
             if not np == 1:
                 text = 'Expected parameter shape is ({}, {}), got ({}, )'
@@ -851,16 +855,16 @@ or an integer nt (number of time steps).'
             if len(array.shape) < 2:
                 array = array[:, numpy.newaxis]
             arrays.append(array)
-        output = numpy.hstack(arrays)[vslice]
+        output = numpy.hstack(arrays)[:, vslice]
+
+        if close:
+            self.h5close()
 
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def _expression(self, name, tslice=None, vslice=None, postprocess=None):
 
         tslice = self._tslice(tslice)
@@ -874,7 +878,7 @@ or an integer nt (number of time steps).'
         if vslice is None:
             vslice = slice(None, None, None)
 
-        expectedNt = (tslice.stop-tslice.start)//tslice.step
+        expectedNt = len(range(tslice.start, tslice.stop, tslice.step))
 
         evalobj = self.method.to_evaluation(names=[name], vslice=vslice)
 
@@ -896,15 +900,15 @@ or an integer nt (number of time steps).'
         if not numpy.prod(output.shape):
             output = numpy.zeros((expectedNt, 0))
 
+        if close:
+            self.h5close()
+
         # Apply postprocess
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     def args(self, tslice=None, vslice=None, postprocess=None):
         """
         args
@@ -1048,14 +1052,14 @@ or an integer nt (number of time steps).'
         output = self.dx(tslice=tslice, vslice=vslice,
                          postprocess=lambda dx: dx*self.fs)
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def a(self, tslice=None, vslice=None, postprocess=None):
@@ -1390,10 +1394,10 @@ or an integer nt (number of time steps).'
         # Compute DtE = (h[x[n+1]]-h[x[n]]) / dt
         if DtE == 'deltaH':
             last_dtH_value = numpy.einsum('ti,ti->t',
-                                          self['dxH', tslice.stop-1],
-                                          self['dtx', tslice.stop-1])/self.fs
-            output = numpy.ediff1d(self.E(tslice=tslice),
-                                   to_end=last_dtH_value)*self.fs/tslice.step
+                                          self['dxH', tslice][-1:],
+                                          self['dtx', tslice][-1:])
+            output = numpy.ediff1d(self.E(tslice=tslice))*self.fs/tslice.step
+            output = numpy.append(output, last_dtH_value)
 
         # Compute DtE = dxh.T * dtx
         elif DtE == 'DxhDtx':
@@ -1401,14 +1405,14 @@ or an integer nt (number of time steps).'
                                   self['dxH', tslice],
                                   self['dtx', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
 
-        if close:
-            self.h5close()
-
     # ----------------------------------------------------------------------- #
 
     def E(self, tslice=None, vslice=None, postprocess=None):
@@ -1508,10 +1512,10 @@ or an integer nt (number of time steps).'
                               self['u', tslice],
                               self['y', tslice])
 
+        if close:
+            self.h5close()
+
         if postprocess is None:
             return output
         else:
             return postprocess(output)
-
-        if close:
-            self.h5close()
diff --git a/pyphs/numerics/simulations/h5data/tools.py b/pyphs/numerics/simulations/h5data/tools.py
index bf2db62..2a57b60 100644
--- a/pyphs/numerics/simulations/h5data/tools.py
+++ b/pyphs/numerics/simulations/h5data/tools.py
@@ -70,7 +70,8 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
     if rslice is None:
         nrows = dataset.shape[0]
     elif rslice.stop is None:
-        nrows = dataset.shape[1]
+        rslice = slice(*rslice.indices(dataset.shape[0]))
+        nrows = len(range(rslice.stop)[rslice])
     else:
         nrows = len(range(rslice.stop)[rslice])
 
@@ -95,6 +96,6 @@ def set_dataset_from_iterable(dataset, iterable, rslice=None, cslice=None, chunk
             if rslice is not None:
                 buffer_rslice = range(rslice.stop)[rslice][buffer_rslice]
             count = (nrows-offset) * ncols
-            buffer = np.fromiter(flattened_iterable, dataset.dtype)
+            buffer = np.fromiter(flattened_iterable, dataset.dtype, count)
             dataset[buffer_rslice, cslice] = buffer.reshape(-1, ncols)
             break
-- 
2.43.0


From b9984b257b24bebbe56e0079368e9e79d263b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:14 +0000
Subject: [PATCH 14/42] fix: re-initialization of simulations (state,
 configuration, parameters, shared options)

---
 .../numerical_core/_numerical_core.py         |  2 +
 pyphs/numerics/simulations/simulation.py      | 54 ++++++++++---------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/pyphs/numerics/numerical_core/_numerical_core.py b/pyphs/numerics/numerical_core/_numerical_core.py
index cf3013f..2363cf5 100644
--- a/pyphs/numerics/numerical_core/_numerical_core.py
+++ b/pyphs/numerics/numerical_core/_numerical_core.py
@@ -71,6 +71,8 @@ class Numeric(object):
         Set initilization values of self.
 
         """
+        # arguments with no initialization value restart from 0
+        self.args[:] = 0.
         for k in self.inits.keys():
             val = self.inits[k]
             get_func = getattr(self, k)
diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index 3cd6764..c4e353e 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -165,6 +165,9 @@ class Simulation(object):
                     raise AttributeError(text)
         self.config.update(config)
 
+        # load options are not shared between simulations
+        self.config['load'] = dict(self.config['load'])
+
         # Rebuild method if parameters are differents
         self.init_method()
 
@@ -256,8 +259,13 @@ class Simulation(object):
         Build the numerical method.
         """
         if self.config_method() != self.method.config:
-            self.method.__init__(self.method._core,
-                                 config=self.config_method())
+            subs = self.method.subs
+            # do not change the method in place: it can be shared
+            self.method = self.method.__class__(self.method._core,
+                                                config=self.config_method(),
+                                                label=self.method.label)
+            # keep the values of parameters
+            self.method.subs.update(subs)
 
     # -------------------------------------------------------------------------
 
@@ -296,28 +304,29 @@ class Simulation(object):
         """
 
         init_numeric = False
-        init_parameters = False
 
         if config is None:
             config = {}
+        for k in config.keys():
+            if k not in self.config.keys():
+                text = 'Configuration key "{0}" unknown.'.format(k)
+                raise AttributeError(text)
+
+        if any(self.config[k] != config[k] for k in config):
+            self.config.update(config)
+            self.init_method()
+            init_numeric = True
 
         if subs is None:
             subs = {}
-        else:
-            for k in subs.keys():
-                if k not in self.method.subs.keys():
-                    init_numeric = True
-            if not init_numeric:
-                init_parameters = True
+        if any(k not in self.method.subs.keys() for k in subs):
+            init_numeric = True
         self.method.subs.update(subs)
-        if init_parameters:
-            self.init_parameters()
-
-        c = self.config_method()
-        c.update(self.config_numeric())
-        c.update(self.config_simulation())
-
-        c.update(config)
+        if len(subs) > 0 and not init_numeric:
+            if self.config['lang'] == 'c++':
+                self.init_parameters()
+            else:
+                init_numeric = True
 
         if inits is not None:
             equal = True
@@ -330,14 +339,11 @@ class Simulation(object):
                 self.inits.update(inits)
                 init_numeric = True
 
-        if any([self.config[k] != c[k] for k in
-                list(self.config_numeric().keys()) +
-                list(self.config_method().keys())]):
-            self.config.update(c)
-            self.init_method()
-
         if init_numeric:
             self.init_numericalCore()
+        elif self.config['lang'] == 'python':
+            # restart from initial values
+            self.nums.init()
 
         self.data.init_data(nt, sequ=u, seqp=p)
 
@@ -429,7 +435,7 @@ class Simulation(object):
 
         # get values for u and p
         data = self.data
-        tslice = slice(0, None, 1)
+        tslice = slice(0, data.nt, 1)
         data.h5open()
         seq_u = data.u(tslice=tslice)
         seq_p = data.p(tslice=tslice)
-- 
2.43.0


From 127f2343614d608107ffec64acad4cb6322db950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:53 +0000
Subject: [PATCH 15/42] fix: generated C++ code (precision of initial values,
 change of sample rate, several sets of parameters, labels)

---
 pyphs/numerics/cpp/arguments.py          | 2 +-
 pyphs/numerics/cpp/functions.py          | 4 +++-
 pyphs/numerics/cpp/method2cpp.py         | 3 ++-
 pyphs/numerics/simulations/simulation.py | 2 +-
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyphs/numerics/cpp/arguments.py b/pyphs/numerics/cpp/arguments.py
index 7a4a664..8379367 100644
--- a/pyphs/numerics/cpp/arguments.py
+++ b/pyphs/numerics/cpp/arguments.py
@@ -213,7 +213,7 @@ def _str_args_init_data(method, name):
                 symbs = expr.free_symbols
                 if not any(symb in method.args() for symb in symbs):
                     c = ccode(expr, dereference=dereference(method))
-                    data = 'float({0}), '.format(c)
+                    data = '{1}({0}), '.format(c, CONFIG_CPP['float'])
             init_data += data
     if crop:
         init_data = init_data[:-2]
diff --git a/pyphs/numerics/cpp/functions.py b/pyphs/numerics/cpp/functions.py
index d7ce0d6..9b5d86e 100644
--- a/pyphs/numerics/cpp/functions.py
+++ b/pyphs/numerics/cpp/functions.py
@@ -175,7 +175,9 @@ def _str_mat_func_update(method, name, objlabel):
     update_cpp = '\nvoid {0}::{1}_update()'.format(objlabel, name) + '{'
     for m, n, expr in mat.row_list():
             symbs = expr.free_symbols
-            if any(symb in method.args() for symb in symbs):
+            # the sample rate can be changed (see set_sampleRate)
+            if any(symb in method.args() or symb == method.fs
+                   for symb in symbs):
                 c = ccode(expr, dereference=dereference(method))
                 update_cpp += '\n_{0}({1}, {2}) = {3};'.format(name, m, n, c)
     update_cpp += '\n};'
diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index bbeae21..60ed8a2 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -362,7 +362,8 @@ const {0} subs[{1}][{2}]""".format(CONFIG_CPP['float'], nsubs, npars) + """ = {
                 # Write value
                 files['cpp'] += str(float(s[k])) + ', '
             # Close brackets
-            files['cpp'] = files['cpp'][:-2] + """},
+            files['cpp'] = files['cpp'][:-2] + """},"""
+        files['cpp'] += """
 };"""
 
 
diff --git a/pyphs/numerics/simulations/simulation.py b/pyphs/numerics/simulations/simulation.py
index c4e353e..33c281d 100644
--- a/pyphs/numerics/simulations/simulation.py
+++ b/pyphs/numerics/simulations/simulation.py
@@ -214,7 +214,7 @@ class Simulation(object):
 
     @property
     def objlabel(self):
-        return self.method.label.upper()
+        return self.label.upper()
 
     def init_numericalCore(self, erase=True):
         """
-- 
2.43.0


From b7c1b73423ce718b89f6c58a00c54f7a22d07837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:48 +0000
Subject: [PATCH 16/42] fix: compare labels of edges types and controls by
 value in the graph analysis

---
 pyphs/graphs/analysis.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 7aa9fcb..8095c35 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -59,11 +59,11 @@ class GraphAnalysis:
             e = self.ic_edges[i]
             e_data = self.edges[e][2]
             # check if effort-controlled
-            if e_data['ctrl'] is 'e':
+            if e_data['ctrl'] == 'e':
                 # move edge at the top of edge list and set Lambda(edge) to 0
                 self.set_edge_ec(e)
             # check if flux-controlled
-            elif e_data['ctrl'] is 'f':
+            elif e_data['ctrl'] == 'f':
                 if self.Lambda[:, e].sum() == 1:
                     # edge 'e' imposes the potential on that node
                     # get node index
@@ -85,7 +85,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'storage':
+            if self.get_edge_data(e, 'type') == 'storage':
                 temp.append(e)
         return temp
 
@@ -96,7 +96,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'dissipative':
+            if self.get_edge_data(e, 'type') == 'dissipative':
                 temp.append(e)
         return temp
 
@@ -107,7 +107,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'port':
+            if self.get_edge_data(e, 'type') == 'port':
                 temp.append(e)
         return temp
 
@@ -118,7 +118,7 @@ class GraphAnalysis:
         """
         temp = []
         for e in range(self.ne):
-            if self.get_edge_data(e, 'type') is 'connector':
+            if self.get_edge_data(e, 'type') == 'connector':
                 temp.append(e)
         return temp
 
@@ -351,7 +351,7 @@ define it as effort-controlled (0 column in lambda).
         self.Lambda[:, 0] = 0
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'e')
         self.verbose('set_edge_ec')
@@ -377,7 +377,7 @@ controlled node from node list
         self.fc_edges = indices[-(nfc+1):]
         # test for connector
         new_e = self.get_edges_data('label').index(e_label)
-        if self.get_edge_data(new_e, 'type') is 'connector':
+        if self.get_edge_data(new_e, 'type') == 'connector':
             # link realizability of the other edge of the connector
             self.link_connector(new_e, 'f')
         self.verbose('set_edge_fc')
@@ -435,7 +435,7 @@ and the realizability of linked edge is chosen based on the connector type \
             print('link', e_label, self.get_edge_data(e, 'connector_type'),
                   ctrl, link_e_label)
         # get connector
-        if ctrl is 'e':
+        if ctrl == 'e':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 self.inverse_alpha(e, minus=True)
@@ -458,7 +458,7 @@ compatible'.format(e_label, link_e_label)
                     # move edge at the end of edge list
                     self.set_edge_fc(link_e)
 
-        if ctrl is 'f':
+        if ctrl == 'f':
             # gyrator case
             if self.get_edge_data(e, 'connector_type') == 'gyrator':
                 # assert linked edge is not effort controlled
-- 
2.43.0


From 7d95142bd2f045eae34ecb99ffdf8e142bb04d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:29 +0000
Subject: [PATCH 17/42] fix: documented default values of dictionary components

---
 pyphs/dictionary/electronics/_capacitor.py    | 2 +-
 pyphs/dictionary/electronics/_inductor.py     | 6 ++++--
 pyphs/dictionary/electronics/_resistor.py     | 6 ++++--
 pyphs/dictionary/electronics/_source.py       | 8 +++++---
 pyphs/dictionary/mechanics_dual/_source.py    | 8 +++++---
 pyphs/dictionary/mechanics_dual/_stiffness.py | 4 +++-
 pyphs/dictionary/thermics/_transfers.py       | 6 +++---
 7 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/pyphs/dictionary/electronics/_capacitor.py b/pyphs/dictionary/electronics/_capacitor.py
index 9f4dc56..b44a70e 100644
--- a/pyphs/dictionary/electronics/_capacitor.py
+++ b/pyphs/dictionary/electronics/_capacitor.py
@@ -52,7 +52,7 @@ class Capacitor(StorageLinear):
                 'desc': 'Linear capacitor.',
                 'nodesdesc': "Capacitor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['C', 'Capacitance', 'F', '1e-9']],
+                'parameters': [['C', 'Capacitance', 'F', 1e-9]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_inductor.py b/pyphs/dictionary/electronics/_inductor.py
index 1e06090..803a85a 100644
--- a/pyphs/dictionary/electronics/_inductor.py
+++ b/pyphs/dictionary/electronics/_inductor.py
@@ -17,8 +17,10 @@ class Inductor(StorageLinear):
 
     def __init__(self, label, nodes, **kwargs):
 
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         par_name = 'L'
-        par_val = kwargs[par_name]
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': True,
@@ -32,7 +34,7 @@ class Inductor(StorageLinear):
                 'desc': 'Linear inductor.',
                 'nodesdesc': "Inductor terminals with positive current N1->N2.",
                 'nodes': ('N1', 'N2'),
-                'parameters': [['L', 'Inductance', 'H', '1e-3']],
+                'parameters': [['L', 'Inductance', 'H', 1e-3]],
                 'refs': {},
                 'nnodes': 2,
                 'nedges': 1,
diff --git a/pyphs/dictionary/electronics/_resistor.py b/pyphs/dictionary/electronics/_resistor.py
index 9b5247c..036fa68 100644
--- a/pyphs/dictionary/electronics/_resistor.py
+++ b/pyphs/dictionary/electronics/_resistor.py
@@ -16,10 +16,12 @@ from ..electronics import metadata as dicmetadata
 class Resistor(DissipativeLinear):
 
     def __init__(self, label, nodes, **kwargs):
-        if kwargs['R'] is None:
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        if parameters['R'] is None:
             coeff = 0
         else:
-            coeff = kwargs['R']
+            coeff = parameters['R']
         DissipativeLinear.__init__(self, label, nodes, coeff=coeff)
 
     metadata = {'title': 'Resistor',
diff --git a/pyphs/dictionary/electronics/_source.py b/pyphs/dictionary/electronics/_source.py
index 81bf930..7ed5501 100644
--- a/pyphs/dictionary/electronics/_source.py
+++ b/pyphs/dictionary/electronics/_source.py
@@ -16,16 +16,18 @@ from ..electronics import metadata as dicmetadata
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('voltage', 'current')
         if type_ == 'voltage':
             ctrl = 'f'
         elif type_ == 'current':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
+        parameters.update({'ctrl': ctrl})
 #        kwargs.update({'units': units})
-        Port.__init__(self, label, nodes, **kwargs)
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Electrical source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_source.py b/pyphs/dictionary/mechanics_dual/_source.py
index cfe5aa2..61fd872 100644
--- a/pyphs/dictionary/mechanics_dual/_source.py
+++ b/pyphs/dictionary/mechanics_dual/_source.py
@@ -16,15 +16,17 @@ from pyphs.misc.rst import equation
 class Source(Port):
 
     def __init__(self, label, nodes, **kwargs):
-        type_ = kwargs['type']
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
+        type_ = parameters['type']
         type_ = type_.lower()
         assert type_ in ('force', 'velocity')
         if type_ == 'force':
             ctrl = 'f'
         elif type_ == 'velocity':
             ctrl = 'e'
-        kwargs.update({'ctrl': ctrl})
-        Port.__init__(self, label, nodes, **kwargs)
+        parameters.update({'ctrl': ctrl})
+        Port.__init__(self, label, nodes, **parameters)
 
     metadata = {'title': 'Mechanical Source',
                 'component': 'Source',
diff --git a/pyphs/dictionary/mechanics_dual/_stiffness.py b/pyphs/dictionary/mechanics_dual/_stiffness.py
index 75cabc2..626a395 100644
--- a/pyphs/dictionary/mechanics_dual/_stiffness.py
+++ b/pyphs/dictionary/mechanics_dual/_stiffness.py
@@ -16,8 +16,10 @@ from pyphs.misc.rst import equation
 class Stiffness(StorageLinear):
 
     def __init__(self, label, nodes, **kwargs):
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         par_name = 'K'
-        par_val = kwargs[par_name]
+        par_val = parameters[par_name]
         kwargs = {'name': par_name,
                   'value': par_val,
                   'inv_coeff': False,
diff --git a/pyphs/dictionary/thermics/_transfers.py b/pyphs/dictionary/thermics/_transfers.py
index 285e4e8..735ab07 100644
--- a/pyphs/dictionary/thermics/_transfers.py
+++ b/pyphs/dictionary/thermics/_transfers.py
@@ -17,10 +17,10 @@ from pyphs.misc.rst import equation
 class Transfer(DissipativeNonLinear):
 
     def __init__(self, label, nodes, **kwargs):
+        parameters = parametersDefault(self.metadata['parameters'])
+        parameters.update(kwargs)
         # parameters
         pars = ['R', ]
-        for par in pars:
-            assert par in kwargs.keys()
         R, = symbols(pars)
 
         # dissipation variable
@@ -57,7 +57,7 @@ class Transfer(DissipativeNonLinear):
                                          [edge1,
                                           edge2],
                                          w, [z1, z2],
-                                         **kwargs)
+                                         **parameters)
 
     metadata = {'title': 'Thermal transfer',
                 'component': 'Transfer',
-- 
2.43.0


From a53aa6245fa9d095b7ce1e863698bf0dd260694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:29 +0000
Subject: [PATCH 18/42] fix: grid current of the triode is resistive above its
 threshold

---
 pyphs/dictionary/electronics/_triode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/dictionary/electronics/_triode.py b/pyphs/dictionary/electronics/_triode.py
index d063b58..f59de49 100644
--- a/pyphs/dictionary/electronics/_triode.py
+++ b/pyphs/dictionary/electronics/_triode.py
@@ -48,7 +48,7 @@ class Triode(DissipativeNonLinear):
             """
             dissipation function for edge 'e = (g->k)'
             """
-            expr = indicator(vgk-Va)/Rgk
+            expr = (vgk-Va)*indicator(vgk-Va)/Rgk
             return expr
 
         def ipk():
-- 
2.43.0


From 086b6bddb6ec43ac8dc1e47958ecc465c103733c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 19/42] fix: adding components keeps the structure already
 defined

---
 pyphs/core/core.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index da9088f..d5381f0 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -850,6 +850,22 @@ add the connector'.format(i)
 
     # ADD COMPONENTS
 
+    def _expand_M(self, name, n):
+        """
+        If the structure matrix is already defined, insert n rows and columns
+        of zeros at the end of the blocks associated with name, in
+        ('x', 'w', 'y').
+        """
+        ntot = self.dims.tot()
+        if n > 0 and 0 < ntot == self.M.shape[0]:
+            end = getattr(self.inds, name)()[1]
+            inds = [i if i < end else i+n for i in range(ntot)]
+            M = types.matrix_types[0](sympy.zeros(ntot+n))
+            for i in range(ntot):
+                for j in range(ntot):
+                    M[inds[i], inds[j]] = self.M[i, j]
+            self.M = M
+
     def add_storages(self, x, H):
         """
         Add storage components with state :math:`\\mathbf{x}` and energy
@@ -878,6 +894,7 @@ add the connector'.format(i)
             x_types = types.scalar_types+types.vector_types
             raise TypeError('Type of x should be one of {}'.format(x_types))
         types.scalar_test(H)
+        self._expand_M('x', len(x))
         self.x += x
         self.H += H
 
@@ -913,6 +930,7 @@ add the connector'.format(i)
             raise TypeError(text)
         if not len(w) == len(z):
             raise TypeError('w and z should have same dimension.')
+        self._expand_M('w', len(w))
         self.w += w
         self.z += z
 
@@ -947,6 +965,7 @@ add the connector'.format(i)
             raise TypeError(text)
         if not len(u) == len(y):
             raise TypeError('u and y should have same dimension.')
+        self._expand_M('y', len(y))
         self.u += u
         self.y += y
 
-- 
2.43.0


From b6bc441b85b338fb8ad00c727deead834c5d175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 20/42] fix: documented sign of the connection of two ports

---
 pyphs/core/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index d5381f0..cc6f215 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -770,8 +770,8 @@ class Core:
         Description
         -----------
         The resulting connection reads:
-            * :code:`core.u[indices[0]] = alpha * core.y[indices[1]]`,
-            * :code:`core.u[indices[1]] = -alpha * core.y[indices[0]]`.
+            * :code:`core.u[indices[0]] = -alpha * core.y[indices[1]]`,
+            * :code:`core.u[indices[1]] = alpha * core.y[indices[0]]`.
 
         Notice this method only stores a description of the connection in the
         :code:`core.connectors` argument. The connection will be effective only
-- 
2.43.0


From 140cc66bc98063e9bfd90cc5e03697138ce2a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:55 +0000
Subject: [PATCH 21/42] fix: numbers as labels of nodes

---
 pyphs/graphs/graph.py    | 4 ++--
 pyphs/graphs/subgraph.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyphs/graphs/graph.py b/pyphs/graphs/graph.py
index 9c134da..e245055 100755
--- a/pyphs/graphs/graph.py
+++ b/pyphs/graphs/graph.py
@@ -431,7 +431,7 @@ class Graph(nx.MultiDiGraph):
                 if not n == datum:
                     sg.add_edge(datum, n, **{'type': 'port',
                                              'ctrl': '?',
-                                             'label': sglabel + '_out_' + n})
+                                             'label': '{}_out_{}'.format(sglabel, n)})
             # build subgraph analysis object
             sg._build_analysis()
             # add subgraph to root graph
@@ -481,7 +481,7 @@ class Graph(nx.MultiDiGraph):
                 if not n == datum:
                     pg.add_edge(datum, n, **{'type': 'port',
                                              'ctrl': '?',
-                                             'label': pglabel + '_out_' + n})
+                                             'label': '{}_out_{}'.format(pglabel, n)})
             # add subgraph to root graph
             self.add_edge(n1, n2, **{'type': 'graph',
                                      'ctrl': '?',
diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index 42167c2..26f9312 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -716,12 +716,12 @@ determined\n{}'.format(e))
             try:
                 ind = self.orientations.index(1)
                 n1, n2 = self.edgeslist[ind][:2]
-                n2temp = 'N'+str(edata['label'])+'_'+n2
+                n2temp = 'N'+str(edata['label'])+'_'+str(n2)
                 nodes = n1, n2temp
             except ValueError:
                 ind = 0
                 n1, n2 = self.edgeslist[ind][:2]
-                n2temp = 'N'+str(edata['label'])+'_'+n2
+                n2temp = 'N'+str(edata['label'])+'_'+str(n2)
                 nodes = n2temp, n1
 
             edataTemp = self[n1][n2][0]
-- 
2.43.0


From 5ae684efd36450cf5e58afc63667eab1cbf00809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:12 +0000
Subject: [PATCH 22/42] fix: components with '_out_' in their label were
 removed from the graph

---
 pyphs/graphs/graph.py    | 4 +++-
 pyphs/graphs/subgraph.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyphs/graphs/graph.py b/pyphs/graphs/graph.py
index e245055..61fd62c 100755
--- a/pyphs/graphs/graph.py
+++ b/pyphs/graphs/graph.py
@@ -514,7 +514,9 @@ class Graph(nx.MultiDiGraph):
             # get type and label
             elabel = e[-1]['label']
             etype = e[-1]['type']
-            if '_out_' in str(elabel) or etype == 'graph':
+            # labels of components are symbols, those of '_out_' are strings
+            if (isinstance(elabel, str) and '_out_' in elabel) or \
+                    etype == 'graph':
                 self.remove_edges_from_list([e, ])
 
     def sp_split(self):
diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index 26f9312..b0834ef 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -548,7 +548,8 @@ class SubGraphParallel(SubGraph):
                 orientation = +1
             elif (e[1], e[0]) == nodes:
                 orientation = -1
-            elif '_out_' in str(e[-1]['label']):
+            elif isinstance(e[-1]['label'], str) and \
+                    '_out_' in e[-1]['label']:
                 orientation = None
             else:
                 raise ValueError('Orientation of the following edge can not \
-- 
2.43.0


From c92585b76817a430c4d0d40bf14f7da5fc2a3dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:58 +0000
Subject: [PATCH 23/42] fix: sums of graphs and of netlists modified their left
 operand

---
 pyphs/graphs/graph.py    | 18 +++++++++++++++---
 pyphs/graphs/netlists.py | 14 +++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/pyphs/graphs/graph.py b/pyphs/graphs/graph.py
index 61fd62c..b6724d5 100755
--- a/pyphs/graphs/graph.py
+++ b/pyphs/graphs/graph.py
@@ -694,16 +694,28 @@ class Graph(nx.MultiDiGraph):
 
     # ----------------------------------------------------------------------- #
 
-    def __add__(graph1, graph2):
+    def __iadd__(graph1, graph2):
         """
-        Graph summation.
+        In-place graph summation.
         """
         if hasattr(graph1, 'netlist') and hasattr(graph2, 'netlist'):
-            graph1.netlist += graph2.netlist
+            graph1.netlist = graph1.netlist + graph2.netlist
         graph1.core += graph2.core
         graph1.add_edges_from(graph2.edges(data=True))
         return graph1
 
+    def __add__(graph1, graph2):
+        """
+        Graph summation.
+        """
+        graph = Graph(label=graph1.label)
+        if hasattr(graph1, 'netlist'):
+            graph.netlist = graph1.netlist
+        graph.core += graph1.core
+        graph.add_edges_from(graph1.edges(data=True))
+        graph += graph2
+        return graph
+
     @property
     def edgeslist(self):
         """
diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 0558df4..40d78b9 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -9,6 +9,7 @@ from __future__ import absolute_import, division, print_function
 
 import os
 import ast
+import copy
 from pyphs.config import datum, VERBOSE
 
 def sep():
@@ -82,10 +83,17 @@ i-th parameter is defined as 'label_pari'.
                 'arguments': self.arguments[n]}
         return item
 
+    def __iadd__(net1, net2):
+        for l in list(net2):
+            net1.add_line(l)
+        return net1
+
     def __add__(net1, net2):
-        net = net1
-        for l in net2:
-            net.add_line(l)
+        net = copy.copy(net1)
+        for name in ('dictionaries', 'components', 'labels', 'nodes',
+                     'arguments'):
+            setattr(net, name, list(getattr(net1, name)))
+        net += net2
         return net
 
     def nlines(self):
-- 
2.43.0


From 10b359e60ebec0ec324992281eaec7713678fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 24/42] fix: netlists with blank lines of spaces, or with
 string arguments (spaces, paths) were not read back

---
 pyphs/graphs/netlists.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index 40d78b9..ac10027 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -119,7 +119,7 @@ components).
                 if line.startswith('#'):
                     if VERBOSE >= 1:
                         print('pass "{}"'.format(line[:-1]))
-                elif len(line) == 1:
+                elif len(line.strip()) == 0:
                     pass
                 else:
                     if VERBOSE >= 1:
@@ -140,15 +140,14 @@ components).
                     pars = {}
                     for n in range(nb_pars):
                         par, _, parameters = parameters.partition(';')
-                        par = par.replace(' ', '')
                         key, _, value = par.partition('=')
+                        key, value = key.strip(), value.strip()
                         if value.startswith('('):
-                            value = value[1:-1].split(',')
-                            value = tuple(map(eval, value))
+                            value = eval(value)
                         else:
                             try:
                                 value = ast.literal_eval(value)
-                            except ValueError:
+                            except (ValueError, SyntaxError):
                                 pass
                         pars.update({key: value})
                     self.arguments = list(self.arguments)+[pars, ]
-- 
2.43.0


From b44fe2d9ab409db8d13609dec1498d627df3e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:04 +0000
Subject: [PATCH 25/42] fix: merge of serial components (nodes of nested
 subgraphs, reconnection)

---
 pyphs/graphs/subgraph.py | 67 +++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 38 deletions(-)

diff --git a/pyphs/graphs/subgraph.py b/pyphs/graphs/subgraph.py
index b0834ef..cc3c458 100644
--- a/pyphs/graphs/subgraph.py
+++ b/pyphs/graphs/subgraph.py
@@ -13,7 +13,6 @@ import warnings
 from .tools import serial_next
 from networkx import Graph as nwxGraph
 from networkx import chain_decomposition
-from networkx import contracted_nodes
 import copy
 
 
@@ -115,6 +114,22 @@ class SubGraph(Graph):
     def register(cls, obj, label=None):
         cls._registered[label] = obj
 
+    def replace_node(self, node, new_node):
+        """
+        Move the edges connected to 'node' to 'new_node', recursively in the
+        subgraphs.
+        """
+        for n1, n2, key, data in list(self.edges(keys=True, data=True)):
+            if node in (n1, n2):
+                self.remove_edge(n1, n2, key)
+                if data['type'] == 'graph':
+                    data['graph'].replace_node(node, new_node)
+                nodes = [new_node if n == node else n for n in (n1, n2)]
+                self.add_edge(*nodes, **data)
+        self._terminals = tuple(new_node if n == node else n
+                                for n in self._terminals)
+        self.remove_orphan_nodes()
+
     @property
     def orientations_dic(self):
         return dict([(e[-1]['label'], o)
@@ -651,15 +666,12 @@ determined\n{}'.format(e))
         # loop over edges
         for e in edges:
 
-            # Allow setitem
-            e = list(e)
-
             # Update nodes from new_nodes dictionary
-            for i, n in enumerate(e[:2]):
-                e[i] = new_nodes[n]
+            n1, n2 = [new_nodes[n] for n in e[:2]]
+            preserved = [set(new_nodes[n] for n in nodes)
+                         for nodes in preserve_nodes]
 
             # Get edge key
-            n1, n2 = e[:2]
             for key in self[n1][n2].keys():
                 if self[n1][n2][key]['label'] == e[-1]['label']:
                     break
@@ -668,42 +680,21 @@ determined\n{}'.format(e))
             self.remove_edge(n1, n2, key)
 
             # reconnect the subgraph
-            if not ((n1, n2) in preserve_nodes or
-                    (n2, n1) in preserve_nodes):
-
-                # new undirected graph
-                undirected = nwxGraph(self)
+            if set((n1, n2)) not in preserved:
 
-                if n1 in self.terminals:
-                    del_node, connect_node1 = n2, n1
-                    connect_node2 = list(undirected.neighbors(del_node))[0]
+                # terminals are kept
+                if n2 in self.terminals:
+                    connect_node, del_node = n2, n1
                 else:
-                    del_node, connect_node1 = n1, n2
-                    connect_node2 = list(undirected.neighbors(del_node))[0]
-
-                # Add edge with new node
-                contracted_edges = contracted_nodes(self,
-                                                    connect_node1,
-                                                    del_node,
-                                                    self_loops=False).edges
-                self.add_edges_from(contracted_edges)
-                # Get edge key
-                edge = self.nodes2edge(del_node, connect_node2)
-                n1, n2 = edge[:2]
-                for key in self[n1][n2].keys():
-                    if self[n1][n2][key]['label'] == e[-1]['label']:
-                        break
-                data = edge[2]
-                # Actually remove edge
-                self.remove_edge(n1, n2, key)
+                    connect_node, del_node = n1, n2
 
-                edge = self.nodes2edge(connect_node1, connect_node2)
-                n1, n2 = edge[:2]
-                for k in data:
-                    self[n1][n2][0][k] = data[k]
+                # Move the edges of the deleted node
+                self.replace_node(del_node, connect_node)
 
                 # store new node label
-                new_nodes[del_node] = connect_node1
+                for n in new_nodes:
+                    if new_nodes[n] == del_node:
+                        new_nodes[n] = connect_node
 
             self.remove_orphan_nodes()
 
-- 
2.43.0


From 850c6d64e7b55026d8f6377d56ca651418b1b0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:40 +0000
Subject: [PATCH 26/42] fix: parallel storages of a network with two nodes were
 not merged

---
 pyphs/graphs/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyphs/graphs/tools.py b/pyphs/graphs/tools.py
index 32b6099..1a9ad79 100644
--- a/pyphs/graphs/tools.py
+++ b/pyphs/graphs/tools.py
@@ -134,7 +134,7 @@ def parallel_edges(graph):
 
     all_edges = list()
     for node in g.nodes():
-        if g.degree(node) > 1 and not node == datum:
+        if not node == datum:
             nodes = g.neighbors(node)
             for n in nodes:
                 edges = getedges(graph, (node, n))
-- 
2.43.0


From 04a944c02a5482c5aea3556954f11576ae022a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:27 +0000
Subject: [PATCH 27/42] fix: spaces in the labels of nodes of a netlist were
 removed

---
 pyphs/graphs/netlists.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyphs/graphs/netlists.py b/pyphs/graphs/netlists.py
index ac10027..116e1b5 100644
--- a/pyphs/graphs/netlists.py
+++ b/pyphs/graphs/netlists.py
@@ -127,15 +127,12 @@ components).
                     # get 'infos' (dic, comp and nodes) and parameters
                     infos, _, parameters = line.partition(':')
                     # get ‘dic.comp' and 'label nodes'
-                    si = infos.split()
-                    diccomp = si.pop(0)
-                    label = si.pop(0)
-                    nodes = ''.join(si)
+                    diccomp, label, nodes = infos.split(None, 2)
                     dic, _, comp = diccomp.partition('.')
                     self.dictionaries = list(self.dictionaries)+[dic, ]
                     self.components = list(self.components)+[comp, ]
                     self.labels = list(self.labels)+[label, ]
-                    self.nodes = list(self.nodes)+[ast.literal_eval(nodes), ]
+                    self.nodes = list(self.nodes)+[ast.literal_eval(nodes.strip()), ]
                     nb_pars = parameters.count('=')
                     pars = {}
                     for n in range(nb_pars):
-- 
2.43.0


From d2fc8bc5023e33b2105959b5c511dc0d17ad4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 28/42] fix: sum of cores when the structure of only one of
 them is defined

---
 pyphs/core/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index cc6f215..d8087d3 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -323,10 +323,19 @@ class Core:
             attr2 = getattr(core2, name)
             core.setsymb(name, attr1 + attr2)
 
+        def block(c, vari, varj):
+            # zeros if the structure of c is not defined while that of the
+            # other core is
+            if len(core1.M) + len(core2.M) > 0 and \
+                    c.M.shape[0] != c.dims.tot():
+                return sympy.zeros(getattr(c.dims, vari)(),
+                                   getattr(c.dims, varj)())
+            return getattr(c, 'M'+vari+varj)()
+
         for vari in core.dims.names:
             for varj in core.dims.names:
-                Mij1 = getattr(core1, 'M'+vari+varj)()
-                Mij2 = getattr(core2, 'M'+vari+varj)()
+                Mij1 = block(core1, vari, varj)
+                Mij2 = block(core2, vari, varj)
                 Mij = types.matrix_types[0](sympy.diag(Mij1, Mij2))
                 if all(dim > 0 for dim in Mij.shape):
                     set_func = getattr(core, 'set_M'+vari+varj)
-- 
2.43.0


From e644a2fc04ded7059279f46e702e14a887e1c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 29/42] fix: merging components with force=False used an
 obsolete analysis

---
 pyphs/graphs/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyphs/graphs/graph.py b/pyphs/graphs/graph.py
index b6724d5..350ca2a 100755
--- a/pyphs/graphs/graph.py
+++ b/pyphs/graphs/graph.py
@@ -255,6 +255,8 @@ class Graph(nx.MultiDiGraph):
             self.sp_merge_all()
             # assemble serial/parallel edges into current graph
             self.sp_assemble()
+            # the graph has changed: a previous analysis is obsolete
+            force = True
 
         self.perform_analysis(verbose=verbose, plot=plot, solve_arc=solve_arc,
                               force=force)
-- 
2.43.0


From 7ffa5c3e75f6f5ae0d59cacc52e844c2f5823c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:13 +0000
Subject: [PATCH 30/42] fix: signals with several cycles had only the last one

---
 pyphs/misc/signals/synthesis/synthesis_array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyphs/misc/signals/synthesis/synthesis_array.py b/pyphs/misc/signals/synthesis/synthesis_array.py
index df4529e..901c592 100644
--- a/pyphs/misc/signals/synthesis/synthesis_array.py
+++ b/pyphs/misc/signals/synthesis/synthesis_array.py
@@ -302,6 +302,7 @@ to PWM.
     deb = background_noise(parameters['ndeb'])
 
     # cycles
+    cycles = []
     for c in range(parameters['ncycles']):
         if parameters['which'] == 'zero':
             Sig = constant(parameters['non'], 0.)
@@ -349,10 +350,12 @@ to PWM.
             cycle_deb += parameters['offset']
             cycle_end += parameters['offset']
 
+        cycles += [cycle_deb, cycle_end]
+
     # end
     end = background_noise(parameters['nend'])
 
-    return hstack((deb, cycle_deb, cycle_end, end))
+    return hstack([deb] + cycles + [end])
 
 
 def build_parameters(**kwargs):
-- 
2.43.0


From 8f4f8fc320f279a43b66492bd2a23d853a22a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:34 +0000
Subject: [PATCH 31/42] fix: law of transformers does not depend on the
 causality, as the components and examples that use them need

---
 pyphs/dictionary/connectors/_transformer.py | 2 +-
 pyphs/graphs/analysis.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyphs/dictionary/connectors/_transformer.py b/pyphs/dictionary/connectors/_transformer.py
index 5e2ca50..903e62e 100644
--- a/pyphs/dictionary/connectors/_transformer.py
+++ b/pyphs/dictionary/connectors/_transformer.py
@@ -25,7 +25,7 @@ class Transformer(Connector):
                 'dico': 'connectors',
                 'component': 'Transformer',
                 'desc': r'Quadripole connector of transformer type with:' +
-                        equation(r'\left\{\begin{array}{rcl} f_A &=& -\alpha\, f_B, \\ e_B &=& + \alpha\,e_A. \end{array}\right.'),
+                        equation(r'\left\{\begin{array}{rcl} e_A &=& -\alpha\, e_B, \\ f_B &=& + \alpha\,f_A. \end{array}\right.'),
                 'nodesdesc': "Connected edges are A1->A2 and B1->B2.",
                 'nodes': ('A1', 'A2', 'B1', 'B2'),
                 'parameters': [['alpha', 'Ratio', 'unknown', 1.]],
diff --git a/pyphs/graphs/analysis.py b/pyphs/graphs/analysis.py
index 8095c35..424e6c8 100644
--- a/pyphs/graphs/analysis.py
+++ b/pyphs/graphs/analysis.py
@@ -449,6 +449,7 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_ec(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
+                self.inverse_alpha(e, minus=True)
                 # assert linked edge is not effort controlled
                 assert link_e not in self.ec_edges,\
                     'connector edges {0!s} and {1!s} are not \
@@ -471,7 +472,6 @@ compatible'.format(e_label, link_e_label)
                     self.set_edge_fc(link_e)
             # transformer case
             elif self.get_edge_data(e, 'connector_type') == 'transformer':
-                self.inverse_alpha(e, minus=True)
                 # assert linked edge is not flux controlled
                 assert link_e not in self.fc_edges,\
                     'connector edges {0!s} and {1!s} are not \
-- 
2.43.0


From 171dc1d1ce6403a0a1d955a9d451b09e09b0645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:17 +0000
Subject: [PATCH 32/42] fix: documented arguments of piecewise linear
 components

---
 pyphs/dictionary/pwl/_dissipative.py | 6 ++++--
 pyphs/dictionary/pwl/_storage.py     | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyphs/dictionary/pwl/_dissipative.py b/pyphs/dictionary/pwl/_dissipative.py
index 9336474..3f763f9 100644
--- a/pyphs/dictionary/pwl/_dissipative.py
+++ b/pyphs/dictionary/pwl/_dissipative.py
@@ -31,7 +31,9 @@ class Dissipative(Graph):
         Graph.__init__(self, label=label)
 
         path = kwargs.pop('file')
-        data = np.vstack(map(np.array, data_generator(path)))
+        # selected values
+        inds = slice(*[kwargs.pop(n, None) for n in ('start', 'stop', 'step')])
+        data = np.vstack([np.array(l)[inds] for l in data_generator(path)])
         w_vals = data[0, :]
         z_vals = data[1, :]
 
@@ -47,7 +49,7 @@ class Dissipative(Graph):
         assert all(np.diff(z_vals) > 0), "z'(0) must be positive\
 (component {})".format(label)
 
-        ctrl = kwargs.pop('ctrl')
+        ctrl = kwargs.pop('ctrl', 'e')
 
         # state  variable
         w = symbols("w"+label)
diff --git a/pyphs/dictionary/pwl/_storage.py b/pyphs/dictionary/pwl/_storage.py
index 35ce757..72b1825 100644
--- a/pyphs/dictionary/pwl/_storage.py
+++ b/pyphs/dictionary/pwl/_storage.py
@@ -27,13 +27,16 @@ class Storage(Graph):
 
         assert 'file' in kwargs, "pwl.storage component need 'file' argument"
         path = kwargs.pop('file')
-        vals = np.vstack(map(np.array, data_generator(path)))
+        # selected values
+        inds = slice(*[kwargs.pop(n, None) for n in ('start', 'stop', 'step')])
+        vals = np.vstack([np.array(l)[inds] for l in data_generator(path)])
         x_vals = vals[0, :]
         h_vals = vals[1, :]
 
         assert all(h_vals[np.nonzero(x_vals >= 0)] >= 0), 'All values h(x) for\
  x>=0 must be non-negative (component {})'.format(label)
 
+        kwargs.setdefault('integ', kwargs.pop('integrate', False))
         if kwargs['integ']:
             assert all(h_vals[np.nonzero(x_vals < 0)] < 0), 'All values dxh(x)\
  for x<0 must be negative (component {})'.format(label)
@@ -44,7 +47,7 @@ class Storage(Graph):
         assert h_vals[np.nonzero(x_vals == 0)] == 0, 'dxh(0) and h(0) must be \
 zero (component {})'.format(label)
 
-        ctrl = kwargs.pop('ctrl')
+        ctrl = kwargs.pop('ctrl', 'e')
 
         # state  variable
         x = symbols("x"+label)
-- 
2.43.0


From 910bafcd794402721f3aab1268d6b7e23be1a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:18 +0000
Subject: [PATCH 33/42] fix: derivatives of nonsmooth functions contained Dirac
 distributions, so that piecewise linear storages could not be simulated

---
 pyphs/core/maths/__init__.py                         |  4 ++--
 pyphs/core/maths/_calculus.py                        | 12 ++++++++++++
 .../numerics/numerical_method/_discrete_calculus.py  |  3 ++-
 pyphs/numerics/numerical_method/_method.py           |  8 ++++----
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pyphs/core/maths/__init__.py b/pyphs/core/maths/__init__.py
index 5400f9f..47d7914 100644
--- a/pyphs/core/maths/__init__.py
+++ b/pyphs/core/maths/__init__.py
@@ -1,9 +1,9 @@
 #
 
-from ._calculus import gradient, hessian, jacobian
+from ._calculus import gradient, hessian, jacobian, without_dirac
 from ._matrices import inverse, matvecprod
 from ._vectors import sumvecs
 
-__all__ = ['gradient', 'hessian', 'jacobian',
+__all__ = ['gradient', 'hessian', 'jacobian', 'without_dirac',
            'inverse', 'matvecprod',
            'sumvecs']
diff --git a/pyphs/core/maths/_calculus.py b/pyphs/core/maths/_calculus.py
index ea3408f..c36ad6c 100644
--- a/pyphs/core/maths/_calculus.py
+++ b/pyphs/core/maths/_calculus.py
@@ -10,6 +10,18 @@ from ..tools import simplify as simplify_func
 import sympy
 
 
+def without_dirac(expr):
+    """
+    Return expression expr without the Dirac distributions that come from the
+    derivatives of discontinuous functions, since they can not be evaluated
+    numerically (derivative almost everywhere).
+    """
+    if expr.has(sympy.DiracDelta):
+        expr = expr.replace(sympy.DiracDelta,
+                            lambda *args: sympy.Integer(0))
+    return expr
+
+
 def gradient(scalar_func, vars_, simplify=False):
     """
     Symbolic computation here. Return the gradient of scalar function H
diff --git a/pyphs/numerics/numerical_method/_discrete_calculus.py b/pyphs/numerics/numerical_method/_discrete_calculus.py
index eb60936..6ac8841 100644
--- a/pyphs/numerics/numerical_method/_discrete_calculus.py
+++ b/pyphs/numerics/numerical_method/_discrete_calculus.py
@@ -8,7 +8,7 @@ from __future__ import absolute_import, division, print_function
 import sympy
 from pyphs.config import EPS_DG
 from pyphs.core.tools import types
-from pyphs.core.maths import gradient, hessian
+from pyphs.core.maths import gradient, hessian, without_dirac
 
 
 def discrete_gradient_monovar(H, x, dx, numtol=EPS_DG):
@@ -52,6 +52,7 @@ def discrete_gradient_monovar(H, x, dx, numtol=EPS_DG):
         dxh = (Hpost - H)/dx[i]
         dxh_continuous = H.diff(x[i]).doit()
         dxh0 = dxh_continuous  + 0.5 * dxh_continuous.diff(x[i]).doit()*dx[i]
+        dxh0 = without_dirac(dxh0)
         dxhi = sympy.Piecewise((dxh, dx[i] < -numtol),
                                (dxh0, dx[i] < numtol),
                                (dxh, True))
diff --git a/pyphs/numerics/numerical_method/_method.py b/pyphs/numerics/numerical_method/_method.py
index fb3ae65..d99be95 100644
--- a/pyphs/numerics/numerical_method/_method.py
+++ b/pyphs/numerics/numerical_method/_method.py
@@ -9,7 +9,7 @@ Created on Wed Dec 28 11:13:24 2016
 from __future__ import absolute_import, division, print_function
 
 import sympy as sp
-from pyphs.core.maths import matvecprod, jacobian, sumvecs
+from pyphs.core.maths import matvecprod, jacobian, sumvecs, without_dirac
 from pyphs.core.tools import free_symbols, types
 from pyphs.config import CONFIG_METHOD, VERBOSE, FS_SYMBS
 from pyphs.misc.tools import geteval, find, get_strings, remove_duplicates
@@ -491,7 +491,7 @@ def set_getters_Jac_tempF(method):
     def func_generator_Jac_tempF(n1, n2):
         def func():
             F, v = geteval(method, 'tempF'+n1), geteval(method, 'v'+n2)
-            return jacobian(F, v)
+            return jacobian(F, v).applyfunc(without_dirac)
         return func
     method.setexpr('jactempF', func_generator_Jac_tempF('', '')())
     for a in ('l', 'nl'):
@@ -506,7 +506,7 @@ def set_getters_G(method):
             def func():
                 F = geteval(method, 'tempF')
                 vl = geteval(method, 'vl')
-                JacFl = jacobian(F, vl)
+                JacFl = jacobian(F, vl).applyfunc(without_dirac)
                 G = sumvecs(F,
                             [-e for e in matvecprod(JacFl, vl)])
                 return list(G)
@@ -530,7 +530,7 @@ def set_getters_Jac_G(method):
     def func_generator_jacG(a, b):
         def func():
             G, v = geteval(method, 'G'+a), geteval(method, 'v'+b)
-            return jacobian(G, v)
+            return jacobian(G, v).applyfunc(without_dirac)
         return func
 
     for a in ('l', 'nl'):
-- 
2.43.0


From 80caa9233bd0ff773715e0a9222893203e3d4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 34/42] fix: sets of parameter values of the C++ code were
 attributed to other parameters when given in another order or incomplete

---
 pyphs/numerics/cpp/method2cpp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyphs/numerics/cpp/method2cpp.py b/pyphs/numerics/cpp/method2cpp.py
index 60ed8a2..2d823c4 100644
--- a/pyphs/numerics/cpp/method2cpp.py
+++ b/pyphs/numerics/cpp/method2cpp.py
@@ -231,8 +231,14 @@ def method2cpp(method, objlabel=None, path=None,
         _file.write(string)
         _file.close()
 
+    # the class reads the parameters in the order of method.subs
     if subs is None:
         subs = method.subs
+    if isinstance(subs, dict):
+        subs = [subs, ]
+    if isinstance(subs, (tuple, list)):
+        subs = [dict((k, s.get(k, method.subs[k])) for k in method.subs)
+                for s in subs]
 
     parameters_files = parameters(subs, objlabel)
     for e in exts:
-- 
2.43.0


From 548c90e693a752c75b36a031f88c7f900335af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 35/42] fix: constant parameters were written with the Python
 syntax in Faust code

---
 pyphs/misc/faust/_faust.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/misc/faust/_faust.py b/pyphs/misc/faust/_faust.py
index 4959127..633c904 100644
--- a/pyphs/misc/faust/_faust.py
+++ b/pyphs/misc/faust/_faust.py
@@ -198,7 +198,8 @@ def write_faust_fx(method, path=None, inputs=None, outputs=None, inits=None,
     # constant values for parameters
     constPars = ''
     for k in method.subs.keys():
-        constPars += '\n{0} = {1};'.format(str(k), method.subs[k])
+        constPars += '\n{0} = {1};'.format(str(k),
+                                          ccode(sp.sympify(method.subs[k])))
     if constPars == '':
         constPars = '// None'
 
-- 
2.43.0


From 30659570880e992e1d31af550f6d8873d96065b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 36/42] fix: linear and nonlinear variables were mixed up in
 Faust code of systems with linear dissipations or nonlinear storages

---
 pyphs/misc/faust/faustfx.template | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyphs/misc/faust/faustfx.template b/pyphs/misc/faust/faustfx.template
index 37a09c5..b4a4a4b 100644
--- a/pyphs/misc/faust/faustfx.template
+++ b/pyphs/misc/faust/faustfx.template
@@ -67,8 +67,8 @@ cT = xT, oT, uT;
 // ----------------------------------------------------------
 // Shortcuts
 
-v2vl = v :(vl, vnlT);
-v2vnl = v :(vlT, vnl);
+v2vl = xl, xnlT, wl, wnlT;
+v2vnl = xlT, xnl, wlT, wnl;
 vlvnl2v = (vl, vnl) <: ((xl, wlT, vnlT), (vlT, xnl, wnlT), (xlT, wl, vnlT), (vlT, xnlT, wnl));
 
 // ----------------------------------------------------------
@@ -96,13 +96,13 @@ ${y}
 // Linear iteration:
 // Takes args, update linears vl, returns args
 
-iterationL = args <: (udvl, (vlT, vnl, c)) : (vlvnl2v, c) : args;
+iterationL = args <: (udvl, (v2vnl, c)) : (vlvnl2v, c) : args;
 
 // ----------------------------------------------------------
 // Nonlinear iteration:
 // Takes args, update nonlinears vnl, returns args
 
-iterationNL = args <: ((vl, vnlT, cT), udvnl, (vT, c)) : (vlvnl2v, c) : args;
+iterationNL = args <: ((v2vl, cT), udvnl, (vT, c)) : (vlvnl2v, c) : args;
 
 // ----------------------------------------------------------
 // Main Iteration:
-- 
2.43.0


From 16471a317f2164a0b3c4426206d1ce203ce1a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 37/42] fix: observers were never updated in Faust code, and
 systems without storages produced an invalid program

---
 pyphs/misc/faust/_faust.py        | 25 ++++++++++++++++---------
 pyphs/misc/faust/faustfx.template | 15 +++++++++++++--
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/pyphs/misc/faust/_faust.py b/pyphs/misc/faust/_faust.py
index 633c904..6b5abc8 100644
--- a/pyphs/misc/faust/_faust.py
+++ b/pyphs/misc/faust/_faust.py
@@ -87,7 +87,6 @@ def multirecursive(method, process, nin, nout, inits):
     # get dims
     nx = method.dims.x()
     nw = method.dims.w()
-    nu = method.dims.y()
 
     # for each input to recursion process
     for i in range(nin):
@@ -104,14 +103,10 @@ def multirecursive(method, process, nin, nout, inits):
             # State
             initname = 'x'
             initstart = nx + nw
-        elif i < nx + nw + nx + nu:
-            # Input
-            initname = 'u'
-            initstart = nx + nw + nx
         else:
             # Observer
             initname = 'o'
-            initstart += nx + nw + nx + nu
+            initstart = nx + nw + nx
 
         # parameters for recursion
         p1 = listToPassAllExcept([None, ]*(nin-i), 0)+',' if nin-i > 0 else ''
@@ -273,8 +268,18 @@ def write_faust_fx(method, path=None, inputs=None, outputs=None, inits=None,
                          method)
     udNL = ('iterationNL : '*nIt)[:-1] if len(method.vnl()) > 0 else ''
 
-    # update x and y
-    udXY = '<: (udx, y)' if len(method.x) > 0 else '<: y'
+    # update o
+    udo = faust_vector('udo', method.ud_o, argsnames, method.subs, method)
+    udO = 'iterationO :' if len(method.o()) > 0 else ''
+
+    # update x
+    if len(method.x) > 0:
+        udx = ('args <: (x, w, cT), ((x, wT, x, oT, uT) :> x), ' +
+               '(xT, wT, xT, o, uT)')
+    else:
+        udx = 'args <: (w, cT), (wT, o, uT)'
+
+    # update y
     y = faust_vector('y', [method.output()[i] for i in iout],
                      argsnames, method.subs, method)
 
@@ -312,7 +317,9 @@ def write_faust_fx(method, path=None, inputs=None, outputs=None, inits=None,
             'y': y,
             'udNL': udNL,
             'udL': udL,
-            'udXY': udXY,
+            'udx': udx,
+            'udo': udo,
+            'udO': udO,
             'recursion': recursion,
             'in': infoIn[:-2] + '.',
             'out': infoOut[:-2] + '.',
diff --git a/pyphs/misc/faust/faustfx.template b/pyphs/misc/faust/faustfx.template
index b4a4a4b..cc5a412 100644
--- a/pyphs/misc/faust/faustfx.template
+++ b/pyphs/misc/faust/faustfx.template
@@ -75,7 +75,12 @@ vlvnl2v = (vl, vnl) <: ((xl, wlT, vnlT), (vlT, xnl, wnlT), (xlT, wl, vnlT), (vlT
 // State update
 // Takes args, updates x <- x + dx, and return args
 
-udx = args <: (x, w, cT), ((x, wT, x, oT, uT) :> x), (xT, wT, xT, o, uT);
+udx = ${udx};
+
+// ----------------------------------------------------------
+// Observers update udo(dx, w, x, o, u)
+// Takes args, returns o
+${udo}
 
 // ----------------------------------------------------------
 // Linear update udvl(dx, w, x, u, p, o)
@@ -104,10 +109,16 @@ iterationL = args <: (udvl, (v2vnl, c)) : (vlvnl2v, c) : args;
 
 iterationNL = args <: ((v2vl, cT), udvnl, (vT, c)) : (vlvnl2v, c) : args;
 
+// ----------------------------------------------------------
+// Observers iteration:
+// Takes args, update observers o, returns args
+
+iterationO = args <: ((x, w, x, oT, uT), udo, (xT, wT, xT, oT, u)) : args;
+
 // ----------------------------------------------------------
 // Main Iteration:
 
-iteration = ${udNL} ${udL} ${udXY};
+iteration = ${udO} ${udNL} ${udL} <: (udx, y);
 
 // ----------------------------------------------------------
 // Recursion to keep memory of args
-- 
2.43.0


From 671eb566063cf947711f5c6314ece8127f013b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:51 +0000
Subject: [PATCH 38/42] fix: LaTeX export simplifies the matrices and not the
 lists they are made of

---
 pyphs/misc/latex/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyphs/misc/latex/tools.py b/pyphs/misc/latex/tools.py
index f8c73cf..4ec3fd0 100644
--- a/pyphs/misc/latex/tools.py
+++ b/pyphs/misc/latex/tools.py
@@ -77,9 +77,10 @@ def obj2tex(obj, label, description, symbol_names, toMatrix=True):
     ------
     string
     """
-    obj = simplify(obj)
     if toMatrix:
         obj = types.matrix_types[0](obj)
+    obj = simplify(obj)
+    if toMatrix:
         if obj.shape[0] * obj.shape[1] == 0:
             texobj = r'\mathrm{Empty}'
         elif sum(Abs(obj)) == 0:
-- 
2.43.0


From 062d3f320148d1f3286e911b54bf7405f05cf1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:51 +0000
Subject: [PATCH 39/42] fix: LaTeX export writes the laws of the connectors,
 with their signs

---
 pyphs/misc/latex/latexcore.py | 6 ++++--
 pyphs/misc/latex/tools.py     | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyphs/misc/latex/latexcore.py b/pyphs/misc/latex/latexcore.py
index 596f360..7a20b5b 100644
--- a/pyphs/misc/latex/latexcore.py
+++ b/pyphs/misc/latex/latexcore.py
@@ -130,9 +130,11 @@ class LatexCore(object):
         for i, c in enumerate(self.core.connectors):
             alpha = c['alpha']
             u1, y1 = c['u'][0], c['y'][0]
-            s = obj2tex(alpha*y1, str(u1), '', self.sn)
             u2, y2 = c['u'][1], c['y'][1]
-            s += obj2tex(-alpha*y2, str(u2), '', self.sn)
+            s = obj2tex(-alpha*y2, sympy2latex(u1, self.sn), '', self.sn,
+                        toMatrix=False)
+            s += obj2tex(alpha*y1, sympy2latex(u2, self.sn), ',', self.sn,
+                         toMatrix=False)
             l.append(s)
         self.connectors_elements = l
 
diff --git a/pyphs/misc/latex/tools.py b/pyphs/misc/latex/tools.py
index 4ec3fd0..65d9252 100644
--- a/pyphs/misc/latex/tools.py
+++ b/pyphs/misc/latex/tools.py
@@ -14,7 +14,7 @@ from sympy import simplify, Abs
 
 def symbol_names(core):
     sn = {}
-    for var in [r'x', 'dx', r'w', r'u', r'y', r'cy', r'p', r'o', r'g', r'z_symbols']:
+    for var in [r'x', 'dx', r'w', r'u', r'y', r'cu', r'cy', r'p', r'o', r'g', r'z_symbols']:
         for symb in geteval(core, var):
             string = str(symb)
             lab = string[1:]
-- 
2.43.0


From d308229705047fe7102d191e04ed72445c12b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 40/42] fix: figures with one axis failed in multiplot

---
 pyphs/misc/plots/multiplots.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyphs/misc/plots/multiplots.py b/pyphs/misc/plots/multiplots.py
index cfb58fa..1b8dc97 100644
--- a/pyphs/misc/plots/multiplots.py
+++ b/pyphs/misc/plots/multiplots.py
@@ -197,27 +197,27 @@ def multiplot(x, y, show=True, **kwargs):
         # --------------------------------------------------------
         # Print legend
         if print_legend:
-            axs[n].legend(loc=opts['loc'])
+            axe.legend(loc=opts['loc'])
 
         # --------------------------------------------------------
         # Set y label
         if opts['ylabels'][n] is not None:
-            axs[n].set_ylabel(opts['ylabels'][n])
+            axe.set_ylabel(opts['ylabels'][n])
             if opts['xpos_ylabel'] is not None:
-                axs[n].yaxis.set_label_coords(opts['xpos_ylabel'], 0.5)
+                axe.yaxis.set_label_coords(opts['xpos_ylabel'], 0.5)
 
         # --------------------------------------------------------
         # Set x label if last plot
         if n == nplots-1:
-            axs[n].set_xlabel(opts['xlabel'])
+            axe.set_xlabel(opts['xlabel'])
         else:
             from matplotlib.pyplot import setp
-            setp(axs[n].get_xticklabels(), visible=False)
+            setp(axe.get_xticklabels(), visible=False)
 
         # --------------------------------------------------------
         # Show grid
-        axs[n].grid(opts['grid'])
-        axs[n].minorticks_on()
+        axe.grid(opts['grid'])
+        axe.minorticks_on()
 
     # ------------------------------------------------------------
     # Set title
-- 
2.43.0


From b54b8de6a896fc8f0733d1282ba3c247b170bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:07 +0000
Subject: [PATCH 41/42] fix: several axes with a shared logarithmic scale
 failed in multiplot

---
 pyphs/misc/plots/multiplots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyphs/misc/plots/multiplots.py b/pyphs/misc/plots/multiplots.py
index 1b8dc97..7876086 100644
--- a/pyphs/misc/plots/multiplots.py
+++ b/pyphs/misc/plots/multiplots.py
@@ -121,6 +121,10 @@ def multiplot(x, y, show=True, **kwargs):
         i += 1
     fig, axs = subplots(nplots, 1, sharex=True, num=i)
 
+    # before any log scale, which is shared
+    for axe in numpy.atleast_1d(axs):
+        axe.ticklabel_format(style='sci', scilimits=(-2, 2))
+
     # ------------------------------------------------------------
     # Iterate over y data
     for n, yn in enumerate(y):
@@ -132,8 +136,6 @@ def multiplot(x, y, show=True, **kwargs):
         else:
             axe = axs
 
-        axe.ticklabel_format(style='sci', scilimits=(-2, 2))
-
         # --------------------------------------------------------
         # flag
         print_legend = False
-- 
2.43.0


From 27999e5b622039c935caa6367cec839b0f2c5e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:07 +0000
Subject: [PATCH 42/42] fix: LaTeX export of a network to a file of the current
 folder failed

---
 pyphs/core/core.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pyphs/core/core.py b/pyphs/core/core.py
index d8087d3..9a82c56 100644
--- a/pyphs/core/core.py
+++ b/pyphs/core/core.py
@@ -1040,11 +1040,7 @@ add the connector'.format(i)
             folder = os.getcwd()
             path = os.path.join(folder, '{}.tex'.format(self.label))
         else:
-            if os.sep in path:
-                imax = path.rfind(os.sep)
-            else:
-                imax = -1
-            folder = path[:imax]
+            folder = os.path.dirname(path)
 
         if title is None:
             title = r'{0}'.format(self.label)
-- 
2.43.0

