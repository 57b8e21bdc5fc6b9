From a3883c065115258f239de096b0e9a99d9a348d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 01/49] fix: SINCE and TRIGGER forget that the left operand
 broke the chain

Once the left operand went false (true for TRIGGER) after the recorded edge, a
later true left operand was again read as reaching back to that edge, so
'a S[0,3] c' reported true where the chain was broken. Invalidate the edge when
the chain breaks, and step past operand entries the verdict already used so a
break recorded behind them is read.
---
 monitors/c/src/engines/mltl.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 5b19179..12bea18 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -330,6 +330,8 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
             }
           }
           if (op0_rdy && !(get_verdict_truth(op0))){
+            // The left operand breaks the chain that started at the recorded edge
+            temp->edge = set_verdict_false(temp->edge);
             ctrl->next_time = get_verdict_time(op1) + 1;
             if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
               result = set_verdict_false(get_verdict_time(op1) + temp->lower_bound);
@@ -350,6 +352,17 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         get_verdict_time(op0) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound) && get_verdict_truth(temp->edge) && \
         ((get_verdict_time(temp->edge)) > sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) || (get_verdict_time(temp->previous)) < temp->upper_bound)) {
         result = set_verdict_true(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));
+        if (op1_rdy && !(get_verdict_truth(op1))) {
+          // Both operands are settled through `tau`; step past it or else a later
+          // break in the left operand would never be read from its queue
+          r2u2_time tau = min(get_verdict_time(op1), get_verdict_time(result) - temp->lower_bound);
+          if (tau >= ctrl->next_time) {
+            ctrl->next_time = tau + 1;
+            if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+              monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+            }
+          }
+        }
           if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
             ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
               R2U2_DEBUG_PRINT("\tLeft Op True Since Right Op True\n");
@@ -420,6 +433,8 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
             }
           }
           if (op0_rdy && get_verdict_truth(op0)){
+            // The left operand releases the chain that started at the recorded edge
+            temp->edge = set_verdict_false(temp->edge);
             ctrl->next_time = get_verdict_time(op1) + 1;
             if (get_verdict_time(op1) >= sub_min_zero((get_verdict_time(temp->previous)), temp->lower_bound)){
               result = set_verdict_true(get_verdict_time(op1) + temp->lower_bound);
@@ -441,6 +456,17 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         ((get_verdict_time(temp->edge)) > sub_min_zero((get_verdict_time(temp->previous)), temp->upper_bound) || (get_verdict_time(temp->previous)) < temp->upper_bound)) {
         R2U2_DEBUG_PRINT("We are here!\n");
         result = set_verdict_false(min(get_verdict_time(op0) + temp->lower_bound, (get_verdict_time(temp->edge)) + temp->upper_bound));
+        if (op1_rdy && get_verdict_truth(op1)) {
+          // Both operands are settled through `tau`; step past it or else a later
+          // break in the left operand would never be read from its queue
+          r2u2_time tau = min(get_verdict_time(op1), get_verdict_time(result) - temp->lower_bound);
+          if (tau >= ctrl->next_time) {
+            ctrl->next_time = tau + 1;
+            if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+              monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+            }
+          }
+        }
         if ((get_verdict_time(result) > (get_verdict_time(temp->previous))) || \
             ((get_verdict_time(result) == 0) && !(get_verdict_truth(temp->previous)))) {
               R2U2_DEBUG_PRINT("\tLeft Op False Since Right Op False\n");
-- 
2.43.0


From 60588bc554ef35d0df3ecb8d8da5eb1ce69bb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 02/49] fix: the C monitor hangs on a constant operand

A DIRECT operand was always ready, so an operator that answered from the
constant alone ('false && a') reported progress for ever. A constant is ready
once per time step, like an atomic.
---
 monitors/c/src/engines/mltl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 12bea18..38058af 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -36,7 +36,8 @@ static r2u2_bool check_operand_data(r2u2_monitor_t* monitor, r2u2_mltl_instructi
             *result = set_verdict_false(monitor->time_stamp);
           }
         }
-        return true;
+        // A constant has one verdict per time step: once it is consumed, wait for the next
+        return get_verdict_time(*result) >= monitor->queue_arena.control_blocks[instr->memory_reference].next_time;
 
       case R2U2_FT_OP_ATOMIC:
         // Only load in atomics on first loop of time step
-- 
2.43.0


From 842383cbe3366e34626f843b97f278e181c9eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 03/49] fix: connection queues are sized too small, so verdicts
 are lost

A queue's size comes from propagation delays that each node computes when it is
created; they are stale once desugaring or a rewrite replaces a descendant, and
past-time operators reported delays they do not have. A node whose operands lag
can also write several verdicts in one time step while its parent still reads
the siblings' older ones. The monitor then overwrote verdicts that were still to
be read and reported wrong results, e.g. for 'c U[0,3] (c R[2,7] b)'. Recompute
the delays before sizing and account for such a burst.
---
 compiler/c2po/scq.py | 57 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 06fbf5f..5009610 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -2,6 +2,48 @@ from __future__ import annotations
 from typing import cast, Any
 from c2po import cpt, log, types, command
 
+def update_propagation_delays(expr: cpt.Expression) -> None:
+    """Sets the propagation delays of `expr` from those of its children, which must be up to date.
+
+    A node computes its delays when it is created, so they are stale once a pass replaces one of its descendants.
+    """
+    if isinstance(expr, cpt.Constant) or len(expr.children) == 0 or expr.engine != types.R2U2Engine.TEMPORAL_LOGIC:
+        expr.bpd, expr.wpd = 0, 0
+        return
+
+    expr.bpd = min(c.bpd for c in expr.children)
+    expr.wpd = max(c.wpd for c in expr.children)
+
+    if not isinstance(expr, cpt.TemporalOperator):
+        return
+
+    lb, ub = expr.interval.lb, expr.interval.ub
+    if cpt.is_future_time_operator(expr):
+        expr.bpd += lb
+        expr.wpd += ub
+        return
+
+    # A past-time operator can answer before time `t` for `t`: its operands settle it `lb` ahead, and a constant operand
+    # holds for its whole interval
+    expr.bpd -= lb
+    expr.wpd -= lb
+    if len(expr.children) == 1 or isinstance(expr.children[0], cpt.Constant):
+        expr.bpd = expr.children[-1].bpd - ub
+    if isinstance(expr.children[-1], cpt.Constant):
+        expr.bpd = -lb - ub
+
+
+def is_bursty(expr: cpt.Expression) -> bool:
+    """Returns True if `expr` may write more than one verdict in a time step, from verdicts of one operand that were
+    waiting for the other."""
+    while expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
+        operands = [c for c in expr.children if not isinstance(c, cpt.Constant)]
+        if len(operands) != 1:
+            return len(operands) > 1
+        expr = operands[0]
+    return False
+
+
 def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
     """Computes SCQ sizes for each node. Returns the total SCQ size.
     
@@ -11,6 +53,9 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
     scq_constant = options["scq_constant"]
     total_scq_size = 0
 
+    for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
+        update_propagation_delays(expr)
+
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
         if isinstance(expr, cpt.SpecSection):
             continue
@@ -39,7 +84,17 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
             )
             continue
 
-        max_wpd = max([sibling.wpd for sibling in expr.get_siblings()] + [0])
+        # A parent waits for the slowest of its operands. `expr` itself may be that operand: once it catches up, it can write
+        # several late verdicts in one time step while its parent is still reading those of its siblings.
+        siblings = expr.get_siblings()
+        max_wpd = max([sibling.wpd for sibling in siblings] + [0])
+        if is_bursty(expr) and any(not isinstance(sibling, cpt.Constant) for sibling in siblings):
+            max_wpd = max(max_wpd, expr.wpd)
+
+        # Without siblings to wait for, every verdict is read as soon as it is written
+        if len(siblings) == 0:
+            max_wpd = expr.bpd
+
         expr.scq_size = max(max_wpd - expr.bpd, 0) + 1 + scq_constant
         total_scq_size += expr.scq_size
         expr.scq = (
-- 
2.43.0


From 929cb71c3ef60d0481cc870d7fd813a4a159869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 04/49] fix: optimize_rewrites drops the operands of a
 multi-arity && or || past the second

'foreach' builds such operators, and the rules replaced all of it by a rewrite of the first two operands.
---
 compiler/c2po/rewrite.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/rewrite.py b/compiler/c2po/rewrite.py
index f672c7f..764e791 100644
--- a/compiler/c2po/rewrite.py
+++ b/compiler/c2po/rewrite.py
@@ -130,7 +130,9 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                     ub = expr.interval.ub + opnd1.interval.ub
                     new = cpt.TemporalOperator.Future(expr.loc, lb, ub, opnd2)
         elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-            # Assume binary for now
+            if len(expr.children) != 2:
+                # The rules below are for binary operators, they would drop the other operands
+                continue
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
@@ -221,7 +223,9 @@ def optimize_rewrites(program: cpt.Program, context: cpt.Context, options: dict[
                         lhs_rhs
                     )
         elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-            # Assume binary for now
+            if len(expr.children) != 2:
+                # The rules below are for binary operators, they would drop the other operands
+                continue
             lhs = expr.children[0]
             rhs = expr.children[1]
             if (
-- 
2.43.0


From f75911c787dd0271fac292016811bf0b23b2fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 05/49] fix: a constant past-time formula crashes the assembler

Report it as unsupported, as for a future-time formula.
---
 compiler/c2po/assemble.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 5fd8629..4f41874 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -557,6 +557,11 @@ def gen_pt_instruction(
     ptid = len(instructions)
 
     if isinstance(expr, cpt.Formula):
+        # Special case: if formula is a constant, report error
+        if isinstance(expr.get_expr(), cpt.Constant):
+            log.error(f"found constant formula '{expr}', this is not supported")
+            return None
+
         operand1_type, operand1_value = (
             TLOperandType.SUBFORMULA,
             instructions[expr.get_expr()].id,
-- 
2.43.0


From 3d26bc6603bfa4d757a9652d3e09273a9093c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 06/49] fix: the QF_UFLIA encoding checks a trace one step too
 short

A formula with worst-case propagation delay w needs w + 1 time steps, so every
formula that reads its last step, such as 'a', was reported unsatisfiable.
---
 compiler/c2po/sat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 7b559e2..b9cc989 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -596,8 +596,8 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         smt_commands.append("(declare-fun len () Int)")
         smt_commands.append(f"(assert ({expr_map[start]} 0 len))")
     else:
-        # wpd proxy for cplen (okay since wpd >= cplen)
-        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd}))")
+        # wpd + 1 proxy for cplen (okay since wpd + 1 >= cplen)
+        smt_commands.append(f"(assert ({expr_map[start]} 0 {start.wpd + 1}))")
 
     smt_commands.append("(check-sat)")
 
-- 
2.43.0


From a1d4c7562ca9eb63310e6f3bb812e534aed033d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 07/49] fix: the UFLIA encoding ignores the third and later
 operands' trace length

The program-level check conjoins all specifications, so three satisfiable
specifications could be reported unsatisfiable together.
---
 compiler/c2po/sat.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index b9cc989..4b8d40b 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -888,9 +888,13 @@ def to_uflia_smtlib2(
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
                 cplen = cplen_cache[expr.children[0]]
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = smt_max_expr(cplen, cplen_cache[child])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_OR):
-                cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
+                cplen = cplen_cache[expr.children[0]]
+                for child in expr.children[1:]:
+                    cplen = smt_max_expr(cplen, cplen_cache[child])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_IMPLIES):
                 cplen = smt_max_expr(cplen_cache[expr.children[0]], cplen_cache[expr.children[1]])
             elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_EQUIV):
-- 
2.43.0


From 7c22365a94061b332201b2b97cfe5d9a51449609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 08/49] fix: the UFLIA encoding of F[0,0] and F[1,1] holds past
 the end of the trace

They were encoded like G, so the strict check reported 'F[0,0] (a && !a)'
satisfiable, unlike the same formula under any other interval.
---
 compiler/c2po/sat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 4b8d40b..61b54f6 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -800,9 +800,9 @@ def to_uflia_smtlib2(
                 # Special case for F[0,0] phi and F[1,1] phi -- no need for quantifier
                 # This is necessary for performance reasons, many FRET formulas timeout without this optimization
                 if lb == "0" and ub == "0":
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == "1" and ub == "1":
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
                 result = f"(assert (<= {lb} {ub}))\n"
             else: 
@@ -811,9 +811,9 @@ def to_uflia_smtlib2(
                 ub = expr.interval.ub
 
                 if lb == 0 and ub == 0:
-                    return f"({fun_signature} (or (<= len k) ({expr_map[expr.children[0]]} k len)))"
+                    return f"({fun_signature} (and (> len k) ({expr_map[expr.children[0]]} k len)))"
                 elif lb == 1 and ub == 1:
-                    return f"({fun_signature} (or (<= len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
+                    return f"({fun_signature} (and (> len (+ 1 k)) ({expr_map[expr.children[0]]} (+ 1 k) len)))"
 
             return result + f"({fun_signature} (and (> len (+ {lb} k)) (exists ((i Int)) (and (<= (+ {lb} k) i) (<= i (+ {ub} k)) ({expr_map[expr.children[0]]} i len)))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.UNTIL):
-- 
2.43.0


From 202751632a2d0a21de858d5ea515b07409d003ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 09/49] fix: check_sat reuses delays computed before desugaring

update_propagation_delays moves from scq.py to cpt.py so that sat.to_smt can
recompute the delays of the desugared formula: a set aggregation's delay is the
one computed before it was expanded, and the bounded encodings cut the trace
there, which made satisfiable formulas unsat.
---
 compiler/c2po/cpt.py | 30 ++++++++++++++++++++++++++++++
 compiler/c2po/sat.py |  3 +++
 compiler/c2po/scq.py | 33 +--------------------------------
 3 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index d31da96..9ac5eae 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1853,6 +1853,36 @@ def unroll_temporal_operators(expr: Expression, context: Context) -> Expression:
 
     return new
 
+def update_propagation_delays(expr: Expression) -> None:
+    """Sets the propagation delays of `expr` from those of its children, which must be up to date.
+
+    A node computes its delays when it is created, so they are stale once a pass replaces one of its descendants.
+    """
+    if isinstance(expr, Constant) or len(expr.children) == 0 or expr.engine != types.R2U2Engine.TEMPORAL_LOGIC:
+        expr.bpd, expr.wpd = 0, 0
+        return
+
+    expr.bpd = min(c.bpd for c in expr.children)
+    expr.wpd = max(c.wpd for c in expr.children)
+
+    if not isinstance(expr, TemporalOperator):
+        return
+
+    lb, ub = expr.interval.lb, expr.interval.ub
+    if is_future_time_operator(expr):
+        expr.bpd += lb
+        expr.wpd += ub
+        return
+
+    # A past-time operator can answer before time `t` for `t`: its operands settle it `lb` ahead, and a constant operand
+    # holds for its whole interval
+    expr.bpd -= lb
+    expr.wpd -= lb
+    if len(expr.children) == 1 or isinstance(expr.children[0], Constant):
+        expr.bpd = expr.children[-1].bpd - ub
+    if isinstance(expr.children[-1], Constant):
+        expr.bpd = -lb - ub
+
 def decompose_intervals(expr: Expression, context: Context) -> Expression:
     """Decomposes temporal operators in `start` to combinations of intervals with sizes that are
     powers of 2. For example: F[2,22] p ==> F[2,2] F[0,15] F[0,3] F[0,1] F[0,1] p."""
diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 61b54f6..bce9127 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -1013,6 +1013,9 @@ def to_smt(
     """Encodes the given expression into an SMT encoding and returns it. Returns None if the encoding fails."""
     log.debug(2, f"encoding expression:\n\t{repr(expr)}")
 
+    for subexpr in cpt.postorder(expr, context):
+        cpt.update_propagation_delays(subexpr)
+
     start = util.get_rusage_time()
     if theory == SMTTheory.UFLIA:
         smt = to_uflia_smtlib2(expr, context, strict)
diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 5009610..353d5fb 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -2,37 +2,6 @@ from __future__ import annotations
 from typing import cast, Any
 from c2po import cpt, log, types, command
 
-def update_propagation_delays(expr: cpt.Expression) -> None:
-    """Sets the propagation delays of `expr` from those of its children, which must be up to date.
-
-    A node computes its delays when it is created, so they are stale once a pass replaces one of its descendants.
-    """
-    if isinstance(expr, cpt.Constant) or len(expr.children) == 0 or expr.engine != types.R2U2Engine.TEMPORAL_LOGIC:
-        expr.bpd, expr.wpd = 0, 0
-        return
-
-    expr.bpd = min(c.bpd for c in expr.children)
-    expr.wpd = max(c.wpd for c in expr.children)
-
-    if not isinstance(expr, cpt.TemporalOperator):
-        return
-
-    lb, ub = expr.interval.lb, expr.interval.ub
-    if cpt.is_future_time_operator(expr):
-        expr.bpd += lb
-        expr.wpd += ub
-        return
-
-    # A past-time operator can answer before time `t` for `t`: its operands settle it `lb` ahead, and a constant operand
-    # holds for its whole interval
-    expr.bpd -= lb
-    expr.wpd -= lb
-    if len(expr.children) == 1 or isinstance(expr.children[0], cpt.Constant):
-        expr.bpd = expr.children[-1].bpd - ub
-    if isinstance(expr.children[-1], cpt.Constant):
-        expr.bpd = -lb - ub
-
-
 def is_bursty(expr: cpt.Expression) -> bool:
     """Returns True if `expr` may write more than one verdict in a time step, from verdicts of one operand that were
     waiting for the other."""
@@ -54,7 +23,7 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
     total_scq_size = 0
 
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
-        update_propagation_delays(expr)
+        cpt.update_propagation_delays(expr)
 
     for expr in cpt.postorder(cast("list[cpt.Expression]", program.get_specs()), context):
         if isinstance(expr, cpt.SpecSection):
-- 
2.43.0


From 5fa1d73cff792817a75c32d0bfff5705a5298615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 10/49] fix: a hard reset leaves the queue control blocks as
 they were

---
 monitors/c/src/memory/monitor.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monitors/c/src/memory/monitor.c b/monitors/c/src/memory/monitor.c
index 9ced556..2a1451b 100644
--- a/monitors/c/src/memory/monitor.c
+++ b/monitors/c/src/memory/monitor.c
@@ -17,5 +17,6 @@ void r2u2_monitor_soft_reset(r2u2_monitor_t* monitor) {
 void r2u2_monitor_hard_reset(r2u2_monitor_t* monitor) {
   r2u2_monitor_soft_reset(monitor);
   // WARNING: The following assumes that R2U2_DEFAULT_MONITOR is utilized!
+  memset(monitor->queue_arena.control_blocks, 0, sizeof(r2u2_scq_control_block_t) * R2U2_MAX_TL_INSTRUCTIONS);
   memset(monitor->queue_arena.queue_mem, 0, sizeof(r2u2_verdict) * (R2U2_MAX_QUEUE_SLOTS + (R2U2_MAX_TEMPORAL_OPERATORS * R2U2_TEMPORAL_METADATA_SIZE)));
 }
\ No newline at end of file
-- 
2.43.0


From 56617e211fe142fd22b49519b6bef3f2d5c2f2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 11/49] fix: float constants whose low word has its top bit set
 are loaded wrong

---
 monitors/c/src/instructions/booleanizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monitors/c/src/instructions/booleanizer.c b/monitors/c/src/instructions/booleanizer.c
index 43180bd..1c44228 100644
--- a/monitors/c/src/instructions/booleanizer.c
+++ b/monitors/c/src/instructions/booleanizer.c
@@ -6,7 +6,7 @@ r2u2_int r2u2_bz_get_param1_int_from_binary(uint8_t* spec) {
 }
 
 r2u2_float r2u2_bz_get_param1_float_from_binary(uint8_t* spec) {
-    uint64_t temp_val = (spec[0] + (spec[1] << 8) + (spec[2] << 16) + (spec[3] << 24) +
+    uint64_t temp_val = (spec[0] + (spec[1] << 8) + (spec[2] << 16) + ((uint64_t)spec[3] << 24) +
                 ((uint64_t)spec[4] << 32) + ((uint64_t)spec[5] << 40) + ((uint64_t)spec[6] << 48) + ((uint64_t)spec[7] << 56));
     r2u2_float val;
     memcpy(&val, &temp_val, 8);
-- 
2.43.0


From 81fb92075d57f7c1a023c925cc24fd5641db678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 12/49] fix: until and release stop a step with data left
 unread

They advance past settled operands without flagging progress, so a step can end early and the next one overruns the operand's queue.
---
 monitors/c/src/engines/mltl.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monitors/c/src/engines/mltl.c b/monitors/c/src/engines/mltl.c
index 38058af..60b327a 100644
--- a/monitors/c/src/engines/mltl.c
+++ b/monitors/c/src/engines/mltl.c
@@ -179,6 +179,10 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         if (op0_rdy) {
           r2u2_time tau = min(get_verdict_time(op0), get_verdict_time(op1));
           ctrl->next_time = tau+1;
+          // Stepping past settled operands is progress: what follows them may already be known
+          if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+            monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+          }
           if (!(get_verdict_truth(op0))){
             R2U2_DEBUG_PRINT("\tLeft and Right Op False\n");
             result = set_verdict_false(tau - temp->lower_bound);
@@ -233,6 +237,10 @@ r2u2_status_t r2u2_mltl_update(r2u2_monitor_t* monitor) {
         if (op0_rdy) {
           r2u2_time tau = min(get_verdict_time(op0), get_verdict_time(op1));
           ctrl->next_time = tau+1;
+          // Stepping past settled operands is progress: what follows them may already be known
+          if (monitor->progress == R2U2_MONITOR_PROGRESS_RELOOP_NO_PROGRESS) {
+            monitor->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS;
+          }
           if (get_verdict_truth(op0)){
             R2U2_DEBUG_PRINT("\tLeft and Right Op True\n");
             result = set_verdict_true(tau - temp->lower_bound);
-- 
2.43.0


From e5aa43e80ebea2444b6d9a615c888753eae00df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 13/49] fix: queue of an operand on both sides of a past-time
 operator is too short

The operator reads nothing in its first execution, so what the operand writes in that step has to fit.
---
 compiler/c2po/scq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/scq.py b/compiler/c2po/scq.py
index 353d5fb..b421bf6 100644
--- a/compiler/c2po/scq.py
+++ b/compiler/c2po/scq.py
@@ -60,8 +60,9 @@ def compute_scq_sizes(program: cpt.Program, context: cpt.Context, options: dict[
         if is_bursty(expr) and any(not isinstance(sibling, cpt.Constant) for sibling in siblings):
             max_wpd = max(max_wpd, expr.wpd)
 
-        # Without siblings to wait for, every verdict is read as soon as it is written
-        if len(siblings) == 0:
+        # Without siblings to wait for, every verdict is read as soon as it is written -- unless the parent reads nothing in
+        # its first execution, as past-time operators do
+        if len(siblings) == 0 and not any(cpt.is_past_time_operator(parent) for parent in expr.parents):
             max_wpd = expr.bpd
 
         expr.scq_size = max(max_wpd - expr.bpd, 0) + 1 + scq_constant
-- 
2.43.0


From 56c90ac6f121c50e518b6551a92f33e4eb1e5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 14/49] fix: best-case delay of since and trigger with a
 constant right operand

---
 compiler/c2po/cpt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 9ac5eae..5d1a57a 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1881,7 +1881,7 @@ def update_propagation_delays(expr: Expression) -> None:
     if len(expr.children) == 1 or isinstance(expr.children[0], Constant):
         expr.bpd = expr.children[-1].bpd - ub
     if isinstance(expr.children[-1], Constant):
-        expr.bpd = -lb - ub
+        expr.bpd = -2 * ub
 
 def decompose_intervals(expr: Expression, context: Context) -> Expression:
     """Decomposes temporal operators in `start` to combinations of intervals with sizes that are
-- 
2.43.0


From 5e1c4b145e1cc17f70e6666de5dca2755cff8846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 15/49] fix: negative integer constants cannot be assembled

Constants were packed as unsigned and operand indices as signed integers.
---
 compiler/c2po/assemble.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 4f41874..2406ee8 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -844,7 +844,7 @@ def pack_bz_instruction(
         1,
         f"packing bz instruction: {instruction}\n\t"
         f"{format_strs[FieldType.ENGINE_TAG]:2} "
-        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_ID] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_INT])} "
+        f"{format_strs[FieldType.BZ_OPERAND_FLOAT] if isinstance(instruction.operand1, float) else (format_strs[FieldType.BZ_OPERAND_INT] if (instruction.operator is BZOperator.ICONST) else format_strs[FieldType.BZ_OPERAND_ID])} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_ID]:2} "
         f"{format_strs[FieldType.BZ_OPERATOR]:2} "
@@ -862,9 +862,9 @@ def pack_bz_instruction(
     format_str += (
         format_strs[FieldType.BZ_OPERAND_FLOAT]
         if isinstance(instruction.operand1, float)
-        else format_strs[FieldType.BZ_OPERAND_ID]
-        if instruction.operator is BZOperator.ICONST
         else format_strs[FieldType.BZ_OPERAND_INT]
+        if instruction.operator is BZOperator.ICONST
+        else format_strs[FieldType.BZ_OPERAND_ID]
     )
     format_str += (
         format_strs[FieldType.BZ_ID]
-- 
2.43.0


From 926840d9a767700e0e4cf6f1975fd2629fc78821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 16/49] fix: a definition used in both FTSPEC and PTSPEC is
 assembled wrong

Its queue configuration and booleanizer instructions of the first section were overwritten by those of the second.
---
 compiler/c2po/assemble.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 2406ee8..1c29baa 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -727,7 +727,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
     bz_instructions: dict[cpt.Expression, BZInstruction] = {}
     ft_instructions: dict[cpt.Expression, TLInstruction] = {}
     pt_instructions: dict[cpt.Expression, TLInstruction] = {}
-    cg_instructions: dict[cpt.Expression, list[CGInstruction]] = {}
+    cg_instructions: list[CGInstruction] = []
 
     # For tracking scq usage across FT and PT
     ft_scqs: int = 0
@@ -750,7 +750,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
                 0,
             )
 
-            cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
+            cg_instructions += gen_ft_scq_instructions(expr, ft_instructions)
             ft_scqs += 1
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
@@ -766,7 +766,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             if not new_ft_instruction:
                 return None
             ft_instructions[expr] = new_ft_instruction
-            cg_instructions[expr] = gen_ft_scq_instructions(expr, ft_instructions)
+            cg_instructions += gen_ft_scq_instructions(expr, ft_instructions)
             ft_scqs += 1
 
     for expr in cpt.postorder(program.pt_spec_set, context):
@@ -785,7 +785,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
                 0,
             )
             log.debug(1, f"Generating: {expr}\n\t" f"{pt_instructions[expr]}")
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            cg_instructions += gen_pt_scq_instructions(expr, pt_instructions)
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip.
@@ -793,6 +793,10 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
+        # A definition used in both sections is computed by the booleanizer only once
+        if expr in bz_instructions:
+            continue
+
         if expr.engine == types.R2U2Engine.BOOLEANIZER:
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
@@ -800,7 +804,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             if not new_pt_instruction:
                 return None
             pt_instructions[expr] = new_pt_instruction
-            cg_instructions[expr] = gen_pt_scq_instructions(expr, pt_instructions)
+            cg_instructions += gen_pt_scq_instructions(expr, pt_instructions)
 
     # Move all PREV booleanizer instructions to the end (i.e., always update the 'previous' 
     # value after current iteration)
@@ -810,7 +814,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
     # Move all CG TEMP instructions to the end (i.e., always completely configure the SCQ size
     # for all SCQ's before configuring temporal metadata)
-    cg_instructions_ordered = [cg_instr for cg_instrs in cg_instructions.values() for cg_instr in cg_instrs]
+    cg_instructions_ordered = list(cg_instructions)
     idx = 0
     end_of_instructions = len(cg_instructions_ordered)
     while idx < end_of_instructions:
-- 
2.43.0


From f20459e2e1d8b1f30babe2d14b389d23c2dc9f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 17/49] fix: comparing with a Boolean literal crashes the
 assembler

---
 compiler/c2po/assemble.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 1c29baa..7e110cc 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -755,11 +755,11 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
+        # A bool literal compared by the booleanizer is one of its integer constants.
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
-        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+        if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_ft_instruction = gen_ft_instruction(expr, ft_instructions)
@@ -789,7 +789,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
 
         # Special case for bool -- TL ops directly embed bool literals in their operands,
         # so if this is a bool literal with only TL parents we should skip.
-        # TODO: Is there a case where a bool is used by the BZ engine? As in when this is ever not true for a bool?
+        # A bool literal compared by the booleanizer is one of its integer constants.
         if isinstance(expr, cpt.Constant) and expr.has_only_tl_parents():
             continue
 
@@ -797,7 +797,7 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
         if expr in bz_instructions:
             continue
 
-        if expr.engine == types.R2U2Engine.BOOLEANIZER:
+        if expr.engine == types.R2U2Engine.BOOLEANIZER or isinstance(expr, cpt.Constant):
             bz_instructions[expr] = gen_bz_instruction(expr, context, bz_instructions)
         elif expr.engine == types.R2U2Engine.TEMPORAL_LOGIC:
             new_pt_instruction = gen_pt_instruction(expr, pt_instructions, ft_scqs)
-- 
2.43.0


From 2d1bf81f853247aa11a21740277170a557ba650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 18/49] fix: a PREV that reads another PREV through a
 definition sees the new value

---
 compiler/c2po/assemble.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 7e110cc..8c01126 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -807,10 +807,14 @@ def gen_assembly(program: cpt.Program, context: cpt.Context) -> Optional[list[In
             cg_instructions += gen_pt_scq_instructions(expr, pt_instructions)
 
     # Move all PREV booleanizer instructions to the end (i.e., always update the 'previous' 
-    # value after current iteration)
+    # value after current iteration). A PREV that reads another PREV (through a definition) must be
+    # updated before the one it reads.
+    prevs: list[cpt.Expression] = []
     for key in list(bz_instructions):
         if bz_instructions[key].operator is BZOperator.PREV:
-            bz_instructions[key] = bz_instructions.pop(key)
+            prevs.insert(min([prevs.index(c) for c in key.children if c in prevs], default=len(prevs)), key)
+    for key in prevs:
+        bz_instructions[key] = bz_instructions.pop(key)
 
     # Move all CG TEMP instructions to the end (i.e., always completely configure the SCQ size
     # for all SCQ's before configuring temporal metadata)
-- 
2.43.0


From f07a229129e6ce40a4210cc51b9250a375408d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 19/49] fix: a too long specification name dropped all names
 without an error

---
 compiler/c2po/assemble.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 8c01126..a06ae6a 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -986,7 +986,7 @@ def pack_instruction(
     return binary_len + binary
 
 
-def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> tuple[list[AliasInstruction], bytes]:
+def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> Optional[tuple[list[AliasInstruction], bytes]]:
     """
     `options` is a dictionary of options for the assembly.
     - `aux`: Whether to include aux data (e.g., contract status and specification naming)
@@ -994,6 +994,7 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
     Returns a tuple of (list of AliasInstructions, bytes)
     - The list of AliasInstructions to be packed
     - The bytes of the packed AliasInstructions
+    or None if some specification cannot be given an alias
     """
     aliases: list[AliasInstruction] = []
     binary = bytes()
@@ -1001,16 +1002,16 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
     for spec in program.get_specs():
         if isinstance(spec, cpt.Contract):
             log.internal(f"contract found during assembly: {spec}")
-            return ([], bytes())
+            return None
         elif not isinstance(spec, cpt.Formula):
-            return ([], bytes())
+            return None
 
         if options["aux"] and len(spec.symbol) > 50:
             log.error(
                 f"specification identifier name '{spec.symbol}' is too long, please choose a shorter name (limit 50 characters)", 
                 spec.loc,
             )
-            return ([], bytes())
+            return None
 
         alias = AliasInstruction(AliasType.FORMULA, spec.symbol, [str(spec.formula_number)])
         aliases.append(alias)
@@ -1065,7 +1066,10 @@ def assemble(
     binary += b"\x00"
 
     if options["aux"]:
-        (aliases, binary_aliases) = pack_aliases(program, context, options)
+        packed_aliases = pack_aliases(program, context, options)
+        if packed_aliases is None:
+            return command.ReturnCode.ASSEMBLY_ERROR
+        (aliases, binary_aliases) = packed_aliases
         assembly += aliases
         binary += binary_aliases
     else:
-- 
2.43.0


From 4ba9d129566a0cfdb9b7845e4696429ceaef279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 20/49] fix: definitions replaced the bound variables of set
 aggregations, and aliases of definitions crashed

---
 compiler/c2po/desugar.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index db73c9e..3aedb4f 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -6,16 +6,26 @@ def expand_definitions(program: cpt.Program, context: cpt.Context, options: dict
     Expands each definition symbol in the definitions and specifications of `program` to its expanded definition. This is essentially macro expansion.
     Returns a ReturnCode.SUCCESS if successful, ReturnCode.ERROR otherwise.
     """
+    # A variable bound by an enclosing set aggregation hides a definition or specification of that name
     for expr in [
         expr
         for define in context.definitions.values()
         for expr in cpt.postorder(define, context)
-    ] + [expr for expr in program.postorder(context)]:
+        if expr.symbol not in context.bound_vars
+    ] + [
+        expr
+        for expr in program.postorder(context)
+        if expr.symbol not in context.bound_vars
+    ]:
         if not isinstance(expr, cpt.Variable):
             continue
 
         if expr.symbol in context.definitions:
-            expr.replace(context.definitions[expr.symbol])
+            definition = context.definitions[expr.symbol]
+            # The definition of an alias is itself a variable, which has been replaced already
+            while definition.replacement:
+                definition = definition.replacement
+            expr.replace(definition)
         elif expr.symbol in context.specifications:
             expr.replace(context.specifications[expr.symbol].get_expr())
 
-- 
2.43.0


From 918e75ddcffba6f94c84fe3b170a97185d60646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 21/49] fix: sets and arrays with one member gave operators
 with one operand

---
 compiler/c2po/desugar.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/compiler/c2po/desugar.py b/compiler/c2po/desugar.py
index 3aedb4f..1f58a74 100644
--- a/compiler/c2po/desugar.py
+++ b/compiler/c2po/desugar.py
@@ -162,6 +162,20 @@ resolve_contracts_command = command.Command(
 command.CommandRegistry.register(resolve_contracts_command)
 
 
+def remove_single_operands(program: cpt.Program, context: cpt.Context) -> None:
+    """
+    Replaces each multi-arity operator that has one operand (unrolled from a set or array with one member) with that operand.
+    """
+    for expr in program.postorder(context):
+        if not cpt.is_multi_arity_operator(expr) or len(expr.children) != 1:
+            continue
+
+        operand = expr.children[0]
+        operand_type = operand.type
+        expr.replace(operand)
+        operand.type = operand_type
+
+
 def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options: dict[str, Any]) -> command.ReturnCode:
     """
     Unrolls set aggregation operators into equivalent engine-supported operations e.g., `foreach` is rewritten into a conjunction.
@@ -297,6 +311,8 @@ def unroll_set_aggregation(program: cpt.Program, context: cpt.Context, options:
             for subexpr in cpt.postorder(new, context):
                 resolve_struct_accesses(subexpr, context)
 
+    remove_single_operands(program, context)
+
     log.debug(1, f"post set aggregation unrolling:\n{repr(program)}")
 
     return command.ReturnCode.SUCCESS
@@ -424,6 +440,8 @@ def unroll_array_accesses(program: cpt.Program, context: cpt.Context, options: d
 
                 expr.replace(new)
 
+    remove_single_operands(program, context)
+
     log.debug(1, f"Post array unrolling:\n{repr(program)}")
     return command.ReturnCode.SUCCESS
 
-- 
2.43.0


From cee24d54dc3b0b293bd52ecfb516286c0bd8fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 22/49] fix: bound variables of set aggregations leaked and hid
 signals

---
 compiler/c2po/type_check.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 3de92d9..3ddc0cb 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -253,9 +253,16 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             s: cpt.ArrayExpression = expr.get_set()
             boundvar: cpt.Variable = expr.bound_var
 
-            if isinstance(s.type, types.ArrayType):
-                context.add_variable(boundvar.symbol, s.type.member_type)
-            else:
+            if boundvar.symbol in context.signals or boundvar.symbol in [
+                name for enum in context.enums.values() for name in enum.keys()
+            ]:
+                log.error(
+                    f"symbol '{boundvar.symbol}' already in use",
+                    expr.loc,
+                )
+                return False
+
+            if not isinstance(s.type, types.ArrayType):
                 log.error(
                     f"set aggregation set must be Set type (found '{s.type}')",
                     expr.loc,
-- 
2.43.0


From 6e4d333f78808b7cc053ffb9ac5d7f018a8d1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 23/49] fix: a traversal could skip a new node that got the id
 of a visited one

---
 compiler/c2po/cpt.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 5d1a57a..7744a72 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1611,7 +1611,8 @@ def postorder(
 ) -> Iterator[Expression]:
     """Performs a postorder traversal of `start`. If `start` is a list of `Expression`s, then initializes the stack to `start`. Uses `context` to handle local context (for example, variable binding in set aggregation expressions)."""
     stack: list[tuple[bool, Expression]] = []
-    visited: set[int] = set()
+    # holds the visited nodes too, so that no node created during the traversal reuses the id of one
+    visited: dict[int, Expression] = {}
 
     if isinstance(start, Expression):
         stack.append((False, start))
@@ -1634,7 +1635,7 @@ def postorder(
         elif id(expr) in visited:
             continue
 
-        visited.add(id(expr))
+        visited[id(expr)] = expr
         stack.append((True, expr))
 
         for child in reversed(expr.children):
@@ -1645,7 +1646,8 @@ def preorder(
 ) -> Iterator[Expression]:
     """Performs a preorder traversal of `start`. If `start` is a list of `Expression`s, then initializes the stack to `start`. Uses `context` to handle local context (for example, variable binding in set aggregation expressions)."""
     stack: list[Expression] = []
-    visited: set[int] = set()
+    # holds the visited nodes too, so that no node created during the traversal reuses the id of one
+    visited: dict[int, Expression] = {}
 
     if isinstance(start, Expression):
         stack.append(start)
@@ -1663,7 +1665,7 @@ def preorder(
         # if expr has been replaced since we just yielded it, need to traverse down the replacement node
         cur = expr.replacement if expr.replacement else expr
 
-        visited.add(id(cur))
+        visited[id(cur)] = cur
 
         for child in reversed(cur.children):
             stack.append(child)
-- 
2.43.0


From 79ebe9ce5b6049d713ec9dfd50b6e5c8802dded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 24/49] fix: names declared twice in different sections are
 rejected by the type checker

---
 compiler/c2po/type_check.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 3ddc0cb..45aa8d0 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -657,7 +657,9 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
             context.add_struct(struct.symbol, struct.members)
     elif isinstance(section, cpt.EnumSection):
         for enum in section.enum_defs:
-            if enum.symbol in context.get_symbols():
+            # enums may share members
+            members = [name for other in context.enums.values() for name in other]
+            if enum.symbol in symbols:
                 status = False
                 log.error(
                     f"Symbol '{enum.symbol}' already in use",
@@ -670,12 +672,14 @@ def type_check_section(section: cpt.ProgramSection, symbols: set[str], context:
                         f"Enum member {member_name} must be a constant integer, found {member_expr.type}",
                         enum.loc,
                     )
-                if member_name in context.get_symbols() or member_name == enum.symbol:
+                if (member_name in symbols and member_name not in members) or member_name == enum.symbol:
                     status = False
                     log.error(
                         f"Symbol '{member_name}' already in use",
                         enum.loc,
                     )
+            symbols.add(enum.symbol)
+            symbols.update(enum.members)
             context.add_enum(enum.symbol, enum.members)
     elif isinstance(section, cpt.SpecSection):
         if isinstance(section, cpt.FutureTimeSpecSection):
@@ -709,8 +713,9 @@ def type_check(program: cpt.Program, context: cpt.Context, options: dict[str, An
         None if type checking fails, the context object otherwise.
     """
     status = True
+    symbols: set[str] = set()
     for section in program.sections:
-        is_good = type_check_section(section, set(), context, options)
+        is_good = type_check_section(section, symbols, context, options)
         status = status and is_good
 
     log.debug(1, f"type checking result: {status}")
-- 
2.43.0


From a0731aba45efbfffb1c138bd3d3864b76721e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 25/49] fix: a structure built with the wrong number of members
 is rejected

---
 compiler/c2po/type_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 45aa8d0..50429c2 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -230,7 +230,7 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             target_types = [m for m in context.structs[expr.symbol].values()]
             actual_types = [c.type for c in expr.children]
 
-            if any(
+            if len(target_types) != len(actual_types) or any(
                 [
                     target_type != actual_type
                     for target_type, actual_type in zip(target_types, actual_types)
-- 
2.43.0


From 3b2745f1f246f172e0b210e3fc5bd0c359fe81d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 26/49] fix: an array index equal to the size or negative is
 rejected

---
 compiler/c2po/type_check.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 50429c2..a3e1566 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -155,18 +155,14 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
-            if (abs(expr.start) > array_type.size or abs(expr.stop) > array_type.size) and array_type.size > -1:
-                log.error(f"Out-of-bounds array index ({expr})", expr.loc)
-                return False
-
-            if expr.start < 0:
-                expr.start = -expr.start
-            if expr.stop < 0:
-                expr.stop = -expr.stop
             if expr.start > expr.stop:
                 log.error(f"Invalid array index ({expr}), {expr.start} is greater than {expr.stop}", expr.loc)
                 return False
 
+            if expr.start < 0 or (expr.stop >= array_type.size and array_type.size > -1):
+                log.error(f"Out-of-bounds array index ({expr})", expr.loc)
+                return False
+
             expr.type = types.ArrayType(
                 array_type.member_type, is_const=expr.get_array().type.is_const, size=expr.stop - expr.start + 1
             )
@@ -179,13 +175,10 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
-            if abs(expr.index) > array_type.size and array_type.size > -1:
+            if expr.index < 0 or (expr.index >= array_type.size and array_type.size > -1):
                 log.error(f"out-of-bounds array index ({expr})", expr.loc)
                 return False
 
-            if expr.index < 0:
-                expr.index = -expr.index
-
             # Hacky special case where the array is a signal array, we use a temporary signal to
             # avoid repeating code
             if isinstance(expr.get_array(), cpt.Variable):
-- 
2.43.0


From 888305ca5b095dfc882dc0ad884a9a22f29e930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 27/49] fix: operators of the other tense are found through
 definitions and labels only where they are used

---
 compiler/c2po/type_check.py | 67 +++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index a3e1566..156cb3b 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -1,7 +1,50 @@
-from typing import cast, Any
+from typing import cast, Any, Callable, Optional
 from c2po import cpt, log, types, command
 
 
+def find_operator(
+    expr: cpt.Expression, is_kind: Callable[[cpt.Expression], bool], context: cpt.Context
+) -> Optional[cpt.Expression]:
+    """Returns an operator of `expr` that satisfies `is_kind`, or None. Looks into the definitions and specifications that `expr` refers to."""
+    subexprs = [expr] + expr.get_descendants()
+    bound = {e.bound_var.symbol for e in subexprs if isinstance(e, cpt.SetAggregation)}
+
+    for e in subexprs:
+        if is_kind(e):
+            return e
+        if not isinstance(e, cpt.Variable) or e.symbol in bound:
+            continue
+
+        operator = None
+        if e.symbol in context.definitions:
+            operator = find_operator(context.definitions[e.symbol], is_kind, context)
+        elif e.symbol in context.specifications:
+            operator = find_operator(context.specifications[e.symbol], is_kind, context)
+        if operator:
+            return operator
+
+    return None
+
+
+def check_tense(spec: cpt.Specification, context: cpt.Context) -> bool:
+    """Returns True if `spec` has no past-time operators in an FTSPEC section and no future-time operators in a PTSPEC section."""
+    if context.is_past_time():
+        operator = find_operator(spec, cpt.is_future_time_operator, context)
+        (found, section) = ("FT", "PTSPEC")
+    else:
+        operator = find_operator(spec, cpt.is_past_time_operator, context)
+        (found, section) = ("PT", "FTSPEC")
+
+    if operator:
+        log.error(
+            f"mixed-time formulas unsupported, found {found} formula in {section}\n    {operator}",
+            spec.loc,
+        )
+        return False
+
+    return True
+
+
 def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[str, Any]) -> bool:
     """Returns True `start` is well-typed."""
     log.debug(2, f"type checking: {repr(start)}")
@@ -15,6 +58,9 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
                 
+            if not check_tense(expr, context):
+                return False
+
             context.add_formula(expr.symbol, expr)
 
             expr.type = types.BoolType()
@@ -33,6 +79,9 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
+            if not check_tense(expr, context):
+                return False
+
             context.add_contract(expr.symbol, expr)
 
             expr.type = types.ContractValueType()
@@ -304,22 +353,6 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                     )
                     return False
 
-            # check for mixed-time formulas
-            if cpt.is_future_time_operator(expr):
-                if context.is_past_time():
-                    log.error(
-                        f"mixed-time formulas unsupported, found FT formula in PTSPEC\n    {expr}",
-                        expr.loc,
-                    )
-                    return False
-            elif cpt.is_past_time_operator(expr):
-                if context.is_future_time():
-                    log.error(
-                        f"mixed-time formulas unsupported, found PT formula in FTSPEC\n    {expr}",
-                        expr.loc,
-                    )
-                    return False
-
             interval = expr.interval
             if not interval:
                 log.internal(
-- 
2.43.0


From 94f37cbbfc2f64e00b375c34e85dbfb3f0bef417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 28/49] fix: arithmetic on arrays and structures and comparison
 of structures are rejected

---
 compiler/c2po/type_check.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 156cb3b..107980b 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -439,6 +439,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
 
             new_type = expr.children[0].type
 
+            if not types.is_integer_type(new_type) and not types.is_float_type(new_type):
+                log.error(
+                    f"Invalid operands for '{expr.symbol}', found '{new_type}' but expected 'int' or 'float'\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             if all([c.type.is_const for c in expr.children]):
                 new_type.is_const = True
 
@@ -541,6 +548,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                 )
                 return False
 
+            if types.is_struct_type(lhs.type):
+                log.error(
+                    f"Invalid operands for '{expr.symbol}', comparing structs is unsupported\n    {expr}",
+                    expr.loc,
+                )
+                return False
+
             expr.type = types.BoolType(lhs.type.is_const and rhs.type.is_const)
         elif cpt.is_logical_operator(expr):
             expr = cast(cpt.Operator, expr)
-- 
2.43.0


From 22ece7218168e31222cf5b0201647726e1b5586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 29/49] fix: indexing an array of signals no longer undeclares
 the element signal

---
 compiler/c2po/type_check.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 107980b..52978c9 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -232,9 +232,13 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
             # avoid repeating code
             if isinstance(expr.get_array(), cpt.Variable):
                 tmp_signal = cpt.Signal(expr.loc, str(expr), array_type.member_type)
+                declared_type = context.signals.get(str(expr))
                 context.signals[str(expr)] = types.NoType()
                 status = type_check_expr(tmp_signal, context, options)
-                del context.signals[str(expr)]
+                if declared_type is None:
+                    del context.signals[str(expr)]
+                else:
+                    context.signals[str(expr)] = declared_type
                 if not status:
                     return False
 
-- 
2.43.0


From b1943dd5aec1ee51669729f6fc57655959309f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 30/49] fix: bitwise negation of a Boolean is rejected

---
 compiler/c2po/type_check.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/type_check.py b/compiler/c2po/type_check.py
index 52978c9..2de968c 100644
--- a/compiler/c2po/type_check.py
+++ b/compiler/c2po/type_check.py
@@ -422,7 +422,9 @@ def type_check_expr(start: cpt.Expression, context: cpt.Context, options: dict[s
                         expr.loc,
                     )
                     return False
-                elif child.type != new_type or not types.is_integer_type(child.type):
+                elif child.type != new_type or not types.is_integer_type(child.type) or (
+                    expr.operator is cpt.OperatorKind.BITWISE_NEGATE and types.is_bool_type(child.type)
+                ):
                     log.error(
                         f"Invalid operands for '{expr.symbol}', found '{child.type}' ('{child}') but expected '{new_type}'\n    {expr}",
                         expr.loc,
-- 
2.43.0


From 9563cd477b304170970933af54fea7d4e6b2b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 31/49] fix: signal and atomic bounds cover every mapped column
 and atomic id

---
 compiler/c2po/assemble.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index a06ae6a..732b67d 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1169,8 +1169,12 @@ def compute_bounds(program: cpt.Program, context: cpt.Context) -> dict[str, tupl
     num_aliases_bytes = sum([
         (len(i.symbol)) for i in assembly if isinstance(i, AliasInstruction)
     ])
-    num_signals = len(context.signals)
-    num_atomics = len(set(context.atomic_id_map.values()))
+    # Signals are loaded by column of the input, so the last mapped column counts
+    num_signals = max([len(context.signals)] + [i + 1 for i in context.signal_mapping.values()])
+    num_atomics = max([0] + [i + 1 for i in context.atomic_id_map.values()])
+    if num_bz == 0:
+        # The monitor then loads every column directly as an atomic
+        num_atomics = max(num_atomics, num_signals)
     total_scq_size = sum([
         (i.instruction.operand1_value if i.type == CGType.SCQ else 0) for i in assembly if isinstance(i, CGInstruction)
     ])
-- 
2.43.0


From c37342d3d6dc601739ec76da3b6ac17663a77047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 32/49] fix: bounds written for the C monitor are at least one

---
 compiler/c2po/assemble.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index 732b67d..ec02b14 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -1252,7 +1252,11 @@ def write_bounds_c(program: cpt.Program, context: cpt.Context, options: dict[str
     - `filename`: The filename to write the bounds file to
     - `print`: Whether to print the bounds file to the console
     """
-    bounds = compute_bounds(program, context)
+    # Arrays of size zero are not portable (gcc leaves all pointers to compound literals of size zero null)
+    bounds = {
+        key: (max(value, 1) if type(value) is int else value, description, target)
+        for key, (value, description, target) in compute_bounds(program, context).items()
+    }
 
     contents =  "#ifndef R2U2_BOUNDS_H\n"
     contents += "#define R2U2_BOUNDS_H\n"
-- 
2.43.0


From 1236f433f4c994c0688164a94cf66092c68bf6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 33/49] fix: formula names are written in formula number order

---
 compiler/c2po/assemble.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/c2po/assemble.py b/compiler/c2po/assemble.py
index ec02b14..981a4de 100644
--- a/compiler/c2po/assemble.py
+++ b/compiler/c2po/assemble.py
@@ -999,13 +999,17 @@ def pack_aliases(program: cpt.Program, context: cpt.Context, options: dict[str,
     aliases: list[AliasInstruction] = []
     binary = bytes()
 
+    specs: list[cpt.Formula] = []
     for spec in program.get_specs():
         if isinstance(spec, cpt.Contract):
             log.internal(f"contract found during assembly: {spec}")
             return None
         elif not isinstance(spec, cpt.Formula):
             return None
+        specs.append(spec)
 
+    # The monitors find the name of formula n in the n-th formula alias
+    for spec in sorted(specs, key=lambda s: s.formula_number):
         if options["aux"] and len(spec.symbol) > 50:
             log.error(
                 f"specification identifier name '{spec.symbol}' is too long, please choose a shorter name (limit 50 characters)", 
-- 
2.43.0


From f79ab1bbdd03bc720adca650eed7ee370766cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 34/49] fix: the last contract was dropped when all contract
 slots were in use

---
 monitors/c/src/internals/process_binary.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/monitors/c/src/internals/process_binary.c b/monitors/c/src/internals/process_binary.c
index 77fbcbe..cf768c9 100644
--- a/monitors/c/src/internals/process_binary.c
+++ b/monitors/c/src/internals/process_binary.c
@@ -86,15 +86,15 @@ r2u2_status_t r2u2_process_binary(r2u2_monitor_t* monitor, uint8_t* spec) {
               (aux_arena->contract_control_blocks)[0].spec_str = (aux_arena->formula_control_blocks)[aux_formula_num-1].spec_str + strlen((aux_arena->formula_control_blocks)[aux_formula_num-1].spec_str) + 1; // Leave a Null
             }
             sscanf((char*)&(spec[offset]), "%*c %s %u %u %u%n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str, &(aux_arena->contract_control_blocks[aux_contract_num].spec_0), &(aux_arena->contract_control_blocks[aux_contract_num].spec_1), &(aux_arena->contract_control_blocks[aux_contract_num].spec_2), &length);
-            if (R2U2_AUX_MAX_CONTRACTS > (aux_contract_num + 1)){
-              (aux_arena->contract_control_blocks)[aux_contract_num+1].spec_str = (aux_arena->contract_control_blocks)[aux_contract_num].spec_str + strlen((aux_arena->contract_control_blocks)[aux_contract_num].spec_str) + 1; // Leave a Null
-              R2U2_DEBUG_PRINT("Mapping contract: %s\n", (aux_arena->contract_control_blocks)[aux_contract_num].spec_str);
+            aux_contract_num++;
+            if (R2U2_AUX_MAX_CONTRACTS > aux_contract_num){
+              (aux_arena->contract_control_blocks)[aux_contract_num].spec_str = (aux_arena->contract_control_blocks)[aux_contract_num-1].spec_str + strlen((aux_arena->contract_control_blocks)[aux_contract_num-1].spec_str) + 1; // Leave a Null
+              R2U2_DEBUG_PRINT("Mapping contract: %s\n", (aux_arena->contract_control_blocks)[aux_contract_num-1].spec_str);
             } else {
               // Done processing Formulas and ran out of space to save any more Contract information
               length = 0;
               break;
             }
-            aux_contract_num++;
             break;
           }
           case 'F': {
-- 
2.43.0


From 611da2fd65f6fe0d4f50f04c66f99b0f010c2118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 35/49] fix: array ranges with indices above nine and malformed
 map lines

---
 compiler/c2po/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/map.py b/compiler/c2po/map.py
index 47f30e2..974a076 100644
--- a/compiler/c2po/map.py
+++ b/compiler/c2po/map.py
@@ -21,13 +21,13 @@ def parse_map_file(program: cpt.Program, context: cpt.Context, options: dict[str
     mapping: types.SignalMapping = {}
     lines = content.splitlines()
     for line in lines:
-        if re.match(r"[a-zA-Z_][a-zA-Z0-9_\[\]\.]*:\d+", line):
+        if re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_\[\]\.]*:\d+\s*", line):
             strs = line.split(":")
             id = strs[0]
             sid = int(strs[1])
             # Special case where multiple indices of array are mapped in at once
             # For example, 'arr[0..2]:0' gets expanded to 'arr[0]:0', 'arr[1]:1', and 'arr[2]:2'
-            if re.match(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d..\d*\]", id):
+            if re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_]*\[\d+\.\.\d+\]", id):
                 indices = id[id.find("[")+1 : id.find("]")].split("..")
                 for i in range(int(indices[0]), int(indices[1])+1):
                     id = id[:id.find("[")] + "[" + str(i) + "]"
-- 
2.43.0


From f44eedd911681a92d283fce4c92f16495d117479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 36/49] fix: messages about trace headers crashed on a missing
 option

---
 compiler/c2po/trace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/c2po/trace.py b/compiler/c2po/trace.py
index eb7b941..6531e6e 100644
--- a/compiler/c2po/trace.py
+++ b/compiler/c2po/trace.py
@@ -33,7 +33,7 @@ def parse_trace_file(
 
     cnt: int = 0
     signal_mapping: types.SignalMapping = {}
-    if lines[0][0] != "#":
+    if not lines[0].startswith("#"):
         # no header, so just set trace length
         context.trace_length = len(lines)
         return command.ReturnCode.SUCCESS
@@ -50,7 +50,7 @@ def parse_trace_file(
         if id in signal_mapping:
             log.warning(
                 f"signal '{id}' found multiple times in csv, using right-most value",
-                log.FileLocation(options['trace_filename'], 1)
+                log.FileLocation(options['filename'], 1)
             )
         signal_mapping[id] = cnt
         cnt += 1
@@ -60,7 +60,7 @@ def parse_trace_file(
     if len(missing) > 0:
         log.error(
             f"trace file does not contain all signals in the program: {', '.join(missing)}",
-            log.FileLocation(options['trace_filename'], 1),
+            log.FileLocation(options['filename'], 1),
         )
         return command.ReturnCode.ERROR
 
-- 
2.43.0


From 42170296e5658b75a7a63f7ed463098fee4e600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 37/49] fix: new atomic ids do not collide with ids or columns
 in use

---
 compiler/c2po/atomics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/c2po/atomics.py b/compiler/c2po/atomics.py
index b1bf758..78bd771 100644
--- a/compiler/c2po/atomics.py
+++ b/compiler/c2po/atomics.py
@@ -16,7 +16,12 @@ def compute_atomics(program: cpt.Program, context: cpt.Context, options: dict[st
                     parent.children[i] = new
             new.parents.add(parent)
 
-    aid: int = 0
+    # New IDs must not collide with those of an earlier run nor, if signals are the atomics, with the
+    # column of any signal
+    used: list[int] = list(context.atomic_id_map.values())
+    if not context.enable_booleanizer:
+        used += list(context.signal_mapping.values())
+    aid: int = max(used, default=-1) + 1
 
     for expr in program.postorder(context):
         if (
-- 
2.43.0


From a7546a0f8a5db49cc053fa643ac1d305c1e4449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 38/49] fix: keep every statistic when copying them

---
 compiler/c2po/stats.py | 37 ++-----------------------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/compiler/c2po/stats.py b/compiler/c2po/stats.py
index 472a63e..7470ca4 100644
--- a/compiler/c2po/stats.py
+++ b/compiler/c2po/stats.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 
 STATS_FORMAT_MAP: dict[str, str] = {
     "F": "spec_filename",
@@ -119,37 +119,4 @@ class Stats:
         )
 
     def deepcopy(self) -> "Stats":
-        return Stats(
-            spec_filename=self.spec_filename,
-            first_formula_string=self.first_formula_string,
-            total_scq_size=self.total_scq_size,
-            total_dag_size=self.total_dag_size,
-            num_temporal_operators=self.num_temporal_operators,
-            asm_num_instructions=self.asm_num_instructions,
-            asm_num_bz_instructions=self.asm_num_bz_instructions,
-            asm_num_tl_instructions=self.asm_num_tl_instructions,
-            asm_num_cg_instructions=self.asm_num_cg_instructions,
-            asm_num_scq_instructions=self.asm_num_scq_instructions,
-            asm_num_aliases=self.asm_num_aliases,
-            asm_num_signals=self.asm_num_signals,
-            asm_num_atomics=self.asm_num_atomics,
-            smt_encoding_time=self.smt_encoding_time,
-            smt_solver_time=self.smt_solver_time,
-            smt_solver_result=self.smt_solver_result,
-            smt_num_calls=self.smt_num_calls,
-            eqsat_encoding_time=self.eqsat_encoding_time,
-            eqsat_solver_time=self.eqsat_solver_time,
-            eqsat_equiv_result=self.eqsat_equiv_result,
-            eqsat_equiv_encoding_time=self.eqsat_equiv_encoding_time,
-            eqsat_equiv_solver_time=self.eqsat_equiv_solver_time,
-            eqsat_num_eclasses=self.eqsat_num_eclasses,
-            eqsat_num_enodes=self.eqsat_num_enodes,
-            eqsat_gurobi_encoding_time=self.eqsat_gurobi_encoding_time,
-            eqsat_gurobi_solver_time=self.eqsat_gurobi_solver_time,
-            eqsat_gurobi_solver_status=self.eqsat_gurobi_solver_status,
-            r2u2_median_runtime=self.r2u2_median_runtime,
-            r2u2_average_runtime=self.r2u2_average_runtime,
-            r2u2_min_runtime=self.r2u2_min_runtime,
-            r2u2_max_runtime=self.r2u2_max_runtime,
-            r2u2_status=self.r2u2_status,
-        )
+        return replace(self)
-- 
2.43.0


From 70208f8e0edbf8bef44c6879e7a2967e22d1c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 39/49] fix: copy array slices

---
 compiler/c2po/cpt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 7744a72..6eb9b37 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1709,6 +1709,8 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
             new = SymbolicIntervalVariable(expr.loc, expr.symbol)
         elif isinstance(expr, ArrayExpression):
             new = ArrayExpression(expr.loc, [memo[id(c)] for c in expr.children])
+        elif isinstance(expr, ArraySlice):
+            new = ArraySlice(expr.loc, memo[id(expr.children[0])], expr.start, expr.stop)
         elif isinstance(expr, ArrayIndex):
             new = ArrayIndex(expr.loc, memo[id(expr.children[0])], expr.index)
         elif isinstance(expr, Struct):
-- 
2.43.0


From 2ae8b81791faa6ff97b1ef85273c8f94746a53bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:52 +0000
Subject: [PATCH 40/49] fix: push and pop restore the program and context

Sections of the pushed program updated the live context with copies of their expressions, so the stacked context and program shared no expression with each other; enums, output paths, specifications replaced by passes and the mapping of atomics were lost or not restored by pop.
---
 compiler/c2po/cpt.py | 159 +++++++++++++++++++++++++------------------
 1 file changed, 94 insertions(+), 65 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index 6eb9b37..b4adf0c 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -127,8 +127,8 @@ class Expression(Node):
     def __repr__(self) -> str:
         return to_prefix_str(self, with_internal_labels=True)
 
-    def deepcopy(self, context: Context) -> Expression:
-        return deepcopy_expr(self, context, {})
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> Expression:
+        return deepcopy_expr(self, context, {} if memo is None else memo)
 
 class Match(Expression):
     def __init__(self, loc: log.FileLocation, name: str, match_function: Callable[[str], bool]) -> None:
@@ -1115,12 +1115,6 @@ class SpecificationSet(Expression):
     def __str__(self) -> str:
         return "spec_set"
 
-    def deepcopy(self, context: Context) -> SpecificationSet:
-        children = [c.deepcopy(context) for c in self.children]
-        new = SpecificationSet(self.loc, cast("list[Specification]", children))
-        self.copy_attrs(new)
-        return new
-
 class StructDefinition(Node):
     def __init__(
         self, loc: log.FileLocation, symbol: str, var_decls: list[VariableDeclaration]
@@ -1137,8 +1131,8 @@ class StructDefinition(Node):
         members_str_list = [str(s) + ";" for s in self.var_decls]
         return self.symbol + ": {" + " ".join(members_str_list) + "}"
     
-    def deepcopy(self, context: Context) -> StructDefinition:
-        var_decls = [v.deepcopy(context) for v in self.var_decls]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> StructDefinition:
+        var_decls = [v.deepcopy(context, memo) for v in self.var_decls]
         new = StructDefinition(self.loc, self.symbol, var_decls)
         return new
     
@@ -1157,8 +1151,8 @@ class EnumDefinition(Node):
         members_str_list = [str(s) + "," for s in self.var_defs]
         return self.symbol + ": {" + " ".join(members_str_list) + "}"
     
-    def deepcopy(self, context: Context) -> EnumDefinition:
-        var_defs = [v.deepcopy(context) for v in self.var_defs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumDefinition:
+        var_defs = [v.deepcopy(context, memo) for v in self.var_defs]
         new = EnumDefinition(self.loc, self.symbol, var_defs)
         return new
 
@@ -1171,7 +1165,7 @@ class VariableDeclaration(Node):
     def __str__(self) -> str:
         return f"{','.join(self.variables)}: {str(self.type)}"
 
-    def deepcopy(self, context: Context) -> VariableDeclaration:
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> VariableDeclaration:
         variables = [str(v) for v in self.variables]
         new = VariableDeclaration(self.loc, variables, self.type)
         return new
@@ -1185,8 +1179,8 @@ class Definition(Node):
     def __str__(self) -> str:
         return f"{self.symbol} := {self.expr}"
 
-    def deepcopy(self, context: Context) -> Definition:
-        new = Definition(self.loc, self.symbol, self.expr.deepcopy(context))
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> Definition:
+        new = Definition(self.loc, self.symbol, self.expr.deepcopy(context, memo))
         return new
 
 class StructSection(Node):
@@ -1200,14 +1194,10 @@ class StructSection(Node):
         structs_str_list = [str(s) + ";" for s in self.struct_defs]
         return "STRUCT\n\t" + "\n\t".join(structs_str_list)
     
-    def deepcopy(self, context: Context) -> StructSection:
-        struct_defs = [s.deepcopy(context) for s in self.struct_defs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> StructSection:
+        struct_defs = [s.deepcopy(context, memo) for s in self.struct_defs]
         new = StructSection(self.loc, struct_defs)
 
-        # Update context
-        for struct_def in new.struct_defs:
-            context.add_struct(struct_def.symbol, struct_def.members)
-
         return new
     
 class EnumSection(Node):
@@ -1221,14 +1211,10 @@ class EnumSection(Node):
         enums_str_list = [str(s) + ";" for s in self.enum_defs]
         return "ENUM\n\t" + "\n\t".join(enums_str_list)
     
-    def deepcopy(self, context: Context) -> EnumSection:
-        enum_defs = [s.deepcopy(context) for s in self.enum_defs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumSection:
+        enum_defs = [s.deepcopy(context, memo) for s in self.enum_defs]
         new = EnumSection(self.loc, enum_defs)
 
-        # Update context
-        for enum_def in new.enum_defs:
-            context.add_enum(enum_def.symbol, enum_def.members)
-
         return new
 
 class InputSection(Node):
@@ -1242,15 +1228,10 @@ class InputSection(Node):
         signals_str_list = [str(s) + ";" for s in self.signal_decls]
         return "INPUT\n\t" + "\n\t".join(signals_str_list)
 
-    def deepcopy(self, context: Context) -> InputSection:
-        signal_decls = [s.deepcopy(context) for s in self.signal_decls]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> InputSection:
+        signal_decls = [s.deepcopy(context, memo) for s in self.signal_decls]
         new = InputSection(self.loc, signal_decls)
 
-        # Update context
-        for signal_decl in new.signal_decls:
-            for signal in signal_decl.variables:
-                context.add_signal(signal, signal_decl.type)
-
         return new
 
 class DefineSection(Node):
@@ -1262,14 +1243,10 @@ class DefineSection(Node):
         defines_str_list = [str(s) + ";" for s in self.defines]
         return "DEFINE\n\t" + "\n\t".join(defines_str_list)
 
-    def deepcopy(self, context: Context) -> DefineSection:
-        defines = [d.deepcopy(context) for d in self.defines]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> DefineSection:
+        defines = [d.deepcopy(context, memo) for d in self.defines]
         new = DefineSection(self.loc, defines)
 
-        # Update context
-        for define in new.defines:
-            context.add_definition(define.symbol, define.expr)
-
         return new
 
 class SpecSection(Node):
@@ -1277,17 +1254,10 @@ class SpecSection(Node):
         super().__init__(loc)
         self.specs = specs
 
-    def deepcopy(self, context: Context) -> SpecSection:
-        specs = [cast(Specification, s.deepcopy(context)) for s in self.specs]
+    def deepcopy(self, context: Context, memo: dict[int, Expression]) -> SpecSection:
+        specs = [cast(Specification, s.deepcopy(context, memo)) for s in self.specs]
         new = type(self)(self.loc, specs)
 
-        # Update context
-        for spec in new.specs:
-            if isinstance(spec, Formula):
-                context.add_formula(spec.symbol, spec)
-            elif isinstance(spec, Contract):
-                context.add_contract(spec.symbol, spec)
-
         return new
 
 class FutureTimeSpecSection(SpecSection):
@@ -1422,9 +1392,19 @@ class Program(Node):
     def __repr__(self) -> str:
         return "\n".join([repr(s) for s in self.get_specs()])
 
-    def deepcopy(self, context: Context) -> Program:
-        sections = [s.deepcopy(context) for s in self.sections]
+    def deepcopy(self, context: Context, memo: Optional[dict[int, Expression]] = None) -> Program:
+        """
+        Deep copies the program. Every expression is copied once, so that what is shared in this program is shared in
+        the copy.
+        """
+        memo = {} if memo is None else memo
+        sections = [s.deepcopy(context, memo) for s in self.sections]
         new = Program(self.loc, sections)
+
+        # The passes may have replaced specifications of the sections
+        new.ft_spec_set = cast(SpecificationSet, self.ft_spec_set.deepcopy(context, memo))
+        new.pt_spec_set = cast(SpecificationSet, self.pt_spec_set.deepcopy(context, memo))
+
         new.total_scq_size = self.total_scq_size
         new.is_dummy = self.is_dummy
         new.is_well_typed = self.is_well_typed
@@ -1498,6 +1478,7 @@ class Context:
         """
         self.definitions.clear()
         self.structs.clear()
+        self.enums.clear()
         self.signals.clear()
         self.variables.clear()
         self.specifications.clear()
@@ -1566,12 +1547,12 @@ class Context:
         Deep copies the context, creating a new context with the same global options and statistics.
 
         Expressions are not deep copied, keeps the references to the original Expressions in case the program is not copied.
-        If the program is to be copied as well, the Expressions will be deep copied in the program.deepcopy() method.
-        In that case, use the `deepcopy_program_context()` function.
+        If the program is to be copied as well, use the `deepcopy_program_with_context()` function.
         """
         new = Context()
         new.definitions = { k: v for k, v in self.definitions.items() }
-        new.structs = { k: v for k, v in self.structs.items() }
+        new.structs = { k: dict(v) for k, v in self.structs.items() }
+        new.enums = { k: dict(v) for k, v in self.enums.items() }
         new.signals = { k: v for k, v in self.signals.items() }
         new.variables = { k: v for k, v in self.variables.items() }
         new.specifications = { k: v for k, v in self.specifications.items() }
@@ -1581,14 +1562,14 @@ class Context:
         new.bound_vars = { k: v for k, v in self.bound_vars.items() }
         new.signal_mapping = { k: v for k, v in self.signal_mapping.items() }
 
-        # Deepcopy is not needed for the assembly list
         # TODO: Consider warning user? Or have a check that assembly matches the program?
-        new.assembly = self.assembly 
+        new.assembly = list(self.assembly)
 
-        new.trace = self.trace
+        new.trace = list(self.trace)
         new.binary = self.binary
-        new.bounds = [cast(SymbolicIntervalVariable, b.deepcopy(new)) for b in self.bounds]
-        new.constraints = [c.deepcopy(new) for c in self.constraints]
+        new.r2u2_output = self.r2u2_output
+        new.bounds = list(self.bounds)
+        new.constraints = list(self.constraints)
         new.stats = self.stats.deepcopy()
         new.trace_length = self.trace_length
         new.is_ft = self.is_ft
@@ -1600,6 +1581,8 @@ class Context:
         new.map_filename = self.map_filename
         new.egglog_path = self.egglog_path
         new.smt_solver_path = self.smt_solver_path
+        new.r2u2_c_path = self.r2u2_c_path
+        new.r2u2_bin_path = self.r2u2_bin_path
         new.mission_time = self.mission_time
         new.enable_booleanizer = self.enable_booleanizer
         new.script_filename = self.script_filename
@@ -1684,9 +1667,10 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
             new = Atomic(expr.loc, memo[id(expr.get_expr())])
 
             # Update the atomic ID mappings to reflect the new expression
-            atomic_id = context.atomic_id_map[expr]
-            context.atomic_id_map[new] = atomic_id
-            context.atomic_expr_map[atomic_id] = new
+            if expr in context.atomic_id_map:
+                atomic_id = context.atomic_id_map[expr]
+                context.atomic_id_map[new] = atomic_id
+                context.atomic_expr_map[atomic_id] = new
         elif isinstance(expr, Signal):
             new = Signal(expr.loc, expr.symbol, expr.type)
             new.signal_id = expr.signal_id
@@ -1745,8 +1729,8 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
             new = SymbolicTemporalOperator(
                 expr.loc,
                 expr.operator,
-                expr.interval.lb,
-                expr.interval.ub,
+                deepcopy_expr(expr.interval.lb, context, memo),
+                deepcopy_expr(expr.interval.ub, context, memo),
                 new_children,
             )
         elif isinstance(expr, Operator):
@@ -1766,6 +1750,8 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
                 new_assumption,
                 new_guarantee,
             )
+        elif isinstance(expr, SpecificationSet):
+            new = SpecificationSet(expr.loc, cast("list[Specification]", [memo[id(c)] for c in expr.children]))
         else:
             raise NotImplementedError(f"deepcopy not implemented for expression type: {type(expr)}")
 
@@ -1775,8 +1761,51 @@ def deepcopy_expr(start: Expression, context: Context, memo: dict[int, Expressio
     return memo[id(start)]
 
 def deepcopy_program_with_context(program: Program, context: Context) -> tuple[Program, Context]:
-    new_program = program.deepcopy(context)
+    """
+    Deep copies `program` and `context`, which are left as they are. All expressions are copied with the same memo
+    dictionary, so the new program and context share expressions with each other just as the given ones do, and none
+    with the given ones.
+    """
+    memo: dict[int, Expression] = {}
     new_context = context.deepcopy()
+    new_program = program.deepcopy(new_context, memo)
+
+    def copy(expr: Expression) -> Any:
+        return deepcopy_expr(expr, new_context, memo)
+
+    new_context.definitions = { k: copy(v) for k, v in context.definitions.items() }
+    new_context.enums = { k: { m: copy(v) for m, v in d.items() } for k, d in context.enums.items() }
+    new_context.specifications = { k: copy(v) for k, v in context.specifications.items() }
+    new_context.contracts = { k: copy(v) for k, v in context.contracts.items() }
+    new_context.bounds = [copy(b) for b in context.bounds]
+    new_context.constraints = [copy(c) for c in context.constraints]
+    new_context.atomic_id_map = { copy(k): v for k, v in context.atomic_id_map.items() }
+    new_context.atomic_expr_map = { k: copy(v) for k, v in context.atomic_expr_map.items() }
+
+    # The passes depend on the parents of an expression, which may include ones that have been replaced since
+    exprs: dict[int, Expression] = {}
+    stack: list[Expression] = [program.ft_spec_set, program.pt_spec_set]
+    stack += [*context.definitions.values(), *context.specifications.values(), *context.contracts.values()]
+    stack += [*context.atomic_id_map.keys(), *context.atomic_expr_map.values(), *context.bound_vars.values()]
+    stack += [expr for members in context.enums.values() for expr in members.values()]
+    while len(stack) > 0:
+        expr = stack.pop()
+        if id(expr) in exprs or isinstance(expr, Bind):
+            continue
+        exprs[id(expr)] = expr
+        copy(expr)
+        stack += [*expr.children, *expr.parents]
+        if expr.replacement:
+            stack.append(expr.replacement)
+
+    for expr in exprs.values():
+        new = memo[id(expr)]
+        new.parents = { memo[id(parent)] for parent in expr.parents }
+        new.replacement = memo[id(expr.replacement)] if expr.replacement else None
+
+    # Copying visits set aggregations, which binds their variables
+    new_context.bound_vars = { k: copy(v) for k, v in context.bound_vars.items() }
+
     return new_program, new_context
 
 def rename(
-- 
2.43.0


From a837a5db76ccb2c584d39b99169e1c44cce186bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 41/49] fix: what is printed can be read back

The number of a set aggregation was left out; floats with an exponent, empty arrays and argument lists and enum sections were printed in a form the grammar does not have, and sqrt and abs, printed as prefix operators, could only be read with parentheses.
---
 compiler/c2po/cpt.py        | 37 +++++++++++++++++++++++--------------
 compiler/c2po/parse_c2po.py |  8 ++++----
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/compiler/c2po/cpt.py b/compiler/c2po/cpt.py
index b4adf0c..e6a3c75 100644
--- a/compiler/c2po/cpt.py
+++ b/compiler/c2po/cpt.py
@@ -1,5 +1,6 @@
 """C2PO Parse Tree (CPT) represents structure of a .c2po or .mltl file."""
 from __future__ import annotations
+import decimal
 import enum
 import pickle
 import re
@@ -1148,8 +1149,8 @@ class EnumDefinition(Node):
             self.members[var_def.symbol] = var_def.expr
 
     def __str__(self) -> str:
-        members_str_list = [str(s) + "," for s in self.var_defs]
-        return self.symbol + ": {" + " ".join(members_str_list) + "}"
+        members_str_list = [f"{s.symbol}: {s.expr}" for s in self.var_defs]
+        return self.symbol + ": {" + ", ".join(members_str_list) + "}"
     
     def deepcopy(self, context: Context, memo: dict[int, Expression]) -> EnumDefinition:
         var_defs = [v.deepcopy(context, memo) for v in self.var_defs]
@@ -2021,6 +2022,11 @@ def assign_signal_ids(program: Program, context: Context, signal_mapping: types.
 
     return missing_signals
 
+def to_decimal_str(value: float) -> str:
+    """Returns `value` in decimal notation without exponent, which C2PO does not have."""
+    s = format(decimal.Decimal(repr(value)), "f")
+    return s if "." in s else s + ".0"
+
 def to_infix_str(start: Expression) -> str:
     s = ""
 
@@ -2030,7 +2036,9 @@ def to_infix_str(start: Expression) -> str:
     while len(stack) > 0:
         (seen, expr) = stack.pop()
 
-        if isinstance(expr, Constant):
+        if isinstance(expr, Constant) and isinstance(expr.value, float):
+            s += to_decimal_str(expr.value)
+        elif isinstance(expr, Constant):
             s += expr.symbol.lower()
         elif isinstance(expr, (CurrentTimestamp, Variable, Signal, SymbolicIntervalVariable, MissionTime, Match)):
             s += expr.symbol
@@ -2047,14 +2055,12 @@ def to_infix_str(start: Expression) -> str:
             else:
                 s += f".{expr.member}"
         elif isinstance(expr, ArrayExpression):
+            if seen == 0:
+                s += "{"
             if seen == len(expr.children):
                 s += "}"
-            elif seen == 0:
-                s += "{"
-                stack.append((seen + 1, expr))
-                stack.append((0, expr.children[0]))
             else:
-                s += ", "
+                s += ", " if seen > 0 else ""
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.children[seen]))
         elif isinstance(expr, ArraySlice):
@@ -2066,22 +2072,25 @@ def to_infix_str(start: Expression) -> str:
         elif isinstance(expr, (Struct, FunctionCall)) or is_operator(
             expr, OperatorKind.COUNT
         ):
+            if seen == 0:
+                s += f"{expr.symbol}("
             if seen == len(expr.children):
                 s += ")"
-            elif seen == 0:
-                s += f"{expr.symbol}("
-                stack.append((seen + 1, expr))
-                stack.append((0, expr.children[0]))
             else:
-                s += ", "
+                s += ", " if seen > 0 else ""
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.children[seen]))
         elif isinstance(expr, SetAggregation):
+            num = expr.get_num()
             if seen == 0:
                 s += f"{expr.symbol}({expr.bound_var} : "
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_set()))
-            elif seen == 1:
+            elif seen == 1 and num is not None:
+                s += ", "
+                stack.append((seen + 1, expr))
+                stack.append((0, num))
+            elif seen == 1 or (seen == 2 and num is not None):
                 s += ")("
                 stack.append((seen + 1, expr))
                 stack.append((0, expr.get_expr()))
diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index f8265f1..a292a98 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -479,13 +479,13 @@ class C2POParser(sly.Parser):
     def expr(self, p):
         return cpt.Operator.ArithmeticNegate(log.FileLocation(self.filename, p.lineno), p[1])
     
-    @_("ARITH_SQRT LPAREN expr RPAREN")
+    @_("ARITH_SQRT expr")
     def expr(self, p):
-        return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[2])
+        return cpt.Operator.ArithmeticSqrt(log.FileLocation(self.filename, p.lineno), p[1])
     
-    @_("ARITH_ABS LPAREN expr RPAREN")
+    @_("ARITH_ABS expr")
     def expr(self, p):
-        return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[2])
+        return cpt.Operator.ArithmeticAbs(log.FileLocation(self.filename, p.lineno), p[1])
         
     @_("PREV LPAREN expr COMMA expr RPAREN")
     def expr(self, p):
-- 
2.43.0


From a981b00c66f409a3337af2b65ffcc0532ee03c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 42/49] fix: parse empty arrays

---
 compiler/c2po/parse_c2po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index a292a98..8c811ce 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -411,7 +411,7 @@ class C2POParser(sly.Parser):
     # Empty array expression
     @_("LBRACE RBRACE")
     def expr(self, p):
-        return cpt.ArrayExpression(ln, [])
+        return cpt.ArrayExpression(log.FileLocation(self.filename, p.lineno), [])
 
     # Parameterized set aggregation expression
     @_("KW_FOREXACTLY LPAREN SYMBOL COLON expr COMMA expr RPAREN LPAREN expr RPAREN")
-- 
2.43.0


From fe6ed293ff29e2768b16a74575fea7ca77ebf8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 43/49] fix: identifiers may begin with prev

---
 compiler/c2po/parse_c2po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 8c811ce..75a4039 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -56,7 +56,6 @@ class C2POLexer(sly.Lexer):
     # ARITH_PM    = r"\+/-|±"
 
     # Others
-    PREV = r'prev'
     CONTRACT_ASSIGN = r"=>"
     ASSIGN  = r":="
     SYMBOL  = r"[a-zA-Z_][a-zA-Z0-9_]*"
@@ -90,6 +89,7 @@ class C2POLexer(sly.Lexer):
     SYMBOL["sqrt"] = ARITH_SQRT
     SYMBOL["abs"]  = ARITH_ABS
     SYMBOL["xor"]  = LOG_XOR
+    SYMBOL["prev"] = PREV
     SYMBOL['G'] = TL_GLOBAL
     SYMBOL['F'] = TL_FUTURE
     SYMBOL['H'] = TL_HIST
-- 
2.43.0


From 675c5b5260d396e1a419f5b16090d2289c920bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 44/49] fix: a specification with illegal characters is not
 accepted

---
 compiler/c2po/parse_c2po.py | 4 +++-
 compiler/c2po/parse_mltl.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/c2po/parse_c2po.py b/compiler/c2po/parse_c2po.py
index 75a4039..3009843 100644
--- a/compiler/c2po/parse_c2po.py
+++ b/compiler/c2po/parse_c2po.py
@@ -105,12 +105,14 @@ class C2POLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     # Extra action for newlines
     def ignore_newline(self, t):
         self.lineno += t.value.count("\n")
 
     def error(self, t):
+        self.status = False
         log.error(f"illegal character '{t.value[0]}'", log.FileLocation(self.filename, self.lineno))
         self.index += 1
 
@@ -703,7 +705,7 @@ def parse_c2po(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: C2POParser = C2POParser(options["filename"], context.mission_time)
     sections: list[cpt.C2POSection] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not lexer.status or not parser.status:
         return None
 
     return cpt.Program(0, sections)
diff --git a/compiler/c2po/parse_mltl.py b/compiler/c2po/parse_mltl.py
index 7f586c9..ae29873 100644
--- a/compiler/c2po/parse_mltl.py
+++ b/compiler/c2po/parse_mltl.py
@@ -53,8 +53,10 @@ class MLTLLexer(sly.Lexer):
     def __init__(self, filename: str):
         super().__init__()
         self.filename = filename
+        self.status = True
 
     def error(self, t):
+        self.status = False
         log.error(f"Illegal character '%s' {t.value[0]}", log.FileLocation(self.filename, t.lineno))
         self.index += 1
 
@@ -278,7 +280,7 @@ def parse_mltl(context: cpt.Context, options: dict[str, Any]) -> Optional[cpt.Pr
     parser: MLTLParser = MLTLParser(options["filename"], options["mission_time"])
     output: tuple[cpt.Program, types.SignalMapping] = parser.parse(lexer.tokenize(contents))
 
-    if not parser.status:
+    if not lexer.status or not parser.status:
         return None
 
     program, signal_mapping = output
-- 
2.43.0


From b72fc9abbde65f47e07bb873952d500a3bba7b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:19 +0000
Subject: [PATCH 45/49] fix: comparisons are false beyond the end of a trace in
 the UFLIA encoding

As signals are; otherwise the strict encoding answered sat for traces that satisfy nothing.
---
 compiler/c2po/sat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index bce9127..ad2d5c9 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -738,17 +738,17 @@ def to_uflia_smtlib2(
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.EQUAL):
-            return f"({fun_signature} (= ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} (and (> len k) (= ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.NOT_EQUAL):
-            return f"({fun_signature} (not (= ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len))))"
+            return f"({fun_signature} (and (> len k) (not (= ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.GREATER_THAN):
-            return f"({fun_signature} (> ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} (and (> len k) (> ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.GREATER_THAN_OR_EQUAL):
-            return f"({fun_signature} (>= ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} (and (> len k) (>= ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.LESS_THAN):
-            return f"({fun_signature} (< ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} (and (> len k) (< ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.LESS_THAN_OR_EQUAL):
-            return f"({fun_signature} (<= ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} (and (> len k) (<= ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len))))"
         elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_NEGATE):
             return f"({fun_signature} (not ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.LOGICAL_AND):
-- 
2.43.0


From 811150c29ae723f127b9ea44c67a3a3a11f24f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 46/49] fix: division and remainder of negative numbers in the
 SMT encodings

They are those of the monitor, which round towards zero.
---
 compiler/c2po/sat.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index ad2d5c9..10a591b 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -168,6 +168,14 @@ def to_smt_type(t: types.Type) -> str:
         return "Real"
     return "NoType"
 
+def to_smt_division(lhs: str, rhs: str) -> str:
+    """Returns the quotient of two SMT terms rounded towards zero as R2U2 does (the `div` of SMT-LIB rounds down for a negative `lhs`)."""
+    return f"(ite (>= {lhs} 0) (div {lhs} {rhs}) (- (div (- {lhs}) {rhs})))"
+
+def to_smt_modulo(lhs: str, rhs: str) -> str:
+    """Returns the remainder of two SMT terms with the sign of `lhs` as R2U2 does (the `mod` of SMT-LIB is never negative)."""
+    return f"(ite (>= {lhs} 0) (mod {lhs} {rhs}) (- (mod (- {lhs}) {rhs})))"
+
 def to_qf_bv_smtlib2(start: cpt.Expression, context: cpt.Context, strict: bool) -> Optional[str]:
     """Encodes the given expression into an SMT encoding using the QF_BV theory and returns it. Returns None if the encoding fails."""
     log.debug(
@@ -481,12 +489,12 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} {to_smt_division(f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
             smt_commands.append(
-                f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+                f"({fun_signature} {to_smt_modulo(f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
             )
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             smt_commands.append(
@@ -731,10 +739,10 @@ def to_uflia_smtlib2(
             return f"({fun_signature} (* ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_DIVIDE):
             is_nonlinear = True
-            return f"({fun_signature} (div ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} {to_smt_division(f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_MODULO):
             is_nonlinear = True
-            return f"({fun_signature} (mod ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
+            return f"({fun_signature} {to_smt_modulo(f'({expr_map[expr.children[0]]} k len)', f'({expr_map[expr.children[1]]} k len)')})"
         elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_NEGATE):
             return f"({fun_signature} (- ({expr_map[expr.children[0]]} k len)))"
         elif cpt.is_operator(expr, cpt.OperatorKind.EQUAL):
-- 
2.43.0


From 34a5adcac942a517452238d1f6f3359e0d8f228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 47/49] fix: encode arithmetic negation in QF_UFLIA

Its operator kind is an alias of subtraction, so the encoder looked for a second operand.
---
 compiler/c2po/sat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index 10a591b..e8a4095 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -477,7 +477,7 @@ def to_qf_uflia_smtlib2(start: cpt.Expression, context: cpt.Context, strict: boo
             smt_commands.append(
                 f"({fun_signature} (+ ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT):
+        elif cpt.is_operator(expr, cpt.OperatorKind.ARITHMETIC_SUBTRACT) and len(expr.children) == 2:
             smt_commands.append(
                 f"({fun_signature} (- ({expr_map[expr.children[0]]} k len) ({expr_map[expr.children[1]]} k len)))"
             )
-- 
2.43.0


From 608f595309130b6d1294a1f7bd39edeeae0d1d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 48/49] fix: check_equiv does not answer equiv if a formula
 cannot be encoded

---
 compiler/c2po/sat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/c2po/sat.py b/compiler/c2po/sat.py
index e8a4095..d8c38b8 100644
--- a/compiler/c2po/sat.py
+++ b/compiler/c2po/sat.py
@@ -1414,6 +1414,7 @@ def check_equiv(program: cpt.Program, context: cpt.Context, options: dict[str, A
         if equiv_smt is None:
             log.error("failed to generate SMT encoding for equivalence", spec1.loc)
             status = False
+            equiv = equiv if equiv == EquivResult.NOT_EQUIV else EquivResult.UNKNOWN
             continue
 
         result = run_smt_solver(
-- 
2.43.0


From 3468b4ca754dc9766a582d0a4af094231c2ef9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:34 +0000
Subject: [PATCH 49/49] fix: a Boolean signal with blanks around it is read as
 true

Without the Booleanizer, r2u2_load_string_signal compared the whole text
with "0", so the columns of a trace written as "1, 0", or the last
column of a file with CRLF line ends, always read as true.
---
 monitors/c/src/lib.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monitors/c/src/lib.c b/monitors/c/src/lib.c
index 2288728..1beb96d 100644
--- a/monitors/c/src/lib.c
+++ b/monitors/c/src/lib.c
@@ -54,7 +54,9 @@ void r2u2_load_float_signal(r2u2_monitor_t* monitor, size_t index, r2u2_float va
 
 void r2u2_load_string_signal(r2u2_monitor_t* monitor, size_t index, char* value){
   if (monitor->bz_program_count.max_program_count == 0) {
-    monitor->atomic_buffer[index] = (strcmp(value,"0") != 0);
+    // Blanks around the value (or the end of a CRLF line) are not part of it
+    value += strspn(value, " \t");
+    monitor->atomic_buffer[index] = !(value[0] == '0' && strcspn(value, " \t\r\n") == 1);
   } else {
     //Note that to be interpreted as a float, the string value must include a decimal point
     if (strchr(value, '.') != NULL){
-- 
2.43.0

