From 8d72fbd3c09beb3e87d30c4aa07db55b31002cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 01/32] fix: LU decomposition of problems with fewer than two
 rows

identity, rows and change_basis assumed at least two rows: a problem with a
single row panicked at the first basis change or refactorization, a problem
without rows when creating the identity.
---
 .../carry/lower_upper/decomposition/mod.rs          |  7 +++----
 .../inverse_maintenance/carry/lower_upper/mod.rs    | 13 ++++++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 27abed3..03e0f4a 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -29,14 +29,13 @@ where
 
         // The number of columns gets smaller over time.
         let m = rows.len();
-        debug_assert!(m > 1);
 
         // These values will be returned.
         // They stay the same size, although nothing will be changed in the last indices once they
         // have been processed.
         let mut row_permutation = (0..m).collect::<Vec<_>>();
         let mut column_permutation = (0..m).collect::<Vec<_>>();
-        let mut lower_triangular_row_major = vec![Vec::new(); m - 1];
+        let mut lower_triangular_row_major = vec![Vec::new(); m.saturating_sub(1)];
 
         // These values get smaller over time.
         let (mut nnz_row, mut nnz_column) = count_non_zeros(&rows);
@@ -106,7 +105,7 @@ where
         }
 
         // We collected row-major but need column major, so transpose
-        let mut upper_triangular = vec![Vec::new(); m - 1];
+        let mut upper_triangular = vec![Vec::new(); m.saturating_sub(1)];
         let mut upper_diagonal = Vec::with_capacity(m);
         for (i, row) in rows.into_iter().enumerate() {
             let mut iter = row.into_iter();
@@ -117,7 +116,7 @@ where
                 upper_triangular[j - 1].push((i, value));
             }
         }
-        let mut lower_triangular = vec![Vec::new(); m - 1];
+        let mut lower_triangular = vec![Vec::new(); m.saturating_sub(1)];
         for (i, row) in lower_triangular_row_major.into_iter().enumerate()
             // We collected starting at row 1, but the lowest row index was 1.
             .map(|(i, v)| (i + 1, v)) {
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 6ac98e0..45f9a48 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -68,8 +68,8 @@ where
         Self {
             row_permutation: FullPermutation::identity(m),
             column_permutation: FullPermutation::identity(m),
-            lower_triangular: vec![vec![]; m - 1],
-            upper_triangular: vec![vec![]; m - 1],
+            lower_triangular: vec![vec![]; m.saturating_sub(1)],
+            upper_triangular: vec![vec![]; m.saturating_sub(1)],
             upper_diagonal: vec![F::one(); m],
             updates: vec![],
         }
@@ -138,6 +138,14 @@ where
             "This value should be present to avoid singularity because it will be the bottom corner value.",
         );
 
+        let q = RotateToBackPermutation::new(pivot_column_index, m);
+        if m == 1 {
+            // There are no off-diagonal columns, the spike is only the new diagonal value
+            self.upper_diagonal[0] = spike.pop().unwrap().1;
+            self.updates.push((eta_file, q));
+            return column;
+        }
+
         let disappearing_column_index = if pivot_column_index == 0 {
             // The first column is replaced, but this column is not explicitly represented in the
             // `upper_triangular` field. The non-diagonal item of the second column, if it exists,
@@ -155,7 +163,6 @@ where
         self.upper_diagonal[pivot_column_index..].rotate_left(1);
 
         // Rotate the "empty except for one value" pivot row to the bottom
-        let q = RotateToBackPermutation::new(pivot_column_index, self.m());
         for j in max(pivot_column_index, 1)..m {
             q.forward_sorted(&mut self.upper_triangular[j - 1]);
         }
-- 
2.43.0


From 9efb09c7852c4124cafc0a4cc77e1082779341e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:21 +0000
Subject: [PATCH 02/32] fix: objective value of maximization problems

The value reported was computed from the negated costs plus the fixed cost
with its original sign. Report the value of the objective of the original
problem, as a fully presolved problem already did.
---
 src/data/linear_program/general_form/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index c3b1019..7325dfd 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -620,10 +620,11 @@ where
     }
 
     /// Make this a minimization problem by multiplying the cost function by `-1`.
+    ///
+    /// Note that the `objective` field and the `fixed_cost` keep describing the objective of the
+    /// original problem; the value of that objective is what gets reported in a `Solution`.
     fn make_minimization_problem(&mut self) {
         if self.objective == Objective::Maximize {
-            self.objective = Objective::Minimize;
-
             for variable in &mut self.variables {
                 variable.cost *= -OF::one();
             }
@@ -849,9 +850,14 @@ where
     {
         debug_assert_eq!(reduced_solution.len(), self.variables.len());
 
-        let cost = reduced_solution.iter()
+        let minimized = reduced_solution.iter()
             .map(|(j, v)| v * &self.variables[j].cost)
-            .sum::<G>() + &self.fixed_cost;
+            .sum::<G>();
+        // The costs were negated if this was a maximization problem, the fixed cost was not.
+        let cost = match self.objective {
+            Objective::Minimize => minimized,
+            Objective::Maximize => -minimized,
+        } + &self.fixed_cost;
         self.reshift_solution(&mut reduced_solution);
 
         // To avoid recomputations, we store all computed intermediate values in this collection.
-- 
2.43.0


From f5b5c78128c2325af8cfcb7bf28d2cb49adff2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:55 +0000
Subject: [PATCH 03/32] fix: range constraints attaining their upper bound at
 the lower activity bound

A range constraint whose lower activity bound equals the right hand side is
reachable; all variables are then fixed at a bound just like for the other
relations.
---
 .../general_form/presolve/rule/domain_propagation.rs   | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index e481b45..408ba73 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -255,8 +255,8 @@ where
                 Err(LinearProgramType::Infeasible)
             },
 
-            // `l <= <a, x> (== <=) b == l`
-            (BoundDirection::Lower, Equal | Less, Ordering::Equal) |
+            // `l <= <a, x> (== =r= <=) b == l`
+            (BoundDirection::Lower, Equal | Range(_) | Less, Ordering::Equal) |
             // `u >= <a, x> (== >=) b = u`
             (BoundDirection::Upper, Equal | Greater, Ordering::Equal) => {
                 Ok(Some(ConstraintUpdate::SetVariablesToBound))
@@ -305,12 +305,6 @@ where
             (BoundDirection::Upper, Equal | Range(_) | Less | Greater, Ordering::Less) => {
                 Ok(None)
             },
-
-            // `l <= <a, x> =r= b == l`
-            (BoundDirection::Lower, Range(_), Ordering::Equal) => {
-                unreachable!("Would require the range to be zero, in which case it should be an \
-                              equality bound instead.")
-            },
         }
     }
 
-- 
2.43.0


From 27f94716f28063159ba0f036194c6fea7b039351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:12 +0000
Subject: [PATCH 04/32] fix: skip substitutions of variables that were already
 removed

A variable can be queued for substitution more than once. When such a stale
entry was popped, lower priority rules that assume that no substitution is
pending were applied.
---
 src/data/linear_program/general_form/presolve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 76cebc2..742d1e4 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -126,7 +126,7 @@ where
     /// `Err` type.
     pub(super) fn presolve_step(&mut self) -> Result<Change, LinearProgramType<OF>> {
         // Rules that are guaranteed to make the problem smaller
-        if let Some(variable) = self.queues.substitution.pop() {
+        while let Some(variable) = self.queues.substitution.pop() {
             if self.counters.is_variable_still_active(variable) {
                 return self.presolve_fixed_variable(variable)
                     // always removes a variable
-- 
2.43.0


From 2a51c3c19578a15edd6fd81f608a140347276200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:38 +0000
Subject: [PATCH 05/32] fix: keep cached activity bounds in sync while
 presolving

The right hand side of a row changes when a variable is substituted or a slack
is eliminated, and bounds change when variables are set to a bound. The cached
activity bounds of the affected rows were not adjusted, such that later domain
propagation compared values of different versions of the row.
---
 .../presolve/rule/domain_propagation.rs         | 15 ++++++++++++---
 .../presolve/rule/fixed_variable.rs             |  8 +++++++-
 .../general_form/presolve/rule/slack.rs         | 17 +++++++++++++++++
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 408ba73..1f4c7c0 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -176,6 +176,7 @@ where
                 },
                 ConstraintUpdate::SetVariablesToBound => {
                     let mut activity_counters_to_update = Vec::new();
+                    let mut activity_bounds_to_update = Vec::new();
                     for (variable, coefficient) in self.counters.iter_active_row(constraint) {
                         let variable_direction = direction * coefficient.non_zero_signum();
                         let bound = self.updates.variable_bound(variable, variable_direction)
@@ -189,9 +190,14 @@ where
                             self.updates.bounds.insert((variable, variable_direction), bound_value);
                         }
                         // Update the other bound to be the same
-                        let change = self.updates.update_bound(variable, !variable_direction, bound.clone());
-                        if change == BoundChange::NewBound {
-                            activity_counters_to_update.push((variable, !variable_direction));
+                        match self.updates.update_bound(variable, !variable_direction, bound.clone()) {
+                            BoundChange::None => {},
+                            BoundChange::NewBound => {
+                                activity_counters_to_update.push((variable, !variable_direction));
+                            },
+                            BoundChange::BoundShift(shift) => {
+                                activity_bounds_to_update.push((variable, !variable_direction, shift));
+                            },
                         }
                         debug_assert!(self.updates.is_variable_fixed(variable).is_some());
 
@@ -201,6 +207,9 @@ where
                     for (variable, direction) in activity_counters_to_update {
                         self.update_activity_counters(variable, direction);
                     }
+                    for (variable, direction, shift) in activity_bounds_to_update {
+                        self.update_activity_bounds(variable, direction, shift);
+                    }
 
                     (true, false)
                 }
diff --git a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
index 76ecda9..ea05173 100644
--- a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
+++ b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
@@ -29,7 +29,13 @@ where
         let value = self.updates.is_variable_fixed(variable).unwrap().clone();
 
         for (constraint, coefficient) in self.counters.iter_active_column(variable) {
-            self.updates.change_b(constraint, -coefficient * &value);
+            let contribution = coefficient * &value;
+            // The variable is no longer part of the row, so also not part of its activity.
+            let (lower, upper) = &mut self.activity_bounds[constraint];
+            for activity_bound in lower.iter_mut().chain(upper.iter_mut()) {
+                *activity_bound -= &contribution;
+            }
+            self.updates.change_b(constraint, -contribution);
         }
         self.updates.fixed_cost += &self.general_form.variables[variable].cost * &value;
 
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 0c96df4..73fe3ea 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -157,6 +157,23 @@ where
             },
         };
 
+        // The variable is no longer part of the row, so also not part of its activity.
+        let (at_lower, at_upper) = (
+            lower.map(|bound| &coefficient * bound),
+            upper.map(|bound| &coefficient * bound),
+        );
+        let (activity_lower, activity_upper) = match coefficient_sign {
+            Positive => (at_lower, at_upper),
+            Negative => (at_upper, at_lower),
+        };
+        let row_activity = &mut self.activity_bounds[constraint];
+        if let (Some(row), Some(contribution)) = (&mut row_activity.0, activity_lower) {
+            *row -= contribution;
+        }
+        if let (Some(row), Some(contribution)) = (&mut row_activity.1, activity_upper) {
+            *row -= contribution;
+        }
+
         let change = -&coefficient * &bound;
 
         let removed = match constraint_type {
-- 
2.43.0


From c899f5de34107aae2f5c1ad40221dda08a932c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:15 +0000
Subject: [PATCH 06/32] fix: keep derived bounds that made a constraint
 redundant

When one side of a constraint is implied by variable bounds, it's dropped. If
those bounds were themselves derived they could still be discarded afterwards,
such that nothing implied the dropped side.
---
 .../presolve/rule/domain_propagation.rs            | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 1f4c7c0..53188a9 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -166,6 +166,16 @@ where
     ) -> Result<(bool, bool), LinearProgramType<OF>> {
         let constraint_update = self.constraint_update(constraint, bound, direction)?;
         if let Some(change) = constraint_update {
+            // One side of the constraint is about to be dropped because it's implied by the variable
+            // bounds that the activity bound is made up of. From here on the problem depends on
+            // them, so move them over to the "permanent" bound changes.
+            for (variable, coefficient) in self.counters.iter_active_row(constraint) {
+                let key = (variable, direction * coefficient.non_zero_signum());
+                if let Some(bound_value) = self.updates.activity_bounds.remove(&key) {
+                    self.updates.bounds.insert(key, bound_value);
+                }
+            }
+
             let (remove_constraint, apply_variable_part) = match change {
                 ConstraintUpdate::Remove => (true, true), // TODO(CORRECTNESS): Should the second value be changed to `false`?
                 ConstraintUpdate::Replace(new_inequality, right_hand_side_shift) => {
@@ -185,10 +195,6 @@ where
                             // TODO(ARCHITECTURE): Try to avoid this clone.
                             .clone();
 
-                        // Move the bound over to the "permanent" bound changes
-                        if let Some(bound_value) = self.updates.activity_bounds.remove(&(variable, variable_direction)) {
-                            self.updates.bounds.insert((variable, variable_direction), bound_value);
-                        }
                         // Update the other bound to be the same
                         match self.updates.update_bound(variable, !variable_direction, bound.clone()) {
                             BoundChange::None => {},
-- 
2.43.0


From 6d6e63b093e971a623536b44cae8744a1074957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 07/32] fix: right hand side after removing a one sided slack
 from a range constraint

When the slack makes the upper bound of a range constraint vanish, the bound
that remains is the lower bound b - r, not b.
---
 .../linear_program/general_form/presolve/rule/slack.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 73fe3ea..fa6a9a9 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -45,7 +45,7 @@ where
     /// <=  || <a, x> <= b - cl |                  |      <a, x> <= b - cl      |      |
     /// ==  || <a, x> <= b - cl | <a, x> >= b - cu |   <a, x> =c(u-l)= b - cl   |      |
     /// >=  ||                  | <a, x> >= b - cu |      <a, x> >= b - cu      |      |
-    /// =r= || <a, x> <= b - cl | <a, x> >= b - cu | <a, x> =r + c(u-l)= b - cl |      |
+    /// =r= || <a, x> <= b - cl |   >= b - r - cu  | <a, x> =r + c(u-l)= b - cl |      |
     ///
     /// When c < 0:
     ///     ||      s >= l      |      s <= u      |         l <= s <= u        | free |
@@ -53,7 +53,7 @@ where
     /// <=  ||                  | <a, x> <= b - cu |      <a, x> <= b - cu      |      |
     /// ==  || <a, x> >= b - cl | <a, x> <= b - cu |   <a, x> =c(l-u)= b - cu   |      |
     /// >=  || <a, x> >= b - cl |                  |      <a, x> >= b - cl      |      |
-    /// =r= || <a, x> >= b - cl | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
+    /// =r= ||   >= b - r - cl  | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
     ///
     /// Note that nothing changes when the constraint is of type == and s has both a lower and
     /// upper bound (regardless of the sign of c). If a bound is adapted, the column is removed
@@ -174,7 +174,11 @@ where
             *row -= contribution;
         }
 
-        let change = -&coefficient * &bound;
+        let mut change = -&coefficient * &bound;
+        if let (Range(range), Greater) = (constraint_type, &new_constraint_type) {
+            // Only the lower bound `b - r` of the range constraint remains.
+            change -= range;
+        }
 
         let removed = match constraint_type {
             Equal | Range(_) => {
-- 
2.43.0


From a476c69de960c17038ef03a98e437a6a6de15851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 08/32] fix: detect crossing variable bounds when they are
 derived

Domain propagation can derive a lower bound larger than the upper bound. The
problem is infeasible in that case; continuing panics later on or sets the
variable to a value outside of its bounds.
---
 .../general_form/presolve/mod.rs              | 11 ++++++++-
 .../presolve/rule/bound_constraint.rs         |  4 ++--
 .../presolve/rule/domain_propagation.rs       | 24 ++++++++++---------
 3 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 742d1e4..4d893da 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -176,18 +176,25 @@ where
     /// * `direction`: Whether the lower- or upper variable bound was updated.
     /// * `change`: Whether another bound was previously known, and the difference between the
     /// former and current bound.
+    ///
+    /// # Errors
+    ///
+    /// If the bounds of the variable are now crossing, the problem is infeasible.
     fn after_bound_change(
         &mut self,
         variable: usize,
         direction: BoundDirection,
         change: Option<OF>,
-    ) {
+    ) -> Result<(), LinearProgramType<OF>> {
         debug_assert!(self.updates.removed_variables.iter().all(|&(j, _)| variable != j));
         debug_assert!(match direction {
             BoundDirection::Lower => change.as_ref().map_or(true, |v| v.is_positive()),
             BoundDirection::Upper => change.as_ref().map_or(true, |v| v.is_negative()),
         });
 
+        if self.updates.variable_feasible_value(variable).is_none() {
+            return Err(LinearProgramType::Infeasible);
+        }
         if self.updates.is_variable_fixed(variable).is_some() && self.counters.is_variable_still_active(variable) {
             self.queues.substitution.push(variable);
         }
@@ -196,6 +203,8 @@ where
             Some(difference) => self.update_activity_bounds(variable, direction, difference),
             None => self.update_activity_counters(variable, direction),
         }
+
+        Ok(())
     }
 
     /// Update an activity bound if it exists.
diff --git a/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs b/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
index ab2ba64..e618f81 100644
--- a/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
+++ b/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
@@ -74,8 +74,8 @@ where
         for (direction, bound_value) in changes {
             match self.updates.update_bound(variable, direction, bound_value) {
                 BoundChange::None => {}
-                BoundChange::NewBound => self.after_bound_change(variable, direction, None),
-                BoundChange::BoundShift(shift) => self.after_bound_change(variable, direction, Some(shift)),
+                BoundChange::NewBound => self.after_bound_change(variable, direction, None)?,
+                BoundChange::BoundShift(shift) => self.after_bound_change(variable, direction, Some(shift))?,
             }
         }
 
diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 53188a9..0750655 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -51,7 +51,7 @@ where
 
         match counter {
             0 => self.for_entire_constraint(constraint, direction),
-            1 => Ok(self.create_variable_bound(constraint, direction)),
+            1 => self.create_variable_bound(constraint, direction),
             _ => unreachable!("Constraint should not be added to the activity queue before the counter is 0 or 1."),
         }
     }
@@ -99,7 +99,7 @@ where
                     &activity_bound,
                     direction,
                     &mut most_meaningful_change,
-                );
+                )?;
             }
         }
 
@@ -347,7 +347,7 @@ where
         activity_bound: &OF,
         activity_direction: BoundDirection,
         made_change: &mut Change,
-    ) {
+    ) -> Result<(), LinearProgramType<OF>> {
         let targets = self.counters.iter_active_row(constraint)
             .map(|(i, v)| (i, v.clone())) // TODO(ARCHITECTURE): Avoid this clone
             .collect::<Vec<_>>();
@@ -370,17 +370,19 @@ where
             match change {
                 BoundChange::None => {},
                 BoundChange::NewBound => {
-                    self.after_bound_change(variable, new_variable_bound_direction, None);
+                    self.after_bound_change(variable, new_variable_bound_direction, None)?;
                     *made_change = Change::Meaningful;
                 },
                 BoundChange::BoundShift(change) => {
-                    self.after_bound_change(variable, new_variable_bound_direction, Some(change));
+                    self.after_bound_change(variable, new_variable_bound_direction, Some(change))?;
                     if *made_change != Change::Meaningful {
                         *made_change = Change::NotMeaningful;
                     }
                 },
             }
         }
+
+        Ok(())
     }
 
     /// Apply domain propagation through activation bounds for a constraint where all but one of the
@@ -394,7 +396,7 @@ where
         &mut self,
         constraint: usize,
         activity_direction: BoundDirection,
-    ) -> Change {
+    ) -> Result<Change, LinearProgramType<OF>> {
         // We should be exactly one variable bound away from being able to compute an activity
         // bound, otherwise, a different rule should be applied.
         debug_assert_eq!(
@@ -406,7 +408,7 @@ where
         );
 
         let right_hand_side = match self.can_variable_rule_be_applied(constraint, activity_direction) {
-            None => return Change::None,
+            None => return Ok(Change::None),
             Some(value) => value,
         };
 
@@ -427,17 +429,17 @@ where
         // Compute the variable bound and apply the change.
         let value = (right_hand_side - total_activity) / target_coefficient;
         let bound_direction = !activity_direction * target_coefficient.non_zero_signum();
-        match self.updates.update_activity_variable_bound(target_column, bound_direction, value) {
+        Ok(match self.updates.update_activity_variable_bound(target_column, bound_direction, value) {
             BoundChange::None => Change::None,
             BoundChange::NewBound => {
-                self.after_bound_change(target_column, bound_direction, None);
+                self.after_bound_change(target_column, bound_direction, None)?;
                 Change::Meaningful
             },
             BoundChange::BoundShift(shift) => {
-                self.after_bound_change(target_column, bound_direction, Some(shift));
+                self.after_bound_change(target_column, bound_direction, Some(shift))?;
                 Change::NotMeaningful
             },
-        }
+        })
     }
 
     fn can_variable_rule_be_applied(&self, constraint: usize, activity_direction: BoundDirection) -> Option<OF> {
-- 
2.43.0


From ab379a97b123395a7c9718d4a69211dc82e516dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 09/32] fix: update a constraint before testing whether it's
 empty

Removing a slack from a constraint in which it is the last variable tested the
feasibility of the empty constraint against its old type and right hand side.
---
 .../linear_program/general_form/presolve/rule/slack.rs     | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index fa6a9a9..2f4135a 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -190,13 +190,12 @@ where
         self.remove_variable(variable, removed);
 
         self.update_activity_queues_if_needed(constraint, bounds_is_none, coefficient_sign);
-        self.counters.constraint[constraint] -= 1;
-        self.queue_constraint_by_counter(constraint).map(|_| ())?;
-
+        // Needs to happen before the constraint might be tested and removed because it's empty.
         self.updates.change_b(constraint, change);
         self.updates.constraints.insert(constraint, new_constraint_type);
 
-        Ok(())
+        self.counters.constraint[constraint] -= 1;
+        self.queue_constraint_by_counter(constraint).map(|_| ())
     }
 
     fn update_activity_queues_if_needed(
-- 
2.43.0


From 5219b31a6658e88068253bd935f13d1fe3c27f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 10/32] fix: don't call an infeasible problem unbounded while
 presolving

A variable that appears in no constraint (anymore) and can be improved
indefinitely shows that the problem is unbounded only when the remaining
constraints are known to be feasible.
---
 src/data/linear_program/general_form/mod.rs   |  5 +++
 .../general_form/presolve/mod.rs              | 16 +++++-----
 .../general_form/presolve/updates.rs          | 31 ++++++++++---------
 3 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 7325dfd..57f150a 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -405,6 +405,11 @@ where
             }
         }
 
+        if index.updates.nr_constraints_remaining() == 0 && index.updates.nr_variables_remaining() > 0 {
+            // There is a feasible point, but at least one variable can be improved indefinitely.
+            return Err(LinearProgramType::Unbounded);
+        }
+
         Ok(index.updates.into_changes())
     }
 
diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 4d893da..29a53af 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -308,7 +308,9 @@ where
 
     /// When the variable counter drops low, this has implications for rules that should be tested.
     ///
-    /// Note that if a variable has no coefficients, we solve it directly in this function.
+    /// Note that if a variable has no coefficients, we solve it directly in this function. If it has
+    /// no optimal value, it's left in the problem: whether the problem is unbounded depends on
+    /// whether the rest of the problem is feasible.
     fn queue_variable_by_counter(&mut self, variable: usize) -> Result<(), LinearProgramType<OF>> {
         match self.counters.variable[variable] {
             0 => {
@@ -317,12 +319,12 @@ where
                 // bound change.
                 debug_assert!(self.updates.variable_feasible_value(variable).is_some());
 
-                let value = if self.general_form.variables[variable].cost.is_zero() {
-                    RemovedVariable::Solved(self.updates.variable_feasible_value(variable).unwrap())
-                } else {
-                    self.updates.optimize_column_independently(variable)?
-                };
-                self.remove_variable(variable, value);
+                if self.general_form.variables[variable].cost.is_zero() {
+                    let value = self.updates.variable_feasible_value(variable).unwrap();
+                    self.remove_variable(variable, RemovedVariable::Solved(value));
+                } else if let Some(value) = self.updates.optimize_column_independently(variable) {
+                    self.remove_variable(variable, value);
+                }
             },
             1 => if self.general_form.variables[variable].cost.is_zero() {
                 self.queues.slack.push(variable);
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 90bf812..9881a18 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -110,7 +110,7 @@ where
         let mut fixed_cost = OF::zero();
         let removed_variables = counters.variable.iter().enumerate()
             .filter(|&(_, &count)| count == 0)
-            .map(|(j, _)| {
+            .filter_map(|(j, _)| {
                 let variable = &general_form.variables[j];
                 // There should be a feasible value, otherwise, reading of the problem should have
                 // been ended due to a trivial infeasibility.
@@ -128,8 +128,8 @@ where
                     value
                 };
 
-                Ok((j, RemovedVariable::Solved(value)))
-            }).collect::<Result<_, _>>()?;
+                Some((j, RemovedVariable::Solved(value)))
+            }).collect();
 
         let constraints_marked_removed = counters.constraint.iter().enumerate()
             .filter(|&(_, &count)| count == 0)
@@ -365,20 +365,25 @@ where
     }
 
     /// Sets variables that can be optimized independently of all others to their optimal values.
+    ///
+    /// # Return value
+    ///
+    /// `None` if there is no optimal value. Note that the problem is then either unbounded or
+    /// infeasible, depending on whether the rest of the problem is feasible.
     pub(super) fn optimize_column_independently(
         &mut self,
         variable: usize,
-    ) -> Result<RemovedVariable<OF>, LinearProgramType<OF>> {
+    ) -> Option<RemovedVariable<OF>> {
         debug_assert_ne!(self.general_form.variables[variable].cost, OF::zero());
 
         let new_value = self.get_optimized_value(variable)?;
         self.fixed_cost += &self.general_form.variables[variable].cost * &new_value;
 
-        Ok(RemovedVariable::Solved(new_value))
+        Some(RemovedVariable::Solved(new_value))
     }
 
     /// Gets the value that maximizes a column's contribution in the objective direction.
-    fn get_optimized_value(&self, variable: usize) -> Result<OF, LinearProgramType<OF>> {
+    fn get_optimized_value(&self, variable: usize) -> Option<OF> {
         let objective = self.general_form.objective;
         let cost = &self.general_form.variables[variable].cost;
         let lower_bound = self.variable_bound(variable, BoundDirection::Lower);
@@ -532,16 +537,12 @@ where
 /// # Returns
 ///
 /// The optimal value if the variable appears in the objective function. Otherwise, any feasible
-/// value.
-///
-/// # Errors
-///
-/// The problem might be unbounded.
+/// value. `None` if the value can be improved indefinitely.
 fn optimize_independent_column<OF>(
     objective: Objective,
     cost: &OF,
     (lower_bound, upper_bound): (Option<&OF>, Option<&OF>),
-) -> Result<OF, LinearProgramType<OF>>
+) -> Option<OF>
 where
     OF: OrderedField,
     for<'r> &'r OF: OrderedFieldRef<OF>,
@@ -550,11 +551,11 @@ where
 
     match (objective, cost_sign) {
         (Objective::Minimize, Ordering::Greater) | (Objective::Maximize, Ordering::Less) => {
-            lower_bound.ok_or(LinearProgramType::Unbounded)
+            lower_bound
         },
         (Objective::Maximize, Ordering::Greater) | (Objective::Minimize, Ordering::Less) => {
-            upper_bound.ok_or(LinearProgramType::Unbounded)
+            upper_bound
         },
         (_, Ordering::Equal) => panic!("Should not be called if there is no cost"),
-    }.map(OF::clone)
+    }.cloned()
 }
-- 
2.43.0


From fbb4125cc0bddd2c86ab01b0c4e45fdcd9404233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 11/32] fix: respect the bounds of presolved slack variables in
 the solution

A slack that was removed from a constraint was set to the value for which the
constraint is active at its right hand side. When the constraint is not an
equality that value can be outside of the bounds of the slack; use the nearest
bound instead.
---
 src/data/linear_program/general_form/mod.rs   | 78 ++++++++++++++++---
 .../general_form/presolve/rule/slack.rs       | 14 +++-
 .../general_form/presolve/updates.rs          |  5 ++
 3 files changed, 85 insertions(+), 12 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 57f150a..851d38b 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -24,7 +24,7 @@ use crate::data::linear_algebra::traits::{SparseComparator, SparseElement as Lin
 use crate::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
 use crate::data::linear_program::elements::{BoundDirection, LinearProgramType, Objective, RangedConstraintRelation, RangedConstraintRelationKind, VariableType};
 use crate::data::linear_program::general_form::presolve::{Change, Index as PresolveIndex};
-use crate::data::linear_program::general_form::presolve::updates::Changes;
+use crate::data::linear_program::general_form::presolve::updates::{Changes, Updates};
 use crate::data::linear_program::general_form::RemovedVariable::{FunctionOfOthers, Solved};
 use crate::data::linear_program::solution::Solution;
 
@@ -102,6 +102,37 @@ enum OriginalVariable<F> {
     ///
     /// Probably by a presolve operation. An explicit value might not be known.
     Removed(RemovedVariable<F>),
+
+    /// Variable was removed as a `RemovedVariable::FunctionOfOthers`, but had bounds.
+    ///
+    /// The constraint it was removed from might not have been an equality, so the value of the
+    /// function could be outside of these bounds. The value within the bounds closest to it
+    /// satisfies the constraint, in that case.
+    RemovedWithBounds {
+        constant: F,
+        coefficients: SparseTupleVec<F>,
+        lower_bound: Option<F>,
+        upper_bound: Option<F>,
+    },
+}
+
+impl<F: Clone> OriginalVariable<F> {
+    /// Move a value computed for this removed variable to within the bounds it had, if it had any.
+    fn within_bounds<G: From<F> + Ord>(&self, value: G) -> G {
+        match self {
+            OriginalVariable::RemovedWithBounds { lower_bound, upper_bound, .. } => {
+                let value = match lower_bound {
+                    Some(bound) => value.max(bound.clone().into()),
+                    None => value,
+                };
+                match upper_bound {
+                    Some(bound) => value.min(bound.clone().into()),
+                    None => value,
+                }
+            },
+            _ => value,
+        }
+    }
 }
 
 /// A variable from the original problem that was removed.
@@ -349,6 +380,8 @@ where
     /// If the linear program gets solved during this presolve operation, a `Result::Err` return
     /// value containing the solution.
     pub fn presolve(&mut self) -> Result<(), LinearProgramType<OF>> {
+        let mut updates = self.compute_presolve_updates()?;
+        let removed_variable_bounds = mem::take(&mut updates.removed_variable_bounds);
         let Changes {
             b,
             constraints,
@@ -356,7 +389,7 @@ where
             bounds,
             removed_variables,
             constraints_marked_removed,
-        } = self.compute_presolve_changes()?;
+        } = updates.into_changes();
 
         let variable_indices_only = removed_variables.iter().map(|&(j, _)| j).collect();
         self.update_values_that_remain(
@@ -365,6 +398,7 @@ where
             fixed_cost,
             bounds,
             removed_variables,
+            removed_variable_bounds,
         );
         self.remove_rows_and_columns(constraints_marked_removed, variable_indices_only);
         debug_assert!(is_consistent(self));
@@ -383,9 +417,17 @@ where
     /// # Errors
     ///
     /// In case the linear program gets solved during this presolve operation, a solution.
+    #[cfg(test)]
     fn compute_presolve_changes(
         &self
     ) -> Result<Changes<OF>, LinearProgramType<OF>> {
+        self.compute_presolve_updates().map(Updates::into_changes)
+    }
+
+    /// See `compute_presolve_changes`, but before only the changes to the problem are selected.
+    fn compute_presolve_updates(
+        &self
+    ) -> Result<Updates<OF>, LinearProgramType<OF>> {
         let mut index = PresolveIndex::new(self)?;
 
         let mut iterations_without_meaningful_change = 0;
@@ -410,7 +452,7 @@ where
             return Err(LinearProgramType::Unbounded);
         }
 
-        Ok(index.updates.into_changes())
+        Ok(index.updates)
     }
 
     /// Modify the values that remain after the presolve operation.
@@ -425,6 +467,8 @@ where
     /// * `fixed_cost`: Change to the fixed cost.
     /// * `bounds`: New or tightened bounds, by value (as opposed to change).
     /// * `solved_variables`: Values to remove from the problem.
+    /// * `solved_variable_bounds`: Bounds to respect for solved variables that don't have an
+    /// explicit value yet.
     fn update_values_that_remain(
         &mut self,
         b: HashMap<usize, OF>,
@@ -432,6 +476,7 @@ where
         fixed_cost: OF,
         bounds: HashMap<(usize, BoundDirection), OF>,
         solved_variables: Vec<(usize, RemovedVariable<OF>)>,
+        mut solved_variable_bounds: HashMap<usize, (Option<OF>, Option<OF>)>,
     ) {
         for (i, change) in b {
             self.b[i] = change;
@@ -444,7 +489,12 @@ where
         self.fixed_cost += fixed_cost;
 
         for (j, variable) in solved_variables {
-            self.original_variables[j].1 = OriginalVariable::Removed(variable);
+            self.original_variables[j].1 = match (variable, solved_variable_bounds.remove(&j)) {
+                (FunctionOfOthers { constant, coefficients }, Some((lower_bound, upper_bound))) => {
+                    OriginalVariable::RemovedWithBounds { constant, coefficients, lower_bound, upper_bound }
+                },
+                (variable, _) => OriginalVariable::Removed(variable),
+            };
         }
 
         for ((j, direction), value) in bounds {
@@ -727,7 +777,10 @@ where
         let mut new_solutions = vec![None; self.original_variables.len()];
         let mut changed = Vec::new();
         for (j, (_, variable)) in self.original_variables.iter().enumerate() {
-            if let OriginalVariable::Removed(FunctionOfOthers { .. }) = variable {
+            if matches!(
+                variable,
+                OriginalVariable::Removed(FunctionOfOthers { .. }) | OriginalVariable::RemovedWithBounds { .. }
+            ) {
                 if self.compute_solution_value(j, &mut new_solutions).is_some() {
                     changed.push(j);
                 }
@@ -767,13 +820,14 @@ where
             OriginalVariable::Active(_) => None,
             OriginalVariable::ActiveFree(_, _) => None,
             OriginalVariable::Removed(Solved(value)) => Some(value),
-            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) => {
+            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) |
+            OriginalVariable::RemovedWithBounds { constant, coefficients, .. } => {
                 if new_solutions[variable].is_none() {
                     new_solutions[variable] = coefficients.iter().map(|(j, coefficient)| {
                         self.compute_solution_value(*j, new_solutions).map(|v| coefficient * v)
                     })
                         .sum::<Option<OF>>()
-                        .map(|inner_product| constant - inner_product);
+                        .map(|inner_product| self.original_variables[variable].1.within_bounds(constant - inner_product));
                 }
 
                 new_solutions[variable].as_ref()
@@ -904,7 +958,7 @@ where
         reduced_solution: &SparseVector<G, G>,
     ) -> &'a G
     where
-        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero,
+        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero + Ord,
         for<'r> G: Add<&'r OF, Output=G>,
         for<'r> &'r G: Neg<Output=G> + Mul<&'r OF, Output=G> + Add<&'r OF, Output=G> + Sub<&'r G, Output=G>,
     {
@@ -930,12 +984,14 @@ where
                 }
             },
             OriginalVariable::Removed(Solved(v)) => v.clone().into(),
-            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) => {
-                -coefficients.iter()
+            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) |
+            OriginalVariable::RemovedWithBounds { constant, coefficients, .. } => {
+                let value = -coefficients.iter()
                     .map(|(j, coefficient)| {
                         self.compute_solution_value_with_bfs::<G>(*j, new_solutions, reduced_solution) * coefficient
                     })
-                    .sum::<G>() + constant
+                    .sum::<G>() + constant;
+                self.original_variables[variable].1.within_bounds(value)
             }
         };
 
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 2f4135a..e901280 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -219,8 +219,13 @@ where
         }
     }
 
+    /// Express a slack in the other variables of its constraint.
+    ///
+    /// The slack is chosen such that the constraint is active at the right-hand side. Not all
+    /// constraints are equalities, so that might not be possible within the bounds of the slack; in
+    /// that case the bound is the value to choose, so the bounds are saved as well.
     fn compute_removed_variable_solution(
-        &self,
+        &mut self,
         constraint: usize,
         variable: usize,
         coefficient: &OF,
@@ -232,6 +237,13 @@ where
                 (self.general_form.from_active_to_original[j], other_coefficient / coefficient)
             })
             .collect();
+        let bounds = (
+            self.updates.variable_bound(variable, BoundDirection::Lower).cloned(),
+            self.updates.variable_bound(variable, BoundDirection::Upper).cloned(),
+        );
+        if bounds != (None, None) {
+            self.updates.removed_variable_bounds.insert(variable, bounds);
+        }
         RemovedVariable::FunctionOfOthers { constant, coefficients, }
     }
 }
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 9881a18..1ec82f3 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -43,6 +43,10 @@ pub struct Updates<'a, F> {
     /// `RemovedVariable` struct. All variables for which a solution was found should be part of the
     /// `removed_variables` field.
     pub removed_variables: Vec<(usize, RemovedVariable<F>)>,
+    /// Lower and upper bounds of variables that were eliminated as a function of other variables.
+    ///
+    /// Only the variables for which there was a bound at the time of removal.
+    pub removed_variable_bounds: HashMap<usize, (Option<F>, Option<F>)>,
     /// Collecting the indices, relative to the active part of the problem, that should be removed.
     ///
     /// This collection is here only to avoid an extra scan over the `column_counters`.
@@ -151,6 +155,7 @@ where
             bounds: HashMap::new(),
             // Variables that don't appear in any constraint are removed right away.
             removed_variables,
+            removed_variable_bounds: HashMap::new(),
             constraints_marked_removed,
 
             activity_bounds: HashMap::new(),
-- 
2.43.0


From bd0278b4dfd2d13d0189a31b6270adfe181c7de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 12/32] fix: negate the fixed cost together with the variable
 costs

A maximization problem is solved as a minimization problem, for which the value
is reported. The fixed cost, which includes the costs of presolved variables and
of shifted lower bounds, kept its sign. This replaces the earlier change to the
sign of the reported value.
---
 src/data/linear_program/general_form/mod.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 851d38b..ebc4310 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -675,11 +675,11 @@ where
     }
 
     /// Make this a minimization problem by multiplying the cost function by `-1`.
-    ///
-    /// Note that the `objective` field and the `fixed_cost` keep describing the objective of the
-    /// original problem; the value of that objective is what gets reported in a `Solution`.
     fn make_minimization_problem(&mut self) {
         if self.objective == Objective::Maximize {
+            self.objective = Objective::Minimize;
+
+            self.fixed_cost *= -OF::one();
             for variable in &mut self.variables {
                 variable.cost *= -OF::one();
             }
@@ -909,14 +909,9 @@ where
     {
         debug_assert_eq!(reduced_solution.len(), self.variables.len());
 
-        let minimized = reduced_solution.iter()
+        let cost = reduced_solution.iter()
             .map(|(j, v)| v * &self.variables[j].cost)
-            .sum::<G>();
-        // The costs were negated if this was a maximization problem, the fixed cost was not.
-        let cost = match self.objective {
-            Objective::Minimize => minimized,
-            Objective::Maximize => -minimized,
-        } + &self.fixed_cost;
+            .sum::<G>() + &self.fixed_cost;
         self.reshift_solution(&mut reduced_solution);
 
         // To avoid recomputations, we store all computed intermediate values in this collection.
-- 
2.43.0


From cba72a9fc8e72b382d951f457b15b0bb60d3922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 13/32] fix: infinite recursion when reporting an inconsistency
 error

Formatting an Inconsistency formatted itself, and it claimed to be its own
source.
---
 src/io/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/error.rs b/src/io/error.rs
index 0176ae7..c20f969 100644
--- a/src/io/error.rs
+++ b/src/io/error.rs
@@ -226,12 +226,12 @@ impl Inconsistency {
 
 impl Display for Inconsistency {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "ProgramError: {}", self)
+        write!(f, "ProgramError: {}", self.description)
     }
 }
 
 impl Error for Inconsistency {
     fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
+        None
     }
 }
-- 
2.43.0


From f53454a1225448d4d0969f8f478ba202be23bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 14/32] fix: return an error for semi-continuous bounds instead
 of panicking

---
 src/io/mps/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index ee371c3..c1a3eda 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -741,7 +741,7 @@ fn parse_bound_line<'a, F: Parse, CR: ColumnRetriever<'a>>(
                 _ => unreachable!(),
             }
         },
-        "SC" => unimplemented!(),
+        "SC" => return Err(ParseError::new("Semi-continuous variables are not supported.").into()),
         _ => return Err(ParseError::new(format!("Bound type \"{}\" unknown.", bound_type_text)).into()),
     };
 
-- 
2.43.0


From b6ba051b04aa1cee3d72e384243a48766ce308ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 15/32] fix: return an error when the first line contains
 non-ASCII characters

Slicing the line in the middle of a character panicked.
---
 src/io/mps/parse/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index c1a3eda..88e8174 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -179,16 +179,15 @@ fn parse_program_name<'a, CR: ColumnRetriever<'a>>(
                 return Err(ParseError::with_location("Line too short.", (number, line)));
             }
 
-            let expected_name_string = &line[0..NAME.len()];
-            if expected_name_string == NAME {
-                let name = CR::two_or_three(&line[NAME.len()..])
+            if let Some(line_after_name) = line.strip_prefix(NAME) {
+                let name = CR::two_or_three(line_after_name)
                     .map_err(|e| e.wrap(format!("Could not read program name \
                     from line {}. Ths line looked like \"{}\"", number, line)))?[0];
                 Ok(name.to_string())
             } else {
                 Err(ParseError::with_location(
                     format!(
-                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, expected_name_string,
+                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, line,
                     ),
                     (number, line),
                 ))
-- 
2.43.0


From be6128112d672f3e8da5264c699455658028bf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 16/32] fix: reject multiple cost values for a single column

All cost values for the columns that follow would be lost.
---
 src/io/mps/parse/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 88e8174..f39aa55 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -417,6 +417,9 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         match row_map.get(row_name) {
                             None => if row_name == cost_row_name {
                                 let column_index = collector.len();
+                                if matches!(cost_values_collector.last(), Some(&(j, _)) if j == column_index) {
+                                    return Err(Inconsistency::new("Multiple cost values for a column").into());
+                                }
                                 cost_values_collector.push((column_index, value))
                             } else {
                                 return Err(Inconsistency::new(format!("Row \"{}\" not known.", row_name)).into());
-- 
2.43.0


From 3b2f90887a8c0d95eb71b6cd8b53ac39baf7528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 17/32] fix: reject duplicate column names

Values of a column that are not listed contiguously resulted in several
variables with the same name; bounds were applied to the last of them.
---
 src/io/mps/parse/mod.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index f39aa55..cf5c126 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -59,7 +59,7 @@ fn parse<'a, F: Parse, CR: ColumnRetriever<'a>>(
 
     let (columns, cost_values, next_section) =
         parse_column_section::<_, CR, _>(&mut lines, &cost_row_name, &row_index)?;
-    let column_index = build_column_index(&columns);
+    let column_index = build_column_index(&columns)?;
 
     let (rhss, next_section) = if next_section == Section::Rhs {
         parse_optional_section::<_, CR, _, _, 2>(&mut lines, [Section::Ranges, Section::Bounds], &row_index)?
@@ -501,19 +501,24 @@ fn save_to_column_collector<F>(
 ///
 /// A map assigning to each column name a value.
 ///
+/// # Errors
+///
+/// If the values of a column were not listed contiguously, or columns share a name.
+///
 /// # Note
 ///
 /// This assignment is not a specific order.
-fn build_column_index<F>(columns: &[Column<F>]) -> HashMap<&str, usize> {
-    debug_assert_eq!(
-        columns.iter().map(|column| column.name.as_str()).collect::<HashSet<_>>().len(),
-        columns.len(),
-    );
-
-    columns.iter()
+fn build_column_index<F>(columns: &[Column<F>]) -> Result<HashMap<&str, usize>, Inconsistency> {
+    let index = columns.iter()
         .enumerate()
         .map(|(index, column)| (column.name.as_str(), index))
-        .collect()
+        .collect::<HashMap<_, _>>();
+
+    if index.len() < columns.len() {
+        Err(Inconsistency::new("Not all column names are unique"))
+    } else {
+        Ok(index)
+    }
 }
 
 trait ListedInGroup {
-- 
2.43.0


From bf32fab297a854e3a4be40d0e7b548095d7e0a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 18/32] fix: return an error for numbers that can't be
 represented

Numbers with many digits silently overflowed. Also reject text without digits or
with misplaced signs, and don't panic on an empty string or a non-ASCII first
character.
---
 src/io/mps/number/parse.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index 60e3a58..e13812d 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -78,14 +78,19 @@ impl TryFrom<&str> for Raw {
     type Error = ParseError;
 
     fn try_from(text: &str) -> Result<Self, Self::Error> {
-        let (has_minus, text) = match &text[0..1] {
-            "-" => (true, &text[1..]),
-            _ => (false, text),
+        let (has_minus, text) = match text.strip_prefix('-') {
+            Some(text) => (true, text),
+            None => (false, text.strip_prefix('+').unwrap_or(text)),
         };
+        if !text.chars().any(|character| character.is_ascii_digit()) {
+            return Err(ParseError::new(format!("There are no digits in \"{}\".", text)));
+        }
 
         let parse = |text: &str, number_part| {
             if text.is_empty() {
                 Ok(0)
+            } else if !text.chars().all(|character| character.is_ascii_digit()) {
+                Err(ParseError::new(format!("Failed to parse {} \"{}\".", number_part, text)))
             } else {
                 text.parse()
                     .map_err(|error| ParseError::wrap_other(
@@ -104,7 +109,12 @@ impl TryFrom<&str> for Raw {
                 let integer_part = parse(&text[0..index], "integer part")?;
                 let mantissa_part = parse(&text[(index + 1)..], "mantissa part")?;
 
-                (integer_part * 10_u64.pow(from_right) + mantissa_part, from_right)
+                let value = 10_u64.checked_pow(from_right)
+                    .and_then(|power| power.checked_mul(integer_part))
+                    .and_then(|shifted| shifted.checked_add(mantissa_part))
+                    .ok_or_else(|| ParseError::new(format!("Number \"{}\" has too many digits.", text)))?;
+
+                (value, from_right)
             },
         };
         
-- 
2.43.0


From 623fb12d693a65719c5613752fcc548ab6e503bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 19/32] fix: process ranges of rows without a right hand side
 value

The sign and direction of a range were only taken into account when a right hand
side value was specified, instead of for the default value zero as well.
---
 src/io/mps/convert.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index bf1b103..cd5df8b 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -462,7 +462,16 @@ where
 
     // We fill b with options, and then explicitly substitute the default value later.
     let mut b: Vec<Option<OFO>> = vec![None; rows.len()];
-    for (i, value) in rhss.into_iter().flat_map(|rhs| rhs.values.into_iter()) {
+    let mut has_rhs = vec![false; rows.len()];
+    for &(i, _) in rhss.iter().flat_map(|rhs| &rhs.values) {
+        has_rhs[i] = true;
+    }
+    // The default value is zero; make it explicit when there is a range to be processed.
+    let defaults = (0..rows.len())
+        .filter(|&i| !has_rhs[i] && matches!(constraints[i], RangedConstraintRelation::Range(_)))
+        .map(|i| (i, OFI::zero()))
+        .collect::<Vec<_>>();
+    for (i, value) in rhss.into_iter().flat_map(|rhs| rhs.values.into_iter()).chain(defaults) {
         match &mut b[i] {
             None => match &mut constraints[i] {
                 RangedConstraintRelation::Range(range) => {
-- 
2.43.0


From a7dde1f1186c8af15154a12c2c9744c1c3081c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 20/32] fix: detect variables without any feasible value when
 importing

This was documented as an error, but not checked. Algorithms assume that the
lower bound is at most the upper bound.
---
 src/io/mps/convert.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index cd5df8b..9b91039 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -178,6 +178,13 @@ fn process_bounds<FI, FO: From<FI> + Zero + One + Ord + Clone>(
 
     fill_in_default_lower_bounds(variable_info, needs_default_lower_bound);
 
+    let any_infeasible = variable_info.iter().any(|variable| {
+        matches!((&variable.lower_bound, &variable.upper_bound), (Some(lower), Some(upper)) if lower > upper)
+    });
+    if any_infeasible {
+        return Err(Inconsistency::new("Trivial infeasibility: a variable has no feasible values"));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 1fc1253ddcb4d78d44db419728de8d7f1abb4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:58 +0000
Subject: [PATCH 21/32] fix: accept repeated equal right hand sides for rows
 with a range

The value was compared with the already shifted value.
---
 src/io/mps/convert.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 9b91039..20eee89 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -497,10 +497,9 @@ where
                 },
                 _ => b[i] = Some(value.into()),
             }
+            // If there are several for a row with a range they are all equal, see above.
+            Some(_) if matches!(constraints[i], RangedConstraintRelation::Range(_)) => {},
             Some(current) => {
-                // There can be at most one rhs value for each row that has a range.
-                debug_assert!(!matches!(constraints[i], RangedConstraintRelation::Range(_)));
-
                 let converted: OFO = value.into();
                 match rows[i].constraint_type {
                     ConstraintRelation::Equal => if &converted != current {
-- 
2.43.0


From 3f868d757cd6c08be8c365f10568c23b5b1a6eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 22/32] fix: only accept exact row types

Only the first byte was compared, such that any word starting with a row type
was accepted and a word starting with a non-ASCII character panicked.
---
 src/io/mps/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index cf5c126..1f6e979 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -828,7 +828,7 @@ impl FromStr for RowType {
     ///
     /// Any `String` slices not equal to either `N`, `L`, `E` or `G` will fair to be parsed.
     fn from_str(word: &str) -> Result<RowType, Self::Err> {
-        match &word[0..1] {
+        match word.trim() {
             "N" => Ok(RowType::Cost),
             "L" => Ok(RowType::Constraint(ConstraintRelation::Less)),
             "E" => Ok(RowType::Constraint(ConstraintRelation::Equal)),
-- 
2.43.0


From 917d4ce1c89ba74740ce322eb3414843bd099afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:38 +0000
Subject: [PATCH 23/32] fix: don't panic on short or non-ASCII lines in the
 fixed format

Slicing fields out of lines panicked when the line ended within the field, such
as for a bound without a value on a column with a short name, or when the field
boundary was within a character.
---
 src/io/mps/parse/fixed.rs | 51 ++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 32f08d2..5427177 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -42,10 +42,9 @@ impl<'a> ColumnRetriever<'a> for Fixed {
 
     fn one_and_two(line: &str) -> ParseResult<[&str; 2]> {
         if line.len() > FIELDS[2].start {
-            let type_text = &line[FIELDS[1].clone()];
+            let type_text = field(line, FIELDS[1].clone())?;
 
-            let name_field_end = FIELDS[2].end.min(line.len());
-            let name = line[FIELDS[2].start..name_field_end].trim_end();
+            let name = field(line, FIELDS[2].clone())?.trim_end();
             if name.is_empty() {
                 Err(ParseError::new("Empty row name."))
             } else {
@@ -58,18 +57,18 @@ impl<'a> ColumnRetriever<'a> for Fixed {
 
     fn is_column_marker_line(line: &'a str) -> ParseResult<ColumnLineContent<'a, Self::RestOfLine>> {
         if line.len() >= FIELDS[4].end {
-            if &line[FIELDS[3].clone()] == COLUMN_SECTION_MARKER {
+            if field(line, FIELDS[3].clone())? == COLUMN_SECTION_MARKER {
                 if line.len() >= FIELDS[5].end {
-                    Ok(ColumnLineContent::Marker([&line[FIELDS[5].clone()]]))
+                    Ok(ColumnLineContent::Marker([field(line, FIELDS[5].clone())?]))
                 } else {
                     Err(ParseError::new("Line is too short to be a marker line."))
                 }
             } else {
                 Ok(ColumnLineContent::Data([
-                    line[FIELDS[2].clone()].trim_end(),
-                    line[FIELDS[3].clone()].trim_end(),
-                    line[FIELDS[4].clone()].trim_start(),
-                ], &line[FIELDS[4].end..]))
+                    field(line, FIELDS[2].clone())?.trim_end(),
+                    field(line, FIELDS[3].clone())?.trim_end(),
+                    field(line, FIELDS[4].clone())?.trim_start(),
+                ], field(line, FIELDS[4].end..line.len())?))
             }
         } else {
             Err(ParseError::new("Line is too short."))
@@ -79,10 +78,10 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     fn two_through_four(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
         if line.len() >= FIELDS[4].end {
             Ok(([
-                line[FIELDS[2].clone()].trim_end(),
-                line[FIELDS[3].clone()].trim_end(),
-                line[FIELDS[4].clone()].trim_start(),
-            ], &line[FIELDS[4].end..]))
+                field(line, FIELDS[2].clone())?.trim_end(),
+                field(line, FIELDS[3].clone())?.trim_end(),
+                field(line, FIELDS[4].clone())?.trim_start(),
+            ], field(line, FIELDS[4].end..line.len())?))
         } else {
             Err(ParseError::new("Line is too short."))
         }
@@ -94,8 +93,8 @@ impl<'a> ColumnRetriever<'a> for Fixed {
             let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
             let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
 
-            let five = line_after_first_four[five_start..five_end].trim_end();
-            let six = line_after_first_four[six_start..six_end].trim_start();
+            let five = field(line_after_first_four, five_start..five_end)?.trim_end();
+            let six = field(line_after_first_four, six_start..six_end)?.trim_start();
             if !five.is_empty() && !six.is_empty() {
                 Some([
                     five,
@@ -109,11 +108,11 @@ impl<'a> ColumnRetriever<'a> for Fixed {
 
     fn one_through_three(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
         if line.len() >= FIELDS[3].start {
-            let type_text = &line[FIELDS[1].clone()];
-            let name = line[FIELDS[2].clone()].trim_end();
-            let column = line[FIELDS[3].clone()].trim_end();
+            let type_text = field(line, FIELDS[1].clone())?;
+            let name = field(line, FIELDS[2].clone())?.trim_end();
+            let column = field(line, FIELDS[3].clone())?.trim_end();
 
-            let rest = &line[FIELDS[3].end..];
+            let rest = field(line, FIELDS[3].end..line.len())?;
 
             Ok(([type_text, name, column], rest))
         } else {
@@ -125,7 +124,7 @@ impl<'a> ColumnRetriever<'a> for Fixed {
         let end_of_column = FIELDS[4].end - FIELDS[3].end;
         if rest_of_line.len() >= end_of_column {
             let start_of_column = FIELDS[4].start - FIELDS[3].end;
-            let value_text = rest_of_line[start_of_column..end_of_column].trim_start();
+            let value_text = field(rest_of_line, start_of_column..end_of_column)?.trim_start();
             Ok([value_text])
         } else {
             Err(ParseError::new("Line doesn't contain another value, it's too short."))
@@ -133,6 +132,18 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     }
 }
 
+/// Extract a field from a line.
+///
+/// Lines don't need to be padded with spaces: the part of the field beyond the end is empty.
+///
+/// # Errors
+///
+/// If the field doesn't start or end at a character boundary.
+fn field(line: &str, range: Range<usize>) -> ParseResult<&str> {
+    line.get(range.start.min(line.len())..range.end.min(line.len()))
+        .ok_or_else(|| ParseError::new("Line contains non-ASCII characters at a field boundary."))
+}
+
 /// Character ranges for the different fields of the column.
 const FIELDS: [Range<usize>; 7] = [
     0..1,
-- 
2.43.0


From b6b865a1b40eba8a75df3a37548f52d4cd210a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 24/32] fix: don't ignore the second value on an unpadded line
 in the fixed format

Unless the line extended to the very end of the sixth field, the fifth and sixth
field were silently ignored.
---
 src/io/mps/parse/fixed.rs | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 5427177..3a6fdd4 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -88,22 +88,16 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     }
 
     fn five_and_six(line_after_first_four: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
-        let relative_field_six_end = FIELDS[6].end - FIELDS[4].end;
-        let result = if line_after_first_four.len() >= relative_field_six_end {
-            let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
-            let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
-
-            let five = field(line_after_first_four, five_start..five_end)?.trim_end();
-            let six = field(line_after_first_four, six_start..six_end)?.trim_start();
-            if !five.is_empty() && !six.is_empty() {
-                Some([
-                    five,
-                    six,
-                ])
-            } else { None }
-        } else { None };
-
-        Ok(result)
+        let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
+        let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
+
+        let five = field(line_after_first_four, five_start..five_end)?.trim();
+        let six = field(line_after_first_four, six_start..six_end)?.trim();
+        match (five.is_empty(), six.is_empty()) {
+            (false, false) => Ok(Some([five, six])),
+            (true, true) => Ok(None),
+            _ => Err(ParseError::new("Line has only one of the fifth and sixth elements")),
+        }
     }
 
     fn one_through_three(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-- 
2.43.0


From 208773b6bf6d23bde20bec70277db81ff7a62c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 25/32] Add seams for a deterministic simulator, behind --cfg
 relp_sim

---
 src/algorithm/two_phase/phase_one.rs          |  10 ++
 .../two_phase/strategy/pivot_rule.rs          |  14 +-
 src/algorithm/two_phase/tableau/mod.rs        |  14 ++
 .../general_form/presolve/mod.rs              |   6 +
 src/lib.rs                                    |   4 +
 src/sim.rs                                    | 129 ++++++++++++++++++
 6 files changed, 175 insertions(+), 2 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/algorithm/two_phase/phase_one.rs b/src/algorithm/two_phase/phase_one.rs
index 62b19e0..7dbe278 100644
--- a/src/algorithm/two_phase/phase_one.rs
+++ b/src/algorithm/two_phase/phase_one.rs
@@ -260,6 +260,16 @@ where
                     .map_or(false, |element| element.is_not_zero()))
         };
 
+        #[cfg(relp_sim)]
+        let column_and_cost = crate::sim::replace("column for artificial", column_and_cost, || {
+            (tableau.nr_artificial_variables()..tableau.nr_columns())
+                .filter(|&j| !tableau.is_in_basis(j))
+                .filter(|&j| constraint_value.is_zero() && tableau.generate_element(pivot_row, j)
+                    .map_or(false, |element| element.is_not_zero()))
+                .map(|j| (j, tableau.relative_cost(j)))
+                .collect()
+        });
+
         if let Some((pivot_column, cost)) = column_and_cost {
             let column = tableau.generate_column(pivot_column);
             tableau.bring_into_basis(pivot_column, pivot_row, column, cost);
diff --git a/src/algorithm/two_phase/strategy/pivot_rule.rs b/src/algorithm/two_phase/strategy/pivot_rule.rs
index 77a8527..ac3d6ae 100644
--- a/src/algorithm/two_phase/strategy/pivot_rule.rs
+++ b/src/algorithm/two_phase/strategy/pivot_rule.rs
@@ -227,7 +227,7 @@ where
         K: Kind,
         F: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
     {
-        (tableau.start_index()..tableau.nr_columns())
+        let selected = (tableau.start_index()..tableau.nr_columns())
             .filter(|&j| !tableau.is_in_basis(j))
             .map(|j| (j, tableau.relative_cost(j)))
             .filter(|(_, cost)| cost.is_negative())
@@ -237,7 +237,17 @@ where
 
                 // gamma is the squared norm, so to compare, we need also to square the cost
                 cost * cost / self.gamma[*j].as_ref().unwrap()
-            })
+            });
+        #[cfg(relp_sim)]
+        let selected = crate::sim::replace("entering column", selected, || {
+            (tableau.start_index()..tableau.nr_columns())
+                .filter(|&j| !tableau.is_in_basis(j))
+                .map(|j| (j, tableau.relative_cost(j)))
+                .filter(|(_, cost)| cost.is_negative())
+                .collect()
+        });
+
+        selected
     }
 
     fn after_basis_update<IM, K>(
diff --git a/src/algorithm/two_phase/tableau/mod.rs b/src/algorithm/two_phase/tableau/mod.rs
index ba52393..74427b8 100644
--- a/src/algorithm/two_phase/tableau/mod.rs
+++ b/src/algorithm/two_phase/tableau/mod.rs
@@ -309,6 +309,20 @@ where
             }
         }
 
+        #[cfg(relp_sim)]
+        let min_values = min_values.map(|(min_index, min_ratio, min_leaving_column)| {
+            let min_index = crate::sim::replace("leaving row", Some(min_index), || {
+                SparseSliceIterator::new(&column)
+                    .filter(|&(row, xij)| {
+                        xij > &IM::F::zero() &&
+                            self.inverse_maintainer.get_constraint_value(row) / xij == min_ratio
+                    })
+                    .map(|(row, _)| row)
+                    .collect()
+            }).unwrap();
+            (min_index, min_ratio, min_leaving_column)
+        });
+
         min_values.map(|(min_index, _, _)| min_index)
     }
 }
diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 29a53af..ef775c0 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -125,6 +125,12 @@ where
     /// harder, unless the problem is rescaled). If the program is determined to be infeasible, an
     /// `Err` type.
     pub(super) fn presolve_step(&mut self) -> Result<Change, LinearProgramType<OF>> {
+        #[cfg(relp_sim)]
+        crate::sim::presolve_queues(
+            [&mut self.queues.substitution, &mut self.queues.bound, &mut self.queues.slack],
+            &mut self.queues.activity,
+        );
+
         // Rules that are guaranteed to make the problem smaller
         while let Some(variable) = self.queues.substitution.pop() {
             if self.counters.is_variable_still_active(variable) {
diff --git a/src/lib.rs b/src/lib.rs
index f3feee0..64b078d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,6 +5,7 @@
 #![warn(missing_docs)]
 
 #![allow(incomplete_features)]
+#![allow(unexpected_cfgs)]
 #![feature(specialization)]
 #![feature(type_alias_impl_trait)]
 #![feature(trait_alias)]
@@ -14,5 +15,8 @@ pub mod algorithm;
 pub mod data;
 pub mod io;
 
+#[cfg(relp_sim)]
+pub mod sim;
+
 #[cfg(test)]
 mod tests;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..13738ad
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,129 @@
+//! # Simulation seams
+//!
+//! Only compiled with `--cfg relp_sim`. A deterministic simulator can install hooks for the current
+//! thread, and thereby decide what the algorithms leave open: which profitable column enters, which
+//! of the tied rows leaves, in which order the presolve rules in a queue are applied, and so on.
+//!
+//! Without hooks installed, and when a hook chooses option `0`, nothing changes.
+use std::cell::RefCell;
+
+use fifo_set::FIFOSet;
+
+use crate::algorithm::two_phase::matrix_provider::column::Column;
+use crate::algorithm::two_phase::matrix_provider::column::identity::Identity;
+use crate::algorithm::two_phase::matrix_provider::MatrixProvider;
+use crate::algorithm::two_phase::phase_one::{PartialInitialBasis, primal, RankedFeasibilityResult};
+use crate::algorithm::two_phase::strategy::pivot_rule::PivotRule;
+use crate::algorithm::two_phase::tableau::inverse_maintenance::{InverseMaintainer, ops as im_ops};
+use crate::algorithm::two_phase::tableau::kind::artificial::Cost;
+use crate::algorithm::two_phase::tableau::kind::artificial::fully::Fully;
+use crate::algorithm::two_phase::tableau::kind::artificial::partially::Partially;
+use crate::algorithm::two_phase::tableau::Tableau;
+use crate::data::linear_program::elements::BoundDirection;
+
+/// Decisions the simulator takes over.
+pub trait Hooks {
+    /// Choose one of `n` options, `0` being what happens without a simulator.
+    fn choose(&mut self, site: &'static str, n: usize) -> usize;
+}
+
+thread_local! {
+    static HOOKS: RefCell<Option<Box<dyn Hooks>>> = const { RefCell::new(None) };
+}
+
+/// Install hooks for the current thread, returning the ones installed before.
+pub fn install(hooks: Option<Box<dyn Hooks>>) -> Option<Box<dyn Hooks>> {
+    HOOKS.with(|h| std::mem::replace(&mut *h.borrow_mut(), hooks))
+}
+
+/// Whether hooks are installed for the current thread.
+pub(crate) fn is_active() -> bool {
+    HOOKS.with(|h| h.borrow().is_some())
+}
+
+/// Choose one of `n` options.
+pub(crate) fn choose(site: &'static str, n: usize) -> usize {
+    if n <= 1 {
+        return 0;
+    }
+    HOOKS.with(|h| match h.borrow_mut().as_mut() {
+        None => 0,
+        Some(hooks) => hooks.choose(site, n),
+    })
+}
+
+/// Possibly replace the item selected by one of its alternatives (that might include the selected
+/// item itself).
+pub(crate) fn replace<T>(
+    site: &'static str,
+    selected: Option<T>,
+    alternatives: impl FnOnce() -> Vec<T>,
+) -> Option<T> {
+    match selected {
+        Some(selected) if is_active() => {
+            let mut alternatives = alternatives();
+            match choose(site, 1 + alternatives.len()) {
+                0 => Some(selected),
+                n => Some(alternatives.swap_remove(n - 1)),
+            }
+        }
+        other => other,
+    }
+}
+
+/// Reorder the presolve queues, and possibly skip what remains of the optional work.
+pub(crate) fn presolve_queues(
+    stacks: [&mut Vec<usize>; 3],
+    activity: &mut FIFOSet<(usize, BoundDirection)>,
+) {
+    if !is_active() {
+        return;
+    }
+
+    let mut only_optional = true;
+    for stack in stacks {
+        only_optional &= stack.is_empty();
+        let n = stack.len();
+        let chosen = choose("presolve queue", n);
+        if chosen > 0 {
+            stack.swap(n - 1 - chosen, n - 1);
+        }
+    }
+    for _ in 0..choose("presolve queue", activity.len()) {
+        let front = activity.pop().unwrap();
+        activity.push(front);
+    }
+    if only_optional && !activity.is_empty() && choose("presolve stop", 2) == 1 {
+        activity.clear();
+    }
+}
+
+/// The first phase with an artificial variable in each row, and a pivot rule of choice.
+pub fn phase_one_fully<IM, MP, PR>(provider: &MP) -> RankedFeasibilityResult<IM>
+where
+    MP: MatrixProvider<Column: Identity>,
+    IM: InverseMaintainer<F:
+        im_ops::FieldHR +
+        im_ops::Column<<MP::Column as Column>::F> +
+        im_ops::Cost<Cost> +
+        im_ops::Rhs<MP::Rhs> +
+    >,
+    PR: PivotRule<IM::F>,
+{
+    primal::<_, _, MP, PR>(Tableau::<_, Fully<_>>::new(provider))
+}
+
+/// The first phase with artificial variables where needed, and a pivot rule of choice.
+pub fn phase_one_partially<IM, MP, PR>(provider: &MP) -> RankedFeasibilityResult<IM>
+where
+    MP: PartialInitialBasis + MatrixProvider<Column: Identity>,
+    IM: InverseMaintainer<F:
+        im_ops::FieldHR +
+        im_ops::Column<<MP::Column as Column>::F> +
+        im_ops::Cost<Cost> +
+        im_ops::Rhs<MP::Rhs> +
+    >,
+    PR: PivotRule<IM::F>,
+{
+    primal::<_, _, MP, PR>(Tableau::<_, Partially<_>>::new(provider))
+}
-- 
2.43.0


From 0c0885a06c39678b5702e1009d1cc1c198d79a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 26/32] fix: map variable indices when presolving a problem
 that was presolved before

---
 src/data/linear_program/general_form/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index ebc4310..ee9b69e 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -489,7 +489,9 @@ where
         self.fixed_cost += fixed_cost;
 
         for (j, variable) in solved_variables {
-            self.original_variables[j].1 = match (variable, solved_variable_bounds.remove(&j)) {
+            // The indices used while presolving are relative to the variables that were active.
+            let original = self.from_active_to_original[j];
+            self.original_variables[original].1 = match (variable, solved_variable_bounds.remove(&j)) {
                 (FunctionOfOthers { constant, coefficients }, Some((lower_bound, upper_bound))) => {
                     OriginalVariable::RemovedWithBounds { constant, coefficients, lower_bound, upper_bound }
                 },
-- 
2.43.0


From 85deb28f4aa60df55c3ed7dde289c5cc51bcf248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 27/32] fix: keep explicit zero coefficients out of the sparse
 columns

---
 src/io/mps/convert.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 20eee89..7bd3eef 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -122,7 +122,11 @@ fn compute_variable_info<FI, FO: From<FI> + NonZero + Zero + One + Ord + Display
     process_bounds(&mut info, bounds)?;
     let (values, names): (Vec<_>, Vec<_>) = values_names.into_iter()
         .map(|(collection, names)| {
-            (collection.into_iter().map(|(i, v)| (i, v.into())).collect(), names)
+            let non_zero = collection.into_iter()
+                .map(|(i, v)| (i, FO::from(v)))
+                .filter(|(_, v)| v.is_not_zero())
+                .collect();
+            (non_zero, names)
         })
         .unzip();
 
-- 
2.43.0


From 2b2be05d3afcb6855eba846eb11795fef186b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 28/32] fix: require the COLUMNS section to follow the ROWS
 section

---
 src/io/mps/parse/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 1f6e979..5ab0706 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -282,8 +282,12 @@ fn parse_row_section<'a, CR: ColumnRetriever<'a>, L: Iterator<Item = FileLocatio
             }
         } else {
             // Section has ended.
-            try_parse_next_section(line, [Section::Columns])?;
-            return Ok((cost_row_name, collector));
+            return match try_parse_next_section(line, [Section::Columns])? {
+                Section::Columns => Ok((cost_row_name, collector)),
+                section => Err(ParseError::with_location(format!(
+                    "Expected the {} section header, found {}.", Section::Columns, section,
+                ), (number, line))),
+            };
         }
     }
 
-- 
2.43.0


From 06df8bd2ba5d42d20680ec6653a79d07e940c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:06 +0000
Subject: [PATCH 29/32] fix: read row names with leading spaces the same in
 every field of the fixed format

---
 src/io/mps/parse/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 3a6fdd4..f430119 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -91,7 +91,7 @@ impl<'a> ColumnRetriever<'a> for Fixed {
         let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
         let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
 
-        let five = field(line_after_first_four, five_start..five_end)?.trim();
+        let five = field(line_after_first_four, five_start..five_end)?.trim_end();
         let six = field(line_after_first_four, six_start..six_end)?.trim();
         match (five.is_empty(), six.is_empty()) {
             (false, false) => Ok(Some([five, six])),
-- 
2.43.0


From dd98aa78ea536280de7df99d54f189ccdb890160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:06 +0000
Subject: [PATCH 30/32] fix: only accept an exact ROWS header after the
 objective direction

---
 src/io/mps/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 5ab0706..87bee74 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -224,7 +224,7 @@ fn parse_objsense_section<'a, L: Iterator<Item = FileLocation<'a>>>(
                         None => Err(ParseError::new("Program can't end in the OBJSENSE section.")),
                         Some((number, line)) => {
                             // Throw away the next line, who's contents are "ROWS", check to be sure
-                            if !matches!(lines.next(), Some((_, line)) if line.starts_with("ROWS")) {
+                            if !matches!(lines.next(), Some((_, line)) if line.trim_end() == "ROWS") {
                                 return Err(ParseError::new("Expected the ROWS section next."));
                             }
 
-- 
2.43.0


From 9b249cbc4cd0923bded86f6f5aae6e6ba63b504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:46 +0000
Subject: [PATCH 31/32] fix: multiply an empty row with the explicit basis
 inverse

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index dfb2547..eea4844 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -165,8 +165,9 @@ where
     where
         Self::F: ops::Column<I::F>,
     {
-        let (index, factor) = row.next().unwrap();
-        let items = self.rows[index].iter().map(|(j, value)| (j, value * factor)).collect();
+        let items = row.next().map_or_else(Vec::new, |(index, factor)| {
+            self.rows[index].iter().map(|(j, value)| (j, value * factor)).collect()
+        });
         let mut total = SparseVector::new(items, self.m());
 
         for (index, factor) in row {
-- 
2.43.0


From 9d744a4f9da24315e5eeb67a7d6b6887de9b79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 32/32] fix: scale a problem without factors

When every number in the problem is zero or plus or minus one, there is
nothing to factorise and no per-factor scaling to take the dimensions from.
---
 .../general_form/presolve/scale/rational/mod.rs        | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
index 9209629..35c2acd 100644
--- a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
+++ b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
@@ -52,10 +52,11 @@ where
     fn scale(&mut self) -> Scaling<R> {
         // Factorize all numbers at once
         let factorization = self.factorize();
+        let (nr_rows, nr_columns) = (factorization.nr_constraints(), factorization.nr_variables());
         // Optimize per factor
         let scale_per_factor = factorization.solve();
         // Aggregate scaling per factor
-        let scaling = combine_factors(scale_per_factor);
+        let scaling = combine_factors(scale_per_factor, nr_rows, nr_columns);
         // Apply the computed scaling
         scale(self, &scaling, |x, y| *x *= y, |x, y| *x /= y);
 
@@ -651,16 +652,13 @@ where
 /// The scaling is computed per factor but is applied at once. Combine the scaling of all factors.
 fn combine_factors<R>(
     scale_per_factor: Vec<(R::Factor, ((R::Power, Vec<R::Power>), Vec<R::Power>))>,
+    nr_rows: usize,
+    nr_columns: usize,
 ) -> Scaling<R>
 where
     R: NonZeroFactorizable<Power: Abs> + One,
     for<'r> R: MulAssign<&'r R::Factor> + DivAssign<&'r R::Factor>,
 {
-    debug_assert!(!scale_per_factor.is_empty());
-
-    let nr_rows = scale_per_factor[0].1.0.1.len();
-    let nr_columns = scale_per_factor[0].1.1.len();
-
     let mut cost_factor = R::one();
     let mut constraint_row_factors = vec![R::one(); nr_rows];
     let mut constraint_column_factors = vec![R::one(); nr_columns];
-- 
2.43.0

