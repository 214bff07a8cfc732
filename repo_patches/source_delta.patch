From 15aa0edca8516fc339832be67e2a99558e084d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 01/34] verif: guarded hooks to choose decisions and schedule
 steps

---
 varisat/src/clause/gc.rs | 15 ++++++++++++
 varisat/src/decision.rs  | 47 ++++++++++++++++++++++++++++++++++++
 varisat/src/lib.rs       |  3 +++
 varisat/src/schedule.rs  | 20 ++++++++++++++++
 varisat/src/verif.rs     | 51 ++++++++++++++++++++++++++++++++++++++++
 5 files changed, 136 insertions(+)
 create mode 100644 varisat/src/verif.rs

diff --git a/varisat/src/clause/gc.rs b/varisat/src/clause/gc.rs
index 0ad1166..d5ebbf6 100644
--- a/varisat/src/clause/gc.rs
+++ b/varisat/src/clause/gc.rs
@@ -28,6 +28,21 @@ pub fn collect_garbage(
     }
 }
 
+/// Lets the verification harness perform a garbage collection at any time.
+#[cfg(varisat_verif)]
+pub fn force_collect_garbage(
+    mut ctx: partial!(
+        Context,
+        mut ClauseAllocP,
+        mut ClauseDbP,
+        mut ImplGraphP,
+        mut WatchlistsP,
+        TrailP,
+    ),
+) {
+    collect_garbage_now(ctx.borrow());
+}
+
 /// Unconditionally perform a garbage collection of long clauses.
 ///
 /// This needs to invalidate or update any other data structure containing references to
diff --git a/varisat/src/decision.rs b/varisat/src/decision.rs
index a8c8ed2..f6861ef 100644
--- a/varisat/src/decision.rs
+++ b/varisat/src/decision.rs
@@ -23,6 +23,13 @@ pub fn make_decision(
         mut VsidsP
     ),
 ) -> bool {
+    #[cfg(varisat_verif)]
+    {
+        if crate::verif::active() {
+            return make_chosen_decision(ctx.borrow());
+        }
+    }
+
     let (vsids, mut ctx) = ctx.split_part_mut(VsidsP);
 
     if let Some(decision_var) = vsids.find(|&var| ctx.part(AssignmentP).var_value(var).is_none()) {
@@ -38,6 +45,46 @@ pub fn make_decision(
     }
 }
 
+/// Variant of [`make_decision`] that lets the verification oracle choose among all decisions.
+#[cfg(varisat_verif)]
+fn make_chosen_decision(
+    mut ctx: partial!(
+        Context,
+        mut AssignmentP,
+        mut ImplGraphP,
+        mut TrailP,
+        mut VsidsP
+    ),
+) -> bool {
+    let (vsids, mut ctx) = ctx.split_part_mut(VsidsP);
+
+    let mut candidates = vec![];
+
+    while let Some(var) = vsids.find(|&var| ctx.part(AssignmentP).var_value(var).is_none()) {
+        candidates.push(var);
+    }
+
+    if candidates.is_empty() {
+        return false;
+    }
+
+    let choice = crate::verif::choose(crate::verif::Point::Decision, candidates.len() * 2);
+
+    let decision_var = candidates.remove(choice / 2);
+
+    for var in candidates {
+        vsids.make_available(var);
+    }
+
+    let polarity = ctx.part(AssignmentP).last_var_value(decision_var) ^ (choice % 2 == 1);
+
+    ctx.part_mut(TrailP).new_decision_level();
+
+    enqueue_assignment(ctx.borrow(), decision_var.lit(polarity), Reason::Unit);
+
+    true
+}
+
 /// Make a variable available for decisions.
 pub fn make_available(mut ctx: partial!(Context, mut VsidsP), var: Var) {
     ctx.part_mut(VsidsP).make_available(var);
diff --git a/varisat/src/lib.rs b/varisat/src/lib.rs
index 340b57b..2d72b4a 100644
--- a/varisat/src/lib.rs
+++ b/varisat/src/lib.rs
@@ -29,6 +29,9 @@ mod tmp;
 mod unit_simplify;
 mod variables;
 
+#[cfg(varisat_verif)]
+pub mod verif;
+
 pub use solver::{ProofFormat, Solver};
 pub use varisat_formula::{cnf, lit, CnfFormula, ExtendFormula, Lit, Var};
 
diff --git a/varisat/src/schedule.rs b/varisat/src/schedule.rs
index 1e1b04e..8fb5ed9 100644
--- a/varisat/src/schedule.rs
+++ b/varisat/src/schedule.rs
@@ -92,6 +92,26 @@ pub fn schedule_step<'a>(
             reduce_mids(ctx.borrow());
         }
 
+        #[cfg(varisat_verif)]
+        {
+            let steps = crate::verif::choose(
+                crate::verif::Point::Schedule,
+                crate::verif::STEP_COUNT,
+            );
+            if steps & crate::verif::STEP_RESTART != 0 {
+                restart(ctx.borrow());
+            }
+            if steps & crate::verif::STEP_REDUCE_LOCALS != 0 {
+                reduce_locals(ctx.borrow());
+            }
+            if steps & crate::verif::STEP_REDUCE_MIDS != 0 {
+                reduce_mids(ctx.borrow());
+            }
+            if steps & crate::verif::STEP_COLLECT != 0 {
+                crate::clause::gc::force_collect_garbage(ctx.borrow());
+            }
+        }
+
         collect_garbage(ctx.borrow());
 
         conflict_step(ctx.borrow());
diff --git a/varisat/src/verif.rs b/varisat/src/verif.rs
new file mode 100644
index 0000000..8a51c88
--- /dev/null
+++ b/varisat/src/verif.rs
@@ -0,0 +1,51 @@
+//! Hooks for the verification harness, only compiled with `--cfg varisat_verif`.
+//!
+//! A thread local oracle is asked at each point where the solver has a choice that must not affect
+//! its results. Choice `0` always stands for the solver's own behavior and is used when no oracle
+//! is installed.
+use std::cell::RefCell;
+
+/// A point in the search where the oracle can choose.
+#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
+pub enum Point {
+    /// Pick a decision: `variable rank * 2 + flip polarity`.
+    Decision,
+    /// Additional steps before looking for the next conflict, a bit mask of the `STEP_*` bits.
+    Schedule,
+}
+
+pub const STEP_RESTART: usize = 1;
+pub const STEP_REDUCE_LOCALS: usize = 2;
+pub const STEP_REDUCE_MIDS: usize = 4;
+pub const STEP_COLLECT: usize = 8;
+pub const STEP_COUNT: usize = 16;
+
+type Oracle = Box<dyn FnMut(Point, usize) -> usize>;
+
+thread_local! {
+    static ORACLE: RefCell<Option<Oracle>> = RefCell::new(None);
+}
+
+/// Install or remove the oracle of this thread.
+///
+/// It is called with the kind of choice and the number of options.
+pub fn set_oracle(oracle: Option<Oracle>) {
+    ORACLE.with(|o| *o.borrow_mut() = oracle)
+}
+
+/// Whether an oracle is installed.
+pub fn active() -> bool {
+    ORACLE.with(|o| o.borrow().is_some())
+}
+
+/// Ask the oracle to pick one of `options` alternatives.
+pub fn choose(point: Point, options: usize) -> usize {
+    ORACLE.with(|o| match &mut *o.borrow_mut() {
+        Some(oracle) => {
+            let choice = oracle(point, options);
+            assert!(choice < options);
+            choice
+        }
+        None => 0,
+    })
+}
-- 
2.43.0


From 310ae42906a6faaa396880d98c79220002b1814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 02/34] fix: give variables introduced after solving a value in
 Solver::model

---
 varisat/src/solver.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/varisat/src/solver.rs b/varisat/src/solver.rs
index b46bcf8..5c1f841 100644
--- a/varisat/src/solver.rs
+++ b/varisat/src/solver.rs
@@ -190,14 +190,15 @@ impl<'a> Solver<'a> {
             Some(
                 ctx.part(VariablesP)
                     .user_var_iter()
-                    .flat_map(|user_var| {
+                    .map(|user_var| {
                         let global_var = ctx
                             .part(VariablesP)
                             .global_from_user()
                             .get(user_var)
                             .expect("no existing global var for user var");
-                        ctx.part(ModelP).assignment()[global_var.index()]
-                            .map(|value| user_var.lit(value))
+                        // Variables introduced after the model was found are unconstrained.
+                        let value = ctx.part(ModelP).assignment().get(global_var.index());
+                        user_var.lit(value.and_then(|&value| value).unwrap_or(false))
                     })
                     .collect(),
             )
-- 
2.43.0


From d180986240a77cce587d6bda80b1c5870f1eaf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 03/34] fix: clear the assumed flag of assumptions that were
 dropped as implied

---
 varisat/src/assumptions.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/varisat/src/assumptions.rs b/varisat/src/assumptions.rs
index c21d8cb..531c229 100644
--- a/varisat/src/assumptions.rs
+++ b/varisat/src/assumptions.rs
@@ -17,6 +17,8 @@ use crate::{
 #[derive(Default)]
 pub struct Assumptions {
     assumptions: Vec<Lit>,
+    /// Assumptions dropped from `assumptions` during the search as they are implied by others.
+    implied_assumptions: Vec<Lit>,
     failed_core: Vec<Lit>,
     user_failed_core: Vec<Lit>,
     assumption_levels: usize,
@@ -89,7 +91,9 @@ pub fn set_assumptions<'a>(
 
     let (assumptions, mut ctx_2) = ctx.split_part_mut(AssumptionsP);
 
-    for lit in assumptions.assumptions.iter() {
+    let implied_assumptions = assumptions.implied_assumptions.drain(..);
+
+    for lit in assumptions.assumptions.drain(..).chain(implied_assumptions) {
         ctx_2
             .part_mut(VariablesP)
             .var_data_solver_mut(lit.var())
@@ -151,7 +155,8 @@ pub fn enqueue_assumption<'a>(
                 // The next assumption is already implied by other assumptions so we can remove it.
                 let level = ctx.part(TrailP).current_level();
                 let assumptions = ctx.part_mut(AssumptionsP);
-                assumptions.assumptions.swap_remove(level);
+                let implied = assumptions.assumptions.swap_remove(level);
+                assumptions.implied_assumptions.push(implied);
             }
             None => {
                 ctx.part_mut(TrailP).new_decision_level();
-- 
2.43.0


From cb3544a99de4a89934dba422bba3e38e82195c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 04/34] fix: don't leak the marker of an assumption falsified
 by a removed unit clause

---
 varisat/src/assumptions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/varisat/src/assumptions.rs b/varisat/src/assumptions.rs
index 531c229..6af94f7 100644
--- a/varisat/src/assumptions.rs
+++ b/varisat/src/assumptions.rs
@@ -238,6 +238,10 @@ fn analyze_assumption_conflict<'a>(
         }
     }
 
+    // The assumption itself is not visited above when a unit clause that isn't on the trail anymore
+    // falsifies it.
+    flags[assumption.index()] = false;
+
     assumptions.failed_propagation_hashes.reverse();
 
     assumptions.user_failed_core.clear();
-- 
2.43.0


From e6535b564cd4d0dec46f702b0ae95ec46ea93de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 05/34] fix: number ignored clauses of an unsatisfiable formula
 for proof processors

Clause ids reported to proof processors are supposed to match the input order.
Clauses following a unit conflict or an empty clause were not counted, so that
the id of the empty clause was not larger than the ids of all input clauses as
LRAT requires. The empty clause derived from a unit conflict was also emitted
again, with the same id, by every further call of solve.
---
 varisat-checker/src/clauses.rs |  3 +++
 varisat-checker/src/state.rs   | 14 +++++++++-----
 varisat/src/load.rs            |  5 ++++-
 varisat/src/proof.rs           | 15 +++++++++++++++
 4 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index 06f99f4..54eb7db 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -155,6 +155,9 @@ pub fn add_clause<'a>(
     clause: &[Lit],
 ) -> Result<(), CheckerError> {
     if ctx.part(CheckerStateP).unsat {
+        // The clause isn't needed, but we want to ensure that the clause ids match the input order
+        // so we skip a clause id.
+        ctx.part_mut(ClausesP).next_clause_id += 1;
         return Ok(());
     }
 
diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 7f3e747..e7bca6a 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -624,19 +624,23 @@ pub fn check_proof<'a>(
 
 /// Process unit conflicts detected during clause loading.
 pub fn process_unit_conflicts<'a>(
-    mut ctx: partial!(Context<'a>, mut ProcessingP<'a>, ClausesP, VariablesP),
+    mut ctx: partial!(Context<'a>, mut ClausesP, mut ProcessingP<'a>, VariablesP),
 ) -> Result<(), CheckerError> {
-    let (clauses, mut ctx) = ctx.split_part(ClausesP);
-    if let Some(ids) = &clauses.unit_conflict {
+    let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
+    // The empty clause is emitted only once, even when this is called repeatedly.
+    if let Some(ids) = clauses.unit_conflict.take() {
         let clause = &[];
 
+        let id = clauses.next_clause_id;
+        clauses.next_clause_id += 1;
+
         process_step(
             ctx.borrow(),
             &CheckedProofStep::AtClause {
-                id: clauses.next_clause_id,
+                id,
                 redundant: false,
                 clause,
-                propagations: ids,
+                propagations: &ids,
             },
         )?;
     }
diff --git a/varisat/src/load.rs b/varisat/src/load.rs
index 43415db..4b09df6 100644
--- a/varisat/src/load.rs
+++ b/varisat/src/load.rs
@@ -44,7 +44,10 @@ pub fn load_clause<'a>(
     user_lits: &[Lit],
 ) {
     match ctx.part(SolverStateP).sat_state {
-        SatState::Unsat => return,
+        SatState::Unsat => {
+            proof::skip_clause(ctx.borrow());
+            return;
+        }
         SatState::Sat => {
             ctx.part_mut(SolverStateP).sat_state = SatState::Unknown;
         }
diff --git a/varisat/src/proof.rs b/varisat/src/proof.rs
index 65aeb56..4396617 100644
--- a/varisat/src/proof.rs
+++ b/varisat/src/proof.rs
@@ -155,6 +155,21 @@ pub fn add_clause<'a>(
     }
 }
 
+/// Call when ignoring an external clause as the formula is already known to be unsatisfiable.
+///
+/// Proof processors number the clauses of the initial formula in input order, so the checker needs
+/// to know about the ignored clauses. As the checker also knows that the formula is unsatisfiable,
+/// it ignores the literals of those clauses.
+pub fn skip_clause<'a>(mut ctx: partial!(Context<'a>, mut ProofP<'a>, mut SolverStateP)) {
+    if ctx.part(SolverStateP).solver_invoked {
+        return;
+    }
+    if let Some(checker) = &mut ctx.part_mut(ProofP).checker {
+        let result = checker.add_clause(&[]);
+        handle_self_check_result(ctx.borrow(), result);
+    }
+}
+
 /// Add a step to the proof.
 ///
 /// Ignored when proof generation is disabled.
-- 
2.43.0


From a9b4434ec800099da11af76ec565a3661df36a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 06/34] fix: don't panic for proof steps that mention unknown
 variables

A clause deletion or model step with a variable that was not mentioned before
made the checker index out of bounds instead of checking the step.
---
 varisat-checker/src/state.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index e7bca6a..905446c 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -342,6 +342,10 @@ fn check_delete_clause_step<'a>(
         ));
     }
 
+    for &lit in tmp.iter() {
+        ensure_var(ctx.borrow(), lit.var());
+    }
+
     let redundant = proof == DeleteClauseProof::Redundant;
 
     let mut subsumed_by = None;
@@ -472,12 +476,20 @@ fn check_unit_clauses_step<'a>(
 
 /// Check a Model step
 fn check_model_step<'a>(
-    mut ctx: partial!(Context<'a>, mut ProcessingP<'a>, CheckerStateP, ClausesP, VariablesP),
+    mut ctx: partial!(
+        Context<'a>,
+        mut ClausesP,
+        mut ProcessingP<'a>,
+        mut VariablesP,
+        CheckerStateP,
+    ),
     model: &[Lit],
 ) -> Result<(), CheckerError> {
     let mut assignments = HashSet::default();
 
     for &lit in model.iter() {
+        ensure_var(ctx.borrow(), lit.var());
+
         if let Some((false, _)) = ctx.part(ClausesP).lit_value(lit) {
             return Err(CheckerError::check_failed(
                 ctx.part(CheckerStateP).step,
-- 
2.43.0


From 317015bc99123b05551c52c952bf8838c339b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 07/34] fix: reject models in a proof after unsatisfiability
 was established

The empty clause and conflicting unit clauses are not stored among the clauses
that a model step is checked against, so the checker confirmed models of
formulas known to be unsatisfiable.
---
 varisat-checker/src/state.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 905446c..86c8a56 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -485,6 +485,14 @@ fn check_model_step<'a>(
     ),
     model: &[Lit],
 ) -> Result<(), CheckerError> {
+    // The empty clause and conflicting units aren't part of the clauses checked below
+    if ctx.part(CheckerStateP).unsat {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            "model for an unsatisfiable formula".to_string(),
+        ));
+    }
+
     let mut assignments = HashSet::default();
 
     for &lit in model.iter() {
-- 
2.43.0


From a798680d9f68c6d4479250ddf3d927a757ae93c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:46 +0000
Subject: [PATCH 08/34] fix: register variables of tautological clauses in the
 checker

A variable that is first mentioned by a tautological clause was unknown to
transcript processors, which panicked when such a clause was loaded.
---
 varisat-checker/src/clauses.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index 54eb7db..dd7da19 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -163,7 +163,13 @@ pub fn add_clause<'a>(
 
     let (tmp_data, mut ctx) = ctx.split_part_mut(TmpDataP);
 
-    if copy_canonical(&mut tmp_data.tmp, clause) {
+    let tautology = copy_canonical(&mut tmp_data.tmp, clause);
+
+    for &lit in tmp_data.tmp.iter() {
+        ensure_sampling_var(ctx.borrow(), lit.var())?;
+    }
+
+    if tautology {
         let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
         process_step(
             ctx.borrow(),
@@ -176,10 +182,6 @@ pub fn add_clause<'a>(
         return Ok(());
     }
 
-    for &lit in tmp_data.tmp.iter() {
-        ensure_sampling_var(ctx.borrow(), lit.var())?;
-    }
-
     let (id, added) = store_clause(ctx.borrow(), &tmp_data.tmp, false);
 
     let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
-- 
2.43.0


From e38dfa8dfb57aebe52d635d01fa8a3752c967b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 09/34] fix: don't let proofs rename variables of the formula
 unnoticed

A proof could give a variable of the initial formula another user name, reuse
the name of such a variable, hide an assumption variable, or turn a variable of
the formula into an internal variable and delete its unit clause, all without a
corresponding transcript step. Models confirmed afterwards didn't have to be
models of the given formula.
---
 varisat-checker/src/processing.rs | 18 +-------
 varisat-checker/src/state.rs      | 24 ++++++++--
 varisat-checker/src/variables.rs  | 74 ++++++++++++++++++++++++++++++-
 3 files changed, 95 insertions(+), 21 deletions(-)

diff --git a/varisat-checker/src/processing.rs b/varisat-checker/src/processing.rs
index 038406c..56a7496 100644
--- a/varisat-checker/src/processing.rs
+++ b/varisat-checker/src/processing.rs
@@ -7,7 +7,6 @@ use varisat_formula::{Lit, Var};
 use crate::{
     context::{parts::*, Context},
     transcript::{self, ProofTranscriptProcessor},
-    variables::SamplingMode,
     CheckerError,
 };
 
@@ -118,22 +117,7 @@ impl<'a, 'b> CheckerData<'a, 'b> {
     ///
     /// Returns `None` if the proof variable is an internal or hidden variable.
     pub fn user_from_proof_var(self, proof_var: Var) -> Option<Var> {
-        let variables = self.0.part(VariablesP);
-        variables
-            .var_data
-            .get(proof_var.index())
-            .and_then(|var_data| {
-                var_data.user_var.or_else(|| {
-                    // This is needed as yet another workaround to enable independently loading the
-                    // initial formula and proof.
-                    // TODO can this be solved in a better way?
-                    if var_data.sampling_mode == SamplingMode::Sample {
-                        Some(proof_var)
-                    } else {
-                        None
-                    }
-                })
-            })
+        self.0.part(VariablesP).user_from_global(proof_var)
     }
 }
 
diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 86c8a56..dbde699 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -21,8 +21,8 @@ use crate::{
     rup::check_clause_with_hashes,
     sorted_lits::{copy_canonical, is_subset},
     variables::{
-        add_user_mapping, ensure_sampling_var, ensure_var, remove_user_mapping, SamplingMode,
-        VarData,
+        add_user_mapping, ensure_sampling_var, ensure_var, is_used, remove_user_mapping,
+        SamplingMode, VarData,
     },
     CheckerError,
 };
@@ -43,7 +43,7 @@ pub struct CheckerState {
     /// Last added irredundant clause literals.
     previous_irred_clause_lits: Vec<Lit>,
     /// Current assumptions, used to check FailedAssumptions and Model
-    assumptions: Vec<Lit>,
+    pub assumptions: Vec<Lit>,
 }
 
 impl CheckerState {
@@ -178,6 +178,13 @@ fn check_delete_var_step<'a>(
     }
 
     if let Some(unit_clause) = ctx.part(ClausesP).unit_clauses[var.index()] {
+        if ctx.part(VariablesP).has_implicit_user_var(var) {
+            return Err(CheckerError::check_failed(
+                ctx.part(CheckerStateP).step,
+                format!("deleted variable {:?} is not hidden", var),
+            ));
+        }
+
         let clause = [var.lit(unit_clause.value)];
 
         let id = match unit_clause.id {
@@ -216,8 +223,19 @@ fn check_change_sampling_mode<'a>(
     sample: bool,
 ) -> Result<(), CheckerError> {
     ensure_var(ctx.borrow(), var);
+
+    let in_use = is_used(ctx.borrow(), var);
+
     let mut ctx_in = ctx;
     let (variables, ctx) = ctx_in.split_part_mut(VariablesP);
+
+    if !sample && in_use && variables.has_implicit_user_var(var) {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("sampling mode change of unnamed variable {:?}", var),
+        ));
+    }
+
     let var_data = &mut variables.var_data[var.index()];
     let sampling_mode = if sample {
         SamplingMode::Sample
diff --git a/varisat-checker/src/variables.rs b/varisat-checker/src/variables.rs
index 51adb1b..bd31f4e 100644
--- a/varisat-checker/src/variables.rs
+++ b/varisat-checker/src/variables.rs
@@ -51,6 +51,36 @@ pub struct Variables {
     used_user_vars: HashSet<Var>,
 }
 
+impl Variables {
+    /// User variable corresponding to a global variable.
+    ///
+    /// Returns `None` if the global variable is an internal or hidden variable.
+    pub fn user_from_global(&self, global: Var) -> Option<Var> {
+        let var_data = self.var_data.get(global.index())?;
+        if var_data.user_var.is_none() && self.has_implicit_user_var(global) {
+            Some(global)
+        } else {
+            var_data.user_var
+        }
+    }
+
+    /// Whether a global variable uses its own name as user name without an explicit mapping.
+    ///
+    /// This is needed as yet another workaround to enable independently loading the initial formula
+    /// and proof.
+    // TODO can this be solved in a better way?
+    pub fn has_implicit_user_var(&self, global: Var) -> bool {
+        match self.var_data.get(global.index()) {
+            Some(var_data) => {
+                var_data.user_var.is_none()
+                    && var_data.sampling_mode == SamplingMode::Sample
+                    && !self.used_user_vars.contains(&global)
+            }
+            None => false,
+        }
+    }
+}
+
 /// Check that var is a sampling user var and create new variables as necessary.
 pub fn ensure_sampling_var(
     mut ctx: partial!(Context, mut ClausesP, mut VariablesP, CheckerStateP),
@@ -60,7 +90,9 @@ pub fn ensure_sampling_var(
 
     let variables = ctx.part_mut(VariablesP);
 
-    if variables.var_data[var.index()].sampling_mode != SamplingMode::Sample {
+    if variables.var_data[var.index()].sampling_mode != SamplingMode::Sample
+        || variables.user_from_global(var).is_none()
+    {
         return Err(CheckerError::check_failed(
             ctx.part(CheckerStateP).step,
             format!("variable {:?} is not a sampling variable", var),
@@ -69,6 +101,16 @@ pub fn ensure_sampling_var(
     Ok(())
 }
 
+/// Whether a variable occurs in clauses or assumptions.
+pub fn is_used(ctx: partial!(Context, CheckerStateP, ClausesP, VariablesP), var: Var) -> bool {
+    ctx.part(ClausesP).unit_clauses[var.index()].is_some()
+        || [false, true].iter().any(|&polarity| {
+            let lit = var.lit(polarity);
+            ctx.part(VariablesP).lit_data[lit.code()].clause_count > 0
+                || ctx.part(CheckerStateP).assumptions.contains(&lit)
+        })
+}
+
 /// Ensure that a variable is present.
 pub fn ensure_var(mut ctx: partial!(Context, mut ClausesP, mut VariablesP), var: Var) {
     let (variables, mut ctx) = ctx.split_part_mut(VariablesP);
@@ -94,6 +136,11 @@ pub fn add_user_mapping<'a>(
 ) -> Result<(), CheckerError> {
     ensure_var(ctx.borrow(), global_var);
 
+    // Without an explicit mapping variables of the initial formula use their own name.
+    let in_use = is_used(ctx.borrow(), global_var);
+    let name_in_use = user_var.index() < ctx.part(VariablesP).var_data.len()
+        && is_used(ctx.borrow(), user_var);
+
     let mut ctx_in = ctx;
     let (variables, ctx) = ctx_in.split_part_mut(VariablesP);
 
@@ -107,6 +154,22 @@ pub fn add_user_mapping<'a>(
         ));
     }
 
+    if user_var != global_var {
+        if in_use && variables.has_implicit_user_var(global_var) {
+            return Err(CheckerError::check_failed(
+                ctx.part(CheckerStateP).step,
+                format!("change of user name for in use varible {:?}", global_var),
+            ));
+        }
+
+        if name_in_use && variables.has_implicit_user_var(user_var) {
+            return Err(CheckerError::check_failed(
+                ctx.part(CheckerStateP).step,
+                format!("user name {:?} used for two different variables", user_var),
+            ));
+        }
+    }
+
     let var_data = &mut variables.var_data[global_var.index()];
 
     // sampling_mode will be Witness for a newly observed internal variable and Sample for a a
@@ -160,6 +223,15 @@ pub fn remove_user_mapping<'a>(
 ) -> Result<(), CheckerError> {
     ensure_var(ctx.borrow(), global_var);
 
+    let assumptions = &ctx.part(CheckerStateP).assumptions;
+
+    if assumptions.iter().any(|lit| lit.var() == global_var) {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("cannot hide assumption variable {:?}", global_var),
+        ));
+    }
+
     let variables = ctx.part_mut(VariablesP);
 
     let var_data = &variables.var_data[global_var.index()];
-- 
2.43.0


From 0676764944a959b86fbcce8f7e3b6fe1def6da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 10/34] fix: report unit clauses as irredundant to proof
 processors

The checker keeps every unit clause and uses it to justify the deletion of
irredundant clauses, so it must not be reported as redundant.
---
 varisat-checker/src/state.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index dbde699..1cf7fe7 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -301,6 +301,10 @@ fn check_at_clause_step<'a>(
 
     check_clause_with_hashes(ctx.borrow(), &tmp, &*propagation_hashes)?;
 
+    // Unit clauses and the empty clause are never deleted and used to justify the deletion of other
+    // clauses, so they are always irredundant.
+    let redundant = redundant && tmp.len() > 1;
+
     let (id, added) = store_clause(ctx.borrow(), &tmp, redundant);
 
     if !redundant {
-- 
2.43.0


From bc4616a25a106c1a53f3da21af28a588b0d7c56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 11/34] fix: don't report conflicting unit clauses as removable
 to proof processors

---
 varisat-checker/src/state.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 1cf7fe7..d4d64ff 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -192,16 +192,20 @@ fn check_delete_var_step<'a>(
             _ => unreachable!(),
         };
 
-        process_step(
-            ctx.borrow(),
-            &CheckedProofStep::DeleteRatClause {
-                id,
-                keep_as_redundant: false,
-                clause: &clause[..],
-                pivot: clause[0],
-                propagations: &ResolutionPropagations {},
-            },
-        )?;
+        // A unit clause that conflicts with a known unit clause is not stored, so when the clauses are
+        // known to be unsatisfiable the negated variable might still be present.
+        if !ctx.part(CheckerStateP).unsat {
+            process_step(
+                ctx.borrow(),
+                &CheckedProofStep::DeleteRatClause {
+                    id,
+                    keep_as_redundant: false,
+                    clause: &clause[..],
+                    pivot: clause[0],
+                    propagations: &ResolutionPropagations {},
+                },
+            )?;
+        }
         ctx.part_mut(ClausesP).unit_clauses[var.index()] = None;
     }
 
-- 
2.43.0


From 8f9fbf203e42f95eb3a73ab40b2f1ac4180c95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 12/34] fix: reject out of range variables and literals when
 parsing proofs

These panicked in debug builds and were silently truncated otherwise. Also don't
allocate memory based on a corrupted length alone.
---
 varisat-internal-proof/src/binary_format.rs | 53 +++++++++++++++------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/varisat-internal-proof/src/binary_format.rs b/varisat-internal-proof/src/binary_format.rs
index e296468..74632c7 100644
--- a/varisat-internal-proof/src/binary_format.rs
+++ b/varisat-internal-proof/src/binary_format.rs
@@ -168,32 +168,32 @@ impl Parser {
         let code = read_u64(&mut *source)?;
         match code {
             CODE_SOLVER_VAR_NAME_UPDATE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
-                let solver = Some(Var::from_index(read_u64(&mut *source)? as usize));
+                let global = read_var(&mut *source)?;
+                let solver = Some(read_var(&mut *source)?);
                 Ok(ProofStep::SolverVarName { global, solver })
             }
             CODE_SOLVER_VAR_NAME_REMOVE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
+                let global = read_var(&mut *source)?;
                 Ok(ProofStep::SolverVarName {
                     global,
                     solver: None,
                 })
             }
             CODE_USER_VAR_NAME_UPDATE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
-                let user = Some(Var::from_index(read_u64(&mut *source)? as usize));
+                let global = read_var(&mut *source)?;
+                let user = Some(read_var(&mut *source)?);
                 Ok(ProofStep::UserVarName { global, user })
             }
             CODE_USER_VAR_NAME_REMOVE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
+                let global = read_var(&mut *source)?;
                 Ok(ProofStep::UserVarName { global, user: None })
             }
             CODE_DELETE_VAR => {
-                let var = Var::from_index(read_u64(&mut *source)? as usize);
+                let var = read_var(&mut *source)?;
                 Ok(ProofStep::DeleteVar { var })
             }
             CODE_CHANGE_SAMPLING_MODE_SAMPLE | CODE_CHANGE_SAMPLING_MODE_WITNESS => {
-                let var = Var::from_index(read_u64(&mut *source)? as usize);
+                let var = read_var(&mut *source)?;
                 Ok(ProofStep::ChangeSamplingMode {
                     var,
                     sample: code == CODE_CHANGE_SAMPLING_MODE_SAMPLE,
@@ -265,6 +265,29 @@ impl Parser {
     }
 }
 
+/// Limit for allocations made before any of the items was read.
+///
+/// The length in a corrupted proof can be arbitrarily large.
+const MAX_RESERVE: usize = 1 << 16;
+
+/// Read a variable from a varisat proof
+fn read_var(source: &mut impl BufRead) -> Result<Var, Error> {
+    let index = read_u64(&mut *source)?;
+    if index > Var::max_var().index() as u64 {
+        anyhow::bail!("parse error");
+    }
+    Ok(Var::from_index(index as usize))
+}
+
+/// Read a literal from a varisat proof
+fn read_lit(source: &mut impl BufRead) -> Result<Lit, Error> {
+    let code = read_u64(&mut *source)?;
+    if code > Var::max_var().negative().code() as u64 {
+        anyhow::bail!("parse error");
+    }
+    Ok(Lit::from_code(code as usize))
+}
+
 /// Writes a slice of literals for a varisat proof
 fn write_literals(target: &mut impl Write, literals: &[Lit]) -> io::Result<()> {
     write_u64(&mut *target, literals.len() as u64)?;
@@ -275,12 +298,12 @@ fn write_literals(target: &mut impl Write, literals: &[Lit]) -> io::Result<()> {
 }
 
 /// Read a slice of literals from a varisat proof
-fn read_literals(source: &mut impl BufRead, literals: &mut Vec<Lit>) -> Result<(), io::Error> {
+fn read_literals(source: &mut impl BufRead, literals: &mut Vec<Lit>) -> Result<(), Error> {
     literals.clear();
     let len = read_u64(&mut *source)? as usize;
-    literals.reserve(len);
+    literals.reserve(len.min(MAX_RESERVE));
     for _ in 0..len {
-        literals.push(Lit::from_code(read_u64(&mut *source)? as usize));
+        literals.push(read_lit(&mut *source)?);
     }
     Ok(())
 }
@@ -298,7 +321,7 @@ fn write_hashes(target: &mut impl Write, hashes: &[ClauseHash]) -> io::Result<()
 fn read_hashes(source: &mut impl BufRead, hashes: &mut Vec<ClauseHash>) -> Result<(), io::Error> {
     hashes.clear();
     let len = read_u64(&mut *source)? as usize;
-    hashes.reserve(len);
+    hashes.reserve(len.min(MAX_RESERVE));
     for _ in 0..len {
         hashes.push(read_u64(&mut *source)? as ClauseHash);
     }
@@ -319,12 +342,12 @@ fn write_unit_clauses(target: &mut impl Write, units: &[(Lit, ClauseHash)]) -> i
 fn read_unit_clauses(
     source: &mut impl BufRead,
     units: &mut Vec<(Lit, ClauseHash)>,
-) -> Result<(), io::Error> {
+) -> Result<(), Error> {
     units.clear();
     let len = read_u64(&mut *source)? as usize;
-    units.reserve(len);
+    units.reserve(len.min(MAX_RESERVE));
     for _ in 0..len {
-        let lit = Lit::from_code(read_u64(&mut *source)? as usize);
+        let lit = read_lit(&mut *source)?;
         let hash = read_u64(&mut *source)? as ClauseHash;
         units.push((lit, hash));
     }
-- 
2.43.0


From b0883cd129a8e195bb22118bb5486b30397f811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:03 +0000
Subject: [PATCH 13/34] fix: reject unsupported hash widths in the checker
 instead of panicking

---
 varisat-checker/src/state.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index d4d64ff..458bc20 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -106,9 +106,16 @@ pub fn check_step<'a>(
         }
         ProofStep::UnitClauses { units } => check_unit_clauses_step(ctx.borrow(), units),
         ProofStep::ChangeHashBits { bits } => {
-            ctx.part_mut(ClauseHasherP).hash_bits = bits;
-            rehash(ctx.borrow());
-            Ok(())
+            if bits == 0 || bits > ClauseHash::max_value().count_ones() {
+                Err(CheckerError::check_failed(
+                    ctx.part(CheckerStateP).step,
+                    format!("unsupported number of hash bits: {}", bits),
+                ))
+            } else {
+                ctx.part_mut(ClauseHasherP).hash_bits = bits;
+                rehash(ctx.borrow());
+                Ok(())
+            }
         }
         ProofStep::Model { assignment } => check_model_step(ctx.borrow(), assignment),
         ProofStep::Assumptions { assumptions } => {
-- 
2.43.0


From 7b907fe41956003b4ae8f7b91d960b08535707b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 14/34] fix: retry interrupted reads when parsing proofs

---
 varisat-internal-proof/src/vli_enc.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/varisat-internal-proof/src/vli_enc.rs b/varisat-internal-proof/src/vli_enc.rs
index 058058e..3d77055 100644
--- a/varisat-internal-proof/src/vli_enc.rs
+++ b/varisat-internal-proof/src/vli_enc.rs
@@ -73,8 +73,15 @@ fn read_u64_fast(bytes: &[u8; 16]) -> (u64, usize) {
 /// This uses [`read_u64_fast`] if the remaining buffer is larger than 16 bytes and falls back to a
 /// slower implementation otherwise.
 pub fn read_u64(source: &mut impl BufRead) -> Result<u64, io::Error> {
-    let buf = source.fill_buf()?;
-    if buf.len() >= 16 {
+    let lookahead = loop {
+        match source.fill_buf() {
+            Ok(buf) => break buf.len(),
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+            Err(err) => return Err(err),
+        }
+    };
+    if lookahead >= 16 {
+        let buf = source.fill_buf()?;
         let next_bytes: &[u8; 16] = (&buf[..16]).try_into().unwrap();
         let (value, advance) = read_u64_fast(next_bytes);
         source.consume(advance);
-- 
2.43.0


From 174b483f5ed9b81e0be77dd65385daaeed4a3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 15/34] fix: report the right line for errors detected at the
 end of a line in DIMACS input

---
 varisat-dimacs/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/varisat-dimacs/src/lib.rs b/varisat-dimacs/src/lib.rs
index dc56230..42e8166 100644
--- a/varisat-dimacs/src/lib.rs
+++ b/varisat-dimacs/src/lib.rs
@@ -158,9 +158,6 @@ impl DimacsParser {
             return Err(ParserError::PreviousError);
         }
         for &byte in chunk.iter() {
-            if byte == b'\n' {
-                self.line_number += 1;
-            }
             match byte {
                 b'\n' | b'\r' if self.in_comment_or_header => {
                     if self.in_header {
@@ -228,6 +225,10 @@ impl DimacsParser {
                     });
                 }
             }
+            // The newline is still part of the line it ends.
+            if byte == b'\n' {
+                self.line_number += 1;
+            }
         }
 
         Ok(())
-- 
2.43.0


From f21284c20ff17447cdd6fe3570754b69766a8dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 16/34] fix: reject DIMACS input that ends with a lone minus
 sign

---
 varisat-dimacs/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/varisat-dimacs/src/lib.rs b/varisat-dimacs/src/lib.rs
index 42e8166..82b41c1 100644
--- a/varisat-dimacs/src/lib.rs
+++ b/varisat-dimacs/src/lib.rs
@@ -245,7 +245,9 @@ impl DimacsParser {
 
         self.finish_literal();
 
-        if !self.partial_clause.is_empty() {
+        let dangling_negation = self.negate_next_lit && !self.in_lit;
+
+        if dangling_negation || !self.partial_clause.is_empty() {
             return Err(ParserError::UnterminatedClause {
                 line: self.line_number,
             });
-- 
2.43.0


From 8d62f754a29669f0b7533a9492ae9513788a336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 17/34] fix: retry interrupted reads when parsing DIMACS input

---
 varisat-dimacs/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/varisat-dimacs/src/lib.rs b/varisat-dimacs/src/lib.rs
index 82b41c1..fa8c7b9 100644
--- a/varisat-dimacs/src/lib.rs
+++ b/varisat-dimacs/src/lib.rs
@@ -130,7 +130,10 @@ impl DimacsParser {
         let mut parser = Self::new();
 
         loop {
-            let data = buffer.fill_buf()?;
+            let data = match buffer.fill_buf() {
+                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                result => result?,
+            };
             if data.is_empty() {
                 break;
             }
-- 
2.43.0


From ec47b48bd769961e6767d6575d3ff81f61a0fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 18/34] fix: don't overflow the restart schedule for large
 interval scales

---
 varisat/src/schedule.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/varisat/src/schedule.rs b/varisat/src/schedule.rs
index 8fb5ed9..0f9b7dd 100644
--- a/varisat/src/schedule.rs
+++ b/varisat/src/schedule.rs
@@ -82,7 +82,12 @@ pub fn schedule_step<'a>(
         if schedule.next_restart == schedule.conflicts {
             restart(ctx.borrow());
             schedule.restarts += 1;
-            schedule.next_restart += config.luby_restart_interval_scale * schedule.luby.advance();
+            // The scale can be changed to a value for which the next restart is out of reach.
+            schedule.next_restart = schedule.next_restart.saturating_add(
+                config
+                    .luby_restart_interval_scale
+                    .saturating_mul(schedule.luby.advance()),
+            );
         }
 
         if schedule.conflicts % config.reduce_locals_interval == 0 {
-- 
2.43.0


From 2a1ebe856fff6e45d91e8aeb86931b40affa7c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 19/34] fix: report a result on the command line only when its
 proof was written

---
 varisat-cli/src/main.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/varisat-cli/src/main.rs b/varisat-cli/src/main.rs
index 8791121..93f6352 100644
--- a/varisat-cli/src/main.rs
+++ b/varisat-cli/src/main.rs
@@ -119,7 +119,7 @@ fn main_with_err() -> Result<i32, Error> {
         config_update.merge(toml::from_str(&config_option)?);
     }
 
-    let mut lrat_processor;
+    let mut lrat_processor = None;
 
     let mut solver = Solver::new();
 
@@ -154,9 +154,10 @@ fn main_with_err() -> Result<i32, Error> {
             "binary-drat" => Some(ProofFormat::BinaryDrat),
             "varisat" => Some(ProofFormat::Varisat),
             "lrat" | "clrat" => {
-                lrat_processor =
-                    WriteLrat::new(fs::File::create(path)?, proof_format_str == "clrat");
-                solver.add_proof_processor(&mut lrat_processor);
+                solver.add_proof_processor(lrat_processor.get_or_insert(WriteLrat::new(
+                    fs::File::create(path)?,
+                    proof_format_str == "clrat",
+                )));
                 None
             }
             _ => unreachable!(),
@@ -175,11 +176,22 @@ fn main_with_err() -> Result<i32, Error> {
 
     solver.add_dimacs_cnf(file)?;
 
-    match solver.solve() {
+    // Completes the proof, so that a result is only reported when the proof was written.
+    let result = solver
+        .solve()
+        .and_then(|satisfiable| solver.close_proof().map(|()| satisfiable));
+    let model = solver.model();
+
+    drop(solver);
+    if let Some(lrat_processor) = &mut lrat_processor {
+        lrat_processor.flush()?;
+    }
+
+    match result {
         Ok(true) => {
             println!("s SATISFIABLE");
             print!("v");
-            for l in solver.model().unwrap() {
+            for l in model.unwrap() {
                 print!(" {}", l);
             }
             println!(" 0");
-- 
2.43.0


From 8ddbbb66c042923ed3a584a3eb197d234165bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 20/34] fix: report errors when writing LRAT proofs while
 checking on the command line

---
 varisat-cli/src/check.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/varisat-cli/src/check.rs b/varisat-cli/src/check.rs
index ce5a45e..e9a14a1 100644
--- a/varisat-cli/src/check.rs
+++ b/varisat-cli/src/check.rs
@@ -48,18 +48,18 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
 
     checker.add_transcript(&mut transcript);
 
-    let mut lrat_processor;
+    let mut lrat_processor = None;
 
     if let Some(lrat_path) = matches.value_of("lrat-file") {
-        lrat_processor = WriteLrat::new(fs::File::create(lrat_path)?, false);
-        checker.add_processor(&mut lrat_processor);
+        let processor = WriteLrat::new(fs::File::create(lrat_path)?, false);
+        checker.add_processor(lrat_processor.get_or_insert(processor));
     }
 
-    let mut clrat_processor;
+    let mut clrat_processor = None;
 
     if let Some(clrat_path) = matches.value_of("clrat-file") {
-        clrat_processor = WriteLrat::new(fs::File::create(clrat_path)?, true);
-        checker.add_processor(&mut clrat_processor);
+        let processor = WriteLrat::new(fs::File::create(clrat_path)?, true);
+        checker.add_processor(clrat_processor.get_or_insert(processor));
     }
 
     checker.add_dimacs_cnf(file)?;
@@ -68,7 +68,14 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
 
     log::info!("Checking proof file '{}'", path);
 
-    match checker.check_proof(fs::File::open(path)?) {
+    let result = checker.check_proof(fs::File::open(path)?);
+
+    drop(checker);
+    for processor in lrat_processor.iter_mut().chain(clrat_processor.iter_mut()) {
+        processor.flush()?;
+    }
+
+    match result {
         Ok(()) => println!("s VERIFIED"),
         Err(err) => {
             log::error!("{}", err);
-- 
2.43.0


From 955ac4c2c7e4346802ba6aebff30da90bdf6a506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 21/34] fix: print the summary of the last steps of a proof
 transcript

---
 varisat-cli/src/check.rs            | 1 +
 varisat-cli/src/check/transcript.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/varisat-cli/src/check.rs b/varisat-cli/src/check.rs
index e9a14a1..f313fb7 100644
--- a/varisat-cli/src/check.rs
+++ b/varisat-cli/src/check.rs
@@ -71,6 +71,7 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
     let result = checker.check_proof(fs::File::open(path)?);
 
     drop(checker);
+    transcript.finish();
     for processor in lrat_processor.iter_mut().chain(clrat_processor.iter_mut()) {
         processor.flush()?;
     }
diff --git a/varisat-cli/src/check/transcript.rs b/varisat-cli/src/check/transcript.rs
index 30ead32..fe2ab58 100644
--- a/varisat-cli/src/check/transcript.rs
+++ b/varisat-cli/src/check/transcript.rs
@@ -22,6 +22,11 @@ pub struct Transcript {
 }
 
 impl Transcript {
+    /// Print the summary of steps not followed by others.
+    pub fn finish(&mut self) {
+        self.print_summary(None);
+    }
+
     /// Print a summary of steps that appear repeatedly.
     fn print_summary(&mut self, step: Option<SummaryStep>) {
         if self.last_step == step {
-- 
2.43.0


From 170f12c91da6b68a41637bc283ab103f4cc7e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 22/34] fix: count the variables of clauses added after a
 contradiction as used

---
 varisat/src/load.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/varisat/src/load.rs b/varisat/src/load.rs
index 4b09df6..fe6a695 100644
--- a/varisat/src/load.rs
+++ b/varisat/src/load.rs
@@ -45,6 +45,10 @@ pub fn load_clause<'a>(
 ) {
     match ctx.part(SolverStateP).sat_state {
         SatState::Unsat => {
+            // The clause is redundant, but the user variables in it are in use from now on.
+            for user_lit in user_lits.iter() {
+                variables::global_from_user(ctx.borrow(), user_lit.var(), false);
+            }
             proof::skip_clause(ctx.borrow());
             return;
         }
-- 
2.43.0


From 86f6c39073a79bb8bcc553e56144aa7ef47b5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 23/34] fix: list the refutation in transcripts of formulas
 that contain the empty clause

Such a formula needs no derivation, so the transcript of its proof never
mentioned that it is unsatisfiable.
---
 varisat-checker/src/processing.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/varisat-checker/src/processing.rs b/varisat-checker/src/processing.rs
index 56a7496..9f81d3d 100644
--- a/varisat-checker/src/processing.rs
+++ b/varisat-checker/src/processing.rs
@@ -6,7 +6,7 @@ use varisat_formula::{Lit, Var};
 
 use crate::{
     context::{parts::*, Context},
-    transcript::{self, ProofTranscriptProcessor},
+    transcript::{self, ProofTranscriptProcessor, ProofTranscriptStep},
     CheckerError,
 };
 
@@ -151,11 +151,31 @@ impl<'a> Processing<'a> {
         }
         if !self.transcript_processors.is_empty() {
             if let Some(transcript_step) = self.transcript.transcript_step(step, data) {
-                for processor in self.transcript_processors.iter_mut() {
-                    if let Err(err) = processor.process_step(&transcript_step) {
-                        return Err(CheckerError::ProofProcessorError { cause: err });
-                    }
+                Self::transcript_step(&mut self.transcript_processors, &transcript_step)?;
+            }
+            // Unsatisfiability of a formula that contains the empty clause needs no further step.
+            match step {
+                CheckedProofStep::AddClause { clause, .. } if clause.is_empty() => {
+                    Self::transcript_step(
+                        &mut self.transcript_processors,
+                        &ProofTranscriptStep::Unsat,
+                    )?;
                 }
+                _ => (),
+            }
+        }
+
+        Ok(())
+    }
+
+    /// Pass a single transcript step to all transcript processors.
+    fn transcript_step(
+        transcript_processors: &mut [&'a mut dyn ProofTranscriptProcessor],
+        step: &ProofTranscriptStep,
+    ) -> Result<(), CheckerError> {
+        for processor in transcript_processors.iter_mut() {
+            if let Err(err) = processor.process_step(step) {
+                return Err(CheckerError::ProofProcessorError { cause: err });
             }
         }
 
-- 
2.43.0


From 675a17398bef314e55c43aadc3ee3d2dc2d07b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:03 +0000
Subject: [PATCH 24/34] fix: list refutations by conflicting unit clauses in
 transcripts at their place

When checking a stored proof, the conflict between two unit clauses was
only processed at the end of the proof, so the transcript listed it after
queries made and answered later.
---
 varisat-checker/src/state.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 458bc20..eb5bd34 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -645,6 +645,9 @@ pub fn check_proof<'a>(
     let mut buffer = io::BufReader::new(input);
     let mut parser = Parser::default();
 
+    // The formula is loaded completely, so there is no need to delay unit conflicts further.
+    process_unit_conflicts(ctx.borrow())?;
+
     while !ctx.part(CheckerStateP).ended {
         ctx.part_mut(CheckerStateP).step += 1;
 
@@ -655,7 +658,10 @@ pub fn check_proof<'a>(
         }
 
         match parser.parse_step(&mut buffer) {
-            Ok(step) => check_step(ctx.borrow(), step)?,
+            Ok(step) => {
+                check_step(ctx.borrow(), step)?;
+                process_unit_conflicts(ctx.borrow())?;
+            }
             Err(err) => match err.downcast::<io::Error>() {
                 Ok(io_err) => {
                     if io_err.kind() == io::ErrorKind::UnexpectedEof {
@@ -672,7 +678,7 @@ pub fn check_proof<'a>(
         }
     }
 
-    process_unit_conflicts(ctx.borrow())
+    Ok(())
 }
 
 /// Process unit conflicts detected during clause loading.
-- 
2.43.0


From ddd3d687e3e36a67ca310d93d958e1259f908865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 25/34] verif: oracle for the tier of learned clauses (guarded
 by cfg varisat_verif)

---
 varisat/src/clause/assess.rs | 8 ++++++++
 varisat/src/verif.rs         | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/varisat/src/clause/assess.rs b/varisat/src/clause/assess.rs
index a28dacb..d2a12ae 100644
--- a/varisat/src/clause/assess.rs
+++ b/varisat/src/clause/assess.rs
@@ -30,6 +30,14 @@ pub fn assess_learned_clause(
 
 /// Compute the tier for a redundant clause with a given glue level.
 fn select_tier(glue: usize) -> Tier {
+    #[cfg(varisat_verif)]
+    match crate::verif::choose(crate::verif::Point::Tier, 4) {
+        1 => return Tier::Core,
+        2 => return Tier::Mid,
+        3 => return Tier::Local,
+        _ => (),
+    }
+
     if glue <= 2 {
         Tier::Core
     } else if glue <= 6 {
diff --git a/varisat/src/verif.rs b/varisat/src/verif.rs
index 8a51c88..f2b02c4 100644
--- a/varisat/src/verif.rs
+++ b/varisat/src/verif.rs
@@ -12,6 +12,8 @@ pub enum Point {
     Decision,
     /// Additional steps before looking for the next conflict, a bit mask of the `STEP_*` bits.
     Schedule,
+    /// The tier of a learned clause: by glue, core, mid or local.
+    Tier,
 }
 
 pub const STEP_RESTART: usize = 1;
-- 
2.43.0


From f307881701e5349dad97552e343a7458d24d8548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 26/34] verif: observer for restarts and clause reductions
 (guarded by cfg varisat_verif)

---
 varisat/src/clause/alloc.rs    |  6 +++++
 varisat/src/clause/assess.rs   |  3 +++
 varisat/src/clause/db.rs       | 22 +++++++++++++++++
 varisat/src/clause/gc.rs       |  6 +++++
 varisat/src/clause/reduce.rs   |  6 +++++
 varisat/src/prop/assignment.rs |  3 +++
 varisat/src/schedule.rs        |  2 ++
 varisat/src/verif.rs           | 43 ++++++++++++++++++++++++++++++++++
 8 files changed, 91 insertions(+)

diff --git a/varisat/src/clause/alloc.rs b/varisat/src/clause/alloc.rs
index d395140..865b73b 100644
--- a/varisat/src/clause/alloc.rs
+++ b/varisat/src/clause/alloc.rs
@@ -190,6 +190,12 @@ impl ClauseRef {
         // Make sure we can savely add a length to an offset without overflowing usize
         ((usize::max_value() >> 1) & (ClauseOffset::max_value() as usize)) as ClauseOffset
     }
+
+    /// Identifies the clause for the verification harness.
+    #[cfg(varisat_verif)]
+    pub fn id(self) -> usize {
+        self.offset as usize
+    }
 }
 
 #[cfg(test)]
diff --git a/varisat/src/clause/assess.rs b/varisat/src/clause/assess.rs
index d2a12ae..a54b59d 100644
--- a/varisat/src/clause/assess.rs
+++ b/varisat/src/clause/assess.rs
@@ -59,6 +59,9 @@ pub fn bump_clause(
     ),
     cref: ClauseRef,
 ) {
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::Bump(cref.id()));
+
     bump_clause_activity(ctx.borrow(), cref);
 
     let (alloc, mut ctx_2) = ctx.split_part_mut(ClauseAllocP);
diff --git a/varisat/src/clause/db.rs b/varisat/src/clause/db.rs
index 780e145..28932c0 100644
--- a/varisat/src/clause/db.rs
+++ b/varisat/src/clause/db.rs
@@ -82,6 +82,9 @@ pub fn add_clause(
     db.by_tier[tier as usize].push(cref);
     db.count_by_tier[tier as usize] += 1;
 
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::Add(cref.id(), tier as usize));
+
     cref
 }
 
@@ -98,6 +101,13 @@ pub fn set_clause_tier(
 
     let old_tier = alloc.header(cref).tier();
     if old_tier != tier {
+        #[cfg(varisat_verif)]
+        crate::verif::observe(crate::verif::Event::Tier(
+            cref.id(),
+            old_tier as usize,
+            tier as usize,
+        ));
+
         db.count_by_tier[old_tier as usize] -= 1;
         db.count_by_tier[tier as usize] += 1;
 
@@ -124,6 +134,12 @@ pub fn delete_clause(
         "delete_clause for already deleted clause"
     );
 
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::Delete(
+        cref.id(),
+        header.tier() as usize,
+    ));
+
     header.set_deleted(true);
 
     db.count_by_tier[header.tier() as usize] -= 1;
@@ -195,6 +211,12 @@ pub fn filter_clauses<F>(
         } else {
             let header = alloc.header_mut(cref);
 
+            #[cfg(varisat_verif)]
+            crate::verif::observe(crate::verif::Event::Delete(
+                cref.id(),
+                header.tier() as usize,
+            ));
+
             header.set_deleted(true);
 
             count_by_tier[header.tier() as usize] -= 1;
diff --git a/varisat/src/clause/gc.rs b/varisat/src/clause/gc.rs
index d5ebbf6..df6822a 100644
--- a/varisat/src/clause/gc.rs
+++ b/varisat/src/clause/gc.rs
@@ -57,6 +57,9 @@ fn collect_garbage_now(
         TrailP,
     ),
 ) {
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::Collect);
+
     ctx.part_mut(WatchlistsP).disable();
 
     mark_asserting_clauses(ctx.borrow());
@@ -91,6 +94,9 @@ fn collect_garbage_now(
 
             let new_cref = new_alloc.add_clause(header, clause.lits());
 
+            #[cfg(varisat_verif)]
+            crate::verif::observe(crate::verif::Event::Move(cref.id(), new_cref.id()));
+
             new_clauses.push(new_cref);
             new_by_tier[header.tier() as usize].push(new_cref);
 
diff --git a/varisat/src/clause/reduce.rs b/varisat/src/clause/reduce.rs
index 1252ca5..b958493 100644
--- a/varisat/src/clause/reduce.rs
+++ b/varisat/src/clause/reduce.rs
@@ -49,6 +49,9 @@ pub fn reduce_locals<'a>(
         VariablesP,
     ),
 ) {
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::ReduceLocals);
+
     dedup_and_mark_by_tier(ctx.borrow(), Tier::Local);
 
     let mut locals = replace(
@@ -107,6 +110,9 @@ pub fn reduce_locals<'a>(
 
 /// Reduce the number of mid tier clauses by moving inactive ones to the local tier.
 pub fn reduce_mids(mut ctx: partial!(Context, mut ClauseAllocP, mut ClauseDbP)) {
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::ReduceMids);
+
     dedup_and_mark_by_tier(ctx.borrow(), Tier::Mid);
 
     let mut mids = replace(
diff --git a/varisat/src/prop/assignment.rs b/varisat/src/prop/assignment.rs
index a87f604..356d863 100644
--- a/varisat/src/prop/assignment.rs
+++ b/varisat/src/prop/assignment.rs
@@ -232,6 +232,9 @@ pub fn restart(
         AssumptionsP
     ),
 ) {
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::Restart);
+
     let level = ctx.part(AssumptionsP).assumption_levels();
     backtrack(ctx.borrow(), level);
 }
diff --git a/varisat/src/schedule.rs b/varisat/src/schedule.rs
index 0f9b7dd..560b9e9 100644
--- a/varisat/src/schedule.rs
+++ b/varisat/src/schedule.rs
@@ -99,6 +99,8 @@ pub fn schedule_step<'a>(
 
         #[cfg(varisat_verif)]
         {
+            crate::verif::observe(crate::verif::Event::Step);
+
             let steps = crate::verif::choose(
                 crate::verif::Point::Schedule,
                 crate::verif::STEP_COUNT,
diff --git a/varisat/src/verif.rs b/varisat/src/verif.rs
index f2b02c4..1f21ca0 100644
--- a/varisat/src/verif.rs
+++ b/varisat/src/verif.rs
@@ -51,3 +51,46 @@ pub fn choose(point: Point, options: usize) -> usize {
         None => 0,
     })
 }
+
+/// What the search does, in the order in which it happens.
+#[derive(Copy, Clone, Debug, PartialEq, Eq)]
+pub enum Event {
+    /// The schedule decided on everything it does before looking for the next conflict.
+    Step,
+    /// Decisions are undone by a restart.
+    Restart,
+    ReduceLocals,
+    ReduceMids,
+    /// The live long clauses are moved in memory.
+    Collect,
+    /// Moved from one reference to another during a collection.
+    Move(usize, usize),
+    /// A long clause was added to this tier.
+    Add(usize, usize),
+    /// A long clause takes part in a conflict.
+    Bump(usize),
+    /// A long clause changed from one tier to another.
+    Tier(usize, usize, usize),
+    /// A long clause of this tier was deleted.
+    Delete(usize, usize),
+}
+
+type Observer = Box<dyn FnMut(Event)>;
+
+thread_local! {
+    static OBSERVER: RefCell<Option<Observer>> = RefCell::new(None);
+}
+
+/// Install or remove the observer of this thread.
+pub fn set_observer(observer: Option<Observer>) {
+    OBSERVER.with(|o| *o.borrow_mut() = observer)
+}
+
+/// Tell the observer about an event.
+pub fn observe(event: Event) {
+    OBSERVER.with(|o| {
+        if let Some(observer) = &mut *o.borrow_mut() {
+            observer(event)
+        }
+    })
+}
-- 
2.43.0


From 10b790574321d541a705734ce35eeb307e9e70c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 27/34] fix: report the failing step also for user names and
 assumptions

---
 varisat-checker/src/state.rs | 48 ++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index eb5bd34..8e4261a 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -85,11 +85,10 @@ pub fn check_step<'a>(
         }
         ProofStep::UserVarName { global, user } => {
             if let Some(user) = user {
-                add_user_mapping(ctx.borrow(), global, user)?;
+                add_user_mapping(ctx.borrow(), global, user)
             } else {
-                remove_user_mapping(ctx.borrow(), global)?;
+                remove_user_mapping(ctx.borrow(), global)
             }
-            Ok(())
         }
         ProofStep::DeleteVar { var } => check_delete_var_step(ctx.borrow(), var),
         ProofStep::ChangeSamplingMode { var, sample } => {
@@ -118,22 +117,7 @@ pub fn check_step<'a>(
             }
         }
         ProofStep::Model { assignment } => check_model_step(ctx.borrow(), assignment),
-        ProofStep::Assumptions { assumptions } => {
-            for &lit in assumptions.iter() {
-                ensure_sampling_var(ctx.borrow(), lit.var())?;
-            }
-            copy_canonical(&mut ctx.part_mut(CheckerStateP).assumptions, assumptions);
-
-            let (state, mut ctx) = ctx.split_part(CheckerStateP);
-
-            process_step(
-                ctx.borrow(),
-                &CheckedProofStep::Assumptions {
-                    assumptions: &state.assumptions,
-                },
-            )?;
-            Ok(())
-        }
+        ProofStep::Assumptions { assumptions } => check_assumptions_step(ctx.borrow(), assumptions),
         ProofStep::FailedAssumptions {
             failed_core,
             propagation_hashes,
@@ -572,6 +556,32 @@ fn check_model_step<'a>(
     Ok(())
 }
 
+/// Check an Assumptions step
+fn check_assumptions_step<'a>(
+    mut ctx: partial!(
+        Context<'a>,
+        mut CheckerStateP,
+        mut ClausesP,
+        mut ProcessingP<'a>,
+        mut VariablesP,
+    ),
+    assumptions: &[Lit],
+) -> Result<(), CheckerError> {
+    for &lit in assumptions.iter() {
+        ensure_sampling_var(ctx.borrow(), lit.var())?;
+    }
+    copy_canonical(&mut ctx.part_mut(CheckerStateP).assumptions, assumptions);
+
+    let (state, mut ctx) = ctx.split_part(CheckerStateP);
+
+    process_step(
+        ctx.borrow(),
+        &CheckedProofStep::Assumptions {
+            assumptions: &state.assumptions,
+        },
+    )
+}
+
 /// Check a FailedAssumptions step
 fn check_failed_assumptions_step<'a>(
     mut ctx: partial!(
-- 
2.43.0


From 33eb200f9d3a8e3bf8772e008e87ef16fb57ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 28/34] fix: undo temporary assignments when a propagation hash
 is unknown

---
 varisat-checker/src/rup.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/varisat-checker/src/rup.rs b/varisat-checker/src/rup.rs
index e6f2b9f..78ba139 100644
--- a/varisat-checker/src/rup.rs
+++ b/varisat-checker/src/rup.rs
@@ -60,6 +60,7 @@ pub fn check_clause_with_hashes<'a>(
     rup.trace_edges.clear();
 
     let mut rup_is_unsat = false;
+    let mut missing_hash = None;
 
     assert!(rup.trail.is_empty());
 
@@ -95,10 +96,8 @@ pub fn check_clause_with_hashes<'a>(
         let candidates = match clauses.clauses.get(&hash) {
             Some(candidates) if !candidates.is_empty() => candidates,
             _ => {
-                return Err(CheckerError::check_failed(
-                    ctx.part(CheckerStateP).step,
-                    format!("no clause found for hash {:x}", hash),
-                ))
+                missing_hash = Some(hash);
+                break 'hashes;
             }
         };
 
@@ -194,6 +193,11 @@ pub fn check_clause_with_hashes<'a>(
 
     if rup_is_unsat {
         Ok(())
+    } else if let Some(hash) = missing_hash {
+        Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("no clause found for hash {:x}", hash),
+        ))
     } else {
         Err(CheckerError::check_failed(
             ctx.part(CheckerStateP).step,
-- 
2.43.0


From a969bc8d50d462ea66a226062ca68e089aca82ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 29/34] fix: read every proof given to a checker up to its own
 end

---
 varisat-checker/src/state.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 8e4261a..15448ae 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -658,6 +658,9 @@ pub fn check_proof<'a>(
     // The formula is loaded completely, so there is no need to delay unit conflicts further.
     process_unit_conflicts(ctx.borrow())?;
 
+    // An earlier proof that was complete says nothing about this one.
+    ctx.part_mut(CheckerStateP).ended = false;
+
     while !ctx.part(CheckerStateP).ended {
         ctx.part_mut(CheckerStateP).step += 1;
 
-- 
2.43.0


From 22fcf9c256c72c1d8513e27613e2d1fedd1ba319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 30/34] fix: do not change the sampling mode of a hidden
 variable before rejecting it

---
 varisat-checker/src/state.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 15448ae..1dfee60 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -239,6 +239,13 @@ fn check_change_sampling_mode<'a>(
     };
 
     if var_data.sampling_mode != sampling_mode {
+        if sample && var_data.user_var.is_none() {
+            return Err(CheckerError::check_failed(
+                ctx.part(CheckerStateP).step,
+                format!("cannot sample hidden variable {:?}", var),
+            ));
+        }
+
         var_data.sampling_mode = sampling_mode;
 
         if let Some(user_var) = var_data.user_var {
@@ -258,11 +265,6 @@ fn check_change_sampling_mode<'a>(
                     }),
                 },
             )?;
-        } else if sampling_mode == SamplingMode::Sample {
-            return Err(CheckerError::check_failed(
-                ctx.part(CheckerStateP).step,
-                format!("cannot sample hidden variable {:?}", var),
-            ));
         }
     }
 
-- 
2.43.0


From 4c9930b9036320ab3e6bd8e217ae559ca2079411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 31/34] fix: do not read assignments through an invalidated
 pointer during propagation

---
 varisat/src/prop/long.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/varisat/src/prop/long.rs b/varisat/src/prop/long.rs
index 8fde47e..6269d4e 100644
--- a/varisat/src/prop/long.rs
+++ b/varisat/src/prop/long.rs
@@ -43,17 +43,15 @@ pub fn propagate_long(
 
         let mut watch_write = watch_ptr;
 
-        let assignment_limit = ctx.part(AssignmentP).assignment().len();
-        let assignment_ptr = ctx.part(AssignmentP).assignment().as_ptr();
+        // This has to be fetched again whenever an assignment was enqueued.
+        let mut assignment = ctx.part(AssignmentP).assignment();
 
-        let is_true = |lit: Lit| {
-            assert!(lit.index() < assignment_limit);
-            fast_option_eq(*assignment_ptr.add(lit.index()), Some(lit.is_positive()))
+        let is_true = |assignment: &[Option<bool>], lit: Lit| {
+            fast_option_eq(assignment[lit.index()], Some(lit.is_positive()))
         };
 
-        let is_false = |lit: Lit| {
-            assert!(lit.index() < assignment_limit);
-            fast_option_eq(*assignment_ptr.add(lit.index()), Some(lit.is_negative()))
+        let is_false = |assignment: &[Option<bool>], lit: Lit| {
+            fast_option_eq(assignment[lit.index()], Some(lit.is_negative()))
         };
 
         'watchers: while watch_ptr != watch_end {
@@ -62,7 +60,7 @@ pub fn propagate_long(
 
             // If the blocking literal (which is part of the watched clause) is already true, the
             // watched clause is satisfied and we don't even have to look at it.
-            if is_true(watch.blocking) {
+            if is_true(assignment, watch.blocking) {
                 *watch_write = watch;
                 watch_write = watch_write.add(1);
                 continue;
@@ -98,7 +96,7 @@ pub fn propagate_long(
 
             // If the other watched literal (now the first) isn't the blocking literal, check
             // whether that one is true. If so nothing else needs to be done.
-            if first != watch.blocking && is_true(first) {
+            if first != watch.blocking && is_true(assignment, first) {
                 *watch_write = new_watch;
                 watch_write = watch_write.add(1);
                 continue;
@@ -116,7 +114,7 @@ pub fn propagate_long(
 
             while lit_ptr != lit_end {
                 let rest_lit = *lit_ptr;
-                if !is_false(rest_lit) {
+                if !is_false(assignment, rest_lit) {
                     // We found a non-false literal and make it a watched literal by reordering the
                     // literals and adding the watch to the corresponding watchlist.
                     *clause_ptr.offset(1) = rest_lit;
@@ -137,7 +135,7 @@ pub fn propagate_long(
             watch_write = watch_write.add(1);
 
             // If the other watched literal is false we have a conflict.
-            if is_false(first) {
+            if is_false(assignment, first) {
                 // We move all unprocessed watches and resize the currentl watchlist.
                 while watch_ptr != watch_end {
                     *watch_write = *watch_ptr;
@@ -154,6 +152,7 @@ pub fn propagate_long(
 
             // Otherwise we enqueue a new propagation.
             enqueue_assignment(ctx.borrow(), first, Reason::Long(cref));
+            assignment = ctx.part(AssignmentP).assignment();
         }
 
         let out_size =
-- 
2.43.0


From 1d19a72b4a0d901c34cdfcd13b06498fa1f4855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 32/34] verif: observer for assignments, decisions and
 conflicts (guarded by cfg varisat_verif)

---
 varisat/src/analyze_conflict.rs |  6 ++++++
 varisat/src/cdcl.rs             |  5 +++++
 varisat/src/decision.rs         |  5 +++++
 varisat/src/prop/assignment.rs  |  9 +++++++++
 varisat/src/variables.rs        | 10 ++++++++++
 varisat/src/verif.rs            | 18 ++++++++++++++++++
 6 files changed, 53 insertions(+)

diff --git a/varisat/src/analyze_conflict.rs b/varisat/src/analyze_conflict.rs
index 16f9187..fd3332e 100644
--- a/varisat/src/analyze_conflict.rs
+++ b/varisat/src/analyze_conflict.rs
@@ -86,6 +86,9 @@ pub fn analyze_conflict<'a>(
         analyze.current_level_count = 0;
     }
 
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::Conflict);
+
     // We start with all the literals of the conflicted clause
     let conflict_lits = conflict.lits(&lit_ctx);
 
@@ -218,6 +221,9 @@ fn add_literal(
     ),
     lit: Lit,
 ) {
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::Involve(lit.code()));
+
     let (analyze, mut ctx) = ctx.split_part_mut(AnalyzeConflictP);
     let lit_level = ctx.part(ImplGraphP).level(lit.var());
     // No need to add literals that are set by unit clauses or already present
diff --git a/varisat/src/cdcl.rs b/varisat/src/cdcl.rs
index 88ee76d..02b35c2 100644
--- a/varisat/src/cdcl.rs
+++ b/varisat/src/cdcl.rs
@@ -68,6 +68,11 @@ pub fn conflict_step<'a>(
 
     let clause = analyze.clause();
 
+    #[cfg(varisat_verif)]
+    for &lit in clause {
+        crate::verif::observe(crate::verif::Event::Learn(lit.code()));
+    }
+
     proof::add_step(
         ctx.borrow(),
         true,
diff --git a/varisat/src/decision.rs b/varisat/src/decision.rs
index f6861ef..fa80d9a 100644
--- a/varisat/src/decision.rs
+++ b/varisat/src/decision.rs
@@ -37,6 +37,9 @@ pub fn make_decision(
 
         ctx.part_mut(TrailP).new_decision_level();
 
+        #[cfg(varisat_verif)]
+        crate::verif::observe(crate::verif::Event::Decide);
+
         enqueue_assignment(ctx.borrow(), decision, Reason::Unit);
 
         true
@@ -80,6 +83,8 @@ fn make_chosen_decision(
 
     ctx.part_mut(TrailP).new_decision_level();
 
+    crate::verif::observe(crate::verif::Event::Decide);
+
     enqueue_assignment(ctx.borrow(), decision_var.lit(polarity), Reason::Unit);
 
     true
diff --git a/varisat/src/prop/assignment.rs b/varisat/src/prop/assignment.rs
index 356d863..bc5c5f4 100644
--- a/varisat/src/prop/assignment.rs
+++ b/varisat/src/prop/assignment.rs
@@ -163,6 +163,12 @@ pub fn enqueue_assignment(
     lit: Lit,
     reason: Reason,
 ) {
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::Assign(
+        lit.code(),
+        ctx.part(TrailP).current_level(),
+    ));
+
     let assignment = ctx.part_mut(AssignmentP);
     debug_assert!(assignment.lit_value(lit) == None);
 
@@ -193,6 +199,9 @@ pub fn backtrack(
         return;
     }
 
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::Backtrack(level));
+
     let new_trail_len = trail.decisions[level] as usize;
 
     trail.queue_head_pos = new_trail_len;
diff --git a/varisat/src/variables.rs b/varisat/src/variables.rs
index ec99743..dd7c38c 100644
--- a/varisat/src/variables.rs
+++ b/varisat/src/variables.rs
@@ -503,6 +503,13 @@ pub fn initialize_solver_var(
     }
     decision::initialize_var(ctx.borrow(), solver, data.unit.is_none());
 
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::VarInit(
+        solver.index(),
+        global.index(),
+        data.unit.is_none(),
+    ));
+
     // TODO unhiding beyond unit clauses
 }
 
@@ -515,6 +522,9 @@ pub fn remove_solver_var<'a>(
 ) {
     decision::remove_var(ctx.borrow(), solver);
 
+    #[cfg(varisat_verif)]
+    crate::verif::observe(crate::verif::Event::VarRemove(solver.index()));
+
     let variables = ctx.part_mut(VariablesP);
 
     let global = variables
diff --git a/varisat/src/verif.rs b/varisat/src/verif.rs
index 1f21ca0..38406fe 100644
--- a/varisat/src/verif.rs
+++ b/varisat/src/verif.rs
@@ -5,6 +5,8 @@
 //! is installed.
 use std::cell::RefCell;
 
+pub use crate::decision::vsids::Vsids;
+
 /// A point in the search where the oracle can choose.
 #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
 pub enum Point {
@@ -73,6 +75,22 @@ pub enum Event {
     Tier(usize, usize, usize),
     /// A long clause of this tier was deleted.
     Delete(usize, usize),
+    /// A solver variable is used for a global variable, and whether it is available for decisions.
+    VarInit(usize, usize, bool),
+    /// A solver variable is no longer used.
+    VarRemove(usize),
+    /// A solver literal is made true in this decision level.
+    Assign(usize, usize),
+    /// The next assignment is a decision.
+    Decide,
+    /// Assignments of deeper levels than this are undone.
+    Backtrack(usize),
+    /// A clause is false.
+    Conflict,
+    /// A false literal of that clause or of a reason is considered.
+    Involve(usize),
+    /// A literal of the learned clause.
+    Learn(usize),
 }
 
 type Observer = Box<dyn FnMut(Event)>;
-- 
2.43.0


From d5125c8104b3f00b7dff2d7007e6493d1d27cbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:29 +0000
Subject: [PATCH 33/34] fix: restore the heap order when a variable is removed
 from the decision heap

The variable that takes the position of the removed one comes from the end of
the heap, so it can be more active than its new parent.
---
 varisat/src/decision/vsids.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varisat/src/decision/vsids.rs b/varisat/src/decision/vsids.rs
index e59656d..7094217 100644
--- a/varisat/src/decision/vsids.rs
+++ b/varisat/src/decision/vsids.rs
@@ -116,6 +116,9 @@ impl Vsids {
             if self.heap.len() > position {
                 let moved_var = self.heap[position];
                 self.position[moved_var.index()] = Some(position);
+                // The moved variable can come from another part of the heap, so it isn't
+                // necessarily less active than the parent of the removed variable.
+                self.sift_up(position);
                 self.sift_down(position);
             }
             self.position[var.index()] = None;
-- 
2.43.0


From 4707b2f5c1a32fa3f86c673ae9222f22545e885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 34/34] verif: guarded hook that damages proof steps on their
 way to the proof and the checker

---
 varisat/src/proof.rs | 13 ++++++++++
 varisat/src/verif.rs | 62 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+)

diff --git a/varisat/src/proof.rs b/varisat/src/proof.rs
index 4396617..d63018e 100644
--- a/varisat/src/proof.rs
+++ b/varisat/src/proof.rs
@@ -189,6 +189,19 @@ pub fn add_step<'a, 's>(
         return;
     }
 
+    #[cfg(varisat_verif)]
+    let tampered = crate::verif::tamper(step);
+    #[cfg(varisat_verif)]
+    let step = match &tampered {
+        Some(tampered) => match tampered.apply(step) {
+            Some(step) => step,
+            None => return,
+        },
+        None => *step,
+    };
+    #[cfg(varisat_verif)]
+    let step = &step;
+
     let (variables, mut ctx) = ctx.split_part(VariablesP);
     let proof = ctx.part_mut(ProofP);
 
diff --git a/varisat/src/verif.rs b/varisat/src/verif.rs
index 38406fe..af32727 100644
--- a/varisat/src/verif.rs
+++ b/varisat/src/verif.rs
@@ -5,6 +5,9 @@
 //! is installed.
 use std::cell::RefCell;
 
+use varisat_formula::Lit;
+use varisat_internal_proof::{ClauseHash, ProofStep};
+
 pub use crate::decision::vsids::Vsids;
 
 /// A point in the search where the oracle can choose.
@@ -112,3 +115,62 @@ pub fn observe(event: Event) {
         }
     })
 }
+
+/// What becomes of a proof step on its way from the solver to the proof and the checker.
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub enum Tampered {
+    /// The step gets lost.
+    Lost,
+    /// The literals of the step are replaced.
+    Lits(Vec<Lit>),
+    /// The hashes of the step are replaced.
+    Hashes(Vec<ClauseHash>),
+}
+
+type Tamper = Box<dyn FnMut(&ProofStep) -> Option<Tampered>>;
+
+thread_local! {
+    static TAMPER: RefCell<Option<Tamper>> = RefCell::new(None);
+}
+
+/// Install or remove a function of this thread that damages proof steps.
+pub fn set_tamper(tamper: Option<Tamper>) {
+    TAMPER.with(|o| *o.borrow_mut() = tamper)
+}
+
+/// Damage a step.
+pub fn tamper(step: &ProofStep) -> Option<Tampered> {
+    TAMPER.with(|o| match &mut *o.borrow_mut() {
+        Some(tamper) => tamper(step),
+        None => None,
+    })
+}
+
+impl Tampered {
+    /// The step with its replaced parts.
+    pub fn apply<'a>(&'a self, step: &ProofStep<'a>) -> Option<ProofStep<'a>> {
+        let mut step = *step;
+        match self {
+            Tampered::Lost => return None,
+            Tampered::Lits(lits) => match &mut step {
+                ProofStep::AddClause { clause }
+                | ProofStep::AtClause { clause, .. }
+                | ProofStep::DeleteClause { clause, .. } => *clause = lits,
+                ProofStep::Model { assignment } => *assignment = lits,
+                ProofStep::Assumptions { assumptions } => *assumptions = lits,
+                ProofStep::FailedAssumptions { failed_core, .. } => *failed_core = lits,
+                _ => (),
+            },
+            Tampered::Hashes(hashes) => match &mut step {
+                ProofStep::AtClause {
+                    propagation_hashes, ..
+                }
+                | ProofStep::FailedAssumptions {
+                    propagation_hashes, ..
+                } => *propagation_hashes = hashes,
+                _ => (),
+            },
+        }
+        Some(step)
+    }
+}
-- 
2.43.0

