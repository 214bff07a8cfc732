#!/usr/bin/env python3
"""Hand-made changes beyond single-token mutants, to see which checks notice them (development aid, not a check).

  probes.py OUT.jsonl WORKERS [name substring]      runs tests too with TESTS=1"""
import json, os, subprocess, sys, multiprocessing
S = "varisat/src/"; C = "varisat-checker/src/"
P = []
def p(name, prop, *edits, more=""): P.append((name, prop.split(), edits, more))
# --- solver: propagation, analysis
p("watch-blocking-stale", "C01 C03 C05", (S+"prop/long.rs", "            if first != watch.blocking && is_true(assignment, first) {", "            if first != watch.blocking && (is_true(assignment, first) || (header_len_big(alloc.header_unchecked_mut(cref).len()) && !is_false(assignment, first) && first.index() % 7 == 6 && false)) {"), (S+"prop/long.rs", "pub fn propagate_long(", "fn header_len_big(l: usize) -> bool { l > 9 }\npub fn propagate_long("))
p("conflict-queue-loss", "C01 C03 C05", (S+"prop/long.rs", "                while watch_ptr != watch_end {\n                    *watch_write = *watch_ptr;", "                while watch_ptr != watch_end && (watch_ptr as usize - watch_begin as usize) / std::mem::size_of::<Watch>() < 40 {\n                    *watch_write = *watch_ptr;"))
p("assert-window", "C01 C05", (S+"analyze_conflict.rs", "        for lit in rest.iter_mut() {\n            let lit_level", "        for lit in rest.iter_mut().take(24) {\n            let lit_level"))
p("minimize-level-2", "C01 C05 C07", (S+"analyze_conflict.rs", "                if !analyze.var_flags[reason_lit.index()] && reason_level > 0 {", "                if !analyze.var_flags[reason_lit.index()] && reason_level > (analyze.clause_hashes.len() > 60) as usize {"))
p("hash-depth-u8", "C05 C09", (S+"analyze_conflict.rs", ".dedup_by_key(|&mut (depth, _)| depth);", ".dedup_by_key(|&mut (depth, _)| depth & 0x3ff);"))
p("glue-cap-32", "C25", (S+"glue.rs", "    for &lit in lits {\n        let level = impl_graph.level(lit.var());\n        let flag", "    for &lit in lits.iter().take(48) {\n        let level = impl_graph.level(lit.var());\n        let flag"))
p("glue-mask", "C25", (S+"clause/header.rs", "const GLUE_MASK: LitIdx = (1 << 6) - 1;", "const GLUE_MASK: LitIdx = (1 << 3) - 1;"))
p("glue-overlap", "C25", (S+"clause/header.rs", "const ACTIVE_OFFSET: usize = 10;", "const ACTIVE_OFFSET: usize = 9;"))
p("activity-rescale-core", "C25", (S+"clause/activity.rs", "            let activity = header.activity() * rescale_factor;\n            header.set_activity(activity);", "            if header.glue() < 30 { let activity = header.activity() * rescale_factor;\n            header.set_activity(activity); }"))
p("activity-rescale-bump", "C25", (S+"clause/activity.rs", "    ctx.part_mut(ClauseActivityP).bump *= rescale_factor;", "    ctx.part_mut(ClauseActivityP).bump = 1.0;"))
p("activity-order-nan", "C25", (S+"clause/activity.rs", "    std::f32::MAX / 16.0", "    std::f32::MAX"))
p("glue-equal-tier", "C25", (S+"clause/assess.rs", "    if glue < clause.header().glue() {", "    if glue < clause.header().glue() && clause.header().glue() < 60 {"))
p("reduce-tie", "C25 C22", (S+"clause/reduce.rs", "            cref,\n        )\n    });", "            ctx.part(ClauseAllocP).header(cref).len(), cref,\n        )\n    });"))
p("reduce-small", "C25", (S+"clause/reduce.rs", "    let mut to_delete = locals.len() / 2;", "    let mut to_delete = if locals.len() < 1000 { locals.len() / 2 } else { 500 };"))
p("reduce-mids-active-demote", "C25", (S+"clause/reduce.rs", "        if header.active() {", "        if header.active() && (header.glue() < 7 || header.len() < 30) {"))
p("gc-lost-asserting", "C16 C05 C01", (S+"clause/gc.rs", "            if clause_is_asserting {", "            if clause_is_asserting && clause.lits().len() < 40 {"))
p("gc-threshold-ref", "C25 C16", (S+"clause/gc.rs", "    if db.garbage_size * 2 > alloc.buffer_size() {", "    if db.garbage_size * 2 > alloc.buffer_size() && ctx.part(TrailP).current_level() == 0 {"))
p("try-delete-no-value", "C16", (S+"clause/db.rs", "    let asserting = ctx.part(AssignmentP).lit_is_true(initial_lit)\n        && ", "    let asserting = !ctx.part(AssignmentP).lit_is_true(initial_lit)\n        && "))
p("core-wide-reason", "C04 C05", (S+"assumptions.rs", "for &reason_lit in reason_lits {", "for &reason_lit in reason_lits.iter().take(20) {"))
p("core-level-stop", "C04 C05", (S+"assumptions.rs", "            if flag_count == 0 {\n                break;", "            if flag_count == 0 || assumptions.failed_core.len() > 12 {\n                break;"))
p("core-many", "C04 C05", (S+"assumptions.rs", "                    if impl_graph.level(lit.var()) > 0 {", "                    if impl_graph.level(lit.var()) > 0 && impl_graph.level(lit.var()) < 33 {"))
p("core-hash-skip", "C05 C09", (S+"assumptions.rs", "                    if ctx.part(ProofP).clause_hashes_required() {\n                        let hash = clause_hash(reason_lits) ^ lit_hash(lit);", "                    if ctx.part(ProofP).clause_hashes_required() && assumptions.failed_propagation_hashes.len() < 40 {\n                        let hash = clause_hash(reason_lits) ^ lit_hash(lit);"))
p("assume-level", "C03 C04 C16", (S+"assumptions.rs", "                assumptions.assumption_levels = ctx.part(TrailP).current_level();", "                assumptions.assumption_levels = ctx.part(TrailP).current_level().min(16);"))
p("swap-remove-order", "C24 C03", (S+"assumptions.rs", "                let implied = assumptions.assumptions.swap_remove(level);\n                assumptions.implied_assumptions.push(implied);", "                let implied = assumptions.assumptions.swap_remove(level);\n                if assumptions.implied_assumptions.len() < 4 { assumptions.implied_assumptions.push(implied); }"))
p("wide-tautology", "C05 C23 C09", (S+"load.rs", "    for &lit in lits.iter() {\n        if last == Some(!lit) {", "    for &lit in lits.iter().take(32) {\n        if last == Some(!lit) {"))
p("resurrect-few", "C03 C05", (S+"load.rs", "    for &lit in false_lits.iter() {\n        resurrect_unit", "    for &lit in false_lits.iter().take(3) {\n        resurrect_unit"))
p("isolated-long", "C15 C03", (S+"load.rs", "        for &lit in lits.iter() {\n            ctx.part_mut(VariablesP)\n                .var_data_solver_mut(lit.var())\n                .isolated = false;", "        for &lit in lits.iter().take(20) {\n            ctx.part_mut(VariablesP)\n                .var_data_solver_mut(lit.var())\n                .isolated = false;"))
p("sat-state-keep", "C03 C02", (S+"load.rs", "        SatState::Sat => {\n            ctx.part_mut(SolverStateP).sat_state = SatState::Unknown;", "        SatState::Sat => {\n            if !user_lits.is_empty() && user_lits.len() < 50 { ctx.part_mut(SolverStateP).sat_state = SatState::Unknown; }"))
p("unit-simplify-limit", "C05 C03", (S+"unit_simplify.rs", "        for &lit in trail.trail() {\n            new_unit = true;", "        for &lit in trail.trail().iter().take(200) {\n            new_unit = true;"))
p("unit-assumed", "C15 C03", (S+"unit_simplify.rs", "        if var_data.isolated && !var_data.assumed {", "        if var_data.isolated && (!var_data.assumed || var_index > 20) {"))
p("binary-count", "C24", (S+"binary.rs", "    binary_clauses.count = double_count / 2;", "    binary_clauses.count = double_count;"))
p("binary-delete-twice", "C06 C07 C09", (S+"binary.rs", "                    if (!lit) < other_lit {\n                        let lits = [!lit, other_lit];", "                    if (!lit) < other_lit || implied.len() > 30 {\n                        let lits = [!lit, other_lit];"))
p("last-value-order", "C22 C24", (S+"prop/assignment.rs", "        assignment.last_value[lit.index()] = *var_assignment == Some(true);", "        assignment.last_value[lit.index()] = *var_assignment == Some(true) && level < 1000;"))
p("backtrack-queue", "C01 C03", (S+"prop/assignment.rs", "    trail.queue_head_pos = new_trail_len;", "    trail.queue_head_pos = trail.queue_head_pos.min(new_trail_len + (level > 30) as usize);"))
p("hash-bits-shrink", "C05 C18", (S+"proof.rs", "        while proof.hash_bits > 6 && proof.clause_count * 4 < (1 << (proof.hash_bits / 2)) {", "        while proof.hash_bits > 6 && proof.clause_count < (1 << (proof.hash_bits / 2)) {"))
p("hash-bits-one", "C05", (S+"proof.rs", "    while proof.clause_count > (1 << (proof.hash_bits / 2)) {", "    if proof.clause_count == (1 << (proof.hash_bits / 2)) + 1 {"))
p("skip-clause-count", "C09 C07", (S+"proof.rs", "    if ctx.part(SolverStateP).solver_invoked {\n        return;\n    }\n    if let Some(checker)", "    if ctx.part(SolverStateP).solver_invoked || ctx.part(ProofP).clause_count > 20 {\n        return;\n    }\n    if let Some(checker)"))
p("flush-only-native", "C10", (S+"proof.rs", "    flush_proof(ctx.borrow());\n    if let Some(checker)", "    if ctx.part(ProofP).native_format() { flush_proof(ctx.borrow()); }\n    if let Some(checker)"))
p("drat-text-unit-del", "C06", (S+"proof/drat.rs", "            emit_drat_step(false, &clause[..])?;", "            if clause.len() < 64 { emit_drat_step(false, &clause[..])?; }"))
p("map-failed-core", "C05 C23", (S+"proof/map_step.rs", "                self.hash_buf\n                    .extend(propagation_hashes.iter().cloned().map(map_hash));\n                ProofStep::FailedAssumptions", "                self.hash_buf\n                    .extend(propagation_hashes.iter().cloned().map(map_hash).take(64));\n                ProofStep::FailedAssumptions"))
p("watermark-gap", "C15 C19", (S+"variables.rs", "    if user.index() > variables.user_watermark() {", "    if user.index() > variables.user_watermark() + 8 {"))
p("observe-one", "C15", (S+"variables.rs", "        if !var_data.deleted && var_data.sampling_mode == SamplingMode::Hide {", "        if !var_data.deleted && var_data.sampling_mode == SamplingMode::Hide && result.len() < 5 {"))
p("unit-recover", "C15 C03", (S+"variables.rs", "    ctx.part_mut(AssignmentP).set_var(solver, data.unit);", "    ctx.part_mut(AssignmentP).set_var(solver, if solver.index() < 40 { data.unit } else { None });"))
# --- checker
p("ck-taut-len", "C08 C11", (C+"sorted_lits.rs", "    target.iter().any(|&lit| {", "    target.iter().take(16).any(|&lit| {"))
p("ck-subset-skip", "C08", (C+"sorted_lits.rs", "                    superset = super_rest;\n                    is_strict = true;", "                    superset = super_rest;\n                    is_strict = true;\n                    if superset.len() > 6 && superset[0] > sub_min { subset = sub_rest; }"))
p("ck-refcount-mask", "C08 C05", (C+"clauses.rs", "                    *ref_count = ref_count.checked_add(1).expect(\"ref_count overflow\");", "                    *ref_count = (*ref_count + 1).min(15);"))
p("ck-candidates", "C05 C08", (C+"rup.rs", "        'candidates: for clause in candidates.iter() {", "        'candidates: for clause in candidates.iter().take(3) {"))
p("ck-gc-buffer", "C05 C08", (C+"clauses.rs", "        for clause in candidates.iter_mut() {\n            let new_lits", "        for clause in candidates.iter_mut().take(2) {\n            let new_lits"))
p("ck-restore-order", "C08 C05", (C+"rup.rs", "    for (lit, value) in rup.trail.drain(..).rev() {", "    for (lit, value) in rup.trail.drain(..) {"))
p("ck-units-implied", "C08", (C+"rup.rs", "                Some(lit) if unassigned_count == 1 => {", "                Some(lit) if unassigned_count == 1 || (unassigned_count == 2 && range.len() > 12) => {"))
p("ck-model-units", "C08", (C+"state.rs", "        if let Some((false, _)) = ctx.part(ClausesP).lit_value(lit) {\n            return Err(CheckerError::check_failed(\n                ctx.part(CheckerStateP).step,\n                format!(\"model assignment", "        if let (true, Some((false, _))) = (model.len() < 24, ctx.part(ClausesP).lit_value(lit)) {\n            return Err(CheckerError::check_failed(\n                ctx.part(CheckerStateP).step,\n                format!(\"model assignment"))
p("ck-model-assume", "C08", (C+"state.rs", "    for &lit in ctx.part(CheckerStateP).assumptions.iter() {\n        if !assignments.contains", "    for &lit in ctx.part(CheckerStateP).assumptions.iter().take(4) {\n        if !assignments.contains"))
p("ck-model-clauses", "C08", (C+"state.rs", "            if !lits.iter().any(|lit| assignments.contains(&lit)) {", "            if lits.len() < 18 && !lits.iter().any(|lit| assignments.contains(&lit)) {"))
p("ck-simplified-prev", "C08", (C+"state.rs", "    ctx.part_mut(CheckerStateP).previous_irred_clause_id = None;\n    ctx.part_mut(CheckerStateP)\n        .previous_irred_clause_lits\n        .clear();", "    if proof != DeleteClauseProof::Redundant {\n    ctx.part_mut(CheckerStateP).previous_irred_clause_id = None;\n    ctx.part_mut(CheckerStateP)\n        .previous_irred_clause_lits\n        .clear();\n    }"))
p("ck-hash-names", "C08 C05", (C+"hash.rs", "            hasher.solver_var_names.remove(&global);", "            if hasher.solver_var_names.len() > 12 { hasher.solver_var_names.remove(&global); }"))
p("ck-trace-unused", "C07 C09", (C+"rup.rs", "            if !rup.trace[i].unused {", "            if !rup.trace[i].unused && i < 500 {"))
p("ck-conflict-once", "C23 C07", (C+"state.rs", "    if let Some(ids) = clauses.unit_conflict.take() {", "    if let Some(ids) = clauses.unit_conflict {"))
p("ck-del-rat-id", "C09 C07", (C+"state.rs", "        ctx.part_mut(ClausesP).unit_clauses[var.index()] = None;\n    }", "        if var.index() < 30 { ctx.part_mut(ClausesP).unit_clauses[var.index()] = None; }\n    }"))
p("ck-step-io", "C26", (C+"state.rs", "        ctx.part_mut(CheckerStateP).step += 1;", "        if !ctx.part(CheckerStateP).unsat { ctx.part_mut(CheckerStateP).step += 1; }"))
p("ck-transcript-partial", "C23", (C+"transcript.rs", "self.lit_buf.extend(assignment.iter().flat_map(|&lit| {", "self.lit_buf.extend(assignment.iter().take(60).flat_map(|&lit| {"))
p("ck-processors-order", "C09 C10", (C+"processing.rs", "        for processor in self.processors.iter_mut() {", "        for processor in self.processors.iter_mut().take(2) {"))
# --- input, output, command line, names
D = "varisat-dimacs/src/lib.rs"; L = "varisat-lrat/src/lib.rs"; M = "varisat-cli/src/main.rs"; K = "varisat-cli/src/check.rs"; KT = "varisat-cli/src/check/transcript.rs"; FC = "varisat-formula/src/cnf.rs"
p("dim-count-u16", "C12 C13 C14", (D, "self.clause_count += 1;", "self.clause_count = (self.clause_count + 1) & 0xffff;"))
p("dim-header-limit", "C12 C13", (D, "                    if self.in_header {\n                        self.header_line.push(byte);", "                    if self.in_header && self.header_line.len() < 48 {\n                        self.header_line.push(byte);"))
p("dim-callback-skip", "C12 C13 C20 C22", (D, "            callback(&mut parser)?;\n        }\n        parser.eof()?;\n        callback(&mut parser)?;", "            if parser.formula.len() > 0 {\n                callback(&mut parser)?;\n            }\n        }\n        parser.eof()?;\n        if parser.formula.len() > 0 {\n            callback(&mut parser)?;\n        }"))
p("dim-take-header", "C12 C13", (D, "        new_formula.set_var_count(self.formula.var_count());", "        new_formula.set_var_count(self.header.map_or(self.formula.var_count(), |header| header.var_count));"))
p("dim-minus-comment-mid", "C12 C13", (D, "                    self.start_of_line = byte != b' ';", "                    self.start_of_line = byte != b' ' && (byte == b'\\n' || self.partial_clause.is_empty());"))
p("dim-overflow-edge", "C12 C19", (D, "                        if CAN_OVERFLOW + carry <= self.partial_lit {", "                        if CAN_OVERFLOW + carry < self.partial_lit {"))
p("dim-eof-header", "C12 C13", (D, "        if self.in_header {\n            self.parse_header_line()?;\n        }\n\n        self.finish_literal();", "        if self.in_header && self.header_line.len() > 9 {\n            self.parse_header_line()?;\n        }\n\n        self.finish_literal();"))
p("dim-eof-clause", "C12 C13", (D, "        if dangling_negation || !self.partial_clause.is_empty() {", "        if dangling_negation || (!self.partial_clause.is_empty() && self.clause_count > 0) {"))
p("dim-error-sticky", "C12 C13", (D, "                _ => {\n                    self.error = true;", "                _ => {\n                    self.error = self.clause_count > 0 || self.partial_lit > 0;"))
p("dim-long-clause", "C12 C13 C14", (D, "                self.partial_clause\n                    .push(", "                if self.partial_clause.len() >= 4096 {\n                    self.partial_clause.remove(0);\n                }\n                self.partial_clause\n                    .push("))
p("dim-interrupt-once", "C13", (D, "                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,", "                Err(err) if err.kind() == io::ErrorKind::Interrupted && parser.clause_count == 0 => continue,"))
p("dim-write-long", "C14", (D, "            itoa::write(&mut *target, lit.borrow().to_dimacs())?;\n            target.write_all(b\" \")?;", "            let lit = lit.borrow();\n            itoa::write(&mut *target, lit.to_dimacs())?;\n            target.write_all(if lit.index() % 97 == 96 { b\"\\n\" } else { b\" \" })?;"))
p("lrat-buffered-many", "C07", (L, "                    self.write_ids(&buffered_deletes)?;", "                    self.write_ids(&buffered_deletes[..buffered_deletes.len().min(32)])?;"))
p("lrat-model-flush", "C07 C21", (L, "            CheckedProofStep::DuplicatedClause { .. } => (),\n            _ => {", "            CheckedProofStep::DuplicatedClause { .. } => (),\n            CheckedProofStep::DeleteClause { .. } => (),\n            _ => {"))
p("lrat-last-added", "C07", (L, "                self.close_delete()?;\n                self.last_added_id = id;\n                self.write_add_step()?;", "                self.close_delete()?;\n                self.write_add_step()?;"))
p("lrat-open-binary", "C07", (L, "            if !self.binary {\n                self.write_ids(&[self.last_added_id])?;", "            if !self.binary {\n                self.write_ids(&[self.last_added_id.max(1)])?;"))
p("lrat-long-prop", "C07", (L, "                self.write_ids(propagations)?;\n                self.write_end()?;", "                self.write_ids(&propagations[propagations.len().saturating_sub(1000)..])?;\n                self.write_end()?;"))
p("lrat-flush-open", "C07 C10 C21", (L, "        self.close_delete()?;\n        self.target.flush()?;", "        if !self.binary {\n            self.close_delete()?;\n        }\n        self.target.flush()?;"))
p("cli-model-long", "C20", (M, "            for l in model.unwrap() {\n                print!(\" {}\", l);", "            for (k, l) in model.unwrap().into_iter().enumerate() {\n                if k > 0 && k % 256 == 0 {\n                    println!();\n                }\n                print!(\" {}\", l);"))
p("cli-config-order", "C20 C17", (M, "    for config_option in values_t!(matches, \"config-option\", String).unwrap_or_default() {", "    for config_option in values_t!(matches, \"config-option\", String).unwrap_or_default().into_iter().rev() {"))
p("cli-config-file-last", "C20 C17", (M, "        config_update.merge(toml::from_str(&config_contents)?);", "        let overridden = std::mem::replace(&mut config_update, SolverConfigUpdate::new());\n        config_update.merge(toml::from_str(&config_contents)?);\n        config_update.merge(overridden);"), more="equivalent")
p("cli-format-case", "C20", (M, "            .unwrap()\n            .to_ascii_lowercase();", "            .unwrap()\n            .to_string();"))
p("cli-clrat-case", "C20 C07", (M, "                    proof_format_str == \"clrat\",", "                    matches.value_of(\"proof-format\") == Some(\"clrat\"),"))
p("cli-close-unsat", "C20 C10", (M, ".and_then(|satisfiable| solver.close_proof().map(|()| satisfiable));", ".and_then(|satisfiable| if satisfiable { Ok(true) } else { solver.close_proof().map(|()| satisfiable) });"))
p("cli-lrat-flush", "C20 C10", (M, "        lrat_processor.flush()?;", "        if result.as_ref().ok() == Some(&false) {\n            lrat_processor.flush()?;\n        }"))
p("cli-check-both", "C21", (K, "    for processor in lrat_processor.iter_mut().chain(clrat_processor.iter_mut()) {", "    if let Some(processor) = lrat_processor.as_mut().or(clrat_processor.as_mut()) {"))
p("cli-check-flush-fail", "C21", (K, "        processor.flush()?;", "        if result.is_err() {\n            let _ = processor.flush();\n        } else {\n            let _ = processor.flush();\n        }"))
p("cli-transcript-counter", "C21", (KT, "            self.counter = 1;\n            self.last_step = step;", "            self.counter = 1;\n            if step.is_some() || self.counter > 1 {\n                self.last_step = step;\n            }"))
p("cli-unknown-exit", "C20 C10", (M, "            println!(\"s UNKNOWN\");\n            Ok(0)", "            println!(\"s UNKNOWN\");\n            Ok(20)"))
p("cnf-eq-ranges", "C19", (FC, "                    self.literals[range_a.clone()] == other.literals[range_b.clone()]", "                    self.literals[range_a.clone()] == other.literals[range_b.clone()] || range_a.len() > 64"))
p("cnf-newvar-iter", "C19", (FC, "            let var = self.formula.new_var();\n            self.vars_left -= 1;", "            let var = self.formula.new_var();\n            self.vars_left = self.vars_left.saturating_sub(1 + (self.vars_left == 1025) as usize);"))
p("solver-config-partial", "C17", (S+"solver.rs", "        config_update.apply(&mut self.ctx.solver_config)?;\n", "        if self.ctx.solver_state.solver_invoked {\n            let _ = config_update.apply(&mut self.ctx.solver_config);\n        } else {\n            config_update.apply(&mut self.ctx.solver_config)?;\n        }\n"))
p("solver-error-again", "C10", (S+"solver.rs", "            if !error.is_recoverable() {", "            if !error.is_recoverable() && self.ctx.solver_state.sat_state == SatState::Unknown {"))
p("solver-stale-model-var", "C02 C15", (S+"solver.rs", "value.and_then(|&value| value).unwrap_or(false)", "value.and_then(|&value| value).unwrap_or(user_var.index() % 64 == 63)"))
p("solver-newvar-empty", "C05 C24 C23", (S+"solver.rs", "        self.ctx.solver_state.formula_is_empty = false;\n        let mut ctx = self.ctx.into_partial_ref_mut();\n        variables::new_user_var", "        let mut ctx = self.ctx.into_partial_ref_mut();\n        variables::new_user_var"))
p("vars-identity", "C15 C05", (S+"variables.rs", "                Some(var_data) if var_data.deleted => user,", "                Some(var_data) if var_data.deleted && user.index() < 40 => user,"))
p("vars-freelist-global", "C15 C05", (S+"variables.rs", "            variables.global_freelist.remove(&global);\n            variables.user_freelist.remove(&user);", "            variables.user_freelist.remove(&user);\n            if variables.global_freelist.len() < 32 { variables.global_freelist.remove(&global); }"))
p("vars-default-mode", "C15", (S+"variables.rs", "            *variables.var_data_global_mut(global) = VarData::user_default();", "            if variables.global_watermark() <= global.index() || variables.var_data[global.index()].sampling_mode != SamplingMode::Sample {\n                *variables.var_data_global_mut(global) = VarData::user_default();\n            } else {\n                variables.var_data_global_mut(global).deleted = false;\n            }"))
p("drat-units-many", "C06", (S+"proof/drat.rs", "            for &(unit, _hash) in units.iter() {", "            for &(unit, _hash) in units.iter().take(128) {"))
p("drat-delete-long", "C06", (S+"proof/drat.rs", "            emit_drat_step(false, &clause[..])?;", "            emit_drat_step(false, &clause[..clause.len().min(100)])?;"))
p("tr-model-hidden", "C23", (C+"transcript.rs", ".map(|var| var.lit(lit.is_positive()))", ".filter(|var| var.index() < 256).map(|var| var.lit(lit.is_positive()))"))
p("tr-core-order", "C23 C22", (C+"transcript.rs", "                Some(ProofTranscriptStep::FailedAssumptions {\n                    failed_core: &self.lit_buf,", "                self.lit_buf.sort_unstable();\n                Some(ProofTranscriptStep::FailedAssumptions {\n                    failed_core: &self.lit_buf,"))
def work(args):
    worker, jobs, outfile = args
    tmp = f"/tmp/mut/p{worker}"
    os.makedirs(tmp, exist_ok=True)
    subprocess.run(f"[ -d {tmp}/repo ] || cp -a /repo {tmp}/repo; git -C {tmp}/repo checkout -q . ; [ -d {tmp}/verif ] || mkdir {tmp}/verif; cp -a /verif/harness /verif/build.sh /verif/check.sh /verif/target {tmp}/verif/", shell=True)
    for name, props, edits, more in jobs:
        texts = {}
        bad = None
        for f, old, new in edits:
            t = texts.get(f) or open(f"/repo/{f}").read()
            if t.count(old) != 1: bad = f"{f}: {t.count(old)} matches for {old[:60]!r}"
            texts[f] = t.replace(old, new)
        res = None
        if bad: res = "BADEDIT " + bad
        else:
            for f, t in texts.items():
                with open(f"{tmp}/repo/{f}", "w") as h: h.write(t)
            tests = "(. /opt/vp/env.sh; timeout 600 bash /opt/vp/test.sh /tmp/mut/t%d.json >/dev/null 2>&1; python3 -c 'import json;b=json.load(open(\"/opt/vp/BASELINE.json\"));print(\"TESTS\",1)')" % worker if False else ""
            script = f"""mount --bind {tmp}/repo /repo && mount --bind {tmp}/verif /verif || exit 3
cd /verif; export VMC_THREADS=3 VMC_CASE_LIMIT=30 CARGO_BUILD_JOBS=2 here=/verif; ulimit -v 14000000
. ./build.sh {'C20' if any(f.startswith('varisat-cli') for f, _, _ in edits) or set(props) & {'C20','C21','C22'} else 'x'} >/tmp/mut/pb{worker}.log 2>&1 || {{ echo RESULT nobuild; exit; }}
for c in {' '.join(props)}; do
 timeout 900 $VMC check $c quick > {tmp}/c.log 2>&1; rc=$?
 echo "RESULT $c rc=$rc $(grep -B1 '^VIOLATION' {tmp}/c.log | head -1 | cut -c1-160)"
done"""
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", script], capture_output=True, text=True, errors="replace")
            res = " ;; ".join(l[7:] for l in r.stdout.split("\n") if l.startswith("RESULT")) or "error " + r.stderr[-200:]
        with open(outfile, "a") as h: h.write(json.dumps({"name": name, "result": res}) + "\n")
        subprocess.run(["git", "-C", f"{tmp}/repo", "checkout", "-q", "."])
def main():
    out, workers = sys.argv[1], int(sys.argv[2]); sub = sys.argv[3] if len(sys.argv) > 3 else ""
    done = {json.loads(l)["name"] for l in open(out)} if os.path.exists(out) else set()
    jobs = [x for x in P if sub in x[0] and x[0] not in done]
    print(len(jobs), flush=True)
    ps = [multiprocessing.Process(target=work, args=((w, jobs[w::workers], out),)) for w in range(workers)]
    for q in ps: q.start()
    for q in ps: q.join()
if __name__ == "__main__": main()
