#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

S = "varisat/src/"
prop("C01", "solve() returns the right verdict for every formula",
 "For every CNF formula (any clause lengths and order, including empty, unit, repeated, tautological and duplicate-literal clauses) and every valid solver configuration, solve() terminates without panicking and returns true exactly when some assignment satisfies all clauses.",
 ["inputs", "configurations"], "all formulas, all clause orders, all configurations accepted by the config API",
 "The tests run some proptest samples of two generators (planted-SAT and sgen-UNSAT, one default or one fixed configuration) and six fixed CNF files; they do not cover arbitrary small clause sets, odd clause shapes or configurations that restart, reduce or rescale at every conflict.",
 [S+"cdcl.rs", S+"prop/long.rs", S+"prop/binary.rs", S+"analyze_conflict.rs", S+"load.rs", S+"unit_simplify.rs", S+"binary.rs", S+"clause/gc.rs", S+"clause/reduce.rs", S+"clause/db.rs", S+"decision/vsids.rs", S+"schedule.rs"],
 [("unit propagation with watched literals", S+"prop/long.rs"), ("first-UIP learning and minimisation", S+"analyze_conflict.rs"), ("clause loading and simplification", S+"load.rs"), ("top-level simplification", S+"unit_simplify.rs"), ("clause deletion and garbage collection", S+"clause/gc.rs")],
 [("sat_state", "current verdict", S+"state.rs"), ("trail", "assigned literals in order", S+"prop/assignment.rs")],
 ["Solver::solve"])
prop("C02", "Models are complete, consistent and satisfy every clause and assumption",
 "Whenever solve() returns true, model() lists exactly one literal for each variable known to the solver under a user name, and these literals satisfy every clause added so far and all current assumptions. After solve() returns false, model() is None. Asking for the model never panics, also when variables were introduced after the solve() call.",
 ["inputs", "histories", "configurations"], "all formulas and histories of clause additions, assumptions, variable introductions and solves",
 "The existing tests check models only for sampled planted-SAT formulas solved once; nothing checks totality, consistency, assumptions or model() at other points of a history.",
 [S+"model.rs", S+"solver.rs", S+"cdcl.rs", S+"variables.rs"],
 [("global model reconstruction", S+"model.rs"), ("Solver::model user mapping", S+"solver.rs")],
 [("assignment", "global model", S+"model.rs")], ["Solver::model"])
prop("C03", "Incremental solving gives the same answers as solving from scratch",
 "For every history of adding clauses and formulas, introducing variables, setting assumptions, changing the configuration and solving, each solve() call returns true exactly when all clauses added so far together with the current assumptions (the last set given, replacing earlier ones) are satisfiable. Assumptions never constrain later calls once replaced, repeating solve() repeats the answer, and no such history panics.",
 ["histories", "inputs"], "all histories of the incremental API over all formulas and assumption sets",
 "Existing incremental tests add the clauses of one sampled formula one by one and use pigeon-hole assumptions; no test explores op orders such as adding clauses that contain fixed variables after UNSAT-under-assumptions or re-assuming removed units.",
 [S+"solver.rs", S+"assumptions.rs", S+"load.rs", S+"unit_simplify.rs", S+"variables.rs", S+"prop/assignment.rs", S+"prop/graph.rs"],
 [("set/enqueue assumptions", S+"assumptions.rs"), ("state transitions on load", S+"load.rs"), ("resurrecting removed units", S+"unit_simplify.rs")],
 [("assumptions", "current assumed literals", S+"assumptions.rs"), ("removed units", "fixed literals no longer on the trail", S+"prop/graph.rs")],
 ["Solver::solve", "Solver::assume"])
prop("C04", "Failed cores are subsets of the assumptions that explain the failure",
 "When solve() returns false, failed_core() returns a set of literals, each of them one of the current assumptions, whose conjunction with the clauses added so far is unsatisfiable (so it may be empty only if the clauses alone are unsatisfiable). After solve() returned true it is None; at any other time a core that failed_core() returns is sound in the same sense.",
 ["inputs", "histories"], "all formulas, assumption lists (with repeats, contradictions, fixed and fresh variables) and histories",
 "The existing tests use conditional pigeon-hole formulas only, always with distinct, consistent, non-fixed assumptions.",
 [S+"assumptions.rs", S+"solver.rs", S+"variables.rs"],
 [("assumption conflict analysis", S+"assumptions.rs"), ("failed_core state dispatch", S+"solver.rs")],
 [("user_failed_core", "last failed core", S+"assumptions.rs")], ["Solver::failed_core"])
prop("C05", "Every answer self-checks and its native proof is accepted by the checker",
 "With self checking enabled no history of valid solver calls makes solve() fail or panic: every derivation step, deletion, model, failed core and UNSAT answer passes. A native-format proof written during any history and closed is accepted by a fresh checker given the clauses added before the first solve (provided no variable was hidden before it, as the clauses alone would then be ambiguous).",
 ["inputs", "histories", "configurations"], "all formulas, incremental histories (assumptions, hidden/witness variables) and configurations that make clause reduction, restarts and garbage collection happen at any conflict",
 "Existing tests self-check sampled formulas; they do not write native proofs of incremental or variable-hiding histories at all, nor vary schedule settings together with variable renaming.",
 [S+"proof.rs", S+"proof/map_step.rs", "varisat-internal-proof/src/lib.rs", "varisat-checker/src/state.rs", "varisat-checker/src/rup.rs", "varisat-checker/src/clauses.rs"],
 [("proof step generation and variable mapping", S+"proof.rs"), ("RUP check with clause hashes", "varisat-checker/src/rup.rs"), ("hash width adaptation", S+"proof.rs")],
 [("hash_bits", "width of clause hashes in the proof", S+"proof.rs")],
 ["Solver::enable_self_checking", "Solver::write_proof", "Checker::check_proof"])
prop("C06", "DRAT proofs are valid refutations in both encodings",
 "For every formula, a DRAT or binary DRAT proof written while solving it is well formed; every added clause follows by reverse unit propagation from the formula and the earlier, not yet deleted proof clauses; and if solve() returned false the proof derives the empty clause or a top-level conflict. Both encodings describe the same sequence of additions and deletions, and every deleted clause is present when deleted.",
 ["inputs", "configurations"], "all formulas (single-shot solving) and schedule configurations",
 "The tests check sampled sgen formulas with external checkers that skip bad deletions and backward-check only the needed core; satisfiable runs, odd clause shapes and the correspondence of the encodings are not checked.",
 [S+"proof.rs", S+"proof/drat.rs", S+"cdcl.rs", S+"unit_simplify.rs", S+"clause/reduce.rs"],
 [("DRAT step writer", S+"proof/drat.rs"), ("learned clause steps", S+"cdcl.rs"), ("deletion steps", S+"clause/reduce.rs")],
 (), ["Solver::write_proof(Drat|BinaryDrat)"])
prop("C07", "LRAT and CLRAT proofs are valid for the formula's clause numbering",
 "For every formula refuted by the solver, the LRAT or compressed CLRAT output (made on the fly or from a stored native proof) is well formed, uses strictly increasing fresh clause ids above the formula's clause numbers, lists for every added clause only live clause ids that propagate in the given order to a conflict with its last hint, deletes only live clauses, and derives the empty clause unless the formula itself contains it. Both encodings describe the same proof.",
 ["inputs", "configurations"], "all unsatisfiable formulas, including repeated, tautological, empty and contradictory unit clauses",
 "The existing tests run two ACL2 checkers on sampled sgen formulas whose clauses are all distinct ternary clauses, so ids never skip and compressed numbers cover few widths.",
 ["varisat-lrat/src/lib.rs", "varisat-checker/src/clauses.rs", "varisat-checker/src/rup.rs", "varisat-checker/src/state.rs"],
 [("LRAT/CLRAT writer", "varisat-lrat/src/lib.rs"), ("propagation trace of the checker", "varisat-checker/src/rup.rs"), ("clause numbering", "varisat-checker/src/clauses.rs")],
 [("next_clause_id", "id for the next clause", "varisat-checker/src/clauses.rs")],
 ["WriteLrat as ProofProcessor"])
prop("C08", "The proof checker never accepts a wrong claim",
 "For every formula and every sequence of proof steps, if the checker accepts (and thus confirms UNSAT, a model or failed assumptions through its transcript) then the claim is true of the clauses given as formula or added by the proof: UNSAT only if they are unsatisfiable, a model only if it agrees with the assumptions and extends to an assignment that satisfies all of them, failed assumptions only if they are among the assumed literals and contradict the clauses. Variables of the given formula keep the names they have there. No sequence of steps makes the checker panic.",
 ["programs", "inputs"], "all proof step sequences, in particular those no solver run produces, and all formulas",
 "The unit tests feed a few dozen hand-written wrong proofs, one per error message; they cannot show that no other step sequence smuggles a wrong claim through.",
 ["varisat-checker/src/state.rs", "varisat-checker/src/rup.rs", "varisat-checker/src/clauses.rs", "varisat-checker/src/variables.rs", "varisat-checker/src/processing.rs"],
 [("step dispatch", "varisat-checker/src/state.rs"), ("RUP check", "varisat-checker/src/rup.rs"), ("clause deletion justification", "varisat-checker/src/state.rs"), ("variable and sampling checks", "varisat-checker/src/variables.rs")],
 [("unsat", "empty clause derived", "varisat-checker/src/clauses.rs"), ("unit_clauses", "known units", "varisat-checker/src/clauses.rs")],
 ["Checker::check_proof", "ProofTranscriptStep"])
prop("C09", "Proof processors see a complete and self-consistent derivation",
 "The sequence of checked steps handed to a proof processor is self-contained: original clauses arrive in input order with their literals and fresh ids (those given before solving numbered consecutively by input position, whether stored, duplicated, tautological or ignored because the formula is already refuted), every derived clause and UNSAT claim lists live clause ids that propagate in order to a conflict, every deletion names a live clause with its literals, models and failed assumptions are those reported by the solver for each answered query, and user-variable events give the mapping under which all of this is true of the user's formula. Every registered processor sees the same sequence.",
 ["inputs", "histories"], "all formulas and incremental histories with a processor attached to the solver or to the checker",
 "No existing test inspects the content of processed steps; they only feed the LRAT writer.",
 ["varisat-checker/src/processing.rs", "varisat-checker/src/state.rs", "varisat-checker/src/clauses.rs", "varisat-checker/src/rup.rs"],
 [("CheckedProofStep emission", "varisat-checker/src/state.rs"), ("trace ids", "varisat-checker/src/rup.rs"), ("processor fan-out", "varisat-checker/src/processing.rs")],
 (), ["ProofProcessor::process_step"])
prop("C10", "Proof output and processor failures are reported, never swallowed",
 "If the proof writer or a proof processor fails at any point, the error is returned by the solve() or close_proof() call that is running (or, if it happened earlier, by the next one) as the matching error kind carrying the original error, instead of a verdict. After that the solver refuses further solve() calls. If none of the calls up to and including close_proof() reports an error, the sink received the complete proof. A solve() that returns a verdict has passed on all proof steps up to it.",
 ["fault_sequences", "histories"], "every position of a failing, short, interrupted or zero-length write or flush and every failing processor step, for all formats and formulas",
 "Two unit tests inject one fault each (a 4-byte sink, an always failing processor); no other fault position, format, short-write pattern or the flush at close is exercised.",
 [S+"proof.rs", S+"solver.rs", S+"proof/drat.rs", "varisat-lrat/src/lib.rs", "varisat-checker/src/processing.rs"],
 [("deferred solver error", S+"proof.rs"), ("poisoned solver state", S+"solver.rs")],
 [("solver_error", "pending error", S+"state.rs"), ("state_is_invalid", "poisoned", S+"state.rs")],
 ["Solver::solve", "Solver::close_proof"])
prop("C11", "Truncated, unreadable or damaged proof files never pass as complete",
 "Checking a native proof that is cut off at any byte is rejected as incomplete or faulty, a read error at any byte is reported as an I/O error, and the outcome never depends on how the bytes are split into reads. A proof with any single byte changed is either rejected or still confirms only claims that are true of the formula.",
 ["fault_sequences", "crash_points", "inputs"], "every truncation point, read error position, read chunking and single-byte change of proofs of all covered histories",
 "One unit test checks an empty file for 'incomplete proof'; truncation inside steps, read faults and corruptions are untested.",
 ["varisat-checker/src/state.rs", "varisat-checker/src/lib.rs", "varisat-internal-proof/src/binary_format.rs", "varisat-internal-proof/src/vli_enc.rs"],
 [("end marker and EOF handling", "varisat-checker/src/state.rs"), ("step parser", "varisat-internal-proof/src/binary_format.rs")],
 (), ["Checker::check_proof"])
prop("C12", "The DIMACS parser accepts exactly DIMACS CNF and yields that exact formula",
 "For every byte string, the parser accepts it if it is DIMACS CNF text as documented (comment lines, at most one 'p cnf' header line before the clauses, zero-terminated clauses possibly spanning lines, literals separated by spaces and line breaks and up to the maximum variable) that respects its header, and then returns the same clauses in the same order with the right variable count. Text with a foreign byte, a malformed header, a too large literal, an unterminated clause or a contradicted header gives an error that names the right line and kind. It never panics.",
 ["inputs"], "all byte strings",
 "The tests use a handful of literal strings and roundtrips of well-formed generated formulas; malformed inputs, number boundaries and header mismatches are sampled by single examples.",
 ["varisat-dimacs/src/lib.rs"],
 [("character state machine", "varisat-dimacs/src/lib.rs:parse_chunk"), ("end of input and header checks", "varisat-dimacs/src/lib.rs:eof,check_header")],
 [("line_number, partial clause, partial literal", "parser state", "varisat-dimacs/src/lib.rs")],
 ["DimacsParser::parse", "DimacsParser::parse_incremental"])
prop("C13", "DIMACS parsing does not depend on chunking and reports read errors",
 "Splitting an input at any positions into chunks, taking the formula at any time in between, or reading through a reader with short or interrupted reads yields the same clauses, counts and error as parsing it in one piece; the taken pieces concatenate to the whole formula. A read error at any position is returned to the caller, a processing callback error stops parsing and is returned, and after parse_chunk() failed every further call fails, too. A solver or checker whose input could not be read to the end holds some leading part of its clauses and answers rightly for them.",
 ["inputs", "fault_sequences"], "all inputs, all chunkings, all read fault positions",
 "One proptest splits generated well-formed formulas at a few positions; it does not split inside malformed input, headers, comments or tokens systematically and injects no read errors.",
 ["varisat-dimacs/src/lib.rs"],
 [("incremental parser state", "varisat-dimacs/src/lib.rs:parse_chunk"), ("reader loop", "varisat-dimacs/src/lib.rs:parse_incremental")],
 (), ["DimacsParser::parse_chunk", "DimacsParser::take_formula", "DimacsParser::parse_incremental", "Solver::add_dimacs_cnf"])
prop("C14", "Written DIMACS parses back to the same formula",
 "For every formula, write_dimacs produces text that the parser accepts and that denotes the same variable count and the same clauses in the same order; write_dimacs_headers and write_dimacs_clauses give the header and body of that text. A failing or short-writing sink is either fully served or its error is returned.",
 ["inputs", "fault_sequences"], "all formulas and sinks, including empty formulas, empty clauses, unused variables and maximal variables",
 "The roundtrip proptest samples generated formulas into an infallible Vec and parses with the same crate.",
 ["varisat-dimacs/src/lib.rs", "varisat-formula/src/cnf.rs"],
 [("writer", "varisat-dimacs/src/lib.rs:write_dimacs")], (), ["write_dimacs"])
prop("C15", "Hidden, witness and sampled variables behave as documented",
 "For every history that hides, witnesses, samples, observes and creates variables between clause additions, assumptions and solves: each solve() is right when hidden variables are read as existentially quantified, new_var() and fresh names denote variables distinct from every variable in use (a hidden variable's name then denotes a new unconstrained variable), every model extends to the hidden variables, and changes of mode never change satisfiability. Observing internal variables returns names not in use before, and only the documented misuses (constraining or assuming witness variables, changing the mode of an assumed variable) panic.",
 ["histories"], "all histories of variable-lifecycle operations mixed with clauses, assumptions and solves",
 "Two proptests hide all variables of one sampled formula at once; interleavings of reuse, re-observation, deletion of fixed variables and assumptions are untested.",
 [S+"variables.rs", S+"variables/data.rs", S+"variables/var_map.rs", S+"solver.rs", S+"model.rs", S+"unit_simplify.rs"],
 [("user/global/solver variable maps and free lists", S+"variables.rs"), ("removal of isolated variables", S+"unit_simplify.rs")],
 [("var_data", "mode, unit value, assumed, deleted", S+"variables/data.rs")],
 ["Solver::{hide_var,witness_var,sample_var,observe_internal_vars,new_var,solve,model}"])
prop("C16", "Search heuristics never change the answer",
 "Whatever variable and polarity is chosen at each decision, and at whatever conflicts the solver restarts, reduces its learned clauses or collects garbage, the verdict, the validity of the model, the soundness of the failed core and the acceptance of the proof are unchanged and the search terminates.",
 ["schedules", "configurations"], "all decision sequences and all placements of restarts, clause reductions and garbage collections",
 "Tests run the one schedule that the fixed heuristics produce (restart every 128 conflicts, reductions every 10000 or, in a few tests, every 100-150), so most placements relative to trail, assumptions and reasons never happen.",
 [S+"schedule.rs", S+"decision.rs", S+"decision/vsids.rs", S+"clause/reduce.rs", S+"clause/gc.rs", S+"prop/assignment.rs", S+"analyze_conflict.rs"],
 [("schedule step", S+"schedule.rs"), ("decision", S+"decision.rs"), ("reduction with reason protection", S+"clause/reduce.rs"), ("relocating garbage collection", S+"clause/gc.rs"), ("backtracking and restart", S+"prop/assignment.rs")],
 (), ["Solver::solve"], "cfg(varisat_verif): a thread-local oracle consulted at each decision and schedule step")
prop("C17", "Configuration updates are validated, atomic and complete",
 "A configuration update is accepted exactly if every value given lies in its documented range; a rejected update changes nothing, an accepted one changes exactly the options it sets, and merging updates lets the later value win. The documented defaults and ranges are the ones in effect.",
 ["configurations", "inputs"], "all option/value combinations including boundary, NaN and infinite values, and all sequences of updates",
 "No existing test checks any range, the atomicity of a failing update, or merging.",
 [S+"config.rs", "varisat-internal-macros/src/lib.rs", S+"solver.rs", S+"context.rs"],
 [("generated apply/merge", "varisat-internal-macros/src/lib.rs"), ("config_changed", S+"context.rs")],
 (), ["SolverConfigUpdate::{apply,merge}", "Solver::config", "SolverConfig::default"])
prop("C18", "The native proof encoding is lossless for every step and every split",
 "Every proof step written in the native binary format is read back as the same step, consuming exactly the bytes written, for all step kinds, literal values, clause lengths, hash values and hash widths up to their limits, in any sequence and through any reader buffering; reading a proper prefix of a step reports end of input rather than another step.",
 ["inputs"], "all steps, sequences of steps, numeric values at every encoding-length boundary, and reader chunkings",
 "Unit tests roundtrip sampled integers and steps with one buffering through proptest; boundaries of the variable-length code, buffer refills inside a number and prefix behaviour are hit by chance only.",
 ["varisat-internal-proof/src/binary_format.rs", "varisat-internal-proof/src/vli_enc.rs", "varisat-internal-proof/src/lib.rs"],
 [("step writer and parser", "varisat-internal-proof/src/binary_format.rs"), ("variable-length integers", "varisat-internal-proof/src/vli_enc.rs")],
 (), ["write_step", "Parser::parse_step"])
prop("C19", "Literals, variables and formulas behave like their mathematical models",
 "Conversions between literals, variables, codes, indices, polarities and DIMACS numbers are mutually inverse over the whole valid range and respect negation and ordering; a CnfFormula built by any mix of its operations holds exactly the clauses added, in order, with the smallest sufficient variable count (or a larger one that was requested), and fresh variables (of a formula or a solver) are not in use yet.",
 ["inputs", "histories"], "all literals and variables, all operation sequences on formulas",
 "The few unit tests cover single examples and sampled Vec roundtrips.",
 ["varisat-formula/src/lit.rs", "varisat-formula/src/cnf.rs", "varisat-formula/src/lib.rs"],
 [("Lit/Var encodings", "varisat-formula/src/lit.rs"), ("flattened clause storage, ExtendFormula", "varisat-formula/src/cnf.rs")],
 (), ["Lit", "Var", "CnfFormula", "ExtendFormula"])
prop("C20", "The command line solver reports the right result, model, proof and exit code",
 "For every input file or standard input and every valid option combination, `varisat` prints 's SATISFIABLE' with a satisfying 'v' line that gives every variable of the clauses one value and ends in 0, and exits 10, or prints 's UNSATISFIABLE' and exits 20; a requested proof file is a valid proof of that result in the requested format. Unreadable or malformed input, invalid options and unwritable proof files give a diagnostic and exit code 1, never a verdict; when writing the proof fails later, no verdict is printed either and the exit code is neither 10 nor 20.",
 ["inputs", "configurations", "fault_sequences"], "all inputs, option combinations, output faults",
 "The CLI crate has no tests at all.",
 ["varisat-cli/src/main.rs", "varisat-cli/src/check.rs"],
 [("main and exit codes", "varisat-cli/src/main.rs")], (), ["exit status", "stdout", "proof file"])
prop("C21", "Proof checking on the command line confirms only valid proofs",
 "`varisat --check` exits successfully with 's VERIFIED' exactly when the given native proof is a complete valid proof for the given formula; otherwise it reports the failure, exits with a failure code and never prints 's VERIFIED'. A transcript or LRAT/CLRAT file requested with the check reflects the same verified steps.",
 ["inputs", "fault_sequences"], "all formula/proof pairs, in particular mismatched, truncated and damaged ones",
 "The CLI crate has no tests at all.",
 ["varisat-cli/src/check.rs", "varisat-cli/src/check/transcript.rs", "varisat-cli/src/main.rs"],
 [("check command", "varisat-cli/src/check.rs"), ("transcript writer", "varisat-cli/src/check/transcript.rs")], (), ["exit status", "stdout", "written files"])
prop("C22", "Results are reproducible and independent of how the input was handed over",
 "Running the same history twice gives identical verdicts, models, failed cores and proofs byte for byte, in one process or another. Adding the same clauses one by one, as a formula, through DIMACS text in any chunking, or split over several calls gives the same results as well. Neither do other solvers that are created, used and dropped in between change any of it.",
 ["histories", "inputs"], "all histories and all ways of splitting the clause input",
 "No test compares two runs or two input paths.",
 [S+"solver.rs", S+"load.rs", S+"variables.rs", S+"proof.rs", "varisat-dimacs/src/lib.rs"],
 [("fixed hasher and explicit free lists", S+"variables.rs"), ("common load path", S+"load.rs")], (), ["Solver", "proof bytes"])
prop("C23", "Transcripts tell exactly what was asked and answered, in order",
 "The transcript of a checked history lists, in order and in user variable names, every sampling-mode change, every clause added after solving began, every assumption set, and the result of every newly answered query (UNSAT when it is first established, otherwise the model or the failed assumptions) exactly as the solver returned them. Replaying the transcript against the clauses shows every listed result to be true.",
 ["histories"], "all incremental histories with variable-mode changes",
 "No test reads transcripts; the code is reached only through the CLI without tests.",
 ["varisat-checker/src/transcript.rs", "varisat-checker/src/processing.rs", "varisat-checker/src/state.rs", S+"proof.rs"],
 [("transcript translation", "varisat-checker/src/transcript.rs")], (), ["ProofTranscriptProcessor::process_step"])
prop("C24", "Proof generation and checking do not change results",
 "Verdicts, models and failed cores of a history are the same whether no proof, a proof in any format, self checking, any number of proof processors, or all of these together are enabled, and closing the proof early only stops the output. Each processor is shown the same steps in all these cases.",
 ["histories", "configurations"], "all histories under all combinations of proof sinks",
 "No test compares runs with and without proofs; incremental use with several sinks at once is never exercised.",
 [S+"proof.rs", S+"solver.rs", S+"unit_simplify.rs", S+"analyze_conflict.rs"],
 [("proof::is_active guards", S+"proof.rs"), ("clause hash collection", S+"analyze_conflict.rs")], (), ["Solver"])
prop("C25", "Restarts and clause reductions follow the configured policy",
 "In every history and configuration the search restarts after exactly the numbers of conflicts given by the Luby sequence times the configured scale (in effect when an interval begins), and reduces its learned clauses at every multiple of the configured intervals. A local reduction deletes the less active half of the local clauses (fewer only where clauses are reasons of current assignments) and nothing else; a mid reduction demotes to local exactly the mid clauses that took part in no conflict since the previous one; otherwise learned clauses only move to better tiers: core, mid or local as the smallest number of decision levels (glue) observed for them is at most 2, at most 6 or more. Garbage collection keeps every live clause. So the number of deletable learned clauses stays bounded over long runs.",
 ["histories", "configurations", "schedules"], "all inputs, configurations and run lengths",
 "Tests check 64 terms of the Luby sequence; no test observes when restarts and reductions happen or what they remove.",
 [S+"schedule.rs", S+"schedule/luby.rs", S+"clause/reduce.rs", S+"clause/assess.rs", S+"clause/activity.rs", S+"clause/gc.rs", S+"clause/db.rs", S+"config.rs"],
 [("schedule_step", S+"schedule.rs"), ("Luby sequence", S+"schedule/luby.rs"), ("reduce_locals, reduce_mids", S+"clause/reduce.rs")], (), ["conflict counts", "clause tiers"])
prop("C26", "Rejected proofs are rejected at the first wrong step, with the matching kind",
 "When the checker rejects a native proof, the error names the 1-based number of the first step that is not acceptable, however the proof was damaged: an incomplete proof where the data ends within a step or without an end step, a read error (with the original cause) where reading fails, a parse error where the bytes are no step, and a failed check where a readable step is wrong, which is then described together with the step. All steps before it are accepted on their own, and what follows has no influence.",
 ["inputs", "fault_sequences"], "all damaged proofs, read faults and ends of data",
 "Tests look at the message of about 40 single wrong steps, never at the step number, the description, or faults within longer proofs.",
 ["varisat-checker/src/lib.rs", "varisat-checker/src/state.rs", "varisat-internal-proof/src/binary_format.rs", "varisat-checker/src/variables.rs", "varisat-checker/src/clauses.rs"],
 [("check_proof, CheckerError", "varisat-checker/src/lib.rs"), ("check_step, debug_step", "varisat-checker/src/state.rs")], (), ["CheckerError"])
prop("C27", "A checker stays sound and usable after a rejected, unreadable or finished proof",
 "After check_proof() or add_clause() was called, whatever the outcome, the same checker can be given further clauses and further proofs: it never panics, each proof is read up to its own end (a complete proof does not vouch for later data), every claim confirmed later is true of all clauses given so far, and a rejected step has no effect on what is confirmed or refused later, except that variables it mentions become known, that the part of a list of unit clauses before the wrong one stays, and that a deletion may no longer refer to a clause derived before it.",
 ["histories", "inputs", "fault_sequences"], "all sequences of proofs, clauses and faults given to one checker",
 "Every test makes a new checker for a single proof and stops at the first error.",
 ["varisat-checker/src/lib.rs", "varisat-checker/src/state.rs", "varisat-checker/src/rup.rs", "varisat-checker/src/clauses.rs", "varisat-checker/src/variables.rs"],
 [("check_proof", "varisat-checker/src/state.rs"), ("temporary assignments", "varisat-checker/src/rup.rs")], (), ["Checker::check_proof", "Checker::add_clause"])

prop("C28", "The unsafe code is sound: no sequence of safe calls causes undefined behaviour",
 "Whatever sequence of safe calls a program makes of the solver, the checker and the proof reader (formulas, assumptions, variable changes, configurations, proof output and checking, valid or wrong proofs), no execution reads or writes outside an allocation, uses a dangling or invalidated pointer, breaks aliasing rules, makes an invalid value, overflows in arithmetic, or breaks a debug assertion.",
 ["histories", "inputs"], "all sequences of safe calls",
 "Tests run compiled code, where undefined behaviour usually goes unnoticed, and on a handful of inputs.",
 ["varisat/src/prop/long.rs", "varisat/src/prop/assignment.rs", "varisat/src/clause.rs", "varisat/src/clause/alloc.rs", "varisat/src/clause/header.rs", "varisat/src/clause/db.rs", "varisat-checker/src/clauses.rs", "varisat-internal-proof/src/vli_enc.rs"],
 [("propagate_long", "varisat/src/prop/long.rs"), ("ClauseAlloc", "varisat/src/clause/alloc.rs"), ("ClauseLits", "varisat-checker/src/clauses.rs"), ("read_u64_fast", "varisat-internal-proof/src/vli_enc.rs")], (), ["Solver", "Checker", "binary_format::Parser"])
prop("C29", "Decisions branch on the most active open variable, with its last value",
 "In every search each decision picks, among the variables that are known to the solver and unassigned, one of the highest activity, and gives it the value it had when it was last assigned (false at first). Each conflict above level 0 adds the current bump once to the activity of each variable that occurs above level 0 in the false clause or in a reason resolved on, and then all activities decay by the configured vsids_decay; a new variable starts at zero. This holds at any length of a search (also where activities have to be rescaled), after any sequence of insertions and removals of variables, and across restarts, solve calls and configuration changes.",
 ["histories", "inputs", "configurations"], "all formulas, histories and configurations",
 "Four tests of at most 8 variables check the order after a few operations; no test removes a variable or looks at a decision of a search.",
 [S+"decision.rs", S+"decision/vsids.rs", S+"analyze_conflict.rs", S+"prop/assignment.rs", S+"variables.rs"],
 [("Vsids (bump, decay, heap)", S+"decision/vsids.rs"), ("make_decision", S+"decision.rs"), ("add_literal", S+"analyze_conflict.rs"), ("backtrack (saved values)", S+"prop/assignment.rs")],
 [("activity, heap, position", "variable order", S+"decision/vsids.rs"), ("last_value", "saved values", S+"prop/assignment.rs")], ["decisions (observer hook)"], "assignments, decisions and conflicts, behind --cfg varisat_verif")
prop("C30", "Propagation is complete, nothing is assigned without a reason, and jumps fit",
 "In every search, whenever a decision is made or a further assumption is taken up, no clause that the solver holds (given, or learned and not deleted since) is false or leaves just one literal open without having a true one. Every assigned literal was unassigned before and is a decision, an assumption or forced by a held clause whose other literals are all false; decisions are only made when every assumption is true or implied by others. Each conflict is a false clause. The clause learned from it consists of literals that were false and involved, exactly one of them from the deepest level, and the search goes back to the deepest level of the other ones (level 0 if there are none), where it assigns that literal next.",
 ["histories", "inputs", "configurations", "schedules"], "all formulas, histories, configurations and schedules of maintenance work",
 "A missed propagation rarely changes an answer, and tests look only at answers and, in three small cases, at a propagated assignment.",
 [S+"prop/long.rs", S+"prop/binary.rs", S+"prop/watch.rs", S+"prop/assignment.rs", S+"analyze_conflict.rs", S+"cdcl.rs", S+"assumptions.rs", S+"load.rs", S+"unit_simplify.rs", S+"clause/gc.rs"],
 [("propagate", S+"prop.rs"), ("watch lists", S+"prop/watch.rs"), ("analyze_conflict", S+"analyze_conflict.rs"), ("conflict_step", S+"cdcl.rs")],
 [("trail", "assigned literals in order", S+"prop/assignment.rs"), ("watchlists", "clauses to look at", S+"prop/watch.rs")], ["assignments and learned clauses (observer hook)"], "assignments, decisions and conflicts, behind --cfg varisat_verif")
prop("C31", "Self checking notices every wrong step of the solver",
 "With self checking or a proof processor, and whatever proof format is written beside it, the solver panics (self check failure) in the very call in which it makes the first proof step that the clauses and the steps so far do not justify: a step that was lost although later ones need it, changed literals of an added, derived, deleted, assumed or failed clause or of a model, missing or wrong propagation hashes. No answer comes out of that call or later. If every step stays justified, nothing is noticed and all answers stay the same. A step that is accepted is true: derived clauses follow from the clauses, models and failed assumptions fit them. Without self checking a wrong step changes only the proof, not the answers.",
 ["histories", "inputs", "faults"], "all histories and all wrong steps, one per run",
 "No test makes the solver emit a wrong step, so that no test ever sees self checking fail.",
 [S+"proof.rs", S+"proof/map_step.rs", "varisat-checker/src/internal.rs", "varisat-checker/src/state.rs", S+"solver.rs"],
 [("handle_self_check_result", S+"proof.rs"), ("add_step", S+"proof.rs"), ("SelfChecker", "varisat-checker/src/internal.rs"), ("enable_self_checking", S+"solver.rs")], (), ["Solver::enable_self_checking", "Solver::add_proof_processor", "proof steps (damaging hook)"], "proof steps, behind --cfg varisat_verif")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
