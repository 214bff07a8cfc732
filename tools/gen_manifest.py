#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, subprocess
NOTES = {
 "C01": ("exploration", "exhaustive bounded enumeration of formulas on the real solver, truth table / DPLL oracle",
   "Every formula of the stated finite families is solved by the real code; outside the families nothing is shown. Trusts the reference truth tables and DPLL."),
 "C02": ("model_checking", "explicit-state exploration of API histories and complete model enumeration against a reference model",
   "All histories up to the stated depth over the stated alphabets run on the real solver; every model is checked. Trusts the reference model."),
 "C03": ("model_checking", "explicit-state exploration of API histories against a reference model",
   "All histories up to the stated depth over the stated alphabets run on the real solver in lock step with a from-scratch reference. Trusts the reference model."),
 "C04": ("model_checking", "explicit-state exploration of assumption histories against a reference model",
   "All assumption lists and pairs of lists over the stated formulas; cores checked by the reference. Trusts the reference model."),
 "C15": ("model_checking", "explicit-state exploration of variable lifecycle histories against a reference model with angelic naming",
   "All histories up to the stated depth; names of observed internal variables are matched angelically, so a wrong name is only noticed once an answer contradicts every possible meaning."),
 "C05": ("model_checking", "explicit-state exploration of histories on the real solver with on-the-fly and from-scratch proof checking",
   "All histories and formulas of the stated families are run with self checking, their native proofs are checked from scratch. Trusts the checker, which C08 explores on its own, and the reference model."),
 "C06": ("exploration", "exhaustive bounded enumeration of formulas, DRAT proofs of the real solver checked by an independent forward checker",
   "Every proof of the finite families is checked step by step by the harness's own RUP checker; nothing is shown outside the families."),
 "C07": ("exploration", "exhaustive bounded enumeration of unsatisfiable formulas, LRAT proofs checked by an independent checker",
   "Every proof of the finite families is checked by the harness's own strict LRAT checker, made on the fly and from the stored native proof."),
 "C08": ("model_checking", "explicit-state exploration of the real proof checker over all step sequences up to a depth",
   "All step sequences up to the stated depth over the stated alphabets, offered to the real checker in every reference state; claims judged by truth tables. States with equal reference state are merged."),
 "C09": ("model_checking", "explicit-state exploration of solver histories and checker step sequences with a monitor on the processor interface",
   "All histories and step sequences of the families; every event sequence is checked by a strict monitor. Trusts the monitor and the reference model."),
 "C10": ("fault_enumeration", "exhaustive enumeration of write, flush and processor fault positions over solver histories",
   "Every fault position (byte, call or processor step) of every history of the stated families is injected into the real solver. Trusts the harness's sinks."),
 "C11": ("fault_enumeration", "exhaustive enumeration of truncations, read faults, read splits and byte changes of proofs on the real checker",
   "Every cut, read error, and single-byte change (quick: every bit flip and boundary value) of every proof of the families; confirmed claims are judged by truth tables. Damaged proofs that mention variables far outside the formula are skipped, since the checker allocates memory for them."),
 "C12": ("exploration", "exhaustive enumeration of short inputs and token sequences against a reference reader",
   "Every byte string of the stated lengths over the stated alphabets, and every token sequence; judged by an independent reader written from the documentation, which leaves a few undocumented forms open (-0, a header after clauses, a plus sign in the header)."),
 "C13": ("fault_enumeration", "exhaustive enumeration of chunkings, takings and read faults over all short inputs",
   "Every way to cut every short input, compared with parsing it whole; C12 judges the whole parse."),
 "C14": ("fault_enumeration", "exhaustive enumeration of small formulas and sink faults against a reference reader",
   "Every formula of the stated families is written and read back by an independent reader; every fault position of the sink."),
 "C16": ("model_checking", "explicit-state exploration of the real solver under a controlled scheduler of decisions, restarts, clause reductions and garbage collections",
   "All decision choices and all schedules of maintenance work up to the stated number of changes, over the formulas and histories of the families; every answer is checked by the reference model, with self checking. Trusts the hooks, which replace only choices the heuristics are free to make."),
 "C17": ("model_checking", "explicit-state exploration of sequences of configuration changes against a reference model",
   "All sequences of updates up to the stated depth over boundary values, from TOML and from code, merged and applied to the real configuration and solver. Trusts the reference model."),
 "C18": ("exploration", "exhaustive bounded enumeration of proof steps and number encodings, written and read back with all refill positions",
   "All steps of the alphabets and all sequences up to the stated depth, all numbers below a bound and around every power of two. Other values are assumed to behave as their neighbours of equal length."),
 "C19": ("model_checking", "exhaustive enumeration of variables and literals, explicit-state exploration of formula operation histories against a list model",
   "Every variable and literal of the stated ranges (thorough: all), every operation sequence up to the stated depth in lock step with a model. Trusts the model."),
 "C20": ("fault_enumeration", "exhaustive enumeration of formulas, texts, option lists and output fault positions on the real command line tool",
   "Every formula, token sequence and option list of the families, and every position at which the proof file can stop growing; verdicts judged by truth tables, proofs by independent checkers. Signals and faults of standard input are not injected."),
 "C21": ("fault_enumeration", "exhaustive enumeration of histories, mismatched, truncated and damaged proofs and output fault positions on the real command line tool",
   "Every history up to the stated depth, every formula with every proof, every prefix and the stated changes of every byte; the reference for damaged proofs is the library's checker, which C08 and C11 judge."),
 "C22": ("model_checking", "exhaustive enumeration of bounded histories and input paths, all runs of a history compared with each other",
   "Every history of the families is run twice, in another process, and with its clauses handed over in each stated way; answers and proof bytes must agree. One machine and one build only."),
 "C23": ("model_checking", "explicit-state exploration of histories, transcripts followed event by event against the operations, the answers and a reference model",
   "All histories of the families; each transcript event must belong to an operation or answer, in order, and be true for the reference. Trusts the reference model. Histories that rename variables before the first solve are left out."),
 "C24": ("model_checking", "explicit-state exploration of histories under all combinations of proof sinks, runs compared with each other",
   "Every history of the families is run without proof and with the stated combinations of format, self checking, processors and early closing; answers must agree. The longer families take three combinations by turns."),
 "C25": ("model_checking", "reference model of the restart and reduction policy in lock step with every event of the real search, over enumerated formulas, configurations and histories",
   "All configurations and histories of the families; long runs only up to the conflicts these formulas need. Tiers, uses and deletions are observed through guarded hooks; activities are compared with a tolerance, and only where no clause is locked. Without hooks nothing is decided."),
 "C27": ("model_checking", "explicit-state exploration of call sequences on one real checker: every rejected, unreadable or completed proof in every reference state, followed by every call",
   "All states up to the stated number of accepted steps over the stated alphabets; in each, every pair of a rejected or completed call and another call, compared with the second alone. States with equal reference state are merged. Longer continuations after a rejection are covered only as far as they are again such pairs."),
 "C28": ("exploration", "exhaustive bounded enumeration of call sequences executed in the Miri interpreter, which stops at undefined behaviour",
   "Every execution of the stated small families is interpreted; nothing is shown outside of them. Trusts Miri (Tree Borrows). Output in text DRAT, text LRAT and DIMACS is left out, because the dependency itoa 0.4.6 makes uninitialized integers."),
 "C29": ("model_checking", "reference model of the branching heuristic in lock step with every event of the real search, and explicit-state exploration of all operation sequences on the real activity heap",
   "All histories of the families and all operation sequences within the bounds. Conflicts and the literals involved are observed through guarded hooks; activities are compared with a tolerance of 0.1 %. Without hooks nothing is decided."),
 "C30": ("model_checking", "reference model of the search (clauses, values, levels) in lock step with every event of the real search, over enumerated formulas, histories and schedules",
   "All formulas, histories and schedules of the families, with every decision checked against all held clauses. Assignments, learned clauses and deletions are observed through guarded hooks. Histories that hide variables are left out. Without hooks nothing is decided."),
 "C31": ("fault_enumeration", "exhaustive enumeration of damages of each proof step of enumerated histories on the real solver and checker, runs compared with an offline replay of the same steps",
   "Each step of each history is damaged in every stated way, one per run; longer histories take every step near the ends and a fixed share of the others. The expected failing call comes from the checker applied to the written proof, which C08 judges; accepted steps are also judged by truth tables. Needs the guarded hook, without it nothing is decided."),
 "C26": ("fault_enumeration", "exhaustive enumeration of cuts, read faults, inserted and replaced wrong steps, and byte changes of proofs on the real checker",
   "Every cut, read fault, insertion of each kind of wrong step and stated byte change of every proof of the families; the first unacceptable step is found by the checker's own verdict on prefixes, which C08 and C11 judge, and step boundaries by the crate's parser, which C18 judges."),
}
NA = {
}
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
commits = [l.split()[0] for l in hooks.splitlines() if l.split(" ", 1)[1].startswith("verif:")]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "--cfg varisat_verif", "enable": "RUSTFLAGS=\"--cfg varisat_verif\" for the harness build (see build.sh)", "source_commits": commits},
 "checks": [], "not_applicable": [],
}
for p in props:
    if p in NOTES:
        level, tech, note = NOTES[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                            "technique": tech, "level": level, "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
