//! C31: self checking notices every wrong step of the solver.
//!
//! A guarded hook (`--cfg varisat_verif`) damages one proof step on its way from the solver to the proof writer
//! and the checker.
use crate::engine::*;
#[cfg(varisat_verif)]
use crate::hist::*;
#[cfg(varisat_verif)]
use crate::hists;
#[cfg(varisat_verif)]
use crate::monitor::Keep;
#[cfg(varisat_verif)]
use crate::props::c10::legal;
#[cfg(varisat_verif)]
use crate::refsat::{tt, with_units, Cl};
#[cfg(varisat_verif)]
use crate::steps::{parse_native, Step};
#[cfg(varisat_verif)]
use std::cell::{Cell, RefCell};
#[cfg(varisat_verif)]
use std::rc::Rc;
#[cfg(varisat_verif)]
use varisat::verif::{set_tamper, Tampered};
#[cfg(varisat_verif)]
use varisat::{ExtendFormula, ProofFormat, Solver};
#[cfg(varisat_verif)]
use varisat_checker::{Checker, CheckerError, ProofProcessor};
#[cfg(varisat_verif)]
use varisat_internal_proof::ProofStep;

/// Self checking, number of processors, proof format.
#[cfg(varisat_verif)]
type Mode = (bool, usize, Option<ProofFormat>);

#[cfg(varisat_verif)]
#[derive(Default)]
struct Log {
    /// The operation in progress.
    at: Cell<usize>,
    answers: RefCell<Vec<String>>,
    /// The steps that are not lost, as passed on, with the number of the operation.
    steps: RefCell<Vec<(usize, Step)>>,
    /// all steps
    count: Cell<usize>,
}

#[cfg(varisat_verif)]
struct Run {
    log: Rc<Log>,
    panic: Option<String>,
    proof: Vec<u8>,
    /// The clauses before the first solve, with the number of the operation.
    initial: Vec<(usize, Cl)>,
}

/// Runs a history that ends with closing the proof.
#[cfg(varisat_verif)]
fn drive(ops: &[Op], cfg: &Cfg, mode: Mode, damage: Option<(usize, &Tampered)>, rec: &mut Rec) -> Run {
    let log = Rc::new(Log::default());
    let sink = super::c10::Sink::new(super::c10::Fault::None);
    let mut procs: Vec<Keep> = (0..mode.1).map(|_| Keep::default()).collect();
    let (l2, damage) = (log.clone(), damage.map(|(k, t)| (k, t.clone())));
    let done = ops.len() + 1;
    set_tamper(Some(Box::new(move |step: &ProofStep| {
        if l2.at.get() == done {
            // the proof is closed again by the destructor
            return None;
        }
        let k = l2.count.get();
        l2.count.set(k + 1);
        match &damage {
            Some((at, t)) if *at == k => {
                if let Some(s) = t.apply(step) {
                    l2.steps.borrow_mut().push((l2.at.get(), Step::of(&s)));
                }
                Some(t.clone())
            }
            _ => {
                l2.steps.borrow_mut().push((l2.at.get(), Step::of(step)));
                None
            }
        }
    })));
    rec.eval();
    let mut initial = vec![];
    let r = catch(|| {
        // (dropped while unwinding when the self check fails)
        let mut solver: Solver = Solver::new();
        solver.config(&cfg.update()).unwrap();
        if mode.0 {
            solver.enable_self_checking();
        }
        for p in &mut procs {
            solver.add_proof_processor(p as &mut dyn ProofProcessor);
        }
        if let Some(f) = mode.2 {
            solver.write_proof(sink.clone(), f);
        }
        let mut invoked = false;
        for (k, op) in ops.iter().enumerate() {
            log.at.set(k);
            match op {
                Op::Solve => {
                    invoked = true;
                    let r = solver.solve().map_err(|e| e.to_string());
                    let answer = format!("{k} {r:?} {:?} {:?}", solver.model().map(|m| ints(&m)), solver.failed_core().map(ints));
                    log.answers.borrow_mut().push(answer);
                }
                Op::Clause(c) => {
                    solver.add_clause(&lits(c));
                    if !invoked {
                        initial.push((k, c.clone()));
                    }
                }
                Op::Formula(f) | Op::Dimacs(f) => solver.add_formula(&formula(f)),
                Op::Assume(a) => solver.assume(&lits(a)),
                Op::Hide(v) => solver.hide_var(var(*v)),
                Op::Witness(v) => solver.witness_var(var(*v)),
                Op::Sample(v) => solver.sample_var(var(*v)),
                Op::NewVar => {
                    solver.new_var();
                }
                Op::Observe => {
                    solver.observe_internal_vars();
                }
                Op::Config(c) => solver.config(&c.update()).unwrap(),
                Op::CloseProof | Op::Query => (),
            }
        }
        log.at.set(ops.len());
        if let Err(e) = solver.close_proof() {
            log.answers.borrow_mut().push(format!("close {e}"));
        }
        log.at.set(ops.len() + 1);
    });
    set_tamper(None);
    let proof = sink.st.data.borrow().clone();
    Run { log, panic: r.err(), proof, initial }
}

/// All clauses so far, of small formulas of which no variable was deleted.
#[cfg(varisat_verif)]
#[derive(Default)]
struct Known {
    clauses: Vec<Cl>,
    assumed: Cl,
    renamed: bool,
}

#[cfg(varisat_verif)]
impl Known {
    fn follow(&mut self, step: &Step) -> Result<(), String> {
        let small = |c: &Cl| c.iter().all(|l| l.abs() <= 6);
        self.renamed |= match step {
            Step::DeleteVar(_) => true,
            Step::Add(c) | Step::At(_, c, _) | Step::Assume(c) | Step::Failed(c, _) | Step::Model(c) => !small(c),
            Step::Units(us) => us.iter().any(|u| u.0.abs() > 6),
            _ => false,
        };
        self.renamed |= !self.clauses.iter().all(small);
        if self.renamed {
            return Ok(());
        }
        let refuted = |units: &Cl| tt(&with_units(&self.clauses, units)) == 0;
        match step {
            Step::Add(c) => self.clauses.push(c.clone()),
            Step::At(_, c, _) if !refuted(&c.iter().map(|l| -l).collect()) => return Err("the clause does not follow".into()),
            Step::Units(us) if us.iter().any(|u| !refuted(&vec![-u.0])) => return Err("a unit clause does not follow".into()),
            Step::Assume(a) => self.assumed = a.clone(),
            Step::Failed(f, _) if !f.iter().all(|l| self.assumed.contains(l)) => return Err("these were not assumed".into()),
            Step::Failed(f, _) if !refuted(f) => return Err("these do not contradict the clauses".into()),
            Step::Model(m) if refuted(m) => return Err("the model contradicts the clauses".into()),
            Step::Model(m) if self.assumed.iter().any(|l| !m.contains(l)) => return Err("the model contradicts the assumptions".into()),
            _ => (),
        }
        Ok(())
    }
}

/// The first and last places, and those in the middle.
#[cfg(varisat_verif)]
fn places(n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n.min(3)).chain(n.saturating_sub(2)..n).chain([n / 2]).filter(|&k| k < n).collect();
    p.sort();
    p.dedup();
    p
}

#[cfg(varisat_verif)]
fn damages(s: &Step) -> Vec<Tampered> {
    let mut out = vec![Tampered::Lost];
    let mut of = |c: &Cl| {
        for k in places(c.len()) {
            let mut d = c.clone();
            d.remove(k);
            out.push(Tampered::Lits(lits(&d)));
            let mut d = c.clone();
            d[k] = -d[k];
            out.push(Tampered::Lits(lits(&d)));
        }
        if c.len() > 1 {
            out.push(Tampered::Lits(vec![]));
        }
    };
    match s {
        Step::Add(c) | Step::Delete(c, _) | Step::Model(c) | Step::Assume(c) => of(c),
        Step::At(_, c, h) | Step::Failed(c, h) => {
            of(c);
            for k in places(h.len()) {
                let mut d = h.clone();
                d.remove(k);
                out.push(Tampered::Hashes(d));
                let mut d = h.clone();
                d[k] ^= 1 << 40;
                out.push(Tampered::Hashes(d));
            }
            if h.len() > 1 {
                out.push(Tampered::Hashes(h.iter().rev().cloned().collect()));
            }
        }
        _ => (),
    }
    out
}

#[cfg(varisat_verif)]
fn noticed(ops: &[Op], cfg: &Cfg, every: usize, turn: u64, rec: &mut Rec) -> CaseResult {
    let e = |m: String| format!("{m}: {ops:?} {cfg:?}").chars().take(3000).collect::<String>();
    // the clauses before the first solve are added one by one, so that it is known what the checker knows
    let mut invoked = false;
    let mut single_clauses = vec![];
    for op in legal(ops) {
        invoked |= op == Op::Solve;
        match op {
            Op::Formula(f) | Op::Dimacs(f) if !invoked => single_clauses.extend(f.into_iter().map(Op::Clause)),
            op => single_clauses.push(op),
        }
    }
    let ops = &single_clauses[..];
    let first = ops.iter().position(|o| *o == Op::Solve).unwrap_or(ops.len());
    if ops[..first].iter().any(|o| matches!(o, Op::Hide(_) | Op::Observe)) {
        // the first clauses would have other names
        return Ok(());
    }
    let single = !ops.iter().any(|o| matches!(o, Op::Assume(_))) && !ops[first..].iter().any(|o| matches!(o, Op::Clause(_) | Op::Formula(_) | Op::Dimacs(_)));
    let mut modes: Vec<Mode> = vec![
        (true, 0, None),
        (false, 1, None),
        (true, 0, Some(ProofFormat::Varisat)),
        (false, 3, Some(ProofFormat::Varisat)),
    ];
    if single {
        modes.extend([(true, 0, Some(ProofFormat::Drat)), (false, 1, Some(ProofFormat::BinaryDrat))]);
    }
    let native = (false, 0, Some(ProofFormat::Varisat));
    let plain = drive(ops, cfg, native, None, rec);
    if let Some(p) = &plain.panic {
        return Err(e(format!("panicked: {p}")));
    }
    let answers = plain.log.answers.borrow().clone();
    let steps: Vec<Step> = plain.log.steps.borrow().iter().map(|s| s.1.clone()).collect();
    rec.state(fp(&(format!("{answers:?}"), steps.len())));
    let mut number = turn as usize;
    for (k, s) in steps.iter().enumerate() {
        if every > 1 && k >= 8 && k + 8 < steps.len() && (k + turn as usize) % every != 0 {
            continue;
        }
        for t in damages(s) {
            let what = |m: String| e(format!("step {k} {s:?} changed by {t:?}: {m}"));
            // the steps as they reach the proof
            let a = drive(ops, cfg, native, Some((k, &t)), rec);
            if let Some(p) = &a.panic {
                return Err(what(format!("panicked without any checking: {p}")));
            }
            if *a.log.answers.borrow() != answers {
                return Err(what(format!("the answers change without any checking: {:?} instead of {answers:?}", a.log.answers.borrow())));
            }
            let mut written: Vec<Step> = parse_native(&a.proof).map_err(|m| what(format!("harness: {m}")))?;
            written.retain(|s| !matches!(s, Step::Bits(_)));
            let passed = a.log.steps.borrow().clone();
            if written.len() != passed.len() {
                return Err(what(format!("{} steps are written, {} were made", written.len(), passed.len())));
            }
            // the steps of the proof, but with complete hashes, are offered to a checker
            let mut checker = Checker::new();
            let mut wrong = None;
            let mut known = Known::default();
            let mut initial = a.initial.iter().peekable();
            'steps: for ((op, full), w) in passed.iter().zip(&mut written) {
                // the names of its variables come before a clause
                let name = matches!(full, Step::UserName(..) | Step::SolverName(..));
                while let Some((k, c)) = initial.next_if(|(k, _)| k < op || k == op && !name) {
                    known.clauses.push(c.clone());
                    if let Err(m) = checker.add_clause(&lits(c)) {
                        wrong = Some((*k, m.to_string()));
                        break 'steps;
                    }
                }
                match (full, &mut *w) {
                    (Step::At(_, _, h), Step::At(_, _, g)) | (Step::Failed(_, h), Step::Failed(_, g)) => *g = h.clone(),
                    (Step::Units(u), Step::Units(v)) => v.iter_mut().zip(u).for_each(|(v, u)| v.1 = u.1),
                    _ => (),
                }
                // (as a proof that ends after this step, not in the way of the solver)
                let mut bytes = vec![];
                w.write(&mut bytes);
                let verdict = match checker.check_proof(&bytes[..]) {
                    Err(CheckerError::ProofIncomplete { .. }) => Ok(()),
                    r => r,
                };
                if let Err(m) = verdict {
                    wrong = Some((*op, m.to_string()));
                    break;
                }
                // whatever the checker says, an accepted step has to be true
                known.follow(w).map_err(|m| what(format!("the checker accepts {w:?} with {:?}: {m}", known.clauses)))?;
            }
            drop(checker);
            rec.step();
            number += 1;
            let mode = modes[number % modes.len()];
            let b = drive(ops, cfg, mode, Some((k, &t)), rec);
            rec.nontrivial(fp(&(turn, k, format!("{t:?}"))));
            let got = b.log.answers.borrow();
            match (&wrong, &b.panic) {
                (None, None) => {
                    rec.outcome("harmless");
                    if *got != answers {
                        return Err(what(format!("with {mode:?} the answers are {got:?} instead of {answers:?}")));
                    }
                }
                (Some((op, _)), Some(p)) if p.contains("self check failure") && b.log.at.get() == *op => {
                    rec.outcome("noticed");
                    if got[..] != answers[..got.len()] {
                        return Err(what(format!("with {mode:?} the answers are {got:?} instead of {answers:?}")));
                    }
                }
                (w, p) => {
                    return Err(what(format!(
                        "with (self check, processors, format) = {mode:?} {} in operation {}; the steps are {}",
                        p.as_ref().map_or("no alarm".into(), |p| format!("panicked with {p:?}")),
                        b.log.at.get(),
                        w.as_ref().map_or("right".into(), |(op, m)| format!("wrong in operation {op}: {m}"))
                    )))
                }
            }
        }
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    #[cfg_attr(not(varisat_verif), allow(unused_mut))]
    let mut fam: Vec<Family> = vec![];
    #[cfg(varisat_verif)]
    {
        let t = |a: usize, b: usize| if thorough { b } else { a };
        let all: Vec<Cl> = crate::props::c01::clauses_of_size(3, 3).into_iter().chain(crate::props::c01::clauses_of_size(3, 2)).collect();
        let n = 1u64 << t(11, 15);
        fam.push(Family::new(
            "subsets of 3-variable clauses",
            "every subset of the 8 ternary and 3 (thorough 7) binary clauses, solved twice; every proof step damaged in every way",
            n,
            move |m, rec| {
                let f: Vec<Cl> = all.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                noticed(&[Op::Formula(f), Op::Solve, Op::Solve], &Cfg::default(), 1, m, rec)
            },
        ));
        let run = |every: usize| move |ops: &[Op], cfg: Cfg, i: u64, rec: &mut Rec| noticed(ops, &cfg, every, i, rec);
        fam.push(hists::words("core", hists::core_alphabet(), t(3, 4), vec![]).family(run(1)));
        fam.push(hists::words("units", hists::unit_alphabet(), t(3, 4), vec![]).family(run(1)));
        fam.push(hists::words("lifecycle", hists::lifecycle_alphabet(), t(3, 4), vec![]).family(run(1)));
        fam.push(hists::words("refuted", hists::refuted_alphabet(), t(3, 4), vec![]).family(run(1)));
        fam.push(hists::solved_words("reuse", hists::reuse_alphabet(), t(4, 5)).family(run(1)));
        fam.push(hists::structured("structured", hists::bases(false), vec![cfg(1, 1, 1), cfg(3, 10, 4)], 1).family(run(t(29, 3))));
        fam.push(hists::bulk(false, 2).family(run(t(31, 5))));
        fam.push(hists::scaled(false, 1).family(run(t(31, 5))));
    }
    #[cfg(varisat_verif)]
    let assumptions = vec!["which steps are rejected is decided by the checker (C08); steps it accepts are also judged by truth tables, up to six variables and until a variable is deleted", "one step is damaged in each run"];
    #[cfg(not(varisat_verif))]
    let assumptions = vec!["built without hooks: nothing was decided"];
    #[cfg(not(varisat_verif))]
    {
        let _ = thorough;
        fam.push(Family::new("nothing", "built without hooks", 1, |_, rec| {
            rec.step();
            Ok(())
        }));
    }
    Check {
        id: "C31",
        level: "fault_enumeration",
        rule: "a case is a history of which each proof step (of the structured, bulk and scaled ones the first and last 8 and a fixed share of the others) is damaged in each way, one at a time, on its way from the solver to the checker; a step is one damaged run, states are (answers, number of steps) of the undamaged runs, non-trivial are distinct damages",
        assumptions,
        families: fam,
    }
}
