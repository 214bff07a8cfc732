//! C24: proofs and checking don't influence the answers.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::monitor::{ProcMonitor, Seen};
use crate::props::c01::{clauses_of_size, show, Suite};
use crate::refsat::*;
use crate::steps::Step;
use varisat::ProofFormat::{self, BinaryDrat, Drat, Varisat};
use varisat_checker::ProofProcessor;

/// Proof format, self checking, number of processors.
type Way = (Option<ProofFormat>, bool, usize);

/// Whether DRAT can express the history.
fn single(ops: &[Op]) -> bool {
    let first = ops.iter().position(|o| *o == Op::Solve).unwrap_or(ops.len());
    !ops.iter().any(|o| matches!(o, Op::Assume(_))) && !ops[first..].iter().any(|o| matches!(o, Op::Clause(_) | Op::Formula(_) | Op::Dimacs(_)))
}

fn ways(single: bool, all: bool, turn: u64) -> Vec<Way> {
    let formats: &[Option<ProofFormat>] = if single { &[None, Some(Varisat), Some(Drat), Some(BinaryDrat)] } else { &[None, Some(Varisat)] };
    let mut out = vec![];
    for &f in formats {
        for s in [false, true] {
            for p in [0, 1, 4] {
                if (f, s, p) != (None, false, 0) {
                    out.push((f, s, p));
                }
            }
        }
    }
    if !all {
        // no proof at all against three others, which change from case to case
        let n = out.len() as u64;
        out = [0, n / 3, 2 * n / 3].iter().map(|k| out[((turn + k) % n) as usize]).collect();
    }
    out
}

fn with(ops: &[Op], cfg: Cfg, way: Way, reference: bool, rec: &mut Rec) -> Result<Outcome, String> {
    Ok(watched(ops, cfg, way, reference, rec)?.0)
}

/// The outcome, and what each processor was shown.
fn watched(ops: &[Op], cfg: Cfg, way: Way, reference: bool, rec: &mut Rec) -> Result<(Outcome, Vec<Vec<Seen>>), String> {
    let (format, self_check, procs) = way;
    let mut m: Vec<ProcMonitor> = (0..procs).map(|_| ProcMonitor::default()).collect();
    let procs: Vec<&mut dyn ProofProcessor> = m.iter_mut().map(|m| m as &mut dyn ProofProcessor).collect();
    let out = run(ops, Setup { self_check, format, cfg, no_reference: !reference }, procs, rec)?;
    Ok((out, m.into_iter().map(|m| m.seen).collect()))
}

fn difference(base: &Outcome, other: &Outcome) -> Option<String> {
    if base.skipped != other.skipped {
        return Some(format!("harness: skipped {:?} / {:?}", base.skipped, other.skipped));
    }
    for k in 0..base.obs.len().max(other.obs.len()) {
        if base.obs.get(k) != other.obs.get(k) {
            return Some(format!("answer {k} is {:?} instead of {:?}", other.obs.get(k), base.obs.get(k)));
        }
    }
    None
}

/// All ways to record or check a history give the same answers.
fn same(ops: &[Op], cfg: Cfg, all: bool, turn: u64, closing: bool, reference: bool, rec: &mut Rec) -> CaseResult {
    let base = with(ops, cfg, (None, false, 0), reference, rec)?;
    rec.nontrivial(fp(&(format!("{:?}", base.obs), ops.len())));
    let mut native = None;
    let mut shown: Option<Vec<Seen>> = None;
    for way in ways(single(ops), all, turn) {
        let (out, seen) = watched(ops, cfg, way, false, rec)?;
        rec.outcome(match way {
            (_, _, 1..) => "processors",
            (_, true, _) => "self check",
            (Some(Varisat), ..) => "native proof",
            _ => "DRAT proof",
        });
        if let Some(d) = difference(&base, &out) {
            return Err(format!("with (proof, self check, processors) = {way:?} {d}: {ops:?} {cfg:?}"));
        }
        for s in seen {
            match &shown {
                None => shown = Some(s),
                Some(t) if *t != s => {
                    let k = (0..s.len().max(t.len())).find(|&k| s.get(k) != t.get(k)).unwrap();
                    return Err(format!("with (proof, self check, processors) = {way:?} a processor is shown {:?} as step {k}, elsewhere {:?}: {ops:?} {cfg:?}", s.get(k), t.get(k)));
                }
                _ => (),
            }
        }
        if way.0 == Some(Varisat) {
            match &native {
                None => native = Some(out.proof),
                Some(p) if *p != out.proof => return Err(format!("self checking or processors change the proof ({way:?}): {ops:?} {cfg:?}")),
                _ => (),
            }
        }
    }
    if closing {
        let mut end = vec![];
        Step::End.write(&mut end);
        let formats: &[ProofFormat] = if single(ops) { &[Varisat, Drat, BinaryDrat] } else { &[Varisat] };
        for (n, &format) in formats.iter().enumerate() {
            let full = with(ops, cfg, (Some(format), false, 0), false, rec)?.proof;
            for at in 0..=ops.len() {
                let (s, p) = ((turn + at as u64 + n as u64) % 3 == 1, if (turn + at as u64) % 3 == 2 { 1 } else { 0 });
                let mut o = ops.to_vec();
                o.insert(at, Op::CloseProof);
                let mut out = with(&o, cfg, (Some(format), s, p), false, rec)?;
                out.skipped.iter_mut().for_each(|k| *k -= (*k > at) as usize);
                rec.outcome("closed early");
                if let Some(d) = difference(&base, &out) {
                    return Err(format!("closing the {format:?} proof before step {at} (self check {s}, {p} processors): {d}: {ops:?} {cfg:?}"));
                }
                // what was written is where the whole proof starts
                let body = match format {
                    Varisat => out.proof.strip_suffix(&end[..]).ok_or_else(|| format!("a proof closed before step {at} has no end: {ops:?}"))?,
                    _ => &out.proof[..],
                };
                if !full.starts_with(body) {
                    return Err(format!("the {format:?} proof closed before step {at} differs from the whole proof: {ops:?} {cfg:?}"));
                }
            }
        }
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let t = |a: usize, b: usize| if thorough { b } else { a };
    {
        let all: Vec<Cl> = clauses_of_size(3, 3).into_iter().chain(clauses_of_size(3, 2)).collect();
        let n = if thorough { 1u64 << 20 } else { 1 << 14 };
        fam.push(Family::new(
            "subsets of 3-variable clauses",
            "every subset of the 8 ternary and 6 (thorough 12) binary clauses, all 24 combinations of proof format, self checking and processors, closed at every step",
            n,
            move |m, rec| {
                let f: Vec<Cl> = all.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                rec.sample(|| show(&f));
                same(&[Op::Formula(f), Op::Solve, Op::Solve], Cfg::default(), true, m, true, false, rec)
            },
        ));
    }
    {
        let pool: Vec<Cl> = vec![vec![], vec![1], vec![-1], vec![1, -1], vec![1, 1, 2], vec![2, 1], vec![-2], vec![-2, 1, -2], vec![-1, -2], vec![2]];
        let n = pool.len();
        let depth = t(4, 5);
        fam.push(Family::new(
            format!("sequences of {depth} odd clauses"),
            format!("every sequence of {depth} of {n} clauses (empty, unit, duplicate, tautological, repeated literals)"),
            pow(n, depth),
            move |i, rec| {
                let mut d = Digits(i);
                let mut ops: Vec<Op> = (0..depth).map(|_| Op::Clause(pool[d.take(n)].clone())).collect();
                ops.push(Op::Solve);
                same(&ops, Cfg::default(), true, i, false, false, rec)
            },
        ));
    }
    {
        let mut fs = formulas::medium();
        fs.extend(formulas::hard().into_iter().filter(|_| thorough));
        let suite = Suite::new(fs);
        let cfgs = configs();
        let n = suite.f.len();
        let variants = t(1, formulas::VARIANTS);
        fam.push(Family::new(
            "structured formulas",
            format!("{n} formulas x {variants} variants x {} configurations, three ways to record each by turns", cfgs.len()),
            (n * variants * cfgs.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let v = d.take(variants);
                let v = if variants < formulas::VARIANTS { (v * 7 + c) % formulas::VARIANTS } else { v };
                let k = d.take(suite.f.len());
                let f = formulas::variant(&suite.f[k].cls, v);
                same(&[Op::Formula(f), Op::Solve], cfgs[c], false, i, false, false, rec)
            },
        ));
    }
    let all = |f: &HistFam| f.family(|ops, cfg, i, rec| same(ops, cfg, true, i, true, true, rec));
    let some = |f: &HistFam| f.family(|ops, cfg, i, rec| same(ops, cfg, false, i, false, true, rec));
    fam.push(all(&words("core", core_alphabet(), 2, vec![])));
    fam.push(some(&words("core", core_alphabet(), t(3, 4), vec![])));
    fam.push(all(&words("units", unit_alphabet(), 2, vec![])));
    fam.push(some(&words("units", unit_alphabet(), t(3, 4), vec![])));
    fam.push(all(&words("lifecycle", lifecycle_alphabet(), 2, vec![])));
    fam.push(some(&words("lifecycle", lifecycle_alphabet(), t(3, 4), vec![])));
    fam.push(some(&words("refuted", refuted_alphabet(), t(3, 4), vec![])));
    fam.push(all(&solved_words("reuse", reuse_alphabet(), t(3, 4))));
    fam.push(some(&solved_words("reuse", reuse_alphabet(), t(4, 6))));
    fam.push(all(&structured("structured", bases(true), hist_configs(), t(1, 2))));
    fam.push(some(&structured("structured", bases(true), hist_configs(), t(2, 3))));
    fam.push(some(&bulk(thorough, if thorough { 4 } else { 3 })));
    fam.push(some(&scaled(thorough, 2)));
    fam.push(some(&long(thorough)));
    Check {
        id: "C24",
        level: "model_checking",
        rule: "a state is a reference state of the solver's API model; traces are histories, each run without proof and with the stated combinations of proof format, self checking and processors",
        assumptions: vec!["DRAT formats only for histories without assumptions and later clauses, as documented"],
        families: fam,
    }
}
