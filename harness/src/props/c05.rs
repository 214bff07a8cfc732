//! C05: self checking and native proofs.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::props::c01::{clauses_of_size, Suite};
use crate::refsat::*;
use varisat::ProofFormat;
use varisat_checker::Checker;

/// A fresh checker accepts the proof for the given clauses.
pub fn accepts(initial: &[Cl], proof: &[u8]) -> Result<(), String> {
    let mut checker = Checker::new();
    for c in initial {
        checker.add_clause(&lits(c)).map_err(|e| format!("checker refused clause {c:?}: {e}"))?;
    }
    checker.check_proof(proof).map_err(|e| format!("checker refused the proof: {e}"))
}

/// Run with self checking, and write a native proof that is then checked from scratch.
pub fn certified(ops: &[Op], cfg: Cfg, rec: &mut Rec) -> CaseResult {
    certified_ops(ops, cfg, rec).map_err(|e| format!("{ops:?} {cfg:?}: {e}"))
}

fn certified_ops(ops: &[Op], cfg: Cfg, rec: &mut Rec) -> CaseResult {
    let setup = Setup { cfg, self_check: true, format: Some(ProofFormat::Varisat), no_reference: false };
    let out = run(ops, setup, vec![], rec)?;
    // hiding a name before the first solve makes the names of the clauses ambiguous for anyone who
    // only has the clauses and the proof
    let first = ops.iter().position(|o| *o == Op::Solve).unwrap_or(ops.len());
    if !ops[..first].iter().any(|o| matches!(o, Op::Hide(_) | Op::Observe)) {
        accepts(&out.initial, &out.proof).map_err(|e| format!("{ops:?} {cfg:?}: {e}"))?;
        rec.outcome("proof accepted");
    }
    // without self checking the bytes are the same
    let setup = Setup { self_check: false, no_reference: true, ..setup };
    let plain = run(ops, setup, vec![], rec)?;
    if plain.proof != out.proof {
        return Err(format!("{ops:?} {cfg:?}: the proof differs when self checking is off"));
    }
    Ok(())
}

pub fn cert(f: &HistFam) -> Family {
    f.family(|ops, cfg, _, rec| certified(ops, cfg, rec))
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    {
        let all: Vec<Cl> = clauses_of_size(3, 3).into_iter().chain(clauses_of_size(3, 2)).chain(clauses_of_size(3, 1)).collect();
        let n = if thorough { 1u64 << 20 } else { 1 << 14 };
        fam.push(Family::new(
            "subsets of 3-variable clauses",
            "every subset of the 8 ternary and 6 (thorough 12) binary clauses, with each single unit clause or none",
            n * 7,
            move |i, rec| {
                let m = i / 7;
                let mut f: Vec<Cl> = all.iter().enumerate().filter(|(k, _)| *k < 20 && m >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                if i % 7 > 0 {
                    f.push(all[20 + (i % 7) as usize - 1].clone());
                }
                certified(&[Op::Formula(f), Op::Solve], Cfg::default(), rec)
            },
        ));
    }
    {
        let suite = Suite::new(formulas::medium());
        let cfgs = configs();
        let n = suite.f.len() as u64;
        let variants = if thorough { formulas::VARIANTS } else { 2 };
        fam.push(Family::new(
            "structured formulas",
            format!("{n} formulas x {variants} variants x {} configurations", cfgs.len()),
            n * variants as u64 * cfgs.len() as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let v = d.take(variants);
                let v = if variants < formulas::VARIANTS { (v * 5 + c) % formulas::VARIANTS } else { v };
                let k = d.take(suite.f.len());
                let f = formulas::variant(&suite.f[k].cls, v);
                let ops = [Op::Formula(f), Op::Solve];
                certified_known(&ops, cfgs[c], suite.truth(k), rec).map_err(|e| format!("{} variant {v}: {e}", suite.f[k].name))
            },
        ));
    }
    {
        let suite = Suite::new(formulas::hard());
        let cfgs = if thorough { configs() } else { hist_configs() };
        fam.push(Family::new(
            "hard formulas",
            format!("{} formulas x {} configurations", suite.f.len(), cfgs.len()),
            (suite.f.len() * cfgs.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let k = d.take(suite.f.len());
                let ops = [Op::Formula(suite.f[k].cls.clone()), Op::Solve];
                certified_known(&ops, cfgs[c], suite.truth(k), rec).map_err(|e| format!("{} {:?}: {e}", suite.f[k].name, cfgs[c]))
            },
        ));
    }
    fam.push(crate::props::c01::scaled_family(thorough, |cls, cfg, truth, rec| {
        certified_known(&[Op::Formula(cls.to_vec()), Op::Solve], *cfg, truth, rec)
    }));
    fam.push(crate::props::c06::wide_family(thorough, false, |cls, cfg, truth, rec| {
        certified_known(&[Op::Formula(cls.to_vec()), Op::Solve], cfg, truth, rec)
    }));
    fam.push(cert(&words("core", core_alphabet(), if thorough { 5 } else { 4 }, vec![])));
    fam.push(cert(&words("units", unit_alphabet(), if thorough { 5 } else { 4 }, vec![])));
    fam.push(cert(&words("lifecycle", lifecycle_alphabet(), if thorough { 5 } else { 4 }, vec![])));
    fam.push(cert(&words("refuted", refuted_alphabet(), if thorough { 5 } else { 4 }, vec![])));
    fam.push(cert(&solved_words("reuse", reuse_alphabet(), if thorough { 7 } else { 6 })));
    fam.push(cert(&structured("structured", bases(true), hist_configs(), if thorough { 4 } else { 3 })));
    fam.push(cert(&bulk(thorough, if thorough { 4 } else { 3 })));
    fam.push(cert(&scaled(thorough, if thorough { 3 } else { 2 })));
    fam.push(cert(&long(thorough)));
    Check {
        id: "C05",
        level: "model_checking",
        rule: "a state is a reference model state; each trace is a history run with self checking and a native proof, which a fresh checker then checks",
        assumptions: vec!["what the checker accepts is right (C08)"],
        families: fam,
    }
}

/// As [`certified`] for one solve with a known verdict (the reference is not consulted).
fn certified_known(ops: &[Op], cfg: Cfg, truth: bool, rec: &mut Rec) -> CaseResult {
    let setup = Setup { cfg, self_check: true, format: Some(ProofFormat::Varisat), no_reference: true };
    let out = run(ops, setup, vec![], rec)?;
    if !out.obs.contains(&Obs::Verdict(truth)) {
        return Err(format!("wrong verdict {:?}", out.obs));
    }
    rec.notes.entry("proof bytes".into()).and_modify(|n| *n += out.proof.len() as u64).or_insert(out.proof.len() as u64);
    accepts(&out.initial, &out.proof)
}
