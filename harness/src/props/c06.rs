//! C06: DRAT proofs.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::proofs::*;
use crate::props::c01::{scaled_family, clauses_of_size, odd_clauses, show, Suite};
use crate::refsat::*;
use varisat::ProofFormat;

pub fn drat(ops: &[Op], cls: &[Cl], cfg: Cfg, truth: bool, rec: &mut Rec) -> CaseResult {
    let mut parsed = vec![];
    for format in [ProofFormat::Drat, ProofFormat::BinaryDrat] {
        let setup = Setup { cfg, format: Some(format), no_reference: true, self_check: false };
        let out = run(ops, setup, vec![], rec)?;
        if out.obs.iter().any(|o| *o == Obs::Verdict(!truth)) {
            return Err(format!("wrong verdict: {}", show(cls)));
        }
        let steps = if format == ProofFormat::Drat { parse_drat_text(&out.proof) } else { parse_drat_binary(&out.proof) };
        parsed.push(steps.map_err(|e| format!("{format:?}: {e}: {}", show(cls)))?);
    }
    if parsed[0] != parsed[1] {
        return Err(format!("text and binary DRAT proofs differ: {}", show(cls)));
    }
    let refuted = check_drat(cls, &parsed[0]).map_err(|e| format!("{e}: {}", show(cls)))?;
    if !truth && !refuted {
        return Err(format!("the proof does not refute: {}", show(cls)));
    }
    if truth && refuted {
        return Err(format!("the proof refutes a satisfiable formula: {}", show(cls)));
    }
    if parsed[0].iter().any(|s| matches!(s, DratStep::Add(c) if !c.is_empty())) {
        rec.nontrivial(fp(&(cls, cfg.restart, cfg.locals)));
    }
    *rec.notes.entry("proof steps".into()).or_insert(0) += parsed[0].len() as u64;
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    small_families(&mut fam, thorough, |cls, cfg, truth, rec| {
        // repeated solve calls must not disturb the proof
        let mut ops: Vec<Op> = cls.iter().map(|c| Op::Clause(c.clone())).collect();
        ops.push(Op::Solve);
        drat(&ops, cls, cfg, truth, rec)?;
        if cls.len() < 5 {
            ops.push(Op::Solve);
            drat(&ops, cls, cfg, truth, rec)?;
        }
        Ok(())
    });
    structured_families(&mut fam, thorough, false, |cls, cfg, truth, rec| {
        drat(&[Op::Formula(cls.to_vec()), Op::Solve], cls, cfg, truth, rec)
    });
    fam.push(wide_family(thorough, false, |cls, cfg, truth, rec| {
        drat(&[Op::Formula(cls.to_vec()), Op::Solve], cls, cfg, truth, rec)
    }));
    Check {
        id: "C06",
        level: "exploration",
        rule: "a case is a formula with a configuration, solved with both DRAT encodings; non-trivial when the proof adds a non-empty clause, distinct by hash of formula and configuration",
        assumptions: vec!["the harness's own reverse unit propagation checker"],
        families: fam,
    }
}

type Case = fn(&[Cl], Cfg, bool, &mut Rec) -> CaseResult;

pub fn small_families(fam: &mut Vec<Family>, thorough: bool, case: Case) {
    {
        let all: Vec<Cl> = clauses_of_size(3, 3).into_iter().chain(clauses_of_size(3, 2)).chain(clauses_of_size(3, 1)).collect();
        let n = if thorough { 1u64 << 20 } else { 1 << 15 };
        fam.push(Family::new(
            "subsets of 3-variable clauses",
            "every subset of the 8 ternary and 7 (thorough 12) binary clauses, with each single unit clause or none",
            n * 7,
            move |i, rec| {
                let m = i / 7;
                let mut f: Vec<Cl> = all.iter().enumerate().filter(|(k, _)| *k < 20 && m >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                if i % 7 > 0 {
                    f.push(all[20 + (i % 7) as usize - 1].clone());
                }
                rec.sample(|| show(&f));
                let truth = tt(&f) != 0;
                case(&f, Cfg::default(), truth, rec)
            },
        ));
    }
    {
        let odd = odd_clauses();
        let k = if thorough { 4 } else { 3 };
        fam.push(Family::new(
            "sequences of odd clauses",
            format!("every sequence of exactly {k} (or {k}+1 with a repetition of the first) of {} shapes", odd.len()),
            pow(odd.len(), k) * 2,
            move |i, rec| {
                let mut d = Digits(i);
                let rep = d.take(2);
                let mut cls: Vec<Cl> = (0..k).map(|_| odd[d.take(odd.len())].clone()).collect();
                if rep == 1 {
                    cls.push(cls[0].clone());
                }
                let truth = tt(&cls) != 0;
                case(&cls, Cfg::default(), truth, rec)
            },
        ));
    }
    {
        let c4 = clauses_of_size(4, 4);
        let c43 = clauses_of_size(4, 3);
        let sets = small_subsets(c43.len(), if thorough { 5 } else { 3 });
        fam.push(Family::new(
            "4 variables",
            "all 2^16 subsets of the full clauses with one ternary clause rotated in; 3-CNF minus up to 3 (thorough 5) clauses",
            (1 << 16) + sets.len() as u64,
            move |i, rec| {
                let f: Vec<Cl> = if i < 1 << 16 {
                    let mut f: Vec<Cl> = c4.iter().enumerate().filter(|(k, _)| i >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                    f.push(c43[(i % 32) as usize].clone());
                    f
                } else {
                    let s = &sets[(i - (1 << 16)) as usize];
                    c43.iter().enumerate().filter(|(k, _)| !s.contains(k)).map(|(_, c)| c.clone()).collect()
                };
                let truth = tt(&f) != 0;
                case(&f, cfg(1, 1, 1), truth, rec)
            },
        ));
    }
}

/// Formulas whose variables straddle the numbers at which encodings get longer.
pub fn wide_family(thorough: bool, unsat_only: bool, case: Case) -> Family {
    let mut bases: Vec<i32> = vec![];
    for b in [63i32, 64, 127, 128, 8191, 8192, 16383, 16384] {
        bases.extend(b - 4..=b + 1);
    }
    bases.sort();
    bases.dedup();
    let small = bases.len();
    if thorough {
        bases.extend([(1 << 20) - 4, (1 << 20) - 2, (1 << 20) - 1, 1 << 20, (1 << 21) - 2]);
    } else {
        bases.push((1 << 20) - 2);
    }
    let mut f: Vec<Vec<Cl>> = vec![];
    let c3 = clauses_of_size(3, 3);
    f.push(c3.clone());
    for k in 0..8 {
        let mut g = c3.clone();
        g.remove(k);
        if !unsat_only {
            f.push(g.clone());
        }
        g.push(c3[k][..2].to_vec());
        f.push(g);
    }
    f.push(clauses_of_size(4, 4));
    f.push(clauses_of_size(4, 3));
    f.push(clauses_of_size(2, 2));
    let n = f.len();
    let few = [0, n - 3, n - 1];
    let count = small * n + (bases.len() - small) * few.len();
    Family::new(
        "large variables",
        format!("{n} formulas of 2 to 4 variables shifted to {} places around 2^6, 2^7, 2^13, 2^14, 2^20{}", bases.len(), if thorough { " and 2^21" } else { "" }),
        count as u64,
        move |i, rec| {
            let i = i as usize;
            let (b, k) = if i < small * n { (bases[i / n], i % n) } else { (bases[small + (i - small * n) / few.len()], few[(i - small * n) % few.len()]) };
            let truth = tt(&f[k]) != 0;
            let g: Vec<Cl> = f[k].iter().map(|c| c.iter().map(|l| l + l.signum() * b).collect()).collect();
            case(&g, cfg(1, 1, 1), truth, rec).map_err(|e| format!("shifted by {b}: {e}"))
        },
    )
}

pub fn structured_families(fam: &mut Vec<Family>, thorough: bool, unsat_only: bool, case: Case) {
    let truths = |f: Vec<formulas::F>| {
        let s = Suite::new(f);
        let keep: Vec<usize> = (0..s.f.len()).filter(|&k| !unsat_only || !s.truth(k)).collect();
        (s, keep)
    };
    fam.push(scaled_family(thorough, move |cls, cfg, truth, rec| {
        if truth && unsat_only {
            return Ok(());
        }
        case(cls, *cfg, truth, rec)
    }));
    {
        let (suite, keep) = truths(formulas::medium());
        let cfgs = configs();
        let n = keep.len() as u64;
        let variants = if thorough { formulas::VARIANTS } else { 2 };
        fam.push(Family::new(
            "structured formulas",
            format!("{n} formulas x {variants} variants x {} configurations", cfgs.len()),
            n * variants as u64 * cfgs.len() as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let v = d.take(variants);
                let v = if variants < formulas::VARIANTS { (v * 7 + c) % formulas::VARIANTS } else { v };
                let k = keep[d.take(keep.len())];
                let f = formulas::variant(&suite.f[k].cls, v);
                rec.sample(|| format!("{} variant {v} {:?}", suite.f[k].name, cfgs[c]));
                case(&f, cfgs[c], suite.truth(k), rec).map_err(|e| format!("{} variant {v} {:?}: {e}", suite.f[k].name, cfgs[c]))
            },
        ));
    }
    {
        let (suite, keep) = truths(formulas::hard());
        let cfgs = if thorough { configs() } else { vec![Cfg::default(), cfg(7, 10, 7)] };
        fam.push(Family::new(
            "hard formulas",
            format!("{} formulas x {} configurations", keep.len(), cfgs.len()),
            (keep.len() * cfgs.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let k = keep[d.take(keep.len())];
                case(&suite.f[k].cls, cfgs[c], suite.truth(k), rec).map_err(|e| format!("{} {:?}: {e}", suite.f[k].name, cfgs[c]))
            },
        ));
    }
}
