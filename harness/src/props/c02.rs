//! C02: models.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::props::c01::{clauses_of_size, show};
use crate::props::c03::plain;
use crate::refsat::*;
use std::collections::BTreeSet;
use varisat::{ExtendFormula, Solver};

/// Enumerate all models by blocking clauses and compare with the reference's set.
fn enumerate(cls: &[Cl], n: usize, cfg: &Cfg, project: Option<&[i32]>, limit: usize, count: &std::sync::OnceLock<usize>, rec: &mut Rec) -> CaseResult {
    rec.eval();
    let mut solver = Solver::new();
    if !cfg.is_default() {
        solver.config(&cfg.update()).map_err(|e| format!("{e}"))?;
    }
    // make all variables known
    for v in 1..=n as i32 {
        solver.sample_var(var(v));
    }
    solver.add_formula(&formula(cls));
    let mut found = BTreeSet::new();
    let mut all: Vec<Cl> = cls.to_vec();
    loop {
        rec.step();
        if !solver.solve().map_err(|e| format!("{e}"))? {
            rec.outcome("exhausted");
            if solver.model().is_some() {
                return Err(format!("model() is Some after unsat: {}", show(&all)));
            }
            break;
        }
        let m = ints(&solver.model().ok_or("no model")?);
        let mut val = vec![None; n];
        for &l in &m {
            let v = l.unsigned_abs() as usize;
            if v > n || val[v - 1].replace(l > 0).is_some() {
                return Err(format!("model {m:?} has a wrong or repeated variable {v}: {}", show(&all)));
            }
        }
        if val.iter().any(|v| v.is_none()) {
            return Err(format!("model {m:?} is incomplete: {}", show(&all)));
        }
        let val: Vec<bool> = val.into_iter().map(|v| v.unwrap()).collect();
        if !satisfied(&all, &val) {
            return Err(format!("model {m:?} does not satisfy: {}", show(&all)));
        }
        let again = ints(&solver.model().ok_or("no model")?);
        if again != m {
            return Err(format!("model() changed from {m:?} to {again:?}"));
        }
        let block: Cl = match project {
            None => m.iter().map(|l| -l).collect(),
            Some(p) => m.iter().filter(|l| p.contains(&l.abs())).map(|l| -l).collect(),
        };
        if !found.insert(block.clone()) {
            return Err(format!("model {m:?} was excluded before: {}", show(&all)));
        }
        rec.outcome("model");
        if block.is_empty() || found.len() >= limit {
            break;
        }
        solver.add_clause(&lits(&block));
        all.push(block);
    }
    // completeness: without limit reached, every model was found (the last verdict says none is left)
    if found.len() < limit && n <= 25 {
        let expected = match project {
            None if n <= 6 => {
                let rows = tt(cls) & if n == 6 { !0 } else { (1u64 << (1 << n)) - 1 };
                rows.count_ones() as usize
            }
            _ => *count.get_or_init(|| {
                let mut c = cls.to_vec();
                let mut k = 0;
                while let Some(m) = dpll(&c, n) {
                    c.push((1..=n as i32).filter(|v| project.map_or(true, |p| p.contains(v))).map(|v| if m[v as usize - 1] { -v } else { v }).collect());
                    k += 1;
                    if c.last().unwrap().is_empty() || k > limit {
                        break;
                    }
                }
                k
            }),
        };
        if found.len() != expected {
            return Err(format!("{} models found, expected {expected}: {}", found.len(), show(cls)));
        }
    }
    rec.trace();
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    {
        let all: Vec<Cl> = clauses_of_size(3, 3).into_iter().chain(clauses_of_size(3, 2)).collect();
        let masks: Vec<u64> = if thorough {
            (0..1 << 20).collect()
        } else {
            (0..1u64 << 20).filter(|m| (m & 0xff).count_ones() <= 2 || (m >> 8).count_ones() <= 2).collect()
        };
        fam.push(Family::new(
            "model enumeration, 3 variables",
            "every subset of the 8 ternary and 12 binary clauses (quick: at most 2 of one kind): all models by blocking clauses",
            masks.len() as u64,
            move |i, rec| {
                let m = masks[i as usize];
                let f: Vec<Cl> = all.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                rec.sample(|| show(&f));
                rec.state(fp(&f));
                enumerate(&f, 3, &Cfg::default(), None, 100, &Default::default(), rec)
            },
        ));
    }
    {
        let suite: Vec<_> = formulas::medium().into_iter().chain(formulas::hard().into_iter().filter(|f| thorough || max_var(&f.cls) != 48)).filter(|f| f.sat != Some(false)).collect();
        let counts: Vec<std::sync::OnceLock<usize>> = suite.iter().map(|_| Default::default()).collect();
        let cfgs = configs();
        let lim = if thorough { 400 } else { 40 };
        fam.push(Family::new(
            "model enumeration, structured",
            format!("{} formulas x 3 variants x {} configurations: up to {lim} models by blocking clauses", suite.len(), cfgs.len()),
            (suite.len() * 3 * cfgs.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let cfg = cfgs[d.take(cfgs.len())];
                let v = d.take(3) * 4;
                let k = d.take(suite.len());
                let f = &suite[k];
                let cls = formulas::variant(&f.cls, v);
                let n = max_var(&cls);
                rec.state(fp(&cls));
                // only enumerate completely where the reference can count
                let lim = if n <= 12 && lim > 100 { 4096 } else { lim };
                if f.sat.is_none() && n > 40 {
                    return Ok(());
                }
                enumerate(&cls, n, &cfg, None, lim, &counts[k], rec).map_err(|e| format!("{} variant {v} {cfg:?}: {e}", f.name))
            },
        ));
    }
    {
        // far variables and gaps
        let al = vec![
            c(&[1, 9]),
            c(&[-9]),
            c(&[70, -1]),
            c(&[-70, 200]),
            a(&[-200]),
            a(&[130, 9]),
            a(&[]),
            Op::NewVar,
            Op::Sample(40),
            Op::Witness(65),
            Op::Hide(9),
            Op::Hide(70),
            Op::Formula(vec![vec![5, 6], vec![-300, 5]]),
        ];
        fam.push(plain(&words("sparse variables", al, if thorough { 5 } else { 4 }, vec![])));
    }
    fam.push(plain(&words("core", core_alphabet(), if thorough { 5 } else { 3 }, vec![])));
    fam.push(plain(&words("lifecycle", lifecycle_alphabet(), if thorough { 4 } else { 3 }, vec![])));
    fam.push(plain(&structured("structured", bases(true), hist_configs(), 3)));
    fam.push(plain(&bulk(thorough, if thorough { 4 } else { 3 })));
    fam.push(plain(&scaled(thorough, 2)));
    Check {
        id: "C02",
        level: "model_checking",
        rule: "a state is a clause set or reference model state; each trace is a history (or complete model enumeration) whose every model is compared with the reference",
        assumptions: vec!["truth tables and DPLL as reference"],
        families: fam,
    }
}
