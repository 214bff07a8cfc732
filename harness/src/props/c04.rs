//! C04: failed cores.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::props::c03::plain;
use crate::refsat::*;
use std::sync::Arc;

/// All literal lists up to length `k` over `n` variables (with repeats and contradictions).
pub fn lit_lists(n: usize, k: usize) -> Vec<Vec<i32>> {
    let l: Vec<i32> = (1..=n as i32).flat_map(|v| [v, -v]).collect();
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<i32>> = vec![vec![]];
    for _ in 0..k {
        last = last
            .iter()
            .flat_map(|p| {
                l.iter().map(move |&x| {
                    let mut q = p.clone();
                    q.push(x);
                    q
                })
            })
            .collect();
        out.extend(last.iter().cloned());
    }
    out
}

fn small_formulas() -> Vec<Vec<Cl>> {
    let shapes: Vec<Cl> = vec![
        vec![-1, 2],
        vec![-2, 3],
        vec![-3, 4],
        vec![-1, -2, -3],
        vec![1, 2, 3, 4],
        vec![-4, -1],
        vec![2],
        vec![-3],
        vec![1, -4],
        vec![-2, -4, 3],
    ];
    (0..1u32 << shapes.len()).map(|m| shapes.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, c)| c.clone()).collect()).collect()
}

/// Shrink the core by dropping one literal after the other, as a user would minimize it.
fn minimize(base: &[Cl], assumptions: &[i32], cfg: Cfg, rec: &mut Rec) -> CaseResult {
    // the history depends on the answers, so it is built step by step and replayed as a whole
    let mut cur = assumptions.to_vec();
    let mut i = 0;
    let mut ops = vec![Op::Formula(base.to_vec())];
    while i <= cur.len() {
        let probe: Vec<i32> = if i == 0 { cur.clone() } else { cur.iter().enumerate().filter(|(k, _)| *k != i - 1).map(|x| *x.1).collect() };
        ops.push(Op::Assume(probe));
        ops.push(Op::Solve);
        let out = run(&ops, Setup { cfg, ..Setup::default() }, vec![], rec)?;
        let core = out.obs.iter().rev().find_map(|o| if let Obs::Core(c) = o { Some(c.clone()) } else { None }).unwrap();
        match core {
            Some(c) => {
                cur = c;
                i = 1;
            }
            None => {
                if i == 0 {
                    return Ok(());
                }
                i += 1;
            }
        }
        if ops.len() > 60 {
            break;
        }
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    {
        let fs = Arc::new(small_formulas());
        let lists = Arc::new(lit_lists(4, if thorough { 5 } else { 3 }));
        let (nf, nl) = (fs.len(), lists.len());
        fam.push(Family::new(
            "one assumption list",
            format!("{nf} formulas over 4 variables x all {nl} assumption lists (repeats, contradictions)"),
            (nf * nl) as u64,
            move |i, rec| {
                let f = &fs[i as usize / nl];
                let l = &lists[i as usize % nl];
                let ops = vec![Op::Formula(f.clone()), a(l), Op::Solve];
                rec.sample(|| format!("{ops:?}"));
                run_plain(&ops, Setup::default(), rec)
            },
        ));
    }
    {
        let fs = Arc::new(small_formulas());
        let lists = Arc::new(lit_lists(4, if thorough { 3 } else { 2 }));
        let (nf, nl) = (if thorough { fs.len() / 4 } else { fs.len() }, lists.len());
        fam.push(Family::new(
            "two assumption lists",
            format!("{nf} formulas x all ordered pairs of {nl} assumption lists, solve after each, then repeat the solve"),
            (nf * nl * nl) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let l1 = &lists[d.take(nl)];
                let l2 = &lists[d.take(nl)];
                let f = &fs[d.take(nf)];
                let ops = vec![Op::Formula(f.clone()), a(l1), Op::Solve, a(l2), Op::Query, Op::Solve, Op::Solve];
                run_plain(&ops, Setup::default(), rec)
            },
        ));
    }
    {
        let mut jobs: Vec<(Vec<Cl>, Vec<i32>)> = vec![];
        for (p, h) in [(3, 2), (4, 3), (5, 4), (6, 5)] {
            let (g, en) = formulas::cond_php(p, h);
            // every subset of the enabling literals in rotated orders, plus noise
            for m in 0..1u32 << en.len() {
                for r in 0..en.len().min(3) {
                    let mut l: Vec<i32> = en.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect();
                    if !l.is_empty() {
                        let k = r % l.len();
                        l.rotate_left(k);
                    }
                    if r == 1 {
                        l.insert(0, -1);
                        l.push(h + 1);
                    }
                    jobs.push((g.cls.clone(), l));
                }
            }
        }
        for (f, groups) in [
            (formulas::tseitin("pet", &formulas::petersen(), 10, 1), 7),
            (formulas::ordering(5), 6),
            (formulas::full(5), 8),
            (formulas::sgen(3, 5), 7),
            (formulas::pebbling(3, true), 7),
            (formulas::vdw(3, 3, 9), 7),
            (formulas::chain(40, true), 5),
        ] {
            let (cls, sel) = formulas::selectors(&f, groups);
            for m in 0..1u32 << sel.len() {
                for rev in [false, true] {
                    let mut l: Vec<i32> = sel.iter().enumerate().map(|(i, &s)| if m >> i & 1 == 1 { s } else { -s }).filter(|s| *s > 0 || rev).collect();
                    if rev {
                        l.reverse();
                    }
                    jobs.push((cls.clone(), l));
                }
            }
        }
        let cfgs = if thorough { configs() } else { hist_configs() };
        fam.push(Family::new(
            "core minimization",
            format!("{} formula/assumption pairs x {} configurations: failed cores shrunk literal by literal on one solver", jobs.len(), cfgs.len()),
            (jobs.len() * cfgs.len()) as u64,
            move |i, rec| {
                let (f, l) = &jobs[i as usize / cfgs.len()];
                minimize(f, l, cfgs[i as usize % cfgs.len()], rec)
            },
        ));
    }
    fam.push(plain(&words("core", core_alphabet(), if thorough { 5 } else { 3 }, vec![])));
    fam.push(plain(&solved_words("reuse", reuse_alphabet(), if thorough { 7 } else { 5 })));
    fam.push(plain(&structured("structured", bases(true), hist_configs(), 3)));
    fam.push(plain(&scaled(thorough, if thorough { 3 } else { 2 })));
    fam.push(plain(&long(thorough)));
    Check {
        id: "C04",
        level: "model_checking",
        rule: "a state is a reference model state (clauses, assumptions) after an operation; every failed core is checked to be a subset of the assumptions and contradictory by the reference",
        assumptions: vec!["truth tables and DPLL as reference"],
        families: fam,
    }
}
