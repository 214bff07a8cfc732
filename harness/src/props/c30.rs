//! C30: unit propagation is complete, and nothing is assigned without a reason.
//!
//! A reference model follows the search through the observer hook (`--cfg varisat_verif`).
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists;
use crate::props::c01;
#[cfg(varisat_verif)]
use crate::props::c06::small_families;
#[cfg(varisat_verif)]
use crate::props::c16::oracle;
#[cfg(varisat_verif)]
use crate::search::{searched, Rule};

#[cfg(varisat_verif)]
fn judged(ops: &[Op], cfg: &Cfg, rec: &mut Rec) -> CaseResult {
    searched(ops, cfg, Rule::Propagate, true, rec)
}

pub fn check(thorough: bool) -> Check {
    #[cfg_attr(not(varisat_verif), allow(unused_mut))]
    let mut fam: Vec<Family> = vec![];
    #[cfg(varisat_verif)]
    small_families(&mut fam, thorough, |f, cfg, _, rec| judged(&[Op::Formula(f.to_vec()), Op::Solve], &cfg, rec));
    #[cfg(varisat_verif)]
    {
        let fs = formulas::medium();
        let variants = if thorough { 6 } else { 2 };
        let cfgs = configs();
        let n = fs.len() as u64;
        fam.push(Family::new(
            "searches",
            format!("{n} formulas x {variants} variants x {} configurations x learned clauses by glue or all local", cfgs.len()),
            n * variants as u64 * cfgs.len() as u64 * 2,
            move |i, rec| {
                let mut d = Digits(i);
                let (k, v, c, t) = (d.take(fs.len()), d.take(variants), d.take(cfgs.len()), d.take(2));
                let f = formulas::variant(&fs[k].cls, v * 3 + c);
                rec.nontrivial(i);
                let ops = [Op::Formula(f), Op::Solve];
                if t == 0 {
                    judged(&ops, &cfgs[c], rec)
                } else {
                    oracle::with(&[], &[], &[], 3, || judged(&ops, &cfgs[c], rec)).0
                }
                .map_err(|e| format!("{} variant {v} {:?} {t}: {e}", fs[k].name, cfgs[c]))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        // other decisions and more restarts, reductions and collections
        let mut tables: Vec<(Vec<usize>, Vec<usize>)> = vec![];
        for d in [vec![], vec![1], vec![3], vec![1000], vec![0, 1001], vec![2, 5, 0], vec![1000, 0, 1]] {
            for s in [vec![], vec![1], vec![8], vec![15], vec![0, 2, 9], vec![0, 0, 6], vec![4, 10]] {
                tables.push((d.clone(), s));
            }
        }
        let fs: Vec<formulas::F> = formulas::medium().into_iter().filter(|f| f.cls.len() < if thorough { 1000 } else { 160 }).collect();
        let n = fs.len() as u64;
        fam.push(Family::new(
            "other schedules",
            format!("{n} formulas x {} periodic choices of decisions, restarts, reductions and collections x learned clauses by glue or all local", tables.len()),
            n * tables.len() as u64 * 2,
            move |i, rec| {
                let mut d = Digits(i);
                let (k, t, tier) = (d.take(fs.len()), d.take(tables.len()), d.take(2) * 3);
                rec.nontrivial(i);
                let ops = [Op::Formula(formulas::variant(&fs[k].cls, t)), Op::Solve];
                oracle::with(&[], &tables[t].0, &tables[t].1, tier, || judged(&ops, &Cfg::default(), rec)).0.map_err(|e| format!("{} {:?} tier {tier}: {e}", fs[k].name, tables[t]))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let fit = |al: Vec<Op>| al.into_iter().filter(|o| matches!(o, Op::Clause(_) | Op::Formula(_) | Op::Dimacs(_) | Op::Assume(_) | Op::NewVar | Op::Config(_) | Op::Query)).collect::<Vec<_>>();
        fn run(ops: &[Op], cfg: Cfg, i: u64, rec: &mut Rec) -> CaseResult {
            rec.nontrivial(i);
            judged(ops, &cfg, rec).map_err(|e| format!("{cfg:?} {:?}: {e}", &ops))
        }
        fam.push(hists::structured("histories", hists::bases(false), vec![Cfg::default(), cfg(1, 1, 1), cfg(3, 10, 4)], if thorough { 4 } else { 3 }).family(run));
        fam.push(hists::words("core", fit(hists::core_alphabet()), if thorough { 5 } else { 4 }, vec![]).family(run));
        fam.push(hists::words("units", fit(hists::unit_alphabet()), if thorough { 5 } else { 4 }, vec![]).family(run));
        fam.push(hists::scaled(thorough, if thorough { 3 } else { 2 }).family(run));
        fam.push(hists::long(thorough).family(run));
    }
    #[cfg(varisat_verif)]
    let assumptions = vec![
        "assignments, learned clauses and deletions are those that the hooks report",
        "clauses that the solver deletes no longer need to propagate",
    ];
    #[cfg(not(varisat_verif))]
    let assumptions = vec!["built without hooks: nothing was decided"];
    let _ = (thorough, formulas::php(2, 1, false).cls.len(), hists::hist_configs().len(), c01::odd_clauses().len());
    #[cfg(not(varisat_verif))]
    fam.push(Family::new("nothing", "built without hooks", 1, |_, rec| {
        rec.step();
        Ok(())
    }));
    Check {
        id: "C30",
        level: "model_checking",
        rule: "a reference model with its own clauses and values follows every event of the real search and judges every assignment, decision, conflict and jump back; a trace is one history, a step one call, states are (trail, decisions, conflicts, clauses) after each solve",
        assumptions,
        families: fam,
    }
}
