//! C01: verdicts (with models and failed cores) of fresh solvers.
use crate::engine::*;
use crate::formulas::{self, F};
use crate::hist::*;
use crate::refsat::*;
use std::sync::{Arc, OnceLock};
use varisat::{ExtendFormula, Solver};

/// Solve a clause list with one call and judge verdict, model and core.
pub fn solve_once(cls: &[Cl], cfg: &Cfg, expected: bool, rec: &mut Rec) -> CaseResult {
    rec.eval();
    let mut solver = Solver::new();
    if !cfg.is_default() {
        solver.config(&cfg.update()).map_err(|e| format!("config rejected: {e}"))?;
    }
    solver.add_formula(&formula(cls));
    judge(&mut solver, cls, expected, rec)
}

pub fn judge(solver: &mut Solver, cls: &[Cl], expected: bool, rec: &mut Rec) -> CaseResult {
    let r = solver.solve().map_err(|e| format!("solve() failed: {e}"))?;
    rec.outcome(if r { "sat" } else { "unsat" });
    if r != expected {
        return Err(format!("solve() returned {r}, expected {expected}: {}", show(cls)));
    }
    if r {
        let m = solver.model().ok_or("no model after a satisfiable verdict")?;
        let m = ints(&m);
        let n = max_var(cls);
        let mut val = vec![None; n];
        for &l in &m {
            let v = l.unsigned_abs() as usize;
            if v > n {
                return Err(format!("model mentions unknown variable {v}: {}", show(cls)));
            }
            if val[v - 1].replace(l > 0).is_some() {
                return Err(format!("model mentions variable {v} twice: {}", show(cls)));
            }
        }
        if val.iter().any(|v| v.is_none()) {
            return Err(format!("model {m:?} is incomplete: {}", show(cls)));
        }
        let val: Vec<bool> = val.into_iter().map(|v| v.unwrap()).collect();
        if !satisfied(cls, &val) {
            return Err(format!("model {m:?} does not satisfy: {}", show(cls)));
        }
        if solver.failed_core().is_some() {
            return Err(format!("failed core after a satisfiable verdict: {}", show(cls)));
        }
    } else {
        if solver.model().is_some() {
            return Err(format!("model after an unsatisfiable verdict: {}", show(cls)));
        }
        if solver.failed_core() != Some(&[]) {
            return Err(format!("failed core {:?} without assumptions: {}", solver.failed_core(), show(cls)));
        }
    }
    rec.trace();
    Ok(())
}

pub fn show(cls: &[Cl]) -> String {
    let s = format!("{} clauses over {} variables: {:?}", cls.len(), max_var(cls), cls);
    s.chars().take(3000).collect()
}

/// All clauses with exactly the given number of distinct variables out of `n`.
pub fn clauses_of_size(n: usize, k: usize) -> Vec<Cl> {
    let mut out = vec![];
    for vs in small_subsets(n, k).into_iter().filter(|s| s.len() == k) {
        for m in 0..1u32 << k {
            out.push(vs.iter().enumerate().map(|(i, &v)| (v as i32 + 1) * if m >> i & 1 == 1 { -1 } else { 1 }).collect());
        }
    }
    out
}

/// Clauses of every shape, including repeated literals, tautologies and the empty clause.
pub fn odd_clauses() -> Vec<Cl> {
    vec![
        vec![],
        vec![1],
        vec![-1],
        vec![2],
        vec![-3],
        vec![1, 1],
        vec![-2, -2],
        vec![1, -1],
        vec![2, -1],
        vec![-1, 2],
        vec![1, 2],
        vec![-1, -2],
        vec![-2, 3],
        vec![2, -3, 2],
        vec![1, 2, 3],
        vec![-3, -1, -2],
        vec![3, 1, -3],
        vec![1, -2, 3],
        vec![-1, 2, 3, 3],
        vec![1, 2, -3],
        vec![4],
        vec![-4, 1, 2, 3],
        vec![4, -1, -2, -3],
        vec![-4, -1],
    ]
}

/// Subset number `index` of `all`.
fn pick(all: &[Cl], mask: u64) -> Vec<Cl> {
    all.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, c)| c.clone()).collect()
}

fn small_case(cls: &[Cl], rec: &mut Rec) -> CaseResult {
    rec.nontrivial(fp(cls));
    rec.sample(|| show(cls));
    let rows = tt(cls);
    // non-default schedule on part of the space, chosen by the formula itself
    solve_once(cls, &Cfg::default(), rows != 0, rec)
}

/// Structured formulas with cached reference verdicts.
pub struct Suite {
    pub f: Vec<F>,
    truth: Vec<OnceLock<bool>>,
}
impl Suite {
    pub fn new(f: Vec<F>) -> Arc<Suite> {
        let truth = f.iter().map(|_| OnceLock::new()).collect();
        Arc::new(Suite { f, truth })
    }
    pub fn truth(&self, i: usize) -> bool {
        let f = &self.f[i];
        *self.truth[i].get_or_init(|| f.sat.unwrap_or_else(|| dpll(&f.cls, 0).is_some()))
    }
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];

    // 3 variables
    let c3 = clauses_of_size(3, 3);
    let c2 = clauses_of_size(3, 2);
    let c1 = clauses_of_size(3, 1);
    {
        let (c3, c2, c1) = (c3.clone(), c2.clone(), c1.clone());
        let units = if thorough { small_subsets(6, 6) } else { small_subsets(6, 1) };
        fam.push(Family::new(
            "subsets of 3-variable clauses",
            format!("every subset of the 8 ternary and 12 binary clauses with {} unit subsets", units.len()),
            (1 << 20) * units.len() as u64,
            move |i, rec| {
                let mut f = pick(&c3, i & 0xff);
                f.extend(pick(&c2, i >> 8 & 0xfff));
                f.extend(units[(i >> 20) as usize].iter().map(|&u| c1[u].clone()));
                small_case(&f, rec)
            },
        ));
    }
    {
        let k = if thorough { 5 } else { 4 };
        let odd = odd_clauses();
        fam.push(Family::new(
            "sequences of odd clauses",
            format!("every sequence of up to {k} clauses out of {} shapes (empty, unit, duplicate literals, tautologies, 1-4 literals), added one by one", odd.len()),
            pow(odd.len() + 1, k),
            move |i, rec| {
                let mut d = Digits(i);
                let mut cls = vec![];
                for _ in 0..k {
                    match d.take(odd.len() + 1) {
                        0 => return Ok(()).and_then(|_| seq(&cls, d.0 == 0, rec)),
                        c => cls.push(odd[c - 1].clone()),
                    }
                }
                seq(&cls, true, rec)
            },
        ));
    }
    {
        let c4 = clauses_of_size(4, 4);
        fam.push(Family::new("subsets of the 16 full clauses over 4 variables", "all 2^16", 1 << 16, move |i, rec| {
            small_case(&pick(&c4, i), rec)
        }));
    }
    {
        // dense: all clauses of length 3 over 4 variables without a few
        let all = clauses_of_size(4, 3);
        let sets = small_subsets(all.len(), if thorough { 6 } else { 4 });
        fam.push(Family::new(
            "4-variable 3-CNF",
            "all 32 clauses minus every set of up to 4 (thorough 6), and those sets by themselves",
            sets.len() as u64 * 2,
            move |i, rec| {
                let s = &sets[(i / 2) as usize];
                let f: Vec<Cl> = all.iter().enumerate().filter(|(k, _)| s.contains(k) == (i % 2 == 1)).map(|(_, c)| c.clone()).collect();
                small_case(&f, rec)
            },
        ));
    }
    fam.push(crate::props::c03::plain(&crate::hists::scaled(thorough, 2)));
    structured(&mut fam, thorough);
    Check {
        id: "C01",
        level: "exploration",
        rule: "each case is a complete clause list solved by a fresh solver and compared with truth tables / DPLL; distinct by hash of clauses and configuration",
        assumptions: vec!["the reference DPLL / truth table evaluation is correct", "bounded formula families"],
        families: fam,
    }
}

fn seq(cls: &[Cl], canonical: bool, rec: &mut Rec) -> CaseResult {
    if !canonical {
        return Ok(());
    }
    rec.nontrivial(fp(cls));
    rec.sample(|| show(cls));
    rec.eval();
    let expected = tt(cls) != 0;
    let mut solver = Solver::new();
    for c in cls {
        solver.add_clause(&lits(c));
    }
    let dead = cls.iter().any(|c| c.is_empty());
    if !dead {
        return judge(&mut solver, cls, expected, rec);
    }
    let r = solver.solve().map_err(|e| format!("{e}"))?;
    if r || solver.model().is_some() || solver.failed_core() != Some(&[]) {
        return Err(format!("empty clause but solve() returned {r}: {cls:?}"));
    }
    rec.outcome("unsat");
    Ok(())
}

/// Big regular formulas.
pub fn scaled_family(
    thorough: bool,
    case: impl Fn(&[Cl], &Cfg, bool, &mut Rec) -> CaseResult + Send + Sync + 'static,
) -> Family {
    let sizes = crate::hists::scales(thorough);
    let mut fs: Vec<F> = sizes.iter().flat_map(|&n| formulas::scaled_formulas(n)).collect();
    let long = if thorough { 2100 } else { 1100 };
    fs.extend(formulas::scaled_formulas(long).into_iter().filter(|f| f.name.ends_with(", 0")));
    let cfgs = [Cfg::default(), configs()[4]];
    Family::new(
        "scaled formulas",
        format!("7 regular formulas of {sizes:?} variables with 6 sets of literals that follow, in three polarities (and those of {long} variables in one) x 2 configurations"),
        fs.len() as u64 * 2,
        move |i, rec| {
            let f = &fs[i as usize / 2];
            let cfg = &cfgs[i as usize % 2];
            rec.nontrivial(fp(&(&f.cls, i % 2)));
            rec.sample(|| f.name.clone());
            case(&f.cls, cfg, f.sat == Some(true), rec).map_err(|e| format!("{} {cfg:?}: {e}", f.name))
        },
    )
}

pub fn structured(fam: &mut Vec<Family>, thorough: bool) {
    fam.push(scaled_family(thorough, solve_once));
    let suite = Suite::new(formulas::medium());
    let cfgs = configs();
    let n = suite.f.len() as u64;
    {
        let (suite, cfgs) = (suite.clone(), cfgs.clone());
        let variants = if thorough { formulas::VARIANTS } else { 4 };
        fam.push(Family::new(
            "structured formulas",
            format!("{n} formulas x {variants} renamings/orders x {} configurations", cfgs.len()),
            n * variants as u64 * cfgs.len() as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let v = d.take(variants);
                let v = if variants < formulas::VARIANTS { (v * 3 + c) % formulas::VARIANTS } else { v };
                let k = d.take(suite.f.len());
                let f = formulas::variant(&suite.f[k].cls, v);
                rec.nontrivial(fp(&(&f, c)));
                rec.sample(|| format!("{} variant {v} config {:?}", suite.f[k].name, cfgs[c]));
                solve_once(&f, &cfgs[c], suite.truth(k), rec).map_err(|e| format!("{} variant {v} {:?}: {e}", suite.f[k].name, cfgs[c]))
            },
        ));
    }
    {
        // remove single clauses
        let mut idx: Vec<(usize, usize)> = vec![];
        for (k, f) in suite.f.iter().enumerate() {
            let step = if thorough { 1 } else { 1 + f.cls.len() / 12 };
            if max_var(&f.cls) <= 40 {
                idx.extend((0..f.cls.len()).step_by(step).map(|c| (k, c)));
            }
        }
        let (suite, cfgs) = (suite.clone(), cfgs.clone());
        fam.push(Family::new(
            "structured formulas without one clause",
            "every (quick: every 1+n/12th) single clause removed or strengthened by its first literal",
            idx.len() as u64 * 2,
            move |i, rec| {
                let (k, c) = idx[(i / 2) as usize];
                let mut f = suite.f[k].cls.clone();
                if i % 2 == 0 {
                    f.remove(c);
                } else {
                    if f[c].is_empty() {
                        return Ok(());
                    }
                    f[c].remove(0);
                }
                let cfg = &cfgs[(i as usize / 2) % cfgs.len()];
                rec.nontrivial(fp(&(&f, i % 2)));
                let truth = f.iter().all(|c| !c.is_empty()) && dpll(&f, 0).is_some();
                if f.iter().any(|c| c.is_empty()) {
                    return Ok(());
                }
                solve_once(&f, cfg, truth, rec).map_err(|e| format!("{} clause {c}: {e}", suite.f[k].name))
            },
        ));
    }
    {
        let suite = Suite::new(formulas::very_hard());
        let cfgs: Vec<Cfg> = if thorough { vec![Cfg::default(), cfgs[3], cfgs[7], cfgs[9]] } else { vec![Cfg::default()] };
        let list: Vec<usize> = (0..suite.f.len()).filter(|&k| thorough || suite.f[k].name != "php(10,9,false)").collect();
        fam.push(Family::new(
            "very hard formulas",
            format!("{} formulas with up to 10^5 conflicts x {} configurations", list.len(), cfgs.len()),
            (list.len() * cfgs.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let k = list[d.take(list.len())];
                let f = &suite.f[k].cls;
                rec.nontrivial(fp(&(&f, c)));
                solve_once(f, &cfgs[c], suite.truth(k), rec).map_err(|e| format!("{} {:?}: {e}", suite.f[k].name, cfgs[c]))
            },
        ));
    }
    {
        let suite = Suite::new(formulas::hard());
        let cfgs = cfgs.clone();
        let variants = if thorough { 6 } else { 1 };
        fam.push(Family::new(
            "hard formulas",
            format!("{} formulas x {variants} variants x {} configurations", suite.f.len(), cfgs.len()),
            (suite.f.len() * variants * cfgs.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let v = d.take(variants);
                let k = d.take(suite.f.len());
                let f = formulas::variant(&suite.f[k].cls, v * 2);
                rec.nontrivial(fp(&(&f, c)));
                solve_once(&f, &cfgs[c], suite.truth(k), rec).map_err(|e| format!("{} variant {v} {:?}: {e}", suite.f[k].name, cfgs[c]))
            },
        ));
    }
}
