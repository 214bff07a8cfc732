//! C09: what proof processors see.
use crate::checkmc::Judge;
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::monitor::*;
use crate::proofs::{norm, tautology};
use crate::props::c01::{clauses_of_size, show, Suite};
use crate::refsat::*;
use varisat::ProofFormat;
use varisat_checker::{Checker, ProofProcessor};

/// The original clauses as they have to be reported.
fn originals(initial: &[Cl], seen: &[Seen], e: &dyn Fn(String) -> String) -> CaseResult {
    let mut got = vec![];
    for s in seen {
        match s {
            Seen::Add(id, c) | Seen::Dup(id, _, c) | Seen::Taut(id, c) => got.push((*id, norm(c))),
            Seen::At(..) | Seen::Model(_) | Seen::Failed(..) => break,
            _ => (),
        }
    }
    let mut unsat = false;
    let mut units = vec![];
    let mut known: Vec<Cl> = vec![];
    for (k, c) in initial.iter().enumerate() {
        let n = norm(c);
        if unsat {
            // the rest may be left out
            if k >= got.len() {
                break;
            }
        }
        match got.get(k) {
            Some((id, g)) if *id == k as u64 && *g == n => (),
            x => return Err(e(format!("original clause {k} {n:?} is reported as {x:?}"))),
        }
        if tautology(&n) {
            continue;
        }
        unsat |= n.is_empty() || (n.len() == 1 && units.contains(&-n[0]));
        if n.len() == 1 {
            units.push(n[0]);
        }
        known.push(n);
    }
    Ok(())
}

/// Run a history with two processors and compare with what the solver answered.
fn observed(ops: &[Op], cfg: Cfg, reference: bool, rec: &mut Rec) -> CaseResult {
    let e = |m: String| format!("{m}: {ops:?} {cfg:?}");
    let mut m1 = ProcMonitor::default();
    // one to four others, before and after it
    let turn = fp(&format!("{ops:?}")) as usize;
    let mut others: Vec<Keep> = (0..1 + turn % 4).map(|_| Keep::default()).collect();
    let place = turn / 4 % (others.len() + 1);
    let out = {
        let mut procs: Vec<&mut dyn ProofProcessor> = others.iter_mut().map(|p| p as &mut dyn ProofProcessor).collect();
        procs.insert(place, &mut m1);
        let setup = Setup { cfg, format: Some(ProofFormat::Varisat), no_reference: !reference, self_check: false };
        run(ops, setup, procs, rec)?
    };
    let done: Vec<Op> = ops.iter().enumerate().filter(|(k, _)| !out.skipped.contains(k)).map(|(_, o)| o.clone()).collect();
    m1.done().map_err(|x| e(x))?;
    if let Some(k) = others.iter().position(|o| o.0 != m1.seen) {
        return Err(e(format!("processor {} of {} saw other steps than processor {place}", if k < place { k } else { k + 1 }, others.len() + 1)));
    }
    rec.nontrivial(fp(&(ops.len(), format!("{:?}", m1.seen))));
    // hidden names make the numbering of clauses differ from the user's
    let first = ops.iter().position(|o| *o == Op::Solve).unwrap_or(ops.len());
    let plain_names = !ops[..first].iter().any(|o| matches!(o, Op::Hide(_) | Op::Observe));
    if plain_names {
        originals(&out.initial, &m1.seen, &e)?;
    }
    answers(&done, &out.obs, &m1, &e)?;
    if plain_names {
        // the same from the stored proof
        let mut m3 = ProcMonitor::default();
        let mut c = Checker::new();
        c.add_processor(&mut m3);
        for cl in &out.initial {
            c.add_clause(&lits(cl)).map_err(|x| e(format!("{x}")))?;
        }
        c.check_proof(&out.proof[..]).map_err(|x| e(format!("stored proof: {x}")))?;
        drop(c);
        m3.done().map_err(|x| e(format!("stored proof: {x}")))?;
        originals(&out.initial, &m3.seen, &e)?;
        answers(&done, &out.obs, &m3, &|m| e(format!("stored proof: {m}")))?;
    }
    Ok(())
}

/// Models, failed cores and refutations seen match the answers in number and content.
fn answers(ops: &[Op], obs: &[Obs], m: &ProcMonitor, e: &dyn Fn(String) -> String) -> CaseResult {
    // results in order; user names are resolved with the mapping at that time
    let mut map: std::collections::BTreeMap<i32, i32> = Default::default();
    let mut hidden: std::collections::BTreeSet<i32> = Default::default();
    let mut results = vec![];
    for s in &m.seen {
        match s {
            Seen::User(v, Some((u, _, _))) => {
                map.insert(*v, *u);
                hidden.remove(v);
            }
            Seen::User(v, None) => {
                map.remove(v);
                hidden.insert(*v);
            }
            Seen::Model(x) => {
                let mut u: Vec<i32> = x
                    .iter()
                    .filter(|l| !hidden.contains(&l.abs()))
                    .filter_map(|l| map.get(&l.abs()).map(|u| u * l.signum()))
                    .collect();
                u.sort_by_key(|l| l.abs());
                results.push(Obs::Model(Some(u)));
            }
            Seen::Failed(x, _) => {
                let mut u: Vec<i32> = x.iter().filter_map(|l| map.get(&l.abs()).map(|u| u * l.signum())).collect();
                u.sort();
                results.push(Obs::Core(Some(u)));
            }
            // an empty clause in the formula speaks for itself
            Seen::Add(_, c) | Seen::At(_, _, c, _) if c.is_empty() => results.push(Obs::Core(Some(vec![]))),
            _ => (),
        }
    }
    let mut positions = std::collections::BTreeSet::from([(0usize, false)]);
    // for each solve: is it a repetition of the query before?
    let mut repeated = vec![];
    let (mut same_query, mut same_assumptions) = (false, false);
    let mut prev = None;
    for op in ops {
        match op {
            Op::Solve => {
                repeated.push((same_query, same_assumptions));
                same_query = true;
                same_assumptions = true;
            }
            Op::Clause(_) | Op::Formula(_) | Op::Dimacs(_) => same_query = false,
            Op::Assume(_) => {
                same_query = false;
                same_assumptions = false;
            }
            _ => (),
        }
    }
    let mut solves = 0;
    let mut k = 0;
    while k < obs.len() {
        let Obs::Verdict(v) = obs[k] else {
            k += 1;
            continue;
        };
        // run() records model and core right after the verdict
        let (Obs::Model(model), Obs::Core(core)) = (&obs[k + 1], &obs[k + 2]) else {
            return Err(e("harness: no model and core after verdict".into()));
        };
        k += 3;
        let want = if v {
            let mut m = model.clone().unwrap_or_default();
            m.sort_by_key(|l| l.abs());
            Obs::Model(Some(m))
        } else {
            let mut c = core.clone().unwrap_or_default();
            c.sort();
            c.dedup();
            Obs::Core(Some(c))
        };
        let again = repeated[solves].0 || (repeated[solves].1 && prev.as_ref() == Some(&want) && !v);
        solves += 1;
        prev = Some(want.clone());
        // (position in results, refuted)
        let mut next = std::collections::BTreeSet::new();
        for &(at, unsat) in &positions {
            if unsat {
                next.insert((at, unsat));
                continue;
            }
            if results.get(at).is_some_and(|r| same(r, &want)) {
                next.insert((at + 1, want == Obs::Core(Some(vec![]))));
            }
            if again {
                next.insert((at, unsat));
            }
        }
        if next.is_empty() {
            return Err(e(format!("the solver answered {want:?} to query {solves}, processors saw the results {results:?}")));
        }
        positions = next;
    }
    let complete = |&(at, unsat): &(usize, bool)| at == results.len() || unsat || results[at] == Obs::Core(Some(vec![]));
    if !positions.iter().any(complete) {
        return Err(e(format!("processors saw results without a matching answer: {results:?}")));
    }
    Ok(())
}

fn same(seen: &Obs, want: &Obs) -> bool {
    match (seen, want) {
        // the model seen by processors may leave out variables
        (Obs::Model(Some(s)), Obs::Model(Some(w))) => s.iter().all(|l| w.contains(l)),
        _ => seen == want,
    }
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let t = |a: usize, b: usize| if thorough { b } else { a };
    {
        let all: Vec<Cl> = clauses_of_size(3, 3).into_iter().chain(clauses_of_size(3, 2)).collect();
        let n = if thorough { 1u64 << 20 } else { 1 << 14 };
        fam.push(Family::new(
            "subsets of 3-variable clauses",
            "every subset of the 8 ternary and 6 (thorough 12) binary clauses",
            n,
            move |m, rec| {
                let f: Vec<Cl> = all.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                rec.sample(|| show(&f));
                observed(&[Op::Formula(f), Op::Solve], Cfg::default(), false, rec)
            },
        ));
    }
    {
        // odd clauses, sequences
        let pool: Vec<Cl> = vec![vec![], vec![1], vec![-1], vec![1, -1], vec![1, 1, 2], vec![2, 1], vec![-2], vec![-2, 1, -2], vec![-1, -2], vec![2]];
        let n = pool.len();
        let depth = t(4, 6);
        fam.push(Family::new(
            format!("sequences of {depth} odd clauses"),
            format!("every sequence of {depth} of {n} clauses (empty, unit, duplicate, tautological, repeated literals)"),
            pow(n, depth),
            move |i, rec| {
                let mut d = Digits(i);
                let mut ops: Vec<Op> = (0..depth).map(|_| Op::Clause(pool[d.take(n)].clone())).collect();
                ops.push(Op::Solve);
                ops.push(Op::Solve);
                observed(&ops, Cfg::default(), true, rec)
            },
        ));
    }
    {
        let suite = Suite::new(formulas::medium());
        let cfgs = configs();
        let n = suite.f.len();
        let variants = t(2, formulas::VARIANTS);
        fam.push(Family::new(
            "structured formulas",
            format!("{n} formulas x {variants} variants x {} configurations", cfgs.len()),
            (n * variants * cfgs.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let v = d.take(variants);
                let v = if variants < formulas::VARIANTS { (v * 7 + c) % formulas::VARIANTS } else { v };
                let k = d.take(suite.f.len());
                let f = formulas::variant(&suite.f[k].cls, v);
                observed(&[Op::Formula(f), Op::Solve], cfgs[c], false, rec)
            },
        ));
    }
    fam.push(crate::props::c01::scaled_family(thorough, |cls, cfg, _, rec| {
        observed(&[Op::Formula(cls.to_vec()), Op::Solve], *cfg, false, rec)
    }));
    let obs = |f: &HistFam| f.family(|ops, cfg, _, rec| observed(ops, cfg, true, rec));
    fam.push(obs(&words("core", core_alphabet(), t(3, 4), vec![])));
    fam.push(obs(&words("units", unit_alphabet(), t(3, 4), vec![])));
    fam.push(obs(&words("lifecycle", lifecycle_alphabet(), t(3, 4), vec![])));
    fam.push(obs(&solved_words("reuse", reuse_alphabet(), t(4, 6))));
    fam.push(obs(&structured("structured", bases(true), hist_configs(), t(2, 3))));
    fam.push(obs(&bulk(thorough, if thorough { 4 } else { 3 })));
    fam.push(obs(&scaled(thorough, 2)));
    fam.push(obs(&long(thorough)));
    super::c08::families(&mut fam, thorough, || Judge::Processed);
    Check {
        id: "C09",
        level: "model_checking",
        rule: "a state is a reference state of the solver's API model or of the checker; traces are histories observed by two processors and again from the stored proof, and concluded step sequences",
        assumptions: vec![],
        families: fam,
    }
}
