//! C25: restarts and clause reductions happen when and as configured.
//!
//! The observer hook (`--cfg varisat_verif`) reports what the search does; a reference model of the
//! documented policy, with its own Luby sequence and its own record of tiers, uses and activities,
//! decides every event.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists;
#[cfg(varisat_verif)]
use std::cell::RefCell;
#[cfg(varisat_verif)]
use std::collections::{HashMap, HashSet};
#[cfg(varisat_verif)]
use std::rc::Rc;
#[cfg(varisat_verif)]
use varisat::verif::{set_observer, set_oracle, Event, Point};
#[cfg(varisat_verif)]
use varisat::{ExtendFormula, Solver};

/// Term `i` (from 1) of the Luby sequence, by its definition.
fn luby(i: u64) -> u64 {
    let mut k = 1;
    while (1u64 << k) - 1 < i {
        k += 1;
    }
    if (1 << k) - 1 == i {
        1 << (k - 1)
    } else {
        luby(i - (1 << (k - 1)) + 1)
    }
}

#[cfg(varisat_verif)]
#[derive(Clone, Copy)]
struct Info {
    tier: usize,
    used: bool,
    activity: f64,
}

#[cfg(varisat_verif)]
#[derive(PartialEq, Clone, Copy)]
enum Phase {
    Search,
    Locals,
    Mids,
    Collect,
}

#[cfg(varisat_verif)]
struct Model {
    scale: u64,
    locals: u64,
    mids: u64,
    decay: f64,
    vars: usize,
    assuming: bool,
    /// conflicts so far
    steps: u64,
    next_restart: u64,
    restarts: u64,
    clauses: HashMap<usize, Info>,
    moved: HashMap<usize, Info>,
    bump: f64,
    /// in this solve call
    stepped: bool,
    phase: Phase,
    before: HashMap<usize, Info>,
    now: Vec<Event>,
    last_bump: Option<usize>,
    problem: Option<String>,
    counts: [u64; 6],
}

#[cfg(varisat_verif)]
impl Model {
    fn new(vars: usize) -> Model {
        Model {
            scale: 128,
            locals: 15000,
            mids: 10000,
            decay: 0.999,
            vars,
            assuming: false,
            steps: 0,
            next_restart: 0,
            restarts: 0,
            clauses: HashMap::new(),
            moved: HashMap::new(),
            bump: 1.0,
            stepped: false,
            phase: Phase::Search,
            before: HashMap::new(),
            now: vec![],
            last_bump: None,
            problem: None,
            counts: [0; 6],
        }
    }
    fn config(&mut self, c: &Cfg) {
        self.scale = c.restart.unwrap_or(self.scale);
        self.locals = c.locals.unwrap_or(self.locals);
        self.mids = c.mids.unwrap_or(self.mids);
        if let Some(a) = c.act {
            self.decay = a as f64;
        }
    }
    fn finish(&mut self) -> CaseResult {
        let phase = std::mem::replace(&mut self.phase, Phase::Search);
        match phase {
            Phase::Search => Ok(()),
            Phase::Collect => {
                if self.moved.len() != self.clauses.len() {
                    return Err(format!("collection kept {} of {} clauses", self.moved.len(), self.clauses.len()));
                }
                self.clauses = std::mem::take(&mut self.moved);
                Ok(())
            }
            Phase::Locals => {
                let local: Vec<_> = self.before.iter().filter(|x| x.1.tier == 3).collect();
                let gone: Vec<_> = local.iter().filter(|x| !self.clauses.contains_key(x.0)).collect();
                let half = local.len() / 2;
                self.counts[1] += 1;
                self.counts[2] += gone.len() as u64;
                // directly after a restart without assumptions no learned clause is a reason
                let slack = if self.now.contains(&Event::Restart) && !self.assuming { 0 } else { self.vars };
                if gone.len() > half || gone.len() + slack < half {
                    return Err(format!("reduction deleted {} of {} local clauses ({} variables, slack {slack})", gone.len(), local.len(), self.vars));
                }
                if slack == 0 {
                    let most = gone.iter().map(|x| x.1.activity).fold(0.0, f64::max);
                    if let Some(x) = local.iter().find(|x| self.clauses.contains_key(x.0) && x.1.activity < most * 0.99 - 1e-12 * self.bump) {
                        return Err(format!("reduction kept a clause of activity {} and deleted one of activity {most} (unit {})", x.1.activity, self.bump));
                    }
                }
                Ok(())
            }
            Phase::Mids => {
                self.counts[3] += 1;
                for (id, x) in &mut self.clauses {
                    let b = self.before[id];
                    if b.tier != 2 {
                        continue;
                    }
                    let expected = if b.used { 2 } else { 3 };
                    if x.tier != expected {
                        return Err(format!("mid reduction: a clause {} is in tier {}", if b.used { "used since the last one" } else { "not used since the last one" }, x.tier));
                    }
                    self.counts[4] += (expected == 3) as u64;
                    x.used = false;
                }
                Ok(())
            }
        }
    }
    fn handle(&mut self, e: Event) -> CaseResult {
        match e {
            Event::Restart | Event::ReduceLocals | Event::ReduceMids | Event::Step | Event::Collect => {
                self.finish()?;
                if e == Event::ReduceLocals || e == Event::ReduceMids {
                    self.before = self.clauses.clone();
                    self.phase = if e == Event::ReduceMids { Phase::Mids } else { Phase::Locals };
                }
                if e == Event::Collect {
                    self.phase = Phase::Collect;
                    self.moved = HashMap::new();
                    self.counts[5] += 1;
                    return Ok(());
                }
                if e != Event::Step {
                    self.now.push(e);
                    return Ok(());
                }
                let mut expected = vec![];
                if self.steps == self.next_restart {
                    expected.push(Event::Restart);
                    self.restarts += 1;
                    self.counts[0] += 1;
                    self.next_restart = self.next_restart.saturating_add(self.scale.saturating_mul(luby(self.restarts)));
                }
                if self.steps % self.locals == 0 {
                    expected.push(Event::ReduceLocals);
                }
                if self.steps % self.mids == 0 {
                    expected.push(Event::ReduceMids);
                }
                let now = std::mem::take(&mut self.now);
                if now.len() != expected.len() || !expected.iter().all(|e| now.contains(e)) {
                    return Err(format!(
                        "after {} conflicts: {now:?} instead of {expected:?} (scale {}, {} restarts, intervals {} and {})",
                        self.steps, self.scale, self.restarts, self.locals, self.mids
                    ));
                }
                if self.stepped {
                    self.bump /= self.decay;
                    if self.bump > 1e200 {
                        for x in self.clauses.values_mut() {
                            x.activity /= self.bump;
                        }
                        self.bump = 1.0;
                    }
                }
                self.stepped = true;
                self.steps += 1;
            }
            Event::Move(from, to) => {
                let x = *self.clauses.get(&from).ok_or("a clause that is not live is collected")?;
                if self.phase != Phase::Collect || self.moved.insert(to, x).is_some() {
                    return Err("unexpected move".into());
                }
            }
            Event::Add(id, tier) => {
                if self.phase != Phase::Search {
                    self.finish()?;
                }
                if self.clauses.insert(id, Info { tier, used: false, activity: 0.0 }).is_some() {
                    return Err("a live clause is overwritten".into());
                }
            }
            Event::Bump(id) => {
                self.finish()?;
                let bump = self.bump;
                let x = self.clauses.get_mut(&id).ok_or("a clause that is not live takes part in a conflict")?;
                x.used = true;
                x.activity += bump;
                self.last_bump = Some(id);
            }
            Event::Tier(id, from, to) => {
                let x = self.clauses.get_mut(&id).ok_or("tier of a clause that is not live")?;
                if x.tier != from {
                    return Err(format!("a clause of tier {} is said to be of tier {from}", x.tier));
                }
                x.tier = to;
                if self.phase == Phase::Mids {
                    if (from, to) != (2, 3) {
                        return Err(format!("mid reduction moved a clause from tier {from} to {to}"));
                    }
                } else if self.last_bump != Some(id) || to >= from || from == 0 || to == 0 {
                    return Err(format!("a clause changes from tier {from} to {to} outside of a reduction"));
                }
            }
            Event::Delete(id, tier) => {
                if self.phase == Phase::Collect {
                    self.finish()?;
                }
                let x = self.clauses.remove(&id).ok_or("deletion of a clause that is not live")?;
                if x.tier != tier {
                    return Err(format!("a clause of tier {} is said to be of tier {tier}", x.tier));
                }
                if self.phase == Phase::Mids || self.phase == Phase::Locals && tier != 3 {
                    return Err(format!("a reduction deletes a clause of tier {tier}"));
                }
            }
            _ => (),
        }
        Ok(())
    }
}

#[cfg(varisat_verif)]
fn observed(ops: &[Op], cfg: &Cfg, tier: usize, vars: usize, rec: &mut Rec) -> CaseResult {
    let model = Rc::new(RefCell::new(Model::new(vars)));
    let (m2, m3) = (model.clone(), model.clone());
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            set_observer(None);
            set_oracle(None);
        }
    }
    let _reset = Reset;
    set_oracle(Some(Box::new(move |p, _| if p == Point::Tier { tier } else { 0 })));
    set_observer(Some(Box::new(move |e| {
        let mut m = m2.borrow_mut();
        if m.problem.is_none() {
            if let Err(x) = m.handle(e) {
                m.problem = Some(x);
            }
        }
    })));
    let mut s = Solver::new();
    if !cfg.is_default() {
        s.config(&cfg.update()).map_err(|e| format!("{e}"))?;
        m3.borrow_mut().config(cfg);
    }
    for op in ops {
        rec.step();
        match op {
            Op::Clause(c) => s.add_clause(&lits(c)),
            Op::Formula(f) => s.add_formula(&formula(f)),
            Op::Assume(a) => {
                s.assume(&lits(a));
                m3.borrow_mut().assuming = !a.is_empty();
            }
            Op::Config(c) => {
                s.config(&c.update()).map_err(|e| format!("{e}"))?;
                m3.borrow_mut().config(c);
            }
            Op::Solve => {
                m3.borrow_mut().stepped = false;
                let _ = s.solve().map_err(|e| format!("{e}"))?;
                let mut m = m3.borrow_mut();
                if m.problem.is_none() {
                    let r = m.finish();
                    m.problem = r.err();
                }
                rec.eval();
                if let Some(p) = &m.problem {
                    return Err(p.clone());
                }
                rec.state(fp(&(m.steps, m.restarts, m.clauses.len(), m.next_restart)));
            }
            _ => return Err(format!("not used here: {op:?}")),
        }
    }
    drop(s);
    rec.trace();
    let m = model.borrow();
    for (k, n) in ["restarts", "local reductions", "deleted local clauses", "mid reductions", "demoted mid clauses", "collections"].iter().enumerate() {
        *rec.notes.entry(n.to_string()).or_insert(0) += m.counts[k];
    }
    *rec.notes.entry("conflicts".into()).or_insert(0) += m.steps;
    rec.outcome(if m.steps > 100 { "more than 100 conflicts" } else { "up to 100 conflicts" });
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    #[cfg(varisat_verif)]
    let mut assumptions = vec!["tiers, uses and activities of long clauses are those that the hooks report"];
    #[cfg(not(varisat_verif))]
    let mut assumptions = vec!["built without hooks: only the reference Luby sequence was computed, nothing was decided"];
    fam.push(Family::new("reference Luby sequence", "the first 65535 terms satisfy the recursive structure: sums over 2^k - 1 terms are k 2^(k-1)", 16, |i, rec| {
        let k = i + 1;
        rec.nontrivial(i);
        rec.step();
        let n = (1u64 << k) - 1;
        let sum: u64 = (1..=n).map(luby).sum();
        if sum == k << (k - 1) {
            Ok(())
        } else {
            Err(format!("sum of {n} terms is {sum}"))
        }
    }));
    #[cfg(varisat_verif)]
    {
        let mut fs = formulas::medium();
        fs.extend(formulas::hard());
        let scales: Vec<Option<u64>> = vec![None, Some(1), Some(2), Some(3), Some(10), Some(1 << 40), Some(u64::MAX)];
        let variants = if thorough { 6 } else { 1 };
        let n = fs.len() as u64;
        fam.push(Family::new(
            "restarts",
            format!("{n} formulas x {variants} variants x {} scales, default reductions", scales.len()),
            n * variants as u64 * scales.len() as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let (k, v, r) = (d.take(fs.len()), d.take(variants), d.take(scales.len()));
                let f = formulas::variant(&fs[k].cls, v * 2);
                rec.nontrivial(i);
                let c = Cfg { restart: scales[r], ..Cfg::default() };
                let vars = crate::refsat::max_var(&f);
                observed(&[Op::Formula(f), Op::Solve], &c, 0, vars, rec).map_err(|e| format!("{} variant {v} {c:?}: {e}", fs[k].name))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        // hard formulas need not be solved in reasonable time when nothing learned is kept
        let fs: Vec<formulas::F> = formulas::medium().into_iter().filter(|f| f.cls.len() > 8).collect();
        let variants = if thorough { formulas::VARIANTS } else { 1 };
        let mut cfgs = vec![];
        for r in [1, 2, 100] {
            for l in [1, 2, 7, 40, 300] {
                for m in [1, 3, 20, 10000] {
                    for a in [None, Some(0.5), Some(0.9)] {
                        let mut c = cfg(r, l, m);
                        c.act = a;
                        cfgs.push(c);
                    }
                }
            }
        }
        let n = fs.len() as u64;
        let per = cfgs.len() as u64 * 4 * variants as u64;
        fam.push(Family::new(
            "reductions",
            format!("{n} formulas x {variants} variants x {} configurations x learned clauses by glue, all core, all mid or all local", cfgs.len()),
            n * per,
            move |i, rec| {
                let k = (i % n) as usize;
                let j = (i / n) as usize;
                let v = j % variants;
                let (c, tier) = (cfgs[j / variants / 4], j / variants % 4);
                let f = formulas::variant(&fs[k].cls, v);
                rec.nontrivial(i);
                let vars = crate::refsat::max_var(&f);
                observed(&[Op::Formula(f), Op::Solve], &c, tier, vars, rec).map_err(|e| format!("{} variant {v} {c:?} tier {tier}: {e}", fs[k].name))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        // thousands of clauses at once
        let mut fs = vec![formulas::php(8, 7, false), formulas::php(9, 8, false), formulas::factoring(250_007, 10), formulas::counter_parity(16, 8, false), formulas::sgen(10, 7)];
        if thorough {
            fs.extend([formulas::factoring(499 * 997, 10), formulas::sgen(11, 7)]);
        }
        let variants = if thorough { 3 } else { 1 };
        let n = fs.len() as u64;
        let (locals, mids) = (vec![1300, 2200, 4500, 9000], vec![700, 2600, 10000]);
        fam.push(Family::new(
            "large reductions",
            format!("{n} formulas x {variants} variants, local clauses reduced after {locals:?} and mid clauses after {mids:?} conflicts, learned clauses by glue, all mid or all local"),
            n * variants as u64 * (locals.len() * mids.len() * 3) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let (k, v, l, m, t) = (d.take(fs.len()), d.take(variants), d.take(locals.len()), d.take(mids.len()), d.take(3));
                let c = Cfg { locals: Some(locals[l]), mids: Some(mids[m]), ..Cfg::default() };
                let tier = [0, 2, 3][t];
                let f = formulas::variant(&fs[k].cls, v * 3);
                rec.nontrivial(i);
                let vars = crate::refsat::max_var(&f);
                observed(&[Op::Formula(f), Op::Solve], &c, tier, vars, rec).map_err(|e| format!("{} variant {v} {c:?} tier {tier}: {e}", fs[k].name))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let mut all = vec![];
        for (name, base, mut al) in hists::bases(false) {
            al.push(Op::Config(cfg(1, 5, 3)));
            al.push(Op::Config(Cfg { restart: Some(7), ..Cfg::default() }));
            al.push(Op::Config(Cfg { locals: Some(4), mids: Some(100), act: Some(0.6), ..Cfg::default() }));
            al.push(Op::Config(Cfg { restart: Some(u64::MAX), ..Cfg::default() }));
            all.push((name, base, al));
        }
        let starts = [Cfg::default(), cfg(1, 1, 1), cfg(3, 10, 4), cfg(2, 6, 10000)];
        let depth = if thorough { 4 } else { 3 };
        let sizes: Vec<u64> = all.iter().map(|(_, _, al)| pow(al.len(), depth) * starts.len() as u64 * 4).collect();
        let total: u64 = sizes.iter().sum();
        fam.push(Family::new(
            "histories",
            format!("{} structured bases: all sequences of {depth} operations (assumptions, clauses, configuration changes), each followed by a solve, in {} configurations, learned clauses by glue, all core, all mid or all local", all.len(), starts.len()),
            total,
            move |i, rec| {
                let mut x = i;
                let mut b = 0;
                while x >= sizes[b] {
                    x -= sizes[b];
                    b += 1;
                }
                let (name, base, al) = &all[b];
                let mut d = Digits(x);
                let tier = d.take(4);
                let c = starts[d.take(starts.len())];
                let mut ops = vec![Op::Formula(base.clone())];
                for _ in 0..depth {
                    ops.push(al[d.take(al.len())].clone());
                    ops.push(Op::Solve);
                }
                rec.nontrivial(i);
                let vars = crate::refsat::max_var(base);
                observed(&ops, &c, tier, vars, rec).map_err(|e| format!("{name} {c:?} tier {tier} {:?}: {e}", &ops[1..]))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let run = |ops: &[Op], cfg: Cfg, i: u64, rec: &mut Rec| -> CaseResult {
            rec.nontrivial(i);
            crate::search::searched(ops, &cfg, crate::search::Rule::Tier, true, rec)
        };
        let fs: Vec<formulas::F> = formulas::medium().into_iter().chain(formulas::hard().into_iter().take(if thorough { 100 } else { 4 })).collect();
        let variants = if thorough { 6 } else { 2 };
        let cfgs: Vec<Cfg> = vec![Cfg::default(), cfg(1, 15000, 10000), cfg(4, 300, 200), cfg(30, 600, 50), Cfg { vsids: Some(0.6), ..Cfg::default() }];
        let n = fs.len() as u64;
        fam.push(Family::new(
            "tiers",
            format!("{n} formulas x {variants} variants x {} configurations", cfgs.len()),
            n * variants as u64 * cfgs.len() as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let (k, v, c) = (d.take(fs.len()), d.take(variants), d.take(cfgs.len()));
                let ops = [Op::Formula(formulas::variant(&fs[k].cls, v * 5 + c)), Op::Solve];
                run(&ops, cfgs[c], i, rec).map_err(|e| format!("{} variant {v} {:?}: {e}", fs[k].name, cfgs[c]))
            },
        ));
        fam.push(hists::scaled(thorough, 2).family(run));
        // clauses learned from many levels take part in conflicts of few levels
        let sizes: Vec<i32> = if thorough { (3..200).collect() } else { (3..40).chain([48, 62, 63, 64, 65, 66, 90, 130]).collect() };
        fam.push(Family::new(
            "glue",
            format!("clauses learned from every number of levels in {sizes:?}, then used in conflicts of 1 to 9 levels, in both orders of the groups and both polarities"),
            sizes.len() as u64 * 9 * 4,
            move |i, rec| {
                let mut d = Digits(i);
                let (n, g, how) = (sizes[d.take(sizes.len())], d.take(9) as i32 + 1, d.take(4));
                let mut cls = vec![];
                for signs in 0..8 {
                    let mut c: Vec<i32> = (1..=n).collect();
                    c.extend((0..3).map(|k| if signs >> k & 1 == 1 { n + 1 + k } else { -(n + 1 + k) }));
                    cls.push(c);
                }
                // each x is made false by the variable of its group
                for x in 1..=n {
                    cls.push(vec![-x, -(n + 4 + x % g)]);
                }
                let mut first: Vec<i32> = (1..=n).map(|x| -x).collect();
                let mut second: Vec<i32> = (n + 4..n + 4 + g).collect();
                if how & 1 == 1 {
                    first.reverse();
                    second.reverse();
                }
                let flip = formulas::flipped(&[first, second.clone(), second[..(g as usize + 1) / 2].to_vec()], how / 2);
                let mut ops = vec![Op::Formula(formulas::flipped(&cls, how / 2))];
                for a in [&flip[0], &flip[2], &flip[1], &flip[0]] {
                    ops.push(Op::Assume(a.clone()));
                    ops.push(Op::Solve);
                }
                run(&ops, Cfg::default(), i, rec).map_err(|e| format!("{n} levels, {g} groups: {e}"))
            },
        ));
        // the glue of the learned clauses ranges over all sizes
        fam.push(hists::structured("tiers in histories", hists::bases(false), vec![Cfg::default(), cfg(3, 10, 4)], if thorough { 4 } else { 3 }).family(run));
    }
    assumptions.push("activities are compared up to a relative error of 1 %, and only where no clause is locked");
    let _ = (thorough, luby(1), formulas::php(2, 1, false).cls.len(), hists::hist_configs().len());
    Check {
        id: "C25",
        level: "model_checking",
        rule: "a reference model of the restart and reduction policy follows every event of the real search; a trace is one history, a step one call, states are the model's (conflicts, restarts, clauses, next restart) after each solve",
        assumptions,
        families: fam,
    }
}
