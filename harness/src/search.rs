//! A reference model that follows the search of the real solver, event by event (hook
//! `--cfg varisat_verif`): assignments, decisions, conflicts, learned clauses, backtracking.
use crate::engine::*;
use crate::hist::*;
use crate::refsat::Cl;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use varisat::verif::{set_observer, Event};
use varisat::{ExtendFormula, Solver, Var};

/// What is decided.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rule {
    /// Decisions pick a most active variable and its last value.
    Branch,
    /// Assignments are forced, assumed or decided, and nothing that is forced is left out.
    Propagate,
    /// The tier of a learned clause follows from the fewest levels seen in it.
    Tier,
}

fn tier_of(glue: usize) -> usize {
    match glue {
        0..=2 => 1,
        3..=6 => 2,
        _ => 3,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Life {
    Live,
    /// may have been replaced by a shorter clause
    Maybe,
    Gone,
}

struct Clause {
    lits: Vec<i32>,
    life: Life,
    glue: usize,
    tier: usize,
}

#[derive(Default, Clone)]
struct SVar {
    present: bool,
    global: usize,
    value: Option<bool>,
    level: usize,
    activity: f64,
    /// the value it had before it was last unassigned; None when the variable is not the one that had it
    phase: Option<bool>,
    used_before: bool,
}

pub struct Model {
    rule: Rule,
    /// decisions are those of the solver
    own: bool,
    vars: Vec<SVar>,
    trail: Vec<usize>,
    /// decisions and assumptions
    opened: Vec<usize>,
    level: usize,
    inv_decay: f64,
    bump: f64,
    involved: Vec<usize>,
    decide: bool,
    clauses: Vec<Clause>,
    by_lit: HashMap<i32, Vec<usize>>,
    ids: HashMap<usize, usize>,
    moves: Option<HashMap<usize, usize>>,
    fixed: HashMap<usize, bool>,
    assumed: Vec<i32>,
    /// assumptions that others have implied: they need not be true, as learned clauses can be deleted
    implied: HashSet<i32>,
    /// values and levels at the time of the conflict
    conflict: Option<(Vec<SVar>, usize, HashSet<usize>)>,
    back: Option<usize>,
    learned: Vec<usize>,
    learned_id: Option<(usize, usize)>,
    /// a clause has to change its tier now
    retier: Option<(usize, usize)>,
    pub problem: Option<String>,
    pub counts: [u64; 13],
    recent: Vec<Event>,
}

const NAMES: [&str; 13] = [
    "decisions",
    "conflicts",
    "forced assignments",
    "contested decisions",
    "decisions with a saved value",
    "assumed assignments",
    "removed variables",
    "jumps over several levels", "(unused)", "learned core clauses", "learned mid clauses", "learned local clauses", "improved glue"];

impl Model {
    pub fn new(rule: Rule, own: bool) -> Model {
        Model {
            rule,
            own,
            vars: vec![],
            trail: vec![],
            opened: vec![],
            level: 0,
            inv_decay: 1.0 / 0.95,
            bump: 1.0,
            involved: vec![],
            decide: false,
            clauses: vec![],
            by_lit: HashMap::new(),
            ids: HashMap::new(),
            moves: None,
            fixed: HashMap::new(),
            assumed: vec![],
            implied: HashSet::new(),
            conflict: None,
            back: None,
            learned: vec![],
            learned_id: None,
            retier: None,
            problem: None,
            counts: [0; 13],
            recent: vec![],
        }
    }
    fn config(&mut self, c: &Cfg) {
        if let Some(d) = c.vsids {
            self.inv_decay = 1.0 / d as f64;
        }
    }
    fn add(&mut self, c: &[i32]) -> usize {
        let mut lits = c.to_vec();
        lits.sort();
        lits.dedup();
        let k = self.clauses.len();
        let life = if lits.iter().any(|l| lits.contains(&-l)) { Life::Gone } else { Life::Live };
        if life == Life::Live {
            for &l in &lits {
                self.by_lit.entry(l).or_default().push(k);
            }
        }
        self.clauses.push(Clause { lits, life, glue: 0, tier: 0 });
        k
    }
    fn named(&self, code: usize) -> i32 {
        let g = self.vars[code / 2].global as i32 + 1;
        if code % 2 == 0 {
            g
        } else {
            -g
        }
    }
    /// Values of global variables.
    fn values(&self) -> HashMap<usize, bool> {
        let mut m = self.fixed.clone();
        for v in &self.vars {
            if let (true, Some(x)) = (v.present, v.value) {
                m.insert(v.global, x);
            }
        }
        m
    }
    fn truth(m: &HashMap<usize, bool>, l: i32) -> Option<bool> {
        m.get(&(l.unsigned_abs() as usize - 1)).map(|&b| b == (l > 0))
    }
    fn note(&mut self, n: usize) {
        self.counts[n] += 1;
    }
    fn var(&mut self, v: usize) -> &mut SVar {
        if self.vars.len() <= v {
            self.vars.resize(v + 1, SVar::default());
        }
        &mut self.vars[v]
    }
    /// The analysis of a conflict is over.
    fn analyzed(&mut self) {
        if self.involved.is_empty() {
            return;
        }
        let mut vs: Vec<usize> = self.involved.drain(..).map(|l| l / 2).filter(|&v| self.vars[v].level > 0).collect();
        vs.sort();
        vs.dedup();
        for v in vs {
            self.vars[v].activity += self.bump;
        }
        self.bump *= self.inv_decay;
        if self.bump > 1e200 {
            for v in &mut self.vars {
                v.activity /= self.bump;
            }
            self.bump = 1.0;
        }
    }
    pub fn handle(&mut self, e: Event) -> CaseResult {
        if self.recent.len() >= 12 {
            self.recent.remove(0);
        }
        self.recent.push(e);
        if !matches!(e, Event::Involve(_)) {
            self.analyzed();
        }
        if !matches!(e, Event::Move(..)) {
            if let Some(m) = self.moves.take() {
                self.ids = m;
            }
        }
        if self.rule == Rule::Tier {
            if let Some((id, t)) = self.retier.take() {
                if !matches!(e, Event::Tier(i, _, n) if i == id && n == t) {
                    return Err(format!("the clause {:?} does not move to tier {t}", self.clauses[self.ids[&id]].lits));
                }
            } else if let Event::Tier(id, from, to) = e {
                if (from, to) != (2, 3) {
                    return Err(format!("the clause {:?} moves from tier {from} to {to}", self.ids.get(&id).map(|&k| (&self.clauses[k].lits, self.clauses[k].glue))));
                }
            }
        }
        match e {
            Event::Tier(id, _, to) => {
                if let Some(&k) = self.ids.get(&id) {
                    self.clauses[k].tier = to;
                }
            }
            Event::Bump(id) if self.rule == Rule::Tier => {
                if let Some(&k) = self.ids.get(&id) {
                    let by_name: HashMap<usize, usize> = self.vars.iter().filter(|v| v.present && v.value.is_some() && v.level > 0).map(|v| (v.global, v.level)).collect();
                    let mut levels: Vec<usize> = self.clauses[k].lits.iter().filter_map(|l| by_name.get(&(l.unsigned_abs() as usize - 1)).cloned()).collect();
                    levels.sort();
                    levels.dedup();
                    let c = &mut self.clauses[k];
                    if levels.len() < c.glue {
                        c.glue = levels.len();
                        self.counts[12] += 1;
                        if tier_of(c.glue) != c.tier {
                            self.retier = Some((id, tier_of(c.glue)));
                        }
                    }
                }
            }
            Event::VarInit(s, g, available) => {
                let fixed = self.fixed.get(&g).cloned();
                let v = self.var(s);
                v.present = true;
                v.global = g;
                v.activity = 0.0;
                v.level = 0;
                v.value = if available { None } else { fixed };
                v.phase = if v.used_before { None } else { Some(false) };
                v.used_before = true;
                if !available && fixed.is_none() {
                    return Err(format!("variable {g} is taken to be fixed"));
                }
                if available && self.rule == Rule::Branch {
                    // a deleted variable leaves its global name to another one
                    self.fixed.remove(&g);
                } else if available && fixed.is_some() {
                    return Err(format!("variable {g} is no longer fixed"));
                }
            }
            Event::VarRemove(s) => {
                let v = self.var(s);
                v.present = false;
                let (g, x) = (v.global, v.value);
                if let Some(x) = x {
                    self.fixed.insert(g, x);
                }
                self.note(6);
            }
            Event::Decide => self.decide = true,
            Event::Backtrack(l) => {
                while let Some(&c) = self.trail.last() {
                    let v = &mut self.vars[c / 2];
                    if v.level <= l {
                        break;
                    }
                    v.value = None;
                    v.phase = Some(c % 2 == 0);
                    if self.opened.last() == Some(&c) {
                        self.opened.pop();
                    }
                    self.trail.pop();
                }
                self.level = l;
                self.back = Some(l);
            }
            Event::Conflict => {
                self.note(1);
                if self.rule == Rule::Propagate {
                    let m = self.values();
                    if !self.clauses.iter().any(|c| c.life != Life::Gone && c.lits.iter().all(|&l| Self::truth(&m, l) == Some(false))) {
                        return Err("conflict without a false clause".into());
                    }
                }
                self.conflict = Some((self.vars.clone(), self.level, HashSet::new()));
                self.back = None;
                self.learned.clear();
                self.learned_id = None;
            }
            Event::Involve(c) => {
                if self.vars[c / 2].value != Some(c % 2 == 1) {
                    return Err(format!("literal {} considered in a conflict is not false", self.named(c)));
                }
                self.involved.push(c);
                if let Some(x) = &mut self.conflict {
                    x.2.insert(c);
                }
            }
            Event::Learn(c) => self.learned.push(c),
            Event::Add(id, tier) => {
                if self.learned.len() > 2 && self.conflict.is_some() {
                    self.learned_id = Some((id, tier));
                }
            }
            Event::Delete(id, _) => {
                if let Some(k) = self.ids.remove(&id) {
                    let m: HashMap<usize, bool> = self.base();
                    let c = &mut self.clauses[k];
                    let open = c.lits.iter().filter(|&&l| Self::truth(&m, l).is_none()).count();
                    let sat = c.lits.iter().any(|&l| Self::truth(&m, l) == Some(true));
                    c.life = if !sat && open == 2 && c.lits.len() > 2 { Life::Maybe } else { Life::Gone };
                }
            }
            Event::Collect => self.moves = Some(HashMap::new()),
            Event::Move(from, to) => {
                if let (Some(&k), Some(m)) = (self.ids.get(&from), &mut self.moves) {
                    m.insert(to, k);
                }
            }
            Event::Assign(c, level) => self.assign(c, level)?,
            _ => (),
        }
        Ok(())
    }
    /// Values on level 0.
    fn base(&self) -> HashMap<usize, bool> {
        let mut m = self.fixed.clone();
        for v in &self.vars {
            if let (true, 0, Some(x)) = (v.present, v.level, v.value) {
                m.insert(v.global, x);
            }
        }
        m
    }
    /// The learned clause is complete.
    fn learn(&mut self) -> CaseResult {
        let Some((then, level, involved)) = self.conflict.take() else { return Ok(()) };
        if self.learned.is_empty() {
            return Ok(());
        }
        let lits: Vec<i32> = self.learned.iter().map(|&c| self.named(c)).collect();
        if self.rule == Rule::Propagate {
            let at: Vec<usize> = self.learned.iter().map(|c| then[c / 2].level).collect();
            if let Some(k) = (0..at.len()).find(|&k| then[self.learned[k] / 2].value != Some(self.learned[k] % 2 == 1)) {
                return Err(format!("literal {} of the learned clause {lits:?} was not false in the conflict", lits[k]));
            }
            if let Some(k) = (0..at.len()).find(|&k| !involved.contains(&self.learned[k])) {
                return Err(format!("literal {} of the learned clause {lits:?} was not involved in the conflict", lits[k]));
            }
            let top = at.iter().filter(|&&l| l == level).count();
            if top != 1 {
                return Err(format!("the learned clause {lits:?} has {top} literals of the level {level} of the conflict"));
            }
            let next = at.iter().cloned().filter(|&l| l < level).max().unwrap_or(0);
            if self.back != Some(next) {
                return Err(format!("backtracked to {:?} instead of {next} for the learned clause {lits:?} of levels {at:?}", self.back));
            }
            if next + 1 < level {
                self.counts[7] += 1;
            }
        }
        let k = self.add(&lits);
        if let Some((id, tier)) = self.learned_id.take() {
            self.ids.insert(id, k);
            let mut levels: Vec<usize> = self.learned.iter().map(|c| then[c / 2].level).collect();
            levels.sort();
            levels.dedup();
            // the level of the conflict is undone
            let glue = levels.len() - 1;
            self.clauses[k].glue = glue.min(63);
            self.clauses[k].tier = tier;
            self.counts[8 + tier.min(3)] += 1;
            if self.rule == Rule::Tier && tier != tier_of(glue) {
                return Err(format!("the learned clause {lits:?} of glue {glue} is put in tier {tier}"));
            }
        }
        self.learned.clear();
        Ok(())
    }
    fn assign(&mut self, c: usize, level: usize) -> CaseResult {
        self.learn()?;
        let l = self.named(c);
        let v = &self.vars[c / 2];
        if !v.present {
            return Err(format!("a variable that does not exist is assigned: {l}"));
        }
        let known = v.value;
        let again = known == Some(c % 2 == 0) && v.level == 0 && level == 0;
        if known.is_some() && !again {
            return Err(format!("{l} is assigned again"));
        }
        let opens = level == self.level + 1;
        if !opens && level != self.level {
            return Err(format!("{l} is assigned in level {level} after level {}", self.level));
        }
        if self.decide {
            self.decide = false;
            if !opens {
                return Err(format!("decision {l} in level {level}"));
            }
            self.note(0);
            match self.rule {
                Rule::Branch => self.branch(c)?,
                Rule::Propagate => self.complete(l)?,
                Rule::Tier => (),
            }
        } else if opens {
            self.note(5);
            if self.rule == Rule::Propagate {
                if !self.assumed.contains(&l) {
                    return Err(format!("{l} is neither decided nor assumed"));
                }
                self.fixpoint(l)?;
                self.implied();
            }
        } else if !again {
            self.note(2);
            if self.rule == Rule::Propagate {
                let m = self.values();
                let ks = self.by_lit.get(&l).map_or(&[][..], |x| x);
                if !ks
                    .iter()
                    .any(|&k| self.clauses[k].life != Life::Gone && self.clauses[k].lits.iter().all(|&o| o == l || Self::truth(&m, o) == Some(false)))
                {
                    return Err(format!("{l} is assigned in level {level}, but not forced by any clause"));
                }
            }
        }
        let v = &mut self.vars[c / 2];
        v.value = Some(c % 2 == 0);
        v.level = level;
        self.level = level;
        if opens {
            self.opened.push(c);
        }
        self.trail.push(c);
        Ok(())
    }
    fn branch(&mut self, c: usize) -> CaseResult {
        let open: Vec<usize> = (0..self.vars.len()).filter(|&v| self.vars[v].present && self.vars[v].value.is_none()).collect();
        let best = open.iter().map(|&v| self.vars[v].activity).fold(0.0, f64::max);
        let all = self.vars.iter().filter(|v| v.present).map(|v| v.activity).fold(self.bump, f64::max);
        let v = &self.vars[c / 2];
        if self.own && v.activity < best * (1.0 - 1e-3) - all * 1e-30 {
            return Err(format!("decision on a variable of activity {} while another one has activity {best} (unit {})", v.activity, self.bump));
        }
        let contested = open.iter().any(|&v| self.vars[v].activity < best * (1.0 - 1e-3));
        if self.own && v.phase.is_some() && v.phase != Some(c % 2 == 0) {
            return Err(format!("decision {}, but the last value was {:?}", self.named(c), v.phase));
        }
        if v.phase == Some(true) {
            self.note(4);
        }
        if contested {
            self.note(3);
        }
        Ok(())
    }
    fn fixpoint(&mut self, l: i32) -> CaseResult {
        let m = self.values();
        for c in &self.clauses {
            if c.life == Life::Live {
                let mut open = 0;
                let mut sat = false;
                for &x in &c.lits {
                    match Self::truth(&m, x) {
                        None => open += 1,
                        Some(true) => {
                            sat = true;
                            break;
                        }
                        _ => (),
                    }
                }
                if !sat && open < 2 {
                    return Err(format!("{l} is chosen although {:?} {}", c.lits, if open == 1 { "forces a literal" } else { "is false" }));
                }
            }
        }
        Ok(())
    }
    /// Assumptions that are true already, whether or not they are going to be assumed.
    fn implied(&mut self) {
        let m = self.values();
        let seen: Vec<i32> = self.assumed.iter().cloned().filter(|&a| Self::truth(&m, a) == Some(true)).collect();
        let open: Vec<i32> = self.opened.iter().map(|&c| self.named(c)).collect();
        self.implied.extend(seen.into_iter().filter(|a| !open.contains(a)));
    }
    fn complete(&mut self, l: i32) -> CaseResult {
        self.fixpoint(l)?;
        self.implied();
        let m = self.values();
        for a in &self.assumed {
            if Self::truth(&m, *a) != Some(true) && !self.implied.contains(a) {
                return Err(format!("decision {l} while {a} is assumed, but not true"));
            }
        }
        Ok(())
    }
}

/// Run a history under the eyes of the model.
pub fn searched(ops: &[Op], cfg: &Cfg, rule: Rule, own: bool, rec: &mut Rec) -> CaseResult {
    let model = Rc::new(RefCell::new(Model::new(rule, own)));
    let m2 = model.clone();
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            set_observer(None);
        }
    }
    let _reset = Reset;
    set_observer(Some(Box::new(move |e| {
        let mut m = m2.borrow_mut();
        if m.problem.is_none() {
            if let Err(x) = m.handle(e) {
                m.problem = Some(format!("{x}; last events {:?}", m.recent));
            }
        }
    })));
    let mut s = Solver::new();
    if !cfg.is_default() {
        s.config(&cfg.update()).map_err(|e| format!("{e}"))?;
        model.borrow_mut().config(cfg);
    }
    for op in ops {
        rec.step();
        // misuse is the subject of another property, here it ends the history
        let done = match catch(|| perform(&mut s, op, rule, &model, rec)) {
            Ok(r) => r,
            Err(p) if p.contains("witness variables cannot be constrained") || p.contains("cannot change sampling mode") => break,
            Err(p) => Err(format!("panicked: {p}")),
        };
        done?;
    }
    drop(s);
    let m = model.borrow();
    if let Some(p) = &m.problem {
        return Err(p.clone());
    }
    rec.trace();
    for (k, n) in NAMES.iter().enumerate().filter(|x| m.counts[x.0] > 0) {
        *rec.notes.entry(n.to_string()).or_insert(0) += m.counts[k];
    }
    Ok(())
}

fn perform<'a>(s: &mut Solver<'a>, op: &Op, rule: Rule, model: &Rc<RefCell<Model>>, rec: &mut Rec) -> CaseResult {
    match op {
        Op::Clause(c) => {
            model.borrow_mut().add(c);
            s.add_clause(&lits(c));
        }
        Op::Formula(f) | Op::Dimacs(f) => {
            for c in f {
                model.borrow_mut().add(c);
            }
            s.add_formula(&formula(f));
        }
        Op::Assume(a) => {
            let mut m = model.borrow_mut();
            m.assumed = a.clone();
            m.implied.clear();
            drop(m);
            s.assume(&lits(a));
        }
        Op::Config(c) => {
            s.config(&c.update()).map_err(|e| format!("{e}"))?;
            model.borrow_mut().config(c);
        }
        Op::Hide(v) if rule == Rule::Branch => s.hide_var(Var::from_dimacs(*v as isize)),
        Op::Witness(v) if rule == Rule::Branch => s.witness_var(Var::from_dimacs(*v as isize)),
        Op::Sample(v) if rule == Rule::Branch => s.sample_var(Var::from_dimacs(*v as isize)),
        Op::Observe if rule == Rule::Branch => {
            s.observe_internal_vars();
        }
        Op::NewVar => {
            s.new_var();
        }
        Op::Query => (),
        Op::Solve => {
            let r = s.solve().map_err(|e| format!("{e}"))?;
            rec.eval();
            model.borrow_mut().implied();
            let m = model.borrow();
            if let Some(p) = &m.problem {
                return Err(p.clone());
            }
            rec.state(fp(&(m.trail.clone(), m.counts[0], m.counts[1], m.clauses.len())));
            rec.outcome(if r { "satisfiable" } else { "unsatisfiable" });
        }
        _ => return Err(format!("not used here: {op:?}")),
    }
    Ok(())
}
