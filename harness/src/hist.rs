//! Histories of solver API calls, executed on the real solver next to a reference model.
use crate::engine::{fp, CaseResult, Rec};
use crate::refsat::{dpll, Cl};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::rc::Rc;
pub use crate::lits::*;
use varisat::{CnfFormula, ExtendFormula, Lit, ProofFormat, Solver, Var};
use varisat_checker::ProofProcessor;

pub fn formula(cls: &[Cl]) -> CnfFormula {
    CnfFormula::from(cls.iter().map(|c| lits(c)).collect::<Vec<_>>())
}

/// The configurations used by the structured families.
pub fn configs() -> Vec<Cfg> {
    let mut v = vec![
        Cfg::default(),
        cfg(1, 1, 1),
        cfg(1, 15000, 10000),
        cfg(128, 1, 1),
        cfg(2, 3, 5),
        cfg(128, 1, 10000),
        cfg(128, 15000, 1),
        cfg(7, 10, 7),
    ];
    let mut a = cfg(3, 4, 6);
    a.vsids = Some(0.5);
    a.act = Some(0.5);
    v.push(a);
    let mut a = cfg(16, 9, 20);
    a.vsids = Some(0.9999);
    a.act = Some(0.99999);
    v.push(a);
    let mut a = cfg(1, 50, 30);
    a.vsids = Some(0.5);
    a.act = Some(0.99999);
    v.push(a);
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Clause(Vec<i32>),
    Formula(Vec<Cl>),
    Dimacs(Vec<Cl>),
    Assume(Vec<i32>),
    Solve,
    NewVar,
    Hide(i32),
    Witness(i32),
    Sample(i32),
    Observe,
    Config(Cfg),
    CloseProof,
    /// Query model and core outside of solve.
    Query,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Sample,
    Witness,
}

#[derive(Clone)]
struct World {
    /// user variable -> abstract variable (1-based)
    map: BTreeMap<i32, i32>,
    /// clauses over abstract variables
    cls: Vec<Cl>,
    /// abstract variables without a user name
    hidden: BTreeSet<i32>,
    next: i32,
}

impl World {
    fn fresh(&mut self, user: i32) -> i32 {
        let a = self.next;
        self.next += 1;
        self.map.insert(user, a);
        a
    }
    fn abs(&self, l: i32) -> i32 {
        let a = self.map[&l.abs()];
        if l > 0 {
            a
        } else {
            -a
        }
    }
    fn sat(&self, units: &[i32]) -> bool {
        let mut c = self.cls.clone();
        c.extend(units.iter().map(|&l| vec![self.abs(l)]));
        dpll(&c, 0).is_some()
    }
}

/// Reference model of the solver's API. Observing internal variables is angelic: every way the
/// new names could correspond to hidden variables is kept as one world until an answer excludes it.
pub struct RefModel {
    worlds: Vec<World>,
    pub modes: BTreeMap<i32, Mode>,
    pub assumptions: Vec<i32>,
    /// Variables mentioned in the last assumptions (for documented panics).
    pub watermark: i32,
    /// Known to be unsatisfiable: clauses are no longer tracked, variable names neither.
    pub dead: bool,
    pub observed: bool,
}

impl RefModel {
    pub fn new() -> RefModel {
        RefModel {
            worlds: vec![World { map: BTreeMap::new(), cls: vec![], hidden: BTreeSet::new(), next: 1 }],
            modes: BTreeMap::new(),
            assumptions: vec![],
            watermark: 0,
            dead: false,
            observed: false,
        }
    }
    pub fn touch(&mut self, v: i32) {
        if self.dead {
            return;
        }
        let mut new = vec![];
        for u in self.watermark + 1..v {
            new.push(u);
        }
        if !self.modes.contains_key(&v) {
            new.push(v);
        }
        for u in new {
            self.modes.insert(u, Mode::Sample);
            for w in &mut self.worlds {
                w.fresh(u);
            }
        }
        self.watermark = self.watermark.max(v);
    }
    pub fn clause(&mut self, c: &[i32]) {
        if self.dead {
            return;
        }
        for &l in c {
            self.touch(l.abs());
        }
        for w in &mut self.worlds {
            let a = c.iter().map(|&l| w.abs(l)).collect();
            w.cls.push(a);
        }
    }
    pub fn assume(&mut self, a: &[i32]) {
        for &l in a {
            self.touch(l.abs());
        }
        self.assumptions = a.to_vec();
    }
    pub fn new_name(&mut self, v: i32) -> Result<(), String> {
        if self.dead {
            return Ok(());
        }
        if self.modes.contains_key(&v) {
            return Err(format!("variable {v} returned as new is already in use"));
        }
        self.touch(v);
        Ok(())
    }
    pub fn can_constrain(&self, c: &[i32]) -> bool {
        c.iter().all(|l| self.modes.get(&l.abs()) != Some(&Mode::Witness))
    }
    pub fn assumed(&self, v: i32) -> bool {
        self.assumptions.iter().any(|l| l.abs() == v)
    }
    pub fn set_mode(&mut self, v: i32, m: Mode) {
        self.touch(v);
        self.modes.insert(v, m);
    }
    pub fn hide(&mut self, v: i32) {
        self.touch(v);
        self.modes.remove(&v);
        if self.dead {
            return;
        }
        for w in &mut self.worlds {
            if let Some(a) = w.map.remove(&v) {
                w.hidden.insert(a);
            }
        }
    }
    /// New names for internal variables: each may be any hidden variable or a free one.
    pub fn observe(&mut self, names: &[i32]) -> Result<(), String> {
        if self.dead {
            for &v in names {
                self.modes.insert(v, Mode::Witness);
            }
            return Ok(());
        }
        for (i, &v) in names.iter().enumerate() {
            if self.modes.contains_key(&v) || names[..i].contains(&v) {
                return Err(format!("observed internal variable got name {v} which is in use"));
            }
        }
        for &v in names {
            self.observed = true;
            let mut next = vec![];
            for w in &self.worlds {
                for &h in &w.hidden {
                    let mut n = w.clone();
                    n.hidden.remove(&h);
                    n.map.insert(v, h);
                    next.push(n);
                }
                let mut n = w.clone();
                n.fresh(v);
                next.push(n);
            }
            self.worlds = next;
            self.modes.insert(v, Mode::Witness);
            for u in self.watermark + 1..v {
                // names below are created as fresh variables if the implementation skips any
                if !self.modes.contains_key(&u) {
                    return Err(format!("observed variable {v} leaves unused names below it"));
                }
            }
            self.watermark = self.watermark.max(v);
        }
        Ok(())
    }
    /// As [`observe`](Self::observe) for one name of an arbitrary transcript.
    pub fn observe_loose(&mut self, v: i32) {
        if self.modes.contains_key(&v) {
            self.hide(v);
        }
        for u in self.watermark + 1..v {
            self.touch(u);
        }
        let mut next = vec![];
        for w in &self.worlds {
            for &h in &w.hidden {
                let mut n = w.clone();
                n.hidden.remove(&h);
                n.map.insert(v, h);
                next.push(n);
            }
            let mut n = w.clone();
            n.fresh(v);
            next.push(n);
        }
        self.worlds = next;
        self.modes.insert(v, Mode::Witness);
        self.watermark = self.watermark.max(v);
    }
    /// A consistent partial assignment that contains the assumptions and extends to a model.
    pub fn partial_model(&mut self, m: &[i32]) -> Result<(), String> {
        for &l in m {
            self.touch(l.abs());
            if m.contains(&-l) {
                return Err(format!("model {m:?} contains {l} and {}", -l));
            }
        }
        for l in &self.assumptions {
            if !m.contains(l) {
                return Err(format!("model {m:?} violates assumption {l}"));
            }
        }
        self.worlds.retain(|w| w.sat(m));
        if self.worlds.is_empty() {
            return Err(format!("model {m:?} does not satisfy the clauses"));
        }
        Ok(())
    }
    /// The literal holds in every model, in some world.
    pub fn worlds_imply(&self, l: i32) -> bool {
        self.worlds.iter().any(|w| w.map.contains_key(&l.abs()) && !w.sat(&[-l]))
    }
    pub fn set_dead_if_unsat(&mut self) {
        if !self.dead && self.worlds.iter().all(|w| !w.sat(&[])) {
            self.dead = true;
        }
    }
    /// Check a verdict; worlds that disagree are dropped.
    pub fn verdict(&mut self, got: bool) -> Result<(), String> {
        if self.dead {
            return if got { Err("solve() returned true, but the clauses are unsatisfiable".into()) } else { Ok(()) };
        }
        let ass = self.assumptions.clone();
        self.worlds.retain(|w| w.sat(&ass) == got);
        if self.worlds.is_empty() {
            return Err(format!("solve() returned {got}, the reference says {}", !got));
        }
        Ok(())
    }
    pub fn core(&mut self, core: &[i32]) -> Result<(), String> {
        for l in core {
            if !self.assumptions.contains(l) {
                return Err(format!("failed core {core:?} contains {l} which is not assumed ({:?})", self.assumptions));
            }
        }
        if self.dead {
            return Ok(());
        }
        self.worlds.retain(|w| !w.sat(core));
        if self.worlds.is_empty() {
            return Err(format!("failed core {core:?} is satisfiable together with the clauses"));
        }
        Ok(())
    }
    /// `names`: the variables that have to be in the model (None: those known now).
    pub fn model(&mut self, m: &[i32], known: &BTreeSet<i32>, optional: &BTreeSet<i32>) -> Result<(), String> {
        let mut seen = BTreeSet::new();
        for &l in m {
            if !seen.insert(l.abs()) {
                return Err(format!("model {m:?} mentions variable {} twice", l.abs()));
            }
            if !known.contains(&l.abs()) && !optional.contains(&l.abs()) {
                return Err(format!("model {m:?} mentions variable {} which is not in use", l.abs()));
            }
        }
        for v in known {
            if !seen.contains(v) {
                return Err(format!("model {m:?} misses variable {v}"));
            }
        }
        for l in &self.assumptions {
            if !m.contains(l) {
                return Err(format!("model {m:?} violates assumption {l}"));
            }
        }
        let m: Vec<i32> = m.iter().cloned().filter(|l| known.contains(&l.abs())).collect();
        self.worlds.retain(|w| w.sat(&m));
        if self.worlds.is_empty() {
            return Err(format!("model {m:?} does not satisfy the clauses"));
        }
        Ok(())
    }
    pub fn known(&self) -> BTreeSet<i32> {
        self.modes.keys().cloned().collect()
    }
    pub fn fingerprint(&self) -> u64 {
        let w: Vec<_> = self.worlds.iter().take(1).map(|w| {
            let mut c = w.cls.clone();
            c.sort();
            c.dedup();
            (c, w.map.clone())
        }).collect();
        let mut a = self.assumptions.clone();
        a.sort();
        fp(&(w, a, self.modes.iter().map(|(k, m)| (*k, *m as u8)).collect::<Vec<_>>(), self.dead))
    }
}

/// Write end shared with the harness.
#[derive(Clone, Default)]
pub struct Buf(pub Rc<RefCell<Vec<u8>>>);
impl io::Write for Buf {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Verdict(bool),
    Model(Option<Vec<i32>>),
    Core(Option<Vec<i32>>),
    New(Vec<i32>),
    Skipped,
}

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Setup {
    pub self_check: bool,
    pub format: Option<ProofFormat>,
    pub cfg: Cfg,
    /// Skip reference checks (used for long comparisons between runs).
    pub no_reference: bool,
}

#[derive(Default)]
pub struct Outcome {
    pub obs: Vec<Obs>,
    pub proof: Vec<u8>,
    /// Clauses added before the first solve call, in order.
    pub initial: Vec<Cl>,
    /// Operations that were left out as they would be misuse.
    pub skipped: Vec<usize>,
}

/// Dimacs text of a clause list (written by the harness, not by the code under test).
pub fn dimacs_text(cls: &[Cl], vars: usize) -> String {
    let mut s = format!("p cnf {} {}\n", vars, cls.len());
    for c in cls {
        for l in c {
            s.push_str(&format!("{l} "));
        }
        s.push_str("0\n");
    }
    s
}

thread_local! {
    /// Bytes per read call when DIMACS text is handed over (0: all at once).
    pub static CHUNK: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub fn run<'p>(
    ops: &[Op],
    setup: Setup,
    processors: Vec<&'p mut dyn ProofProcessor>,
    rec: &mut Rec,
) -> Result<Outcome, String> {
    log::warn!("{:?} {:?}", ops, setup);
    let mut out = Outcome::default();
    let buf = Buf::default();
    let mut reference = RefModel::new();
    {
        let mut solver: Solver<'p> = Solver::new();
        if !setup.cfg.is_default() {
            solver.config(&setup.cfg.update()).map_err(|e| format!("config rejected: {e}"))?;
        }
        if setup.self_check {
            solver.enable_self_checking();
        }
        for p in processors {
            solver.add_proof_processor(p);
        }
        if let Some(f) = setup.format {
            solver.write_proof(buf.clone(), f);
        }
        let mut invoked = false;
        // last answer: None unknown
        let mut last: Option<bool> = None;
        rec.eval();
        for (k, op) in ops.iter().enumerate() {
            let fail = |e: String| format!("step {k} {op:?} of {ops:?} [{setup:?}]: {e}");
            rec.step();
            if matches!(op, Op::NewVar | Op::Hide(_) | Op::Witness(_) | Op::Sample(_) | Op::Observe) {
                // a solver that knows the clauses to be contradictory does not track names anymore
                reference.set_dead_if_unsat();
            }
            match op {
                Op::Clause(c) => {
                    if !reference.can_constrain(c) {
                        out.obs.push(Obs::Skipped);
                        out.skipped.push(k);
                        continue;
                    }
                    solver.add_clause(&lits(c));
                    reference.clause(c);
                    if !invoked {
                        out.initial.push(c.clone());
                    }
                    if last == Some(true) {
                        last = None;
                    }
                }
                Op::Formula(f) | Op::Dimacs(f) => {
                    if !f.iter().all(|c| reference.can_constrain(c)) {
                        out.obs.push(Obs::Skipped);
                        out.skipped.push(k);
                        continue;
                    }
                    if let Op::Formula(_) = op {
                        solver.add_formula(&formula(f));
                    } else {
                        let t = dimacs_text(f, crate::refsat::max_var(f));
                        let mut source = crate::props::c11::Source::new(t.as_bytes());
                        match CHUNK.get() {
                            0 => (),
                            n => {
                                source.chunk = n;
                                source.interrupt = n % 2 == 0;
                            }
                        }
                        solver.add_dimacs_cnf(source).map_err(|e| fail(format!("{e}")))?;
                    }
                    for c in f {
                        reference.clause(c);
                        if !invoked {
                            out.initial.push(c.clone());
                        }
                    }
                    if !f.is_empty() && last == Some(true) {
                        last = None;
                    }
                }
                Op::Assume(a) => {
                    if !reference.can_constrain(a) {
                        out.obs.push(Obs::Skipped);
                        out.skipped.push(k);
                        continue;
                    }
                    solver.assume(&lits(a));
                    reference.assume(a);
                    last = None;
                }
                Op::Config(c) => {
                    solver.config(&c.update()).map_err(|e| fail(format!("config rejected: {e}")))?;
                }
                Op::NewVar => {
                    let v = solver.new_var();
                    reference.new_name(v.to_dimacs() as i32).map_err(fail)?;
                    out.obs.push(Obs::New(vec![v.to_dimacs() as i32]));
                }
                Op::Hide(v) | Op::Witness(v) | Op::Sample(v) => {
                    if reference.assumed(*v) {
                        out.obs.push(Obs::Skipped);
                        out.skipped.push(k);
                        continue;
                    }
                    match op {
                        Op::Hide(_) => {
                            solver.hide_var(var(*v));
                            reference.hide(*v);
                        }
                        Op::Witness(_) => {
                            solver.witness_var(var(*v));
                            reference.set_mode(*v, Mode::Witness);
                        }
                        _ => {
                            solver.sample_var(var(*v));
                            reference.set_mode(*v, Mode::Sample);
                        }
                    }
                }
                Op::Observe => {
                    let names: Vec<i32> =
                        solver.observe_internal_vars().iter().map(|v| v.to_dimacs() as i32).collect();
                    reference.observe(&names).map_err(fail)?;
                    out.obs.push(Obs::New(names));
                }
                Op::CloseProof => solver.close_proof().map_err(|e| fail(format!("{e}")))?,
                Op::Solve => {
                    invoked = true;
                    let r = solver.solve().map_err(|e| fail(format!("solve() failed: {e}")))?;
                    out.obs.push(Obs::Verdict(r));
                    rec.outcome(if r { "sat" } else { "unsat" });
                    if !setup.no_reference {
                        reference.verdict(r).map_err(fail)?;
                    }
                    last = Some(r);
                }
                Op::Query => (),
            }
            if matches!(op, Op::Solve | Op::Query | Op::NewVar | Op::Hide(_) | Op::Witness(_) | Op::Sample(_) | Op::Observe | Op::Clause(_) | Op::Assume(_) | Op::Formula(_)) {
                let model = solver.model().map(|m| ints(&m));
                let core = solver.failed_core().map(ints);
                out.obs.push(Obs::Model(model.clone()));
                out.obs.push(Obs::Core(core.clone()));
                match last {
                    Some(true) => {
                        let m = model.ok_or_else(|| fail("model() is None after solve() returned true".into()))?;
                        if core.is_some() {
                            return Err(fail("failed_core() is Some after solve() returned true".into()));
                        }
                        if !setup.no_reference {
                            let now = reference.known();
                            reference.model(&m, &now, &BTreeSet::new()).map_err(fail)?;
                        }
                    }
                    Some(false) => {
                        if model.is_some() {
                            return Err(fail("model() is Some after solve() returned false".into()));
                        }
                        let c = core.ok_or_else(|| fail("failed_core() is None after solve() returned false".into()))?;
                        if !setup.no_reference {
                            reference.core(&c).map_err(fail)?;
                        }
                        if c.is_empty() {
                            rec.outcome("empty core");
                        } else {
                            rec.outcome("core");
                        }
                    }
                    None => {
                        if let Some(m) = model {
                            return Err(fail(format!("model() is {m:?} although solve() has not answered")));
                        }
                        if let Some(c) = core {
                            if !setup.no_reference {
                                reference.core(&c).map_err(fail)?;
                            }
                        }
                    }
                }
            }
            rec.state(reference.fingerprint());
        }
        if setup.format.is_some() {
            solver.close_proof().map_err(|e| format!("close_proof() failed: {e}"))?;
        }
        rec.trace();
    }
    out.proof = Rc::try_unwrap(buf.0).map(|b| b.into_inner()).unwrap_or_else(|b| b.borrow().clone());
    Ok(out)
}

pub fn run_plain(ops: &[Op], setup: Setup, rec: &mut Rec) -> CaseResult {
    run(ops, setup, vec![], rec).map(|_| ())
}
