//! Monitors for what a checker tells the outside world: transcripts and processed steps.
use crate::hist::{ints, Mode, RefModel};
use crate::proofs::{norm, tautology};
use crate::refsat::Cl;
use std::collections::{BTreeMap, BTreeSet};
use varisat_checker::{
    CheckedProofStep, CheckedSamplingMode, CheckerData, ProofProcessor, ProofTranscriptProcessor, ProofTranscriptStep,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Witness(i32),
    Sample(i32),
    Hide(i32),
    Observe(i32),
    Add(Cl),
    Unsat,
    Model(Cl),
    Assume(Cl),
    Failed(Cl),
}

/// Collects a transcript.
#[derive(Default)]
pub struct Transcript {
    pub events: Vec<Event>,
}

impl ProofTranscriptProcessor for Transcript {
    fn process_step(&mut self, step: &ProofTranscriptStep) -> Result<(), anyhow::Error> {
        let v = |v: &varisat::Var| v.to_dimacs() as i32;
        self.events.push(match step {
            ProofTranscriptStep::WitnessVar { var } => Event::Witness(v(var)),
            ProofTranscriptStep::SampleVar { var } => Event::Sample(v(var)),
            ProofTranscriptStep::HideVar { var } => Event::Hide(v(var)),
            ProofTranscriptStep::ObserveInternalVar { var } => Event::Observe(v(var)),
            ProofTranscriptStep::AddClause { clause } => Event::Add(ints(clause)),
            ProofTranscriptStep::Unsat => Event::Unsat,
            ProofTranscriptStep::Model { assignment } => Event::Model(ints(assignment)),
            ProofTranscriptStep::Assume { assumptions } => Event::Assume(ints(assumptions)),
            ProofTranscriptStep::FailedAssumptions { failed_core } => Event::Failed(ints(failed_core)),
        });
        Ok(())
    }
}

/// Judge one claim of a transcript. The transcript's own clause events are the clauses.
pub fn judge_event(r: &mut RefModel, e: &Event) -> Result<(), String> {
    match e {
        Event::Add(c) => r.clause(c),
        Event::Assume(a) => r.assume(a),
        Event::Witness(v) => r.set_mode(*v, Mode::Witness),
        Event::Sample(v) => r.set_mode(*v, Mode::Sample),
        Event::Hide(v) => r.hide(*v),
        Event::Observe(v) => r.observe_loose(*v),
        Event::Unsat => {
            let a = std::mem::take(&mut r.assumptions);
            let ok = r.verdict(false);
            r.assumptions = a;
            ok.map_err(|_| "the clauses are satisfiable".to_string())?;
        }
        Event::Model(m) => r.partial_model(m)?,
        Event::Failed(c) => {
            for l in c {
                r.touch(l.abs());
            }
            r.core(c)?
        }
    }
    Ok(())
}

/// Judge every claim of a transcript.
pub fn judge_transcript(events: &[Event]) -> Result<RefModel, String> {
    let mut r = RefModel::new();
    for (k, e) in events.iter().enumerate() {
        judge_event(&mut r, e).map_err(|m| format!("transcript event {k} {e:?}: {m}"))?;
    }
    Ok(r)
}

/// One step as seen by a processor, with user names resolved at that moment.
#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    User(i32, Option<(i32, bool, bool)>),
    Add(u64, Cl),
    Dup(u64, u64, Cl),
    Taut(u64, Cl),
    At(u64, bool, Cl, Vec<u64>),
    Del(u64, Cl),
    DelAt(u64, bool, Cl, Vec<u64>),
    DelRat(u64, bool, Cl, i32),
    Irred(u64, Cl),
    Model(Cl),
    Assume(Cl),
    Failed(Cl, Vec<u64>),
}

/// Checks the step sequence given to a processor for self-consistency.
#[derive(Default)]
pub struct ProcMonitor {
    pub seen: Vec<Seen>,
    pub problem: Option<String>,
    next: u64,
    /// id -> (literals, redundant)
    pub live: BTreeMap<u64, (Cl, bool)>,
    assumptions: Vec<i32>,
    /// proof variable -> user variable, for variables with an explicit mapping
    map: BTreeMap<i32, i32>,
    /// variables that were hidden
    hidden: BTreeSet<i32>,
    pub derived_empty: bool,
    /// require consecutive ids for original clauses that arrive before anything is derived
    pub derived: bool,
}

fn strict_hints(clause: &[i32], hints: &[u64], live: &BTreeMap<u64, (Cl, bool)>) -> Result<(), String> {
    let mut val: BTreeMap<i32, bool> = BTreeMap::new();
    for &l in clause {
        val.insert(l.abs(), l < 0);
    }
    for (k, h) in hints.iter().enumerate() {
        let (c, _) = live.get(h).ok_or_else(|| format!("propagation {h} is not a live clause"))?;
        let mut open = vec![];
        for &l in c {
            match val.get(&l.abs()) {
                Some(&v) if v == (l > 0) => return Err(format!("propagation {h} {c:?} is satisfied")),
                Some(_) => (),
                None => open.push(l),
            }
        }
        match open[..] {
            [] => {
                return if k + 1 == hints.len() {
                    Ok(())
                } else {
                    Err(format!("conflict in {h}, which is not the last propagation"))
                };
            }
            [l] => {
                val.insert(l.abs(), l > 0);
            }
            _ => return Err(format!("propagation {h} {c:?} does not become unit")),
        }
    }
    Err("no conflict after the propagations".into())
}

impl ProcMonitor {
    fn fail(&mut self, s: &Seen, m: String) {
        if self.problem.is_none() {
            self.problem = Some(format!("processed step {} {s:?}: {m}", self.seen.len() - 1));
        }
    }
    fn canonical(c: &[i32]) -> bool {
        // sorted by variable, negative after positive as in the literal codes
        c.windows(2).all(|w| {
            let k = |l: i32| (l.abs(), l < 0);
            k(w[0]) < k(w[1])
        })
    }
    fn handle(&mut self, s: &Seen, name: &dyn Fn(i32) -> Option<i32>) -> Result<(), String> {
        let fresh = |next: u64, id: u64| {
            if id < next {
                Err(format!("id {id} is not new (next is {next})"))
            } else {
                Ok(())
            }
        };
        if let Seen::Add(_, c) | Seen::Dup(_, _, c) | Seen::Taut(_, c) | Seen::At(_, _, c, _) | Seen::Del(_, c) | Seen::DelAt(_, _, c, _) | Seen::Irred(_, c) | Seen::Assume(c) | Seen::Failed(c, _) = s {
            if !Self::canonical(c) {
                return Err("literals are not sorted and free of duplicates".into());
            }
        }
        if let Seen::Add(_, c) | Seen::Dup(_, _, c) | Seen::At(_, _, c, _) | Seen::Irred(_, c) = s {
            if tautology(c) {
                return Err("a tautology is treated as a clause".into());
            }
        }
        match s {
            Seen::User(v, u) => match u {
                Some((u, witness, new)) => {
                    if *new {
                        if self.map.contains_key(v) {
                            return Err("variable already has a user name".into());
                        }
                        if self.map.values().any(|x| x == u) {
                            return Err("user name is already in use".into());
                        }
                        self.map.insert(*v, *u);
                        self.hidden.remove(v);
                    } else if self.map.get(v) != Some(u) {
                        return Err(format!("user name differs from the mapping {:?}", self.map.get(v)));
                    }
                    let _ = witness;
                    if name(*v) != Some(*u) {
                        return Err(format!("checker data gives name {:?}", name(*v)));
                    }
                }
                None => {
                    if let Some(u) = self.map.remove(v) {
                        // still available while the step is processed
                        if name(*v) != Some(u) {
                            return Err(format!("name not available while hiding: {:?}", name(*v)));
                        }
                    }
                    self.hidden.insert(*v);
                }
            },
            Seen::Add(id, c) => {
                if !self.derived && *id != self.next {
                    return Err(format!("original clause has id {id}, expected {}", self.next));
                }
                fresh(self.next, *id)?;
                self.next = id + 1;
                self.names(c, name)?;
                self.live.insert(*id, (c.clone(), false));
            }
            Seen::Dup(id, same, c) => {
                if !self.derived && *id != self.next {
                    return Err(format!("original clause has id {id}, expected {}", self.next));
                }
                fresh(self.next, *id)?;
                self.next = id + 1;
                self.names(c, name)?;
                match self.live.get(same) {
                    Some((l, false)) if l == c => (),
                    x => return Err(format!("duplicate of {same} which is {x:?}")),
                }
            }
            Seen::Taut(id, c) => {
                if !self.derived && *id != self.next {
                    return Err(format!("original clause has id {id}, expected {}", self.next));
                }
                fresh(self.next, *id)?;
                self.next = id + 1;
                if !tautology(c) {
                    return Err("not a tautology".into());
                }
            }
            Seen::At(id, red, c, h) => {
                self.derived = true;
                fresh(self.next, *id)?;
                self.next = id + 1;
                strict_hints(c, h, &self.live)?;
                self.live.insert(*id, (c.clone(), *red));
                if c.is_empty() {
                    self.derived_empty = true;
                }
            }
            Seen::Del(id, c) => {
                match self.live.remove(id) {
                    Some((l, true)) if &l == c => (),
                    x => return Err(format!("redundant clause deleted, but {id} is {x:?}")),
                }
            }
            Seen::DelAt(id, keep, c, h) => {
                match self.live.remove(id) {
                    Some((l, false)) if &l == c => (),
                    x => return Err(format!("irredundant clause deleted, but {id} is {x:?}")),
                }
                let irr: BTreeMap<_, _> =
                    h.iter().filter_map(|i| self.live.get(i).filter(|x| !x.1).map(|x| (*i, x.clone()))).collect();
                strict_hints(c, h, &irr)?;
                if *keep {
                    self.live.insert(*id, (c.clone(), true));
                }
            }
            Seen::DelRat(id, keep, c, pivot) => {
                if *keep {
                    return Err("kept".into());
                }
                match self.live.remove(id) {
                    Some((l, false)) if &l == c => (),
                    x => return Err(format!("irredundant clause deleted, but {id} is {x:?}")),
                }
                if !c.contains(pivot) {
                    return Err("the pivot is not in the clause".into());
                }
                if name(pivot.abs()).is_some() {
                    return Err("the pivot is not hidden".into());
                }
                if let Some((i, x)) = self.live.iter().find(|(_, x)| x.0.contains(&-pivot)) {
                    return Err(format!("clause {i} {x:?} contains the negated pivot"));
                }
            }
            Seen::Irred(id, c) => {
                match self.live.get_mut(id) {
                    Some((l, r)) if l == c && *r => *r = false,
                    x => return Err(format!("made irredundant, but {id} is {x:?}")),
                }
            }
            Seen::Model(m) => {
                for l in m {
                    if m.contains(&-l) {
                        return Err(format!("contradictory literal {l}"));
                    }
                }
                if self.derived_empty {
                    return Err("model after the empty clause".into());
                }
                for (c, _) in self.live.values() {
                    // units may be left out of a partial assignment, but not be violated
                    if !c.iter().any(|l| m.contains(l)) && !(c.len() == 1 && !m.contains(&-c[0])) {
                        return Err(format!("clause {c:?} is not satisfied"));
                    }
                }
                for l in &self.assumptions {
                    if !m.contains(l) {
                        return Err(format!("assumption {l} is not satisfied"));
                    }
                }
            }
            Seen::Assume(a) => {
                self.names(a, name)?;
                self.assumptions = a.clone();
            }
            Seen::Failed(c, h) => {
                for l in c {
                    if !self.assumptions.contains(l) {
                        return Err(format!("{l} is not assumed"));
                    }
                }
                if !tautology(c) {
                    let neg: Vec<i32> = c.iter().map(|l| -l).collect();
                    strict_hints(&neg, h, &self.live)?;
                }
            }
        }
        Ok(())
    }
    fn names(&self, c: &[i32], name: &dyn Fn(i32) -> Option<i32>) -> Result<(), String> {
        for l in c {
            match (name(l.abs()), self.map.get(&l.abs())) {
                (None, _) => return Err(format!("variable {} has no user name", l.abs())),
                (Some(a), Some(b)) if a != *b => return Err(format!("variable {} is named {a}, but was mapped to {b}", l.abs())),
                _ => (),
            }
        }
        Ok(())
    }
    pub fn done(&self) -> Result<(), String> {
        match &self.problem {
            Some(p) => Err(p.clone()),
            None => Ok(()),
        }
    }
    /// Clauses currently live, normalised.
    pub fn clauses(&self) -> Vec<Cl> {
        self.live.values().map(|x| norm(&x.0)).collect()
    }
}

pub fn seen(step: &CheckedProofStep) -> Seen {
    let v = |v: &varisat::Var| v.to_dimacs() as i32;
    match step {
        CheckedProofStep::UserVar { var, user_var } => Seen::User(
            v(var),
            user_var.as_ref().map(|u| (v(&u.user_var), matches!(u.sampling_mode, CheckedSamplingMode::Witness), u.new_var)),
        ),
        CheckedProofStep::AddClause { id, clause } => Seen::Add(*id, ints(clause)),
        CheckedProofStep::DuplicatedClause { id, same_as_id, clause } => Seen::Dup(*id, *same_as_id, ints(clause)),
        CheckedProofStep::TautologicalClause { id, clause } => Seen::Taut(*id, ints(clause)),
        CheckedProofStep::AtClause { id, redundant, clause, propagations } => Seen::At(*id, *redundant, ints(clause), propagations.to_vec()),
        CheckedProofStep::DeleteClause { id, clause } => Seen::Del(*id, ints(clause)),
        CheckedProofStep::DeleteAtClause { id, keep_as_redundant, clause, propagations } => {
            Seen::DelAt(*id, *keep_as_redundant, ints(clause), propagations.to_vec())
        }
        CheckedProofStep::DeleteRatClause { id, keep_as_redundant, clause, pivot, .. } => {
            Seen::DelRat(*id, *keep_as_redundant, ints(clause), pivot.to_dimacs() as i32)
        }
        CheckedProofStep::MakeIrredundant { id, clause } => Seen::Irred(*id, ints(clause)),
        CheckedProofStep::Model { assignment } => Seen::Model(ints(assignment)),
        CheckedProofStep::Assumptions { assumptions } => Seen::Assume(ints(assumptions)),
        CheckedProofStep::FailedAssumptions { failed_core, propagations } => Seen::Failed(ints(failed_core), propagations.to_vec()),
    }
}

/// Only keeps what it is shown.
#[derive(Default)]
pub struct Keep(pub Vec<Seen>);

impl ProofProcessor for Keep {
    fn process_step(&mut self, step: &CheckedProofStep, _: CheckerData) -> Result<(), anyhow::Error> {
        self.0.push(seen(step));
        Ok(())
    }
}

impl ProofProcessor for ProcMonitor {
    fn process_step(&mut self, step: &CheckedProofStep, data: CheckerData) -> Result<(), anyhow::Error> {
        let s = seen(step);
        self.seen.push(s.clone());
        let name = |v: i32| data.user_from_proof_var(crate::hist::var(v)).map(|u| u.to_dimacs() as i32);
        if let Err(m) = self.handle(&s, &name) {
            self.fail(&s, m);
        }
        Ok(())
    }
}
