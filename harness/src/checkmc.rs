//! Explicit-state exploration of the proof checker: every step of an alphabet is offered in every
//! reached state; accepted steps lead on. States are merged by a reference state.
use crate::engine::*;
use crate::hist::{lits, var};
use crate::monitor::*;
use crate::proofs::{norm, tautology};
use crate::refsat::Cl;
use crate::steps::Step;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use varisat::Var;
use varisat_checker::internal::SelfChecker;
use varisat_checker::Checker;
use varisat_internal_proof::{lit_code_hash, lit_hash};

/// What the checker's further behaviour depends on.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct RefState {
    /// non-unit clauses with irredundant and redundant counts
    pub cls: BTreeMap<Cl, [u32; 2]>,
    pub units: BTreeSet<i32>,
    pub unsat: bool,
    pub prev: Option<Cl>,
    pub assume: Option<Cl>,
    /// global -> (user name, mode: 0 sample 1 witness 2 hidden)
    pub vars: BTreeMap<i32, (Option<i32>, u8)>,
    pub solver: BTreeMap<i32, i32>,
    pub buffered: Vec<(i32, Option<i32>)>,
    pub bits: u32,
}

impl RefState {
    pub fn new() -> RefState {
        RefState {
            cls: BTreeMap::new(),
            units: BTreeSet::new(),
            unsat: false,
            prev: None,
            assume: None,
            vars: BTreeMap::new(),
            solver: BTreeMap::new(),
            buffered: vec![],
            bits: 64,
        }
    }
    pub fn add(&mut self, c: &[i32], red: bool) {
        if self.unsat && !red {
            // original clauses are ignored now; derived ones are not, see `step`
        }
        let n = norm(c);
        if tautology(&n) {
            return;
        }
        match n[..] {
            [] => self.unsat = true,
            [l] => {
                if self.units.contains(&-l) {
                    self.unsat = true;
                }
                self.units.insert(l);
            }
            _ => self.cls.entry(n).or_default()[red as usize] += 1,
        }
    }
    pub fn step(&mut self, s: &Step) {
        match s {
            Step::SolverName(g, n) => self.buffered.push((*g, *n)),
            Step::UserName(g, u) => {
                let e = self.vars.entry(*g).or_insert((None, 0));
                match u {
                    Some(u) => e.0 = Some(*u),
                    None => *e = (None, 2),
                }
            }
            Step::DeleteVar(v) => {
                self.vars.remove(v);
                self.units.retain(|l| l.abs() != *v);
            }
            Step::Mode(v, s) => {
                let e = self.vars.entry(*v).or_insert((None, 0));
                e.1 = !*s as u8;
            }
            Step::Add(c) => {
                if !self.unsat {
                    self.add(c, false)
                }
            }
            Step::At(r, c, _) => {
                self.flush_names();
                self.add(c, *r);
                if !*r {
                    self.prev = Some(norm(c));
                }
            }
            Step::Units(u) => {
                self.flush_names();
                for (l, _) in u {
                    self.add(&[*l], false);
                }
            }
            Step::Delete(c, p) => {
                self.prev = None;
                let n = norm(c);
                if let Some(e) = self.cls.get_mut(&n) {
                    let e2 = &mut e[(*p == 0) as usize];
                    *e2 = e2.saturating_sub(1);
                    if *e == [0, 0] {
                        self.cls.remove(&n);
                    }
                }
            }
            Step::Bits(b) => {
                self.bits = *b;
                self.flush_names();
                self.buffered.clear();
            }
            Step::Assume(a) => self.assume = Some(norm(a)),
            Step::Failed(..) => self.flush_names(),
            Step::Model(_) | Step::End => (),
        }
    }
    fn flush_names(&mut self) {
        if self.buffered.iter().any(|x| x.1.is_some()) {
            let b = std::mem::take(&mut self.buffered);
            for (g, s) in b {
                match s {
                    Some(s) => self.solver.insert(g, s),
                    None => self.solver.remove(&g),
                };
            }
        }
    }
    pub fn hash(&self, c: &[i32]) -> u64 {
        let mut s = self.clone();
        s.flush_names();
        let mut h = 0;
        for &l in c {
            let lit = crate::hist::lit(l);
            h ^= match s.solver.get(&l.abs()) {
                Some(&v) => lit_hash(var(v).lit(l > 0)),
                None => lit_code_hash(lit.code() + Var::max_count() * 2),
            };
        }
        h >> (64 - s.bits.clamp(1, 64))
    }
    pub fn hashes(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self.cls.keys().map(|c| self.hash(c)).collect();
        v.sort();
        v.dedup();
        v
    }
}

/// All clauses over `n` variables in canonical order with at most `max` literals.
pub fn all_clauses(n: usize, max: usize) -> Vec<Cl> {
    let mut out = vec![];
    for k in 0..pow(3, n) {
        let mut d = Digits(k);
        let mut c = vec![];
        for v in 1..=n as i32 {
            match d.take(3) {
                1 => c.push(v),
                2 => c.push(-v),
                _ => (),
            }
        }
        if c.len() <= max {
            out.push(c);
        }
    }
    out.sort_by_key(|c| c.len());
    out
}

#[derive(Clone)]
pub struct Alphabet {
    pub n: usize,
    pub derive: bool,
    pub hint_len: usize,
    pub max_clause: usize,
    pub delete: bool,
    pub claims: bool,
    pub names: bool,
    pub bits: Vec<u32>,
    pub add: bool,
    /// replaces the clause pool
    pub pool: Option<Vec<Cl>>,
    /// replaces the pool of claims
    pub claim_pool: Option<Vec<Cl>>,
}

impl Alphabet {
    fn seqs(&self, hashes: &[u64]) -> Vec<Vec<u64>> {
        let mut out: Vec<Vec<u64>> = vec![vec![]];
        let mut last: Vec<Vec<u64>> = vec![vec![]];
        for _ in 0..self.hint_len {
            let mut next = vec![];
            for s in &last {
                for h in hashes {
                    if s.last() != Some(h) {
                        let mut t = s.clone();
                        t.push(*h);
                        next.push(t);
                    }
                }
            }
            out.extend(next.iter().cloned());
            last = next;
        }
        out.push(vec![0x5555_5555_5555_5555]);
        if let Some(h) = hashes.first() {
            out.push(vec![*h, *h]);
        }
        out
    }
    pub fn steps(&self, s: &RefState) -> Vec<Step> {
        let n = self.n as i32;
        let mut out = vec![];
        let clauses = self.pool.clone().unwrap_or_else(|| all_clauses(self.n, self.max_clause));
        let hashes = s.hashes();
        let seqs = self.seqs(&hashes);
        if self.derive {
            for c in clauses.iter().chain([vec![1, -1], vec![2, 2]].iter()) {
                for h in &seqs {
                    out.push(Step::At(false, c.clone(), h.clone()));
                    out.push(Step::At(true, c.clone(), h.clone()));
                }
            }
            for v in 1..=n {
                for l in [v, -v] {
                    for h in &hashes {
                        out.push(Step::Units(vec![(l, *h)]));
                        for w in 1..=n {
                            for m in [w, -w] {
                                out.push(Step::Units(vec![(l, *h), (m, hashes[0])]));
                                out.push(Step::Units(vec![(l, *h), (m, *hashes.last().unwrap())]));
                            }
                        }
                    }
                }
            }
        }
        if self.delete {
            for c in &clauses {
                for p in 0..3 {
                    out.push(Step::Delete(c.clone(), p));
                }
            }
            out.push(Step::Delete(vec![1, -1], 2));
        }
        if self.add {
            for c in &clauses {
                out.push(Step::Add(c.clone()));
            }
            out.push(Step::Add(vec![1, -1]));
        }
        if self.claims {
            for c in self.claim_pool.clone().unwrap_or_else(|| all_clauses(self.n, self.n)) {
                out.push(Step::Model(c.clone()));
                out.push(Step::Assume(c.clone()));
                for h in &seqs {
                    out.push(Step::Failed(c.clone(), h.clone()));
                }
            }
            out.push(Step::Model(vec![1, -1]));
            out.push(Step::Assume(vec![1, -1]));
            out.push(Step::Failed(vec![1, -1], vec![]));
            out.push(Step::Failed(vec![1, -1, 2], vec![]));
        }
        for b in &self.bits {
            if *b != s.bits {
                out.push(Step::Bits(*b));
            }
        }
        if self.names {
            for v in 1..=n {
                out.push(Step::DeleteVar(v));
                out.push(Step::Mode(v, false));
                out.push(Step::Mode(v, true));
                out.push(Step::UserName(v, None));
                for u in 1..=n {
                    out.push(Step::UserName(v, Some(u)));
                }
                out.push(Step::SolverName(v, None));
                out.push(Step::SolverName(v, Some(v % n + 1)));
            }
        }
        out
    }
}

pub enum Judge {
    /// claims of the transcript (C08)
    Claims,
    /// consistency of the processed steps (C09)
    Processed,
}

struct Reached {
    path: Vec<Step>,
    state: RefState,
}

fn replay(initial: &[Cl], path: &[Step], judge: &Judge, tr: &mut Transcript, pm: &mut ProcMonitor, finish: bool) -> Result<(), String> {
    let mut c = Checker::new();
    match judge {
        Judge::Claims => c.add_transcript(tr),
        Judge::Processed => {
            c.add_processor(pm);
            c.add_transcript(tr);
        }
    }
    for cl in initial {
        c.add_clause(&lits(cl)).map_err(|e| format!("clause: {e}"))?;
    }
    for s in path {
        s.apply(&mut c).map_err(|e| format!("{e}"))?;
    }
    if finish {
        c.self_check_delayed_steps().map_err(|e| format!("{e}"))?;
    }
    Ok(())
}

/// Explore everything reachable from `initial` within `depth` accepted steps.
pub fn explore_checker(initial: &[Cl], prefix: &[Step], alphabet: &Alphabet, depth: usize, judge: Judge, rec: &mut Rec) -> CaseResult {
    let mut start = RefState::new();
    for c in initial {
        if !start.unsat {
            start.add(c, false);
        }
    }
    for s in prefix {
        start.step(s);
    }
    let mut seen: HashSet<u64> = HashSet::new();
    seen.insert(fp(&start));
    let mut frontier = vec![Reached { path: prefix.to_vec(), state: start }];
    for level in 0..=depth {
        let mut next = vec![];
        for r in &frontier {
            rec.state(fp(&(initial, &r.state)));
            conclude(initial, &r.path, &judge, rec)?;
            if level == depth {
                continue;
            }
            let mut path = r.path.clone();
            for step in alphabet.steps(&r.state) {
                rec.step();
                rec.eval();
                path.truncate(r.path.len());
                path.push(step.clone());
                let (mut tr, mut pm) = (Transcript::default(), ProcMonitor::default());
                let res = catch(|| replay(initial, &path, &judge, &mut tr, &mut pm, false))
                    .map_err(|e| format!("checker panicked: {e}: formula {initial:?} steps {path:?}"))?;
                let ctx = |e: String| format!("{e}: formula {initial:?} steps {path:?}");
                // what was reported before a rejection counts as well
                match judge {
                    Judge::Claims => drop(judge_transcript(&tr.events).map_err(ctx)?),
                    Judge::Processed => pm.done().map_err(ctx)?,
                }
                if res.is_err() {
                    rec.outcome("rejected");
                    continue;
                }
                rec.outcome("accepted");
                let mut state = r.state.clone();
                state.step(&step);
                if seen.insert(fp(&state)) {
                    next.push(Reached { path: path.clone(), state });
                }
            }
        }
        frontier = next;
    }
    Ok(())
}

/// End the proof here, both step by step and from the encoded file.
fn conclude(initial: &[Cl], path: &[Step], judge: &Judge, rec: &mut Rec) -> CaseResult {
    let ctx = |e: String| format!("{e}: formula {initial:?} steps {path:?} end");
    let (mut tr, mut pm) = (Transcript::default(), ProcMonitor::default());
    catch(|| replay(initial, path, judge, &mut tr, &mut pm, true))
        .map_err(|e| ctx(format!("checker panicked: {e}")))?
        .map_err(|e| ctx(format!("accepted steps are refused on replay: {e}")))?;
    judge_transcript(&tr.events).map_err(ctx)?;
    pm.done().map_err(ctx)?;
    let mut bytes = vec![];
    for s in path {
        s.write(&mut bytes);
    }
    Step::End.write(&mut bytes);
    let mut tr2 = Transcript::default();
    let mut c = Checker::new();
    c.add_transcript(&mut tr2);
    c.add_formula(&crate::hist::formula(initial)).map_err(|e| ctx(format!("{e}")))?;
    catch(|| c.check_proof(&bytes[..]))
        .map_err(|e| ctx(format!("checker panicked on the file: {e}")))?
        .map_err(|e| ctx(format!("the file is refused: {e}")))?;
    drop(c);
    judge_transcript(&tr2.events).map_err(ctx)?;
    // conflicting unit clauses count as soon as the formula is complete, which a file makes clear
    let other = |t: &Transcript| t.events.iter().filter(|e| **e != Event::Unsat).cloned().collect::<Vec<_>>();
    let unsat = |t: &Transcript| t.events.contains(&Event::Unsat);
    if other(&tr) != other(&tr2) || unsat(&tr) != unsat(&tr2) {
        return Err(ctx(format!("transcripts differ: steps {:?}, file {:?}", tr.events, tr2.events)));
    }
    if tr.events.iter().any(|e| *e == Event::Unsat) {
        rec.outcome("unsat confirmed");
    }
    rec.trace();
    Ok(())
}
