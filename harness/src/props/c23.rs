//! C23: transcripts of checked histories.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::monitor::*;
use crate::proofs::{norm, tautology};
use crate::props::c01::{clauses_of_size, show, Suite};
use crate::refsat::*;
use std::collections::BTreeMap;
use varisat::ProofFormat;
use varisat_checker::{Checker, ProofProcessor};

/// Follows a transcript along the history it belongs to.
struct Follow<'a> {
    events: &'a [Event],
    at: usize,
    /// What the events so far say.
    said: RefModel,
    modes: BTreeMap<i32, Mode>,
    watermark: i32,
    unsat: bool,
    refuted: Option<(usize, bool)>,
    tests: u64,
}

impl<'a> Follow<'a> {
    fn next(&self) -> Option<&'a Event> {
        self.events.get(self.at)
    }
    fn advance(&mut self) -> CaseResult {
        let e = &self.events[self.at];
        judge_event(&mut self.said, e).map_err(|m| format!("event {} {e:?}: {m}", self.at))?;
        if *e == Event::Unsat {
            if self.unsat {
                return Err(format!("event {} lists the refutation again", self.at));
            }
            self.unsat = true;
        }
        self.at += 1;
        Ok(())
    }
    /// The refutation may be found as soon as the clauses are contradictory.
    fn early(&mut self) -> CaseResult {
        while self.next() == Some(&Event::Unsat) {
            self.advance()?;
        }
        Ok(())
    }
    /// Whether the clauses listed so far contradict each other.
    fn dead(&mut self) -> bool {
        if self.unsat || self.said.dead {
            return true;
        }
        if let Some((at, r)) = self.refuted {
            // only clauses change the answer
            if !self.events[at..self.at].iter().any(|e| matches!(e, Event::Add(_))) {
                return r;
            }
        }
        self.tests += 1;
        self.said.set_dead_if_unsat();
        self.refuted = Some((self.at, self.said.dead));
        self.said.dead
    }
    /// This event comes next. Once the clauses are contradictory it may be left out.
    fn expect(&mut self, e: Event, what: &str) -> CaseResult {
        self.early()?;
        if self.next() == Some(&e) {
            self.advance()?;
        } else if !self.dead() {
            return Err(format!("{what}: expected event {} {e:?}, found {:?}", self.at, self.next()));
        }
        self.early()
    }
    fn optional(&mut self, e: Event) -> CaseResult {
        if self.next() == Some(&e) {
            self.advance()?;
        }
        Ok(())
    }
    fn touch(&mut self, v: i32) {
        for u in self.watermark + 1..v {
            self.modes.insert(u, Mode::Sample);
        }
        self.modes.entry(v).or_insert(Mode::Sample);
        self.watermark = self.watermark.max(v);
    }
    fn mentions(&mut self, c: &[i32]) {
        for l in c {
            self.touch(l.abs());
        }
    }
}

/// The transcript agrees with the history.
fn follow(ops: &[Op], out: &Outcome, events: &[Event]) -> Result<u64, String> {
    let mut f = Follow {
        events,
        at: 0,
        said: RefModel::new(),
        modes: BTreeMap::new(),
        watermark: 0,
        unsat: false,
        refuted: None,
        tests: 0,
    };
    // the formula first
    let mut conflict = false;
    let mut units = vec![];
    for c in &out.initial {
        let n = norm(c);
        if conflict {
            // the checker does not look at the rest
            f.early()?;
            f.optional(Event::Add(n))?;
            continue;
        }
        f.expect(Event::Add(n.clone()), "clause of the formula")?;
        if !tautology(&n) {
            conflict |= n.is_empty() || n.len() == 1 && units.contains(&-n[0]);
            if n.len() == 1 {
                units.push(n[0]);
            }
        }
    }
    let mut started = false;
    let mut closed = false;
    // nothing asked since the last answer
    let mut again = false;
    let mut same_assumptions = false;
    let mut last: Option<Event> = None;
    let mut obs = out.obs.iter();
    for (k, op) in ops.iter().enumerate() {
        let skipped = out.skipped.contains(&k);
        if skipped {
            obs.next();
            continue;
        }
        let what = format!("step {k} {op:?}");
        match op {
            Op::Clause(_) | Op::Formula(_) | Op::Dimacs(_) => {
                let list = match op {
                    Op::Clause(c) => vec![c.clone()],
                    Op::Formula(f) | Op::Dimacs(f) => f.clone(),
                    _ => unreachable!(),
                };
                for c in list {
                    if started && !closed {
                        f.expect(Event::Add(norm(&c)), &what)?;
                    }
                    f.mentions(&c);
                    again = false;
                }
            }
            Op::Assume(a) => {
                if !closed {
                    f.expect(Event::Assume(norm(a)), &what)?;
                }
                f.mentions(a);
                again = false;
                same_assumptions = false;
            }
            Op::Witness(v) => {
                if f.modes.get(v) != Some(&Mode::Witness) {
                    if !closed {
                        f.expect(Event::Witness(*v), &what)?;
                    }
                } else if !closed && f.dead() {
                    f.optional(Event::Witness(*v))?;
                }
                f.touch(*v);
                f.modes.insert(*v, Mode::Witness);
            }
            Op::Sample(v) => {
                if f.modes.get(v) == Some(&Mode::Witness) {
                    if !closed {
                        f.expect(Event::Sample(*v), &what)?;
                    }
                } else if !closed && f.dead() {
                    f.optional(Event::Sample(*v))?;
                }
                f.touch(*v);
                f.modes.insert(*v, Mode::Sample);
            }
            Op::Hide(v) => {
                if !closed {
                    f.expect(Event::Hide(*v), &what)?;
                }
                f.touch(*v);
                f.modes.remove(v);
            }
            Op::Observe | Op::NewVar => {
                let Some(Obs::New(names)) = obs.next() else { return Err("harness: no names".into()) };
                for v in names {
                    if let Op::Observe = op {
                        if !closed {
                            f.expect(Event::Observe(*v), &what)?;
                        }
                        f.touch(*v);
                        f.modes.insert(*v, Mode::Witness);
                    } else {
                        f.touch(*v);
                    }
                }
            }
            Op::Solve => {
                started = true;
                let Some(Obs::Verdict(v)) = obs.next() else { return Err("harness: no verdict".into()) };
                let (Some(Obs::Model(model)), Some(Obs::Core(core))) = (obs.next(), obs.next()) else {
                    return Err("harness: no answer".into());
                };
                if closed {
                    continue;
                }
                f.early()?;
                if *v {
                    let model = model.clone().unwrap_or_default();
                    match f.next() {
                        Some(Event::Model(m)) => {
                            for l in m {
                                if !model.contains(l) {
                                    return Err(format!("{what}: event {} has the model {m:?}, the solver's is {model:?}", f.at));
                                }
                            }
                            // values not listed have to follow from unit clauses
                            for l in &model {
                                if !m.contains(l) && !f.said.worlds_imply(*l) {
                                    return Err(format!("{what}: event {} has the model {m:?}, which misses {l}", f.at));
                                }
                            }
                            f.advance()?;
                        }
                        _ if again => (),
                        x => return Err(format!("{what}: expected the model {model:?} as event {}, found {x:?}", f.at)),
                    }
                } else {
                    let core = core.clone().unwrap_or_default();
                    if core.is_empty() {
                        if !f.unsat {
                            return Err(format!("{what}: the refutation is not listed, event {} is {:?}", f.at, f.next()));
                        }
                    } else {
                        let e = Event::Failed(norm(&core));
                        if f.next() == Some(&e) {
                            f.advance()?;
                        } else if !again && !(same_assumptions && last.as_ref() == Some(&e)) {
                            return Err(format!("{what}: expected {e:?} as event {}, found {:?}", f.at, f.next()));
                        }
                        last = Some(e);
                    }
                }
                if *v {
                    last = None;
                }
                again = true;
                same_assumptions = true;
                continue;
            }
            Op::CloseProof => closed = true,
            Op::Config(_) | Op::Query => (),
        }
        if matches!(op, Op::Query | Op::NewVar | Op::Hide(_) | Op::Witness(_) | Op::Sample(_) | Op::Observe | Op::Clause(_) | Op::Assume(_) | Op::Formula(_)) {
            // model and core
            obs.next();
            obs.next();
        }
    }
    f.early()?;
    match f.next() {
        None => Ok(f.tests),
        Some(e) => Err(format!("event {} {e:?} belongs to nothing that was asked or answered", f.at)),
    }
}

fn transcribed(ops: &[Op], cfg: Cfg, reference: bool, rec: &mut Rec) -> CaseResult {
    let e = |m: String| format!("{m}: {ops:?} {cfg:?}");
    let setup = Setup { cfg, format: Some(ProofFormat::Varisat), no_reference: !reference, self_check: false };
    // names of the formula's clauses would be ambiguous
    let first = ops.iter().position(|o| *o == Op::Solve).unwrap_or(ops.len());
    if ops[..first].iter().any(|o| matches!(o, Op::Hide(_) | Op::Observe)) {
        rec.outcome("names change before the first solve");
        return Ok(());
    }
    let out = run(ops, setup, vec![], rec)?;
    let mut t1 = Transcript::default();
    let mut others: Vec<Transcript> = (0..3).map(|_| Transcript::default()).collect();
    let mut m = ProcMonitor::default();
    {
        let mut c = Checker::new();
        c.add_transcript(&mut t1);
        c.add_processor(&mut m as &mut dyn ProofProcessor);
        for t in &mut others {
            c.add_transcript(t);
        }
        for cl in &out.initial {
            c.add_clause(&lits(cl)).map_err(|x| e(format!("{x}")))?;
        }
        c.check_proof(&out.proof[..]).map_err(|x| e(format!("stored proof: {x}")))?;
    }
    if others.iter().any(|t| t1.events != t.events) {
        return Err(e("two transcripts differ".into()));
    }
    rec.nontrivial(fp(&(ops.len(), format!("{:?}", t1.events))));
    for x in &t1.events {
        rec.outcome(match x {
            Event::Witness(_) => "witness listed",
            Event::Sample(_) => "sample listed",
            Event::Hide(_) => "hide listed",
            Event::Observe(_) => "observe listed",
            Event::Add(_) => "clause listed",
            Event::Unsat => "refutation listed",
            Event::Model(_) => "model listed",
            Event::Assume(_) => "assumptions listed",
            Event::Failed(_) => "failed core listed",
        });
    }
    let listed: Vec<Event> = t1
        .events
        .iter()
        .map(|x| match x {
            Event::Add(c) => Event::Add(norm(c)),
            Event::Assume(c) => Event::Assume(norm(c)),
            Event::Failed(c) => Event::Failed(norm(c)),
            x => x.clone(),
        })
        .collect();
    follow(ops, &out, &listed).map_err(|x| e(format!("{x}; transcript {:?}", t1.events)))?;
    Ok(())
}

/// Changes of variable modes around answers.
fn mode_alphabet() -> Vec<Op> {
    vec![
        c(&[1, 2]),
        c(&[-1, 2, 3]),
        c(&[-3, -2]),
        c(&[3, -1]),
        c(&[2, 2, 1]),
        c(&[-2, 2]),
        a(&[-2]),
        a(&[3, 1, 3]),
        a(&[]),
        Op::Witness(1),
        Op::Sample(1),
        Op::Hide(1),
        Op::Witness(2),
        Op::Sample(2),
        Op::Hide(2),
        Op::Witness(5),
        Op::Hide(4),
        Op::Observe,
        Op::NewVar,
    ]
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let t = |a: usize, b: usize| if thorough { b } else { a };
    {
        let all: Vec<Cl> = clauses_of_size(3, 3).into_iter().chain(clauses_of_size(3, 2)).collect();
        let n = if thorough { 1u64 << 20 } else { 1 << 14 };
        fam.push(Family::new(
            "subsets of 3-variable clauses",
            "every subset of the 8 ternary and 6 (thorough 12) binary clauses",
            n,
            move |m, rec| {
                let f: Vec<Cl> = all.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                rec.sample(|| show(&f));
                transcribed(&[Op::Formula(f), Op::Solve], Cfg::default(), false, rec)
            },
        ));
    }
    {
        let pool: Vec<Cl> = vec![vec![], vec![1], vec![-1], vec![1, -1], vec![1, 1, 2], vec![2, 1], vec![-2], vec![-2, 1, -2], vec![-1, -2], vec![2]];
        let n = pool.len();
        let depth = t(4, 5);
        for at in 0..depth {
            let pool = pool.clone();
            fam.push(Family::new(
                format!("sequences of {depth} odd clauses, first solve after {at}"),
                format!("every sequence of {depth} of {n} clauses (empty, unit, duplicate, tautological, repeated literals)"),
                pow(n, depth),
                move |i, rec| {
                    let mut d = Digits(i);
                    let mut ops: Vec<Op> = (0..depth).map(|_| Op::Clause(pool[d.take(n)].clone())).collect();
                    ops.insert(at, Op::Solve);
                    ops.push(Op::Solve);
                    ops.push(Op::Solve);
                    transcribed(&ops, Cfg::default(), true, rec)
                },
            ));
        }
    }
    {
        let suite = Suite::new(formulas::medium());
        let cfgs = configs();
        let n = suite.f.len();
        let variants = t(1, formulas::VARIANTS);
        fam.push(Family::new(
            "structured formulas",
            format!("{n} formulas x {variants} variants x {} configurations", cfgs.len()),
            (n * variants * cfgs.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let v = d.take(variants);
                let v = if variants < formulas::VARIANTS { (v * 7 + c) % formulas::VARIANTS } else { v };
                let k = d.take(suite.f.len());
                let f = formulas::variant(&suite.f[k].cls, v);
                transcribed(&[Op::Formula(f), Op::Solve], cfgs[c], false, rec)
            },
        ));
    }
    let tr = |f: &HistFam| f.family(|ops, cfg, _, rec| transcribed(ops, cfg, true, rec));
    fam.push(tr(&words("core", core_alphabet(), t(3, 4), vec![])));
    fam.push(tr(&words("units", unit_alphabet(), t(3, 4), vec![Op::Solve])));
    fam.push(tr(&words("lifecycle", lifecycle_alphabet(), t(3, 4), vec![Op::Solve])));
    fam.push(tr(&words("modes", mode_alphabet(), t(3, 4), vec![])));
    fam.push(tr(&words("modes after solving", mode_alphabet(), t(3, 4), vec![Op::Formula(vec![vec![1, -3], vec![4, 2, -1]]), Op::Solve])));
    fam.push(tr(&words("refuted", refuted_alphabet(), t(3, 4), vec![Op::Solve])));
    fam.push(tr(&solved_words("reuse", reuse_alphabet(), t(4, 6))));
    fam.push(tr(&structured("structured", bases(true), hist_configs(), t(2, 3))));
    fam.push(tr(&bulk(thorough, if thorough { 4 } else { 3 })));
    fam.push(tr(&scaled(thorough, 2)));
    fam.push(tr(&long(thorough)));
    Check {
        id: "C23",
        level: "model_checking",
        rule: "a state is a reference state of the solver's API model; traces are histories whose transcript is followed event by event along the operations and answers",
        assumptions: vec!["histories that hide or observe variables before the first solve are left out: the stored formula does not determine their names"],
        families: fam,
    }
}
