//! C10: failing proof sinks and processors.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::monitor::Transcript;
use crate::refsat::*;
use crate::steps::{parse_native, Step};
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;
use std::sync::Arc;
use varisat::solver::SolverError;
use varisat::{ExtendFormula, ProofFormat, Solver};
use varisat_checker::{
    CheckedProofStep, Checker, CheckerData, CheckerError, ProofProcessor, ProofTranscriptProcessor, ProofTranscriptStep,
};
use varisat_lrat::WriteLrat;

/// The error every injected fault carries.
#[derive(Debug, PartialEq)]
pub struct Injected(pub u64);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}
impl std::error::Error for Injected {}

/// The kinds an I/O error can have, apart from those with a meaning of their own (`Interrupted`, and `UnexpectedEof`
/// for readers). Nothing may depend on the kind of an error.
pub const KINDS: [io::ErrorKind; 18] = [
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::NotFound,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
];

/// The kind used for the fault with the given number, every one is reached.
pub fn kind(n: usize) -> io::ErrorKind {
    KINDS[n % KINDS.len()]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// Fail once this many bytes were accepted, and ever after.
    Bytes(usize),
    /// Fail once when this many bytes were accepted, then work again.
    Once(usize),
    /// Accept no byte (`Ok(0)`) from this position on.
    Zero(usize),
    /// The k-th write call accepts n bytes, the following calls fail.
    Call(usize, usize),
    /// The k-th flush fails.
    Flush(usize),
    /// Writes accept at most n bytes each.
    Short(usize),
    /// Every write is interrupted once and then accepts at most n bytes.
    Interrupt(usize),
}

#[derive(Default)]
pub struct SinkState {
    pub data: RefCell<Vec<u8>>,
    pub hits: Cell<u64>,
    pub zero: Cell<bool>,
    pub calls: RefCell<Vec<usize>>,
    pub flushes: Cell<usize>,
    /// what was there after each verdict
    pub marks: RefCell<Vec<usize>>,
    interrupted: Cell<bool>,
}

#[derive(Clone)]
pub struct Sink {
    pub st: Rc<SinkState>,
    pub fault: Fault,
}

impl Sink {
    pub fn new(fault: Fault) -> Sink {
        Sink { st: Rc::new(SinkState::default()), fault }
    }
    fn err(&self) -> io::Error {
        self.st.hits.set(self.st.hits.get() + 1);
        let n = self.st.data.borrow().len() + self.st.calls.borrow().len() + self.st.flushes.get();
        io::Error::new(kind(n), Injected(7))
    }
    fn accept(&self, b: &[u8], n: usize) -> io::Result<usize> {
        let n = n.min(b.len());
        self.st.data.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
}

impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let have = self.st.data.borrow().len();
        let call = self.st.calls.borrow().len();
        if !matches!(self.fault, Fault::Interrupt(_)) || self.st.interrupted.get() {
            self.st.calls.borrow_mut().push(b.len());
        }
        match self.fault {
            Fault::None | Fault::Flush(_) => self.accept(b, b.len()),
            Fault::Short(n) => self.accept(b, n),
            Fault::Interrupt(n) => {
                if self.st.interrupted.replace(false) {
                    self.accept(b, n)
                } else {
                    self.st.interrupted.set(true);
                    Err(io::ErrorKind::Interrupted.into())
                }
            }
            Fault::Bytes(n) => {
                if have < n {
                    self.accept(b, n - have)
                } else {
                    Err(self.err())
                }
            }
            Fault::Once(n) => {
                if have < n {
                    self.accept(b, n - have)
                } else if self.st.hits.get() == 0 {
                    Err(self.err())
                } else {
                    self.accept(b, b.len())
                }
            }
            Fault::Zero(n) => {
                if have < n {
                    self.accept(b, n - have)
                } else {
                    self.st.hits.set(self.st.hits.get() + 1);
                    self.st.zero.set(true);
                    Ok(0)
                }
            }
            Fault::Call(k, n) => {
                if call < k {
                    self.accept(b, b.len())
                } else if call == k && n > 0 {
                    self.accept(b, n)
                } else {
                    Err(self.err())
                }
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        let k = self.st.flushes.get();
        self.st.flushes.set(k + 1);
        if self.fault == Fault::Flush(k) {
            return Err(self.err());
        }
        Ok(())
    }
}

/// A processor that fails at its n-th step.
#[derive(Default)]
pub struct FailingProcessor {
    pub at: Option<u64>,
    pub seen: u64,
    pub hit: Rc<Cell<bool>>,
}

impl FailingProcessor {
    fn tick(&mut self) -> Result<(), anyhow::Error> {
        let n = self.seen;
        self.seen += 1;
        if self.at == Some(n) {
            self.hit.set(true);
            return Err(anyhow::Error::new(Injected(9)));
        }
        Ok(())
    }
}

impl ProofProcessor for FailingProcessor {
    fn process_step(&mut self, _: &CheckedProofStep, _: CheckerData) -> Result<(), anyhow::Error> {
        self.tick()
    }
}

impl ProofTranscriptProcessor for FailingProcessor {
    fn process_step(&mut self, _: &ProofTranscriptStep) -> Result<(), anyhow::Error> {
        self.tick()
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Solve(bool),
    Close,
    Io,
    Zero,
    Processor,
    ProcessorIo,
    Other(String),
    Panic(String),
}

fn classify(r: Result<Res, SolverError>) -> Res {
    match r {
        Ok(r) => r,
        Err(SolverError::ProofIoError { cause }) => {
            if cause.get_ref().and_then(|e| e.downcast_ref::<Injected>()) == Some(&Injected(7)) {
                Res::Io
            } else if cause.kind() == io::ErrorKind::WriteZero {
                Res::Zero
            } else {
                Res::Other(format!("ProofIoError {cause:?}"))
            }
        }
        Err(SolverError::ProofProcessorError { cause }) => {
            if cause.downcast_ref::<Injected>() == Some(&Injected(9)) {
                Res::Processor
            } else if cause.downcast_ref::<io::Error>().and_then(|c| c.get_ref()).and_then(|e| e.downcast_ref::<Injected>())
                == Some(&Injected(7))
                || cause.downcast_ref::<io::Error>().map(|c| c.kind()) == Some(io::ErrorKind::WriteZero)
            {
                Res::ProcessorIo
            } else {
                Res::Other(format!("ProofProcessorError {cause:?}"))
            }
        }
        Err(e) => Res::Other(format!("{e:?}")),
    }
}

/// Runs a history; `hit` tells whether a fault was injected so far. Judges the reports against
/// `base`, the results of the run without faults.
fn drive<'p>(
    ops: &[Op],
    cfg: Cfg,
    sink: Option<(Sink, ProofFormat)>,
    self_check: bool,
    processors: Vec<&'p mut dyn ProofProcessor>,
    expect: &dyn Fn() -> Vec<Res>,
    base: Option<&[Res]>,
    rec: &mut Rec,
) -> Result<(Vec<Res>, bool), String> {
    let mut solver: Solver<'p> = Solver::new();
    solver.config(&cfg.update()).map_err(|e| e.to_string())?;
    if self_check {
        solver.enable_self_checking();
    }
    for p in processors {
        solver.add_proof_processor(p);
    }
    let state = sink.as_ref().map(|s| s.0.st.clone());
    if let Some((s, f)) = sink {
        solver.write_proof(s, f);
    }
    rec.eval();
    let mut results: Vec<Res> = vec![];
    let mut reported = false;
    let all: Vec<&Op> = ops.iter().chain([&Op::CloseProof]).collect();
    for (k, op) in all.iter().enumerate() {
        let at = |m: String| format!("operation {k} {op:?}: {m}");
        rec.step();
        match op {
            Op::Solve | Op::CloseProof => {
                let solve = **op == Op::Solve;
                let r = if solve {
                    catch(|| solver.solve().map(Res::Solve))
                } else {
                    catch(|| solver.close_proof().map(|_| Res::Close))
                };
                let r = match r {
                    Ok(r) => classify(r),
                    Err(p) => Res::Panic(p),
                };
                if let (Res::Solve(_), Some(st)) = (&r, &state) {
                    let n = st.data.borrow().len();
                    st.marks.borrow_mut().push(n);
                }
                let hit = expect();
                if reported {
                    if solve {
                        if !matches!(&r, Res::Panic(p) if p.contains("unrecoverable")) {
                            return Err(at(format!("the solver does not refuse to solve after an error: {r:?}")));
                        }
                    } else if let Res::Panic(p) = r {
                        return Err(at(format!("panicked: {p}")));
                    }
                } else if !hit.is_empty() {
                    if !hit.contains(&r) {
                        return Err(at(format!("a fault occurred, but the call returned {r:?}")));
                    }
                    reported = true;
                } else {
                    if let Some(b) = base {
                        if b.get(results.len()) != Some(&r) {
                            return Err(at(format!("returned {r:?} without any fault, expected {:?}", b.get(results.len()))));
                        }
                    }
                    results.push(r);
                }
            }
            Op::Clause(c) => solver.add_clause(&lits(c)),
            Op::Formula(f) | Op::Dimacs(f) => solver.add_formula(&formula(f)),
            Op::Assume(a) => solver.assume(&lits(a)),
            Op::Hide(v) => solver.hide_var(var(*v)),
            Op::Witness(v) => solver.witness_var(var(*v)),
            Op::Sample(v) => solver.sample_var(var(*v)),
            Op::NewVar => {
                solver.new_var();
            }
            Op::Observe => {
                solver.observe_internal_vars();
            }
            Op::Config(c) => solver.config(&c.update()).map_err(|e| e.to_string())?,
            Op::Query => {
                solver.model();
            }
        }
    }
    drop(solver);
    Ok((results, reported))
}

/// All byte level faults of one history and format.
fn sink_faults(ops: &[Op], cfg: Cfg, format: ProofFormat, self_check: bool, procs: usize, per_call: bool, rec: &mut Rec) -> CaseResult {
    let run_with = |fault: Fault, base: Option<&[Res]>, rec: &mut Rec| -> Result<(Vec<Res>, bool, Rc<SinkState>), String> {
        let sink = Sink::new(fault);
        let st = sink.st.clone();
        let st2 = st.clone();
        let mut ps: Vec<FailingProcessor> = (0..procs).map(|_| FailingProcessor::default()).collect();
        let expect = move || {
            if st2.hits.get() == 0 {
                vec![]
            } else if st2.zero.get() {
                vec![Res::Zero]
            } else {
                vec![Res::Io]
            }
        };
        let dynp: Vec<&mut dyn ProofProcessor> = ps.iter_mut().map(|p| p as &mut dyn ProofProcessor).collect();
        let (r, reported) = drive(ops, cfg, Some((sink, format)), self_check, dynp, &expect, base, rec)
            .map_err(|e| format!("{fault:?} {format:?} {ops:?}: {e}"))?;
        Ok((r, reported, st))
    };
    let (base, _, st) = run_with(Fault::None, None, rec)?;
    for r in &base {
        if !matches!(r, Res::Solve(_) | Res::Close) {
            return Err(format!("{ops:?}: without faults the result is {r:?}"));
        }
    }
    let data = st.data.borrow().clone();
    if let (Some(Op::Solve), Some(&n)) = (ops.last(), st.marks.borrow().last()) {
        // a verdict comes with its proof: only the end mark of the native format may be missing
        let rest = &data[n..];
        let end = rest.is_empty()
            || format == ProofFormat::Varisat
                && parse_native(rest).map_or(false, |v| v.iter().all(|s| matches!(s, Step::Bits(_) | Step::End)));
        if !ops.contains(&Op::CloseProof) && !end {
            return Err(format!("{format:?} {ops:?}: the last solve() returned when only {n} of {} bytes of the proof were written", data.len()));
        }
    }
    let calls = st.calls.borrow().clone();
    let flushes = st.flushes.get();
    let mut faults = vec![Fault::Short(1), Fault::Short(3), Fault::Interrupt(1), Fault::Interrupt(5000)];
    for k in 0..flushes {
        faults.push(Fault::Flush(k));
    }
    if per_call {
        for (k, &n) in calls.iter().enumerate() {
            for a in [0, 1, n / 2, n - 1] {
                faults.push(Fault::Call(k, a));
            }
        }
        let mut at = 0;
        for n in &calls {
            faults.push(Fault::Once(at));
            faults.push(Fault::Zero(at + n / 2));
            at += n;
        }
    } else {
        for b in 0..data.len() + 1 {
            faults.push(Fault::Bytes(b));
            faults.push(Fault::Once(b));
            faults.push(Fault::Zero(b));
        }
    }
    for f in faults {
        let (_, reported, st) = run_with(f, Some(&base), rec)?;
        let e = |m: String| format!("{f:?} {format:?} {ops:?}: {m}");
        let got = st.data.borrow();
        if st.hits.get() == 0 {
            rec.outcome("no fault hit");
            if *got != data {
                return Err(e(format!("no error was reported, but the proof is incomplete: {} of {} bytes", got.len(), data.len())));
            }
        } else {
            rec.outcome("fault reported");
            rec.nontrivial(fp(&(format!("{f:?}{format:?}"), &data)));
            if !reported {
                return Err(e("the fault was never reported".into()));
            }
            if !matches!(f, Fault::Once(_) | Fault::Call(..) | Fault::Flush(_)) && !data.starts_with(&got) {
                return Err(e("the written bytes are not a prefix of the proof".into()));
            }
        }
    }
    Ok(())
}

/// Processors failing at every step.
fn processor_faults(ops: &[Op], cfg: Cfg, with_sink: bool, rec: &mut Rec) -> CaseResult {
    let run_with = |at: [Option<u64>; 2], base: Option<&[Res]>, rec: &mut Rec| {
        let mut a = FailingProcessor { at: at[0], ..Default::default() };
        let mut b = FailingProcessor { at: at[1], ..Default::default() };
        let (ha, hb) = (a.hit.clone(), b.hit.clone());
        let expect = move || if ha.get() || hb.get() { vec![Res::Processor] } else { vec![] };
        let sink = if with_sink { Some((Sink::new(Fault::None), ProofFormat::Varisat)) } else { None };
        let r = drive(ops, cfg, sink, false, vec![&mut a, &mut b], &expect, base, rec)
            .map_err(|e| format!("processors failing at {at:?} {ops:?}: {e}"))?;
        Ok::<_, String>((r.0, r.1, [a.seen, b.seen], a.hit.get() || b.hit.get()))
    };
    let (base, _, n, _) = run_with([None, None], None, rec)?;
    if n[0] != n[1] {
        return Err(format!("the processors saw {n:?} steps: {ops:?}"));
    }
    for k in 0..n[0] {
        for at in [[Some(k), None], [None, Some(k)]] {
            let (_, reported, _, hit) = run_with(at, Some(&base), rec)?;
            if !hit {
                return Err(format!("step {k} did not happen again: {ops:?}"));
            }
            if !reported {
                return Err(format!("processors failing at {at:?} {ops:?}: never reported"));
            }
            rec.outcome("processor fault reported");
        }
    }
    Ok(())
}

/// LRAT output on a failing sink.
fn lrat_faults(ops: &[Op], cfg: Cfg, binary: bool, bytes: bool, rec: &mut Rec) -> CaseResult {
    let run_with = |fault: Fault, base: Option<&[Res]>, rec: &mut Rec| {
        let sink = Sink::new(fault);
        let (st, st2) = (sink.st.clone(), sink.st.clone());
        let mut w = WriteLrat::new(sink, binary);
        // faults may be noticed only by the explicit flush, so a hit is allowed to stay unreported
        // in a call only if that call did not have to notice
        let expect = move || if st2.hits.get() > 0 { vec![Res::ProcessorIo] } else { vec![] };
        let r = drive(ops, cfg, None, false, vec![&mut w], &expect, base, rec).map_err(|e| format!("LRAT {fault:?} {ops:?}: {e}"))?;
        let flushed = w.flush();
        if !r.1 && st.hits.get() > 0 && flushed.is_ok() {
            return Err(format!("LRAT {fault:?} {ops:?}: the fault was never reported"));
        }
        if let Err(e) = &flushed {
            if !r.1 {
                let io = e.downcast_ref::<io::Error>();
                let ok = io.map_or(false, |e| {
                    e.kind() == io::ErrorKind::WriteZero || e.get_ref().and_then(|e| e.downcast_ref::<Injected>()) == Some(&Injected(7))
                });
                if !ok || st.hits.get() == 0 {
                    return Err(format!("LRAT {fault:?} {ops:?}: flush() returned {e:?}"));
                }
            }
        }
        Ok((r.0, st))
    };
    let (base, st) = run_with(Fault::None, None, rec)?;
    let data = st.data.borrow().clone();
    let calls = st.calls.borrow().clone();
    let mut faults = vec![Fault::Short(1), Fault::Interrupt(3), Fault::Flush(0)];
    if bytes {
        for b in 0..data.len() {
            faults.extend([Fault::Bytes(b), Fault::Once(b), Fault::Zero(b)]);
        }
    } else {
        for (k, &n) in calls.iter().enumerate() {
            for a in [0, 1, n / 2, n - 1] {
                faults.push(Fault::Call(k, a));
            }
        }
        let mut at = 0;
        for n in &calls {
            faults.push(Fault::Once(at));
            faults.push(Fault::Zero(at + n / 2));
            at += n;
        }
    }
    for f in faults {
        let (_, st) = run_with(f, Some(&base), rec)?;
        if st.hits.get() == 0 {
            if *st.data.borrow() != data {
                return Err(format!("LRAT {f:?} {ops:?}: no error, but the output is incomplete"));
            }
            rec.outcome("no fault hit");
        } else {
            rec.nontrivial(fp(&(format!("{f:?}lrat{binary}"), &data)));
            rec.outcome("fault reported");
        }
    }
    Ok(())
}

/// Processors and transcripts failing in the standalone checker.
fn checker_faults(ops: &[Op], cfg: Cfg, rec: &mut Rec) -> CaseResult {
    let setup = Setup { cfg, format: Some(ProofFormat::Varisat), no_reference: true, self_check: false };
    let out = run(ops, setup, vec![], rec)?;
    let check = |at: Option<u64>, which: usize, rec: &mut Rec| -> Result<(u64, u64), String> {
        rec.eval();
        let mut p = FailingProcessor { at: if which == 0 { at } else { None }, ..Default::default() };
        let mut t = FailingProcessor { at: if which == 1 { at } else { None }, ..Default::default() };
        let mut plain = Transcript::default();
        let (hp, ht) = (p.hit.clone(), t.hit.clone());
        let mut result = Ok(());
        {
            let mut c = Checker::new();
            c.add_transcript(&mut plain);
            c.add_processor(&mut p);
            c.add_transcript(&mut t);
            for cl in &out.initial {
                result = c.add_clause(&lits(cl));
                if result.is_err() {
                    break;
                }
            }
            if result.is_ok() {
                result = c.check_proof(&out.proof[..]);
            }
        }
        let e = |m: &str| format!("processor {which} failing at {at:?} {ops:?}: {m}");
        match (hp.get() || ht.get(), result) {
            (false, Ok(())) if at.is_none() => (),
            (true, Err(CheckerError::ProofProcessorError { cause })) if cause.downcast_ref::<Injected>() == Some(&Injected(9)) => {
                rec.outcome("checker reported");
            }
            (_, r) => return Err(e(&format!("the checker returned {r:?}"))),
        }
        Ok((p.seen, t.seen))
    };
    let (n, m) = check(None, 0, rec)?;
    for k in 0..n {
        check(Some(k), 0, rec)?;
    }
    for k in 0..m {
        check(Some(k), 1, rec)?;
    }
    Ok(())
}

fn alphabet() -> Vec<Op> {
    vec![
        c(&[1, 2, 3]),
        c(&[-1]),
        c(&[-2, -3]),
        c(&[1]),
        c(&[2, -1]),
        a(&[1, -2]),
        a(&[-3]),
        a(&[]),
        Op::Hide(1),
        Op::Sample(2),
        Op::Witness(3),
        Op::Formula(vec![vec![1, 2], vec![-1, 2], vec![1, -2], vec![-1, -2, 4]]),
        Op::CloseProof,
    ]
}

/// Drops operations that are documented misuse in the history.
pub fn legal(ops: &[Op]) -> Vec<Op> {
    let mut witness = std::collections::BTreeSet::new();
    let mut assumed: Vec<i32> = vec![];
    let mut out = vec![];
    for op in ops {
        let ok = match op {
            Op::Clause(c) => !c.iter().any(|l| witness.contains(&l.abs())),
            Op::Formula(f) | Op::Dimacs(f) => !f.iter().flatten().any(|l| witness.contains(&l.abs())),
            Op::Assume(a) => {
                let ok = !a.iter().any(|l| witness.contains(&l.abs()));
                if ok {
                    assumed = a.iter().map(|l| l.abs()).collect();
                }
                ok
            }
            Op::Hide(v) | Op::Sample(v) => {
                let ok = !assumed.contains(v);
                if ok {
                    witness.remove(v);
                }
                ok
            }
            Op::Witness(v) => {
                let ok = !assumed.contains(v);
                if ok {
                    witness.insert(*v);
                }
                ok
            }
            _ => true,
        };
        if ok {
            out.push(op.clone());
        }
    }
    out
}

fn with_fam(f: &HistFam, prefix: &str, run: impl Fn(&[Op], Cfg, &mut Rec) -> CaseResult + Send + Sync + 'static) -> Family {
    let mut g = f.clone();
    g.name = format!("{prefix}: {}", g.name);
    g.family(move |ops, cfg, _, rec| run(&legal(ops), cfg, rec))
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let d = if thorough { 4 } else { 3 };
    let w = words("small", alphabet(), d, vec![]);
    fam.push(with_fam(&w, "native sink", |ops, cfg, rec| sink_faults(ops, cfg, ProofFormat::Varisat, false, 0, false, rec)));
    let w2 = words("small", alphabet(), if thorough { 3 } else { 2 }, vec![]);
    fam.push(with_fam(&w2, "native sink, self check and processors", |ops, cfg, rec| {
        sink_faults(ops, cfg, ProofFormat::Varisat, true, 2, false, rec)
    }));
    fam.push(with_fam(&w, "processors", |ops, cfg, rec| {
        processor_faults(ops, cfg, false, rec)?;
        processor_faults(ops, cfg, true, rec)
    }));
    fam.push(with_fam(&w, "checker", |ops, cfg, rec| {
        // hiding before the first solve makes the clauses ambiguous for a fresh checker
        let first = ops.iter().position(|o| *o == Op::Solve).unwrap_or(ops.len());
        if ops[..first].iter().any(|o| matches!(o, Op::Hide(_) | Op::Observe)) || ops.contains(&Op::CloseProof) {
            return Ok(());
        }
        checker_faults(ops, cfg, rec)
    }));
    // single shot formulas for the formats without incremental solving
    let tern: Vec<Cl> = crate::props::c01::clauses_of_size(3, 3);
    let extra: Vec<Vec<Cl>> = vec![vec![], vec![vec![1]], vec![vec![-2, 3]], vec![vec![]], vec![vec![1, -1], vec![2, 2]], vec![vec![3], vec![-3]]];
    let n_extra = extra.len() as u64;
    let (t1, e1) = (tern.clone(), extra.clone());
    let one = move |i: u64| -> Vec<Op> {
        let mut f: Vec<Cl> = t1.iter().enumerate().filter(|(k, _)| i / n_extra >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
        f.extend(e1[(i % n_extra) as usize].clone());
        vec![Op::Formula(f), Op::Solve]
    };
    let one = Arc::new(one);
    {
        let one = one.clone();
        fam.push(Family::new(
            "DRAT sinks",
            "every subset of the 8 ternary clauses over 3 variables x 6 additions, both DRAT encodings, every byte position",
            256 * n_extra,
            move |i, rec| {
                let ops = one(i);
                sink_faults(&ops, Cfg::default(), ProofFormat::Drat, false, 0, false, rec)?;
                sink_faults(&ops, Cfg::default(), ProofFormat::BinaryDrat, false, 1, false, rec)
            },
        ));
    }
    {
        let one = one.clone();
        fam.push(Family::new(
            "LRAT sinks",
            "the same formulas, LRAT and CLRAT, every byte position",
            256 * n_extra,
            move |i, rec| {
                let ops = one(i);
                lrat_faults(&ops, Cfg::default(), false, true, rec)?;
                lrat_faults(&ops, Cfg::default(), true, true, rec)
            },
        ));
    }
    // proofs longer than the buffers
    {
        let f = formulas::medium();
        let cfgs = if thorough { hist_configs() } else { vec![configs()[1]] };
        let n = f.len() as u64 * cfgs.len() as u64;
        fam.push(Family::new(
            "long proofs",
            format!("{} formulas x {} configurations: all formats, faults at the start, after one byte, in the middle and at the last byte of every write call, every flush; every {}th processor step", f.len(), cfgs.len(), 97),
            n,
            move |i, rec| {
                let mut d = Digits(i);
                let cfg = cfgs[d.take(cfgs.len())];
                let k = d.take(f.len());
                let ops = [Op::Formula(f[k].cls.clone()), Op::Solve];
                let name = |e: String| format!("{}: {}", f[k].name, short(&e));
                sink_faults(&ops, cfg, ProofFormat::Varisat, false, 0, true, rec).map_err(name)?;
                sink_faults(&ops, cfg, ProofFormat::Drat, false, 0, true, rec).map_err(name)?;
                sink_faults(&ops, cfg, ProofFormat::BinaryDrat, false, 0, true, rec).map_err(name)?;
                lrat_faults(&ops, cfg, false, false, rec).map_err(name)?;
                lrat_faults(&ops, cfg, true, false, rec).map_err(name)
            },
        ));
    }
    // incremental with long proofs: faults while clauses are added between solves
    {
        let b = bases(false);
        let h = structured("structured", b, vec![configs()[1]], if thorough { 3 } else { 2 });
        fam.push(with_fam(&h, "native sink", |ops, cfg, rec| {
            // many clauses added after solving fill the buffer outside of solve()
            let mut ops = ops.to_vec();
            let f = (0..700).map(|k| vec![100 + k % 50, 160 + k % 70, -(240 + k % 90)]).collect();
            ops.push(Op::Formula(f));
            ops.push(Op::Assume(vec![101]));
            ops.push(Op::Solve);
            sink_faults(&ops, cfg, ProofFormat::Varisat, false, 0, true, rec).map_err(|e| short(&e))
        }));
    }
    Check {
        id: "C10",
        level: "fault_enumeration",
        rule: "distinct (fault, format, proof) triples whose fault is reached; every fault position of every proof is injected into the real solver",
        assumptions: vec!["std::io::BufWriter keeps its documented behaviour"],
        families: fam,
    }
}

fn short(e: &str) -> String {
    if e.len() > 900 {
        format!("{} ... {}", &e[..300], &e[e.len() - 500..])
    } else {
        e.to_string()
    }
}
