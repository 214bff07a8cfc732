//! C11: truncated, unreadable and damaged proof files.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::monitor::*;
use crate::props::c10::{kind, Injected};
use crate::refsat::*;
use crate::steps::Step;
use std::io::{self, BufRead, Read};
use varisat::ProofFormat;
use varisat_checker::{Checker, CheckerError};

/// Reader with faults.
pub struct Source<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    /// bytes per read call
    pub chunk: usize,
    /// additional end of a read call
    pub split: usize,
    pub interrupt: bool,
    pub fail_at: Option<usize>,
    /// Number of the kind of error, see `kind`
    pub kind: usize,
    was_interrupted: bool,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8]) -> Source<'a> {
        Source { data, pos: 0, chunk: usize::MAX, split: 0, interrupt: false, fail_at: None, kind: 0, was_interrupted: false }
    }
}

impl<'a> Read for Source<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.interrupt && !std::mem::replace(&mut self.was_interrupted, true) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.was_interrupted = false;
        if self.fail_at.map_or(false, |f| self.pos >= f) {
            return Err(io::Error::new(kind(self.kind), Injected(11)));
        }
        let mut n = b.len().min(self.chunk).min(self.data.len() - self.pos);
        if self.pos < self.split {
            n = n.min(self.split - self.pos);
        }
        if let Some(f) = self.fail_at {
            n = n.min(f - self.pos);
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn check_with(initial: &[Cl], input: impl Read) -> (Result<(), CheckerError>, Vec<Event>) {
    let mut tr = Transcript::default();
    let mut c = Checker::new();
    c.add_transcript(&mut tr);
    let mut r = Ok(());
    for cl in initial {
        r = c.add_clause(&lits(cl));
        if r.is_err() {
            break;
        }
    }
    if r.is_ok() {
        r = c.check_proof(input);
    }
    drop(c);
    (r, tr.events)
}

pub fn checked(initial: &[Cl], input: impl Read) -> Result<(Result<(), CheckerError>, Vec<Event>), String> {
    catch(|| check_with(initial, input)).map_err(|p| format!("the checker panicked: {p}"))
}

fn faults_at(initial: &[Cl], proof: &[u8], positions: &[usize], rec: &mut Rec) -> CaseResult {
    let (r, whole) = checked(initial, proof)?;
    r.map_err(|e| format!("the whole proof is rejected: {e}"))?;
    for &n in positions {
        rec.eval();
        let e = |m: String| format!("cut off after {n} of {} bytes: {m}", proof.len());
        let (r, events) = checked(initial, &proof[..n]).map_err(e)?;
        match r {
            Ok(()) => return Err(e("accepted as complete".into())),
            Err(CheckerError::ProofIncomplete { .. }) => rec.outcome("incomplete"),
            Err(CheckerError::IoError { cause, .. }) => return Err(e(format!("reported as I/O error {cause}"))),
            Err(_) => rec.outcome("faulty"),
        }
        if !whole.starts_with(&events) {
            return Err(e(format!("confirmed {events:?}, the whole proof {whole:?}")));
        }
        rec.eval();
        let mut s = Source::new(proof);
        s.fail_at = Some(n);
        s.kind = n;
        let e = |m: String| format!("read error at byte {n} of {}: {m}", proof.len());
        match checked(initial, s).map_err(e)?.0 {
            Err(CheckerError::IoError { cause, .. })
                if cause.get_ref().and_then(|c| c.downcast_ref::<Injected>()) == Some(&Injected(11)) =>
            {
                rec.outcome("read error reported")
            }
            r => return Err(e(format!("the checker returned {r:?}"))),
        }
        rec.eval();
        let mut s = Source::new(proof);
        s.split = n;
        let (r, events) = checked(initial, s)?;
        if r.is_err() || events != whole {
            return Err(format!("split into reads at byte {n} of {}: {r:?} {events:?}, in one piece {whole:?}", proof.len()));
        }
        rec.nontrivial(fp(&(n, &proof[..n.min(64)], proof.len())));
    }
    for chunk in [1, 2, 3, 5, 7, 15, 16, 17] {
        for interrupt in [false, true] {
            rec.eval();
            let mut s = Source::new(proof);
            s.chunk = chunk;
            s.interrupt = interrupt;
            let (r, events) = checked(initial, s)?;
            if r.is_err() || events != whole {
                return Err(format!("reads of {chunk} bytes (interrupted: {interrupt}): {r:?} {events:?}, in one piece {whole:?}"));
            }
            rec.outcome("chunked");
        }
    }
    Ok(())
}

/// The checker allocates memory for the largest variable, which is by design.
pub fn too_big(proof: &[u8]) -> bool {
    let mut p = varisat_internal_proof::binary_format::Parser::default();
    let mut r = io::BufReader::new(proof);
    let limit = 3000;
    loop {
        match r.fill_buf() {
            Ok(b) if !b.is_empty() => (),
            _ => return false,
        }
        let s = match p.parse_step(&mut r) {
            Ok(s) => Step::of(&s),
            Err(_) => return false,
        };
        if s.max_var() > limit {
            return true;
        }
        if matches!(s, Step::End) {
            return false;
        }
    }
}

/// Still confirms only what is true.
fn damaged(initial: &[Cl], proof: &[u8], what: &dyn Fn() -> String, rec: &mut Rec) -> CaseResult {
    rec.eval();
    if catch(|| too_big(proof)).map_err(|p| format!("{}: the proof parser panicked: {p}", what()))? {
        rec.outcome("not run: huge variable");
        return Ok(());
    }
    let (r, events) = checked(initial, proof).map_err(|e| format!("{}: {e}", what()))?;
    match r {
        Ok(()) => {
            rec.outcome("damage harmless");
            rec.nontrivial(fp(proof));
        }
        Err(_) => rec.outcome("damage rejected"),
    }
    // also what was confirmed before the damage was noticed
    judge_transcript(&events).map_err(|e| format!("{}: {e}", what()))?;
    Ok(())
}

pub fn step_bounds(proof: &[u8]) -> Vec<usize> {
    let mut p = varisat_internal_proof::binary_format::Parser::default();
    let mut rest = proof;
    let mut out = vec![0];
    while !rest.is_empty() {
        if p.parse_step(&mut rest).is_err() {
            break;
        }
        out.push(proof.len() - rest.len());
    }
    out
}

/// Every way in which the proof can be damaged at one place.
pub fn each_damage(proof: &[u8], values: usize, visit: &mut dyn FnMut(&[u8], &dyn Fn() -> String) -> CaseResult) -> CaseResult {
    let mut m = proof.to_vec();
    for k in 0..proof.len() {
        for v in 0..values {
            let v = if values == 256 {
                v as u8
            } else if v < 8 {
                proof[k] ^ 1 << v
            } else {
                [0x00, 0xff, 0x01, 0x80, proof[k].wrapping_add(1), proof[k].wrapping_sub(1), proof[k].wrapping_add(2), proof[k].wrapping_sub(4)][v - 8]
            };
            if v == proof[k] {
                continue;
            }
            m[k] = v;
            visit(&m, &|| format!("byte {k} changed from {:#x} to {v:#x}", proof[k]))?;
        }
        m[k] = proof[k];
        let mut d = proof.to_vec();
        d.remove(k);
        visit(&d, &|| format!("byte {k} lost"))?;
        let mut d = proof.to_vec();
        d.insert(k, proof[k]);
        visit(&d, &|| format!("byte {k} repeated"))?;
    }
    // steps lost, repeated, moved
    let b = step_bounds(proof);
    for i in 1..b.len() {
        let (s, t) = (b[i - 1], b[i]);
        let mut d = proof[..s].to_vec();
        d.extend(&proof[t..]);
        visit(&d, &|| format!("step {} lost", i - 1))?;
        let mut d = proof[..t].to_vec();
        d.extend(&proof[s..]);
        visit(&d, &|| format!("step {} repeated", i - 1))?;
        for j in i + 1..b.len().min(i + 8) {
            let (u, v) = (b[j - 1], b[j]);
            let mut d = proof[..s].to_vec();
            d.extend(&proof[u..v]);
            d.extend(&proof[s..u]);
            d.extend(&proof[v..]);
            visit(&d, &|| format!("step {} moved before step {}", j - 1, i - 1))?;
        }
    }
    Ok(())
}

fn damages(initial: &[Cl], proof: &[u8], values: usize, rec: &mut Rec) -> CaseResult {
    each_damage(proof, values, &mut |m, what| damaged(initial, m, what, rec))
}

pub fn native(ops: &[Op], cfg: Cfg, rec: &mut Rec) -> Result<Option<Outcome>, String> {
    let first = ops.iter().position(|o| *o == Op::Solve).unwrap_or(ops.len());
    if ops[..first].iter().any(|o| matches!(o, Op::Hide(_) | Op::Observe)) {
        return Ok(None);
    }
    let setup = Setup { cfg, format: Some(ProofFormat::Varisat), no_reference: true, self_check: false };
    run(ops, setup, vec![], rec).map(Some)
}

pub fn alphabet() -> Vec<Op> {
    vec![
        c(&[1, 2, 3]),
        c(&[-1, 2]),
        c(&[-2]),
        c(&[1, -2]),
        c(&[]),
        a(&[1, -2]),
        a(&[-3]),
        a(&[2, -2]),
        Op::Hide(1),
        Op::Witness(2),
        Op::Sample(2),
        Op::Observe,
        Op::Formula(vec![vec![1, 2], vec![-1, 2], vec![1, -2], vec![-1, -2, 3]]),
    ]
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let d = if thorough { 4 } else { 3 };
    let w = words("cuts, read errors and splits: small", alphabet(), d, vec![]);
    fam.push(w.family(|ops, cfg, _, rec| {
        if let Some(o) = native(ops, cfg, rec)? {
            let all: Vec<usize> = (0..o.proof.len()).collect();
            faults_at(&o.initial, &o.proof, &all, rec).map_err(|e| format!("{ops:?}: {e}"))?;
        }
        Ok(())
    }));
    let w = words("damage: small", alphabet(), if thorough { 3 } else { 2 }, vec![]);
    fam.push(w.family(|ops, cfg, _, rec| {
        if let Some(o) = native(ops, cfg, rec)? {
            damages(&o.initial, &o.proof, 256, rec).map_err(|e| format!("{ops:?}: {e}"))?;
        }
        Ok(())
    }));
    {
        // single shot proofs
        let tern: Vec<Cl> = crate::props::c01::clauses_of_size(3, 3);
        let extra: Vec<Vec<Cl>> = vec![vec![], vec![vec![1]], vec![vec![-2, 3]], vec![vec![3], vec![-3]]];
        let n = extra.len() as u64;
        fam.push(Family::new(
            "all faults: 3-variable formulas",
            "every subset of the 8 ternary clauses x 4 additions; every cut, read error and split; all 255 changes of every byte, every lost and repeated byte, lost, repeated and moved steps",
            256 * n,
            move |i, rec| {
                let mut f: Vec<Cl> = tern.iter().enumerate().filter(|(k, _)| i / n >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                f.extend(extra[(i % n) as usize].clone());
                let o = native(&[Op::Formula(f.clone()), Op::Solve], Cfg::default(), rec)?.unwrap();
                let all: Vec<usize> = (0..o.proof.len()).collect();
                faults_at(&o.initial, &o.proof, &all, rec).map_err(|e| format!("{f:?}: {e}"))?;
                damages(&o.initial, &o.proof, 256, rec).map_err(|e| format!("{f:?}: {e}"))
            },
        ));
    }
    {
        // longer proofs: every position near the ends and the reader's buffer boundaries
        let f = formulas::medium();
        let cfgs = [configs()[0], configs()[1]];
        fam.push(Family::new(
            "cuts, read errors and splits: long proofs",
            format!("{} formulas x 2 configurations, up to 200 positions spread over the proof, every position within 20 bytes of the start, the end and each multiple of 8192 (first 3)", f.len()),
            f.len() as u64 * 2,
            move |i, rec| {
                let (k, c) = ((i / 2) as usize, (i % 2) as usize);
                let o = native(&[Op::Formula(f[k].cls.clone()), Op::Solve], cfgs[c], rec)?.unwrap();
                let n = o.proof.len();
                let spread = if thorough { 2000 } else { 200 };
                let mut pos: Vec<usize> = (0..n).step_by((n / spread).max(1)).collect();
                for m in [0, 8192, 16384, 24576, n] {
                    pos.extend((m.saturating_sub(20)..m + 20).filter(|&p| p < n));
                }
                pos.sort();
                pos.dedup();
                let e = |e: String| format!("{} {:?}: {}", f[k].name, cfgs[c], &e[..e.len().min(600)]);
                faults_at(&o.initial, &o.proof, &pos, rec).map_err(e)
            },
        ));
    }
    {
        let f: Vec<_> = formulas::medium().into_iter().filter(|f| max_var(&f.cls) <= 20 && f.cls.len() <= 60).collect();
        let per = 16u64;
        fam.push(Family::new(
            "damage: long proofs",
            format!("{} formulas, bytes changed by 16 patterns (each bit, 0, 255, neighbours), lost and repeated bytes and steps in the first {} bytes", f.len(), if thorough { 4000 } else { 400 }),
            f.len() as u64 * per,
            move |i, rec| {
                let k = (i / per) as usize;
                let o = native(&[Op::Formula(f[k].cls.clone()), Op::Solve], configs()[1], rec)?.unwrap();
                let n = o.proof.len().min(if thorough { 4000 } else { 400 });
                let (lo, hi) = (n * (i % per) as usize / per as usize, n * (i % per + 1) as usize / per as usize);
                damage_range(&o.initial, &o.proof, lo, hi, rec).map_err(|e| format!("{}: {}", f[k].name, &e[..e.len().min(600)]))
            },
        ));
    }
    Check {
        id: "C11",
        level: "fault_enumeration",
        rule: "distinct (position, proof) pairs at which the proof was cut, made unreadable and split, and distinct damaged proofs that are still accepted",
        assumptions: vec!["damaged proofs that mention variables beyond 3000 are not run, as the checker allocates memory for them by design"],
        families: fam,
    }
}

fn damage_range(initial: &[Cl], proof: &[u8], lo: usize, hi: usize, rec: &mut Rec) -> CaseResult {
    let mut m = proof.to_vec();
    for k in lo..hi {
        let o = proof[k];
        let mut vals: Vec<u8> = (0..8).map(|b| o ^ 1 << b).collect();
        vals.extend([0, 255, 1, 128, o.wrapping_add(1), o.wrapping_sub(1), o.wrapping_add(2), o.wrapping_sub(4)]);
        for v in vals {
            if v != o {
                m[k] = v;
                damaged(initial, &m, &|| format!("byte {k} changed from {o:#x} to {v:#x}"), rec)?;
            }
        }
        m[k] = o;
        let mut d = proof.to_vec();
        d.remove(k);
        damaged(initial, &d, &|| format!("byte {k} lost"), rec)?;
        let mut d = proof.to_vec();
        d.insert(k, o);
        damaged(initial, &d, &|| format!("byte {k} repeated"), rec)?;
    }
    let b = step_bounds(proof);
    for i in 1..b.len() {
        let (s, t) = (b[i - 1], b[i]);
        if s < lo || s >= hi {
            continue;
        }
        let mut d = proof[..s].to_vec();
        d.extend(&proof[t..]);
        damaged(initial, &d, &|| format!("step {} lost", i - 1), rec)?;
        let mut d = proof[..t].to_vec();
        d.extend(&proof[s..]);
        damaged(initial, &d, &|| format!("step {} repeated", i - 1), rec)?;
    }
    Ok(())
}
