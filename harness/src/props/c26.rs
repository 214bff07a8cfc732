//! C26: a rejected proof is rejected at the first step that is wrong, with the matching kind.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::props::c10::{Injected, KINDS};
use crate::props::c11::*;
use crate::refsat::*;
use crate::steps::Step;
use std::io;
use varisat_checker::CheckerError;
use varisat_internal_proof::binary_format::Parser;

/// How reading the steps of a proof ends.
#[derive(Debug, PartialEq, Clone, Copy)]
enum Rest {
    /// an end step
    Ended,
    /// the data ends
    Short,
    /// no step
    Garbage,
}

/// The offsets at which steps end (starting with 0), their texts and how it goes on.
fn steps(proof: &[u8]) -> (Vec<usize>, Vec<String>, Rest) {
    let mut p = Parser::default();
    let mut rest = proof;
    let (mut bounds, mut texts) = (vec![0], vec![]);
    loop {
        let end = match p.parse_step(&mut rest) {
            Ok(s) => {
                texts.push(format!("{s:?}"));
                matches!(Step::of(&s), Step::End)
            }
            Err(e) => {
                let short = e.downcast_ref::<io::Error>().map_or(false, |e| e.kind() == io::ErrorKind::UnexpectedEof);
                return (bounds, texts, if short { Rest::Short } else { Rest::Garbage });
            }
        };
        bounds.push(proof.len() - rest.len());
        if end {
            return (bounds, texts, Rest::Ended);
        }
    }
}

fn kind(e: &CheckerError) -> (&'static str, u64) {
    match e {
        CheckerError::ProofIncomplete { step } => ("incomplete", *step),
        CheckerError::IoError { step, .. } => ("read error", *step),
        CheckerError::ParseError { step, .. } => ("parse error", *step),
        CheckerError::CheckFailed { step, .. } => ("check failed", *step),
        CheckerError::ProofProcessorError { .. } => ("processor error", 0),
        _ => ("other", 0),
    }
}

fn located(initial: &[Cl], proof: &[u8], what: &dyn Fn() -> String, rec: &mut Rec) -> CaseResult {
    if catch(|| too_big(proof)).map_err(|p| format!("{}: the proof parser panicked: {p}", what()))? {
        rec.outcome("not run: huge variable");
        return Ok(());
    }
    rec.eval();
    let err = |m: String| format!("{}: {m}", what());
    let (r, _) = checked(initial, proof).map_err(err)?;
    let (bounds, texts, rest) = steps(proof);
    let e = match r {
        Ok(()) => {
            rec.outcome("accepted");
            return if rest == Rest::Ended { Ok(()) } else { Err(err(format!("accepted, but there is no end step ({rest:?})"))) };
        }
        Err(e) => e,
    };
    let (k, step) = kind(&e);
    let n = texts.len() as u64;
    rec.outcome(k);
    rec.nontrivial(fp(&(k, proof)));
    if !e.to_string().starts_with(&format!("step {step}: ")) {
        return Err(err(format!("the message {:?} does not name step {step}", e.to_string())));
    }
    let expected = match k {
        "incomplete" => step == n + 1 && rest == Rest::Short,
        "parse error" => step == n + 1 && rest == Rest::Garbage,
        "check failed" => step >= 1 && step <= n,
        _ => false,
    };
    if !expected {
        return Err(err(format!("{k} at step {step} of {n} readable steps ({rest:?}): {e}")));
    }
    // all earlier steps are fine
    let before = bounds[step as usize - 1];
    match checked(initial, &proof[..before]).map_err(err)?.0 {
        Err(CheckerError::ProofIncomplete { step: s }) if s == step => (),
        r => return Err(err(format!("{k} at step {step}, but for the steps before it: {r:?}"))),
    }
    if let CheckerError::CheckFailed { msg, debug_step, .. } = &e {
        let text = &texts[step as usize - 1];
        if debug_step != text {
            return Err(err(format!("step {step} is {text}, the error ({msg}) describes {debug_step:?}")));
        }
        // and this one is not, whatever follows
        match checked(initial, &proof[..bounds[step as usize]]).map_err(err)?.0 {
            Err(CheckerError::CheckFailed { step: s, msg: m, .. }) if s == step && m == *msg => (),
            r => return Err(err(format!("{k} at step {step} ({msg}), but without what follows it: {r:?}"))),
        }
    }
    Ok(())
}

/// Cut off and unreadable at every position.
fn faults(initial: &[Cl], proof: &[u8], rec: &mut Rec) -> CaseResult {
    let (bounds, ..) = steps(proof);
    for p in 0..proof.len() {
        // the first step that is not complete
        let expected = bounds.iter().filter(|&&b| b <= p).count() as u64;
        rec.eval();
        match checked(initial, &proof[..p])?.0 {
            Err(CheckerError::ProofIncomplete { step }) if step == expected => (),
            r => return Err(format!("cut off after {p} bytes, within step {expected}: {r:?}")),
        }
        // with every kind of error at the first and at the last position
        let kinds = if p == 0 || p + 1 == proof.len() { 0..KINDS.len() } else { p..p + 2 };
        for kind in kinds {
            let mut s = Source::new(proof);
            s.fail_at = Some(p);
            s.kind = kind;
            s.chunk = if kind % 2 == 0 { 1 } else { usize::MAX };
            rec.eval();
            match checked(initial, s)?.0 {
                Err(CheckerError::IoError { step, cause }) if step == expected => {
                    if cause.get_ref().and_then(|c| c.downcast_ref::<Injected>()) != Some(&Injected(11)) {
                        return Err(format!("read error after {p} bytes: other cause {cause:?}"));
                    }
                }
                r => return Err(format!("read error after {p} bytes, within step {expected}: {r:?}")),
            }
        }
        rec.nontrivial(fp(&(p, proof)));
    }
    Ok(())
}

/// Steps that are wrong wherever they come, unless the formula is refuted already.
fn wrong_steps() -> Vec<Step> {
    vec![
        Step::At(true, vec![50, 51, 52], vec![]),
        Step::At(false, vec![60], vec![1, 2, 3]),
        Step::Delete(vec![61, 62, 63], 0),
        Step::Delete(vec![61, 62], 2),
        Step::Delete(vec![61, -62], 1),
        Step::Units(vec![(64, 77)]),
        Step::Bits(0),
        Step::Bits(65),
        Step::Model(vec![65, -65]),
        Step::Failed(vec![66], vec![]),
        Step::UserName(1, Some(1)),
        Step::UserName(90, None),
        Step::UserName(91, Some(1)),
        Step::DeleteVar(92),
        Step::DeleteVar(1),
        Step::Mode(93, false),
        Step::Mode(1, true),
        Step::SolverName(94, Some(1)),
        Step::Add(vec![1, 1]),
        Step::Assume(vec![95]),
        Step::End,
    ]
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let w = words("cuts and read errors: histories", alphabet(), if thorough { 4 } else { 3 }, vec![]);
    fam.push(w.family(|ops, cfg, _, rec| {
        if let Some(o) = native(ops, cfg, rec)? {
            faults(&o.initial, &o.proof, rec).map_err(|e| format!("{ops:?}: {e}"))?;
        }
        Ok(())
    }));
    let w = words("added and replaced steps: histories", alphabet(), if thorough { 4 } else { 3 }, vec![]);
    fam.push(w.family(|ops, cfg, _, rec| {
        if let Some(o) = native(ops, cfg, rec)? {
            let (bounds, ..) = steps(&o.proof);
            for (j, step) in wrong_steps().iter().enumerate() {
                let mut bytes = vec![];
                step.write(&mut bytes);
                for k in 0..bounds.len() - 1 {
                    for end in [bounds[k], bounds[k + 1]] {
                        let mut d = o.proof[..bounds[k]].to_vec();
                        d.extend(&bytes);
                        d.extend(&o.proof[end..]);
                        located(&o.initial, &d, &|| format!("{ops:?}: {step:?} (kind {j}) put before offset {end}"), rec)?;
                    }
                }
            }
        }
        Ok(())
    }));
    let w = words("damage: histories", alphabet(), if thorough { 3 } else { 2 }, vec![]);
    fam.push(w.family(|ops, cfg, _, rec| {
        if let Some(o) = native(ops, cfg, rec)? {
            each_damage(&o.proof, 256, &mut |m, what| located(&o.initial, m, what, rec)).map_err(|e| format!("{ops:?}: {e}"))?;
        }
        Ok(())
    }));
    {
        let tern: Vec<Cl> = crate::props::c01::clauses_of_size(3, 3);
        let extra: Vec<Vec<Cl>> = vec![vec![], vec![vec![1]], vec![vec![-2, 3]], vec![vec![3], vec![-3]]];
        let n = extra.len() as u64;
        let values = if thorough { 256 } else { 16 };
        fam.push(Family::new(
            "damage: 3-variable formulas",
            format!("every subset of the 8 ternary clauses x 4 additions; {values} changes of every byte, every lost and repeated byte, lost, repeated and moved steps, every cut and read error"),
            256 * n,
            move |i, rec| {
                let mut f: Vec<Cl> = tern.iter().enumerate().filter(|(k, _)| i / n >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                f.extend(extra[(i % n) as usize].clone());
                let o = native(&[Op::Formula(f.clone()), Op::Solve], Cfg::default(), rec)?.unwrap();
                faults(&o.initial, &o.proof, rec).map_err(|e| format!("{f:?}: {e}"))?;
                each_damage(&o.proof, values, &mut |m, what| located(&o.initial, m, what, rec)).map_err(|e| format!("{f:?}: {e}"))
            },
        ));
    }
    {
        // longer proofs
        let f: Vec<_> = formulas::medium().into_iter().filter(|f| max_var(&f.cls) <= 20 && f.cls.len() <= 60).collect();
        let per = 16u64;
        fam.push(Family::new(
            "lost and wrong steps: long proofs",
            format!("{} formulas: each of the first {} steps lost, repeated and preceded by each kind of wrong step", f.len(), if thorough { 400 } else { 60 }),
            f.len() as u64 * per,
            move |i, rec| {
                let k = (i / per) as usize;
                let o = native(&[Op::Formula(f[k].cls.clone()), Op::Solve], configs()[1], rec)?.unwrap();
                let (b, ..) = steps(&o.proof);
                let e = |e: String| format!("{}: {}", f[k].name, &e[..e.len().min(600)]);
                for s in (0..(b.len() - 1).min(if thorough { 400 } else { 60 })).filter(|s| s % per as usize == (i % per) as usize) {
                    let mut d = o.proof[..b[s]].to_vec();
                    d.extend(&o.proof[b[s + 1]..]);
                    located(&o.initial, &d, &|| format!("step {} lost", s + 1), rec).map_err(e)?;
                    let mut d = o.proof[..b[s + 1]].to_vec();
                    d.extend(&o.proof[b[s]..]);
                    located(&o.initial, &d, &|| format!("step {} repeated", s + 1), rec).map_err(e)?;
                    for w in wrong_steps() {
                        let mut d = o.proof[..b[s]].to_vec();
                        w.write(&mut d);
                        d.extend(&o.proof[b[s]..]);
                        located(&o.initial, &d, &|| format!("{w:?} put before step {}", s + 1), rec).map_err(e)?;
                    }
                }
                Ok(())
            },
        ));
    }
    Check {
        id: "C26",
        level: "fault_enumeration",
        rule: "distinct damaged proofs with the kind of rejection, and distinct (position, proof) pairs that were cut and made unreadable",
        assumptions: vec!["the crate's own step parser (C18) gives the boundaries of the steps", "damaged proofs that mention variables beyond 3000 are not run"],
        families: fam,
    }
}
