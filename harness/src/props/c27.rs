//! C27: a checker stays sound and usable after a rejected, unreadable or finished proof.
use crate::checkmc::*;
use crate::engine::*;
use crate::hist::lits;
use crate::monitor::*;
use crate::props::c08::{alphabet, formulas3, multisets, named};
use crate::refsat::Cl;
use crate::steps::Step;
use std::collections::HashSet;
use varisat_checker::{Checker, CheckerError};

/// What a checker is given.
#[derive(Clone, Debug)]
enum Call {
    /// a proof without end: its only step
    Step(Step),
    /// a proof that is complete
    Whole(Vec<Step>),
    /// a proof that is cut off in or after this step
    Cut(Step),
    /// bytes that are no step
    Garbage,
    /// an unreadable proof
    Unreadable,
    Clause(Cl),
}

#[derive(Clone, Debug, PartialEq)]
enum Answer {
    /// all of the steps were accepted
    Accepted,
    Complete,
    Rejected(String),
}

struct Broken;
impl std::io::Read for Broken {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(std::io::Error::other("broken"))
    }
}

fn call(c: &mut Checker, call: &Call) -> Result<Answer, String> {
    let mut bytes = vec![];
    let r = match call {
        Call::Clause(cl) => return Ok(match c.add_clause(&lits(cl)) {
            Ok(()) => Answer::Accepted,
            Err(CheckerError::CheckFailed { msg, .. }) => Answer::Rejected(msg),
            Err(e) => return Err(format!("add_clause: {e}")),
        }),
        Call::Step(s) => {
            s.write(&mut bytes);
            c.check_proof(&bytes[..])
        }
        Call::Cut(s) => {
            s.write(&mut bytes);
            bytes.pop();
            c.check_proof(&bytes[..])
        }
        Call::Whole(w) => {
            for s in w {
                s.write(&mut bytes);
            }
            Step::End.write(&mut bytes);
            c.check_proof(&bytes[..])
        }
        Call::Garbage => {
            bytes.extend([0xff; 3]);
            c.check_proof(&bytes[..])
        }
        Call::Unreadable => c.check_proof(Broken),
    };
    let whole = matches!(call, Call::Whole(_)) || matches!(call, Call::Step(Step::End));
    let open = matches!(call, Call::Step(_)) && !whole;
    Ok(match (r, call) {
        (Ok(()), _) if whole => Answer::Complete,
        (Ok(()), _) => return Err("accepted as complete".into()),
        (Err(CheckerError::ProofIncomplete { .. }), _) if open => Answer::Accepted,
        (Err(CheckerError::ProofIncomplete { .. }), Call::Cut(_)) => Answer::Rejected("cut".into()),
        (Err(CheckerError::CheckFailed { msg, .. }), Call::Step(_) | Call::Whole(_)) => Answer::Rejected(msg),
        (Err(CheckerError::ParseError { .. }), Call::Garbage) => Answer::Rejected("garbage".into()),
        (Err(CheckerError::IoError { .. }), Call::Unreadable) => Answer::Rejected("unreadable".into()),
        (Err(e), _) => return Err(format!("unexpected error: {e:?}")),
    })
}

struct Run {
    answers: Vec<Answer>,
    events: Vec<Event>,
}

/// All calls in order on one checker; everything that is reported has to be true.
fn drive(initial: &[Cl], calls: &[Call], rec: &mut Rec) -> Result<Run, String> {
    rec.eval();
    let ctx = |e: String| format!("{e}: formula {initial:?}, then {calls:?}");
    let (mut tr, mut pm) = (Transcript::default(), ProcMonitor::default());
    let answers = catch(|| {
        let mut c = Checker::new();
        c.add_processor(&mut pm);
        c.add_transcript(&mut tr);
        for cl in initial {
            c.add_clause(&lits(cl)).map_err(|e| format!("clause: {e}"))?;
        }
        // the last call makes known what is delayed up to the next proof
        calls.iter().chain([&Call::Whole(vec![])]).map(|x| call(&mut c, x)).collect::<Result<Vec<_>, _>>()
    })
    .map_err(|e| ctx(format!("checker panicked: {e}")))?
    .map_err(ctx)?;
    judge_transcript(&tr.events).map_err(ctx)?;
    pm.done().map_err(ctx)?;
    Ok(Run { answers, events: tr.events })
}

/// In every state reached by at most `depth` accepted steps: each call of the alphabet that is rejected,
/// followed by each call.
fn explore(initial: &[Cl], prefix: &[Step], a: &Alphabet, depth: usize, rec: &mut Rec) -> CaseResult {
    let mut start = RefState::new();
    for c in initial {
        if !start.unsat {
            start.add(c, false);
        }
    }
    for s in prefix {
        start.step(s);
    }
    let mut seen: HashSet<u64> = HashSet::new();
    seen.insert(fp(&start));
    let path: Vec<Call> = prefix.iter().cloned().map(Call::Step).collect();
    let mut frontier = vec![(path, start)];
    for level in 0..=depth {
        let mut next = vec![];
        for (path, state) in &frontier {
            rec.state(fp(&(initial, state)));
            let steps = a.steps(state);
            let n = path.len();
            // what each call does here
            let mut ops: Vec<Call> = steps.into_iter().map(Call::Step).collect();
            ops.push(Call::Step(Step::End));
            ops.push(Call::Whole(vec![]));
            ops.push(Call::Garbage);
            ops.push(Call::Unreadable);
            ops.push(Call::Cut(Step::Model(vec![1, 2])));
            ops.push(Call::Cut(Step::Assume(vec![1])));
            for c in [vec![], vec![1], vec![-1], vec![1, -2], vec![2, -2]] {
                ops.push(Call::Clause(c));
            }
            let go = |more: &[&Call], rec: &mut Rec| {
                let mut p = path.clone();
                p.extend(more.iter().map(|&c| c.clone()));
                drive(initial, &p, rec)
            };
            let mut alone = vec![];
            for op in &ops {
                rec.step();
                let r = go(&[op], rec)?;
                match (&r.answers[n], op) {
                    (Answer::Accepted, Call::Step(s)) if level < depth => {
                        let mut state = state.clone();
                        state.step(s);
                        if seen.insert(fp(&state)) {
                            let mut p = path.clone();
                            p.push(op.clone());
                            next.push((p, state));
                        }
                    }
                    _ => (),
                }
                alone.push(r);
            }
            for (k, x) in ops.iter().enumerate() {
                let rejected = matches!(alone[k].answers[n], Answer::Rejected(_));
                let complete = alone[k].answers[n] == Answer::Complete;
                if !rejected && !complete {
                    continue;
                }
                rec.outcome(if rejected { "rejected" } else { "complete" });
                rec.nontrivial(fp(&(initial, state, k)));
                // the verified part of a list of units stays
                let partial = matches!(x, Call::Step(Step::Units(u)) if u.len() > 1);
                for (j, y) in ops.iter().enumerate() {
                    rec.step();
                    let r = go(&[x, y], rec)?;
                    // a deletion ends the use of the last derived clause for the next deletion
                    let deletions = matches!((x, y), (Call::Step(Step::Delete(..)), Call::Step(Step::Delete(_, 1))));
                    if partial || deletions {
                        continue;
                    }
                    let e = |m: &str| Err(format!("{m}: formula {initial:?}, after {path:?}: {x:?}, then {y:?}"));
                    let (got, want) = (&r.answers[n + 1], &alone[j].answers[n]);
                    // more may be acceptable: a rejected call can make variables known
                    if matches!(got, Answer::Rejected(_)) && !matches!(want, Answer::Rejected(_)) {
                        return e(&format!("{got:?} instead of {want:?} without the {} call", if rejected { "rejected" } else { "completed" }));
                    }
                    if r.answers[n + 2] != Answer::Complete {
                        return e(&format!("an empty proof is not accepted in the end: {:?}", r.answers[n + 2]));
                    }
                    // conflicting units are reported with the next proof
                    let other = |v: &[Event]| v.iter().filter(|e| **e != Event::Unsat).cloned().collect::<Vec<_>>();
                    let unsat = |v: &[Event]| v.contains(&Event::Unsat);
                    let same = std::mem::discriminant(got) == std::mem::discriminant(want);
                    if rejected && same && (other(&r.events) != other(&alone[j].events) || unsat(&r.events) != unsat(&alone[j].events)) {
                        return e(&format!("transcript {:?} instead of {:?}", r.events, alone[j].events));
                    }
                }
            }
        }
        frontier = next;
    }
    Ok(())
}

fn family(name: &str, bound: &str, formulas: Vec<Vec<Cl>>, prefix: Vec<Step>, a: Alphabet, depth: usize) -> Family {
    let mut f = Family::new(
        format!("{name} depth {depth}"),
        format!("{} formulas, every state after at most {depth} accepted steps, there every pair of a rejected or completed call and a call: {bound}", formulas.len()),
        formulas.len() as u64,
        move |i, rec| {
            let f = &formulas[i as usize];
            rec.sample(|| format!("{f:?}"));
            explore(f, &prefix, &a, depth, rec)
        },
    );
    f.chunk = 1;
    f
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let t = |a: usize, b: usize| if thorough { b } else { a };
    let mut pool = all_clauses(2, 2);
    pool.push(vec![1, -1]);
    let small = multisets(&pool, 2);
    fam.push(family(
        "derivations 2 variables",
        "additions, unit lists and deletions with one hint, claims",
        multisets(&pool, t(2, 3)),
        vec![],
        Alphabet { derive: true, delete: true, claims: true, hint_len: 1, ..alphabet(2) },
        t(0, 1),
    ));
    fam.push(family(
        "named 2 variables",
        "deletions, additions of clauses, claims, after naming the variables",
        small.clone(),
        named(2),
        Alphabet { delete: true, claims: true, add: true, hint_len: 1, ..alphabet(2) },
        t(1, 2),
    ));
    fam.push(family(
        "variable names 2 variables",
        "naming, hiding, mode changes, deletion and renaming of variables with claims and clauses",
        small.iter().filter(|f| f.len() < 2 || thorough).cloned().collect(),
        vec![],
        Alphabet { names: true, claims: true, add: true, hint_len: 1, max_clause: 1, ..alphabet(2) },
        t(2, 3),
    ));
    fam.push(family(
        "derivations 3 variables",
        "derivations of all clauses with every hint list up to 2, deletions, models",
        formulas3(),
        vec![],
        Alphabet { derive: true, delete: true, hint_len: 1, ..alphabet(3) },
        t(0, 1),
    ));
    Check {
        id: "C27",
        level: "model_checking",
        rule: "a state is a reference state of the checker; nontrivial: distinct (formula, state, rejected or completed call) triples, each followed by every call of the alphabet",
        assumptions: vec!["states with equal reference state behave equally"],
        families: fam,
    }
}
