//! C21: checking proofs on the command line.
use crate::cli::*;
use crate::dimacs;
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::props::c01::{clauses_of_size, odd_clauses, show};
use crate::props::c07;
use crate::props::c11::too_big;
use crate::props::c12;
use crate::props::c20::{claims, native, Claims};
use crate::refsat::*;
use std::sync::{Arc, OnceLock};
use varisat::ProofFormat;
use varisat_checker::Checker;
use varisat_lrat::WriteLrat;

/// LRAT files made in this process.
fn lrat(cls: &[Cl], proof: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
    let (t, b) = (Buf::default(), Buf::default());
    {
        let mut pt = WriteLrat::new(t.clone(), false);
        let mut pb = WriteLrat::new(b.clone(), true);
        let mut checker = Checker::new();
        checker.add_processor(&mut pt);
        checker.add_processor(&mut pb);
        checker.add_formula(&formula(cls)).map_err(|e| format!("{e}"))?;
        checker.check_proof(proof).map_err(|e| format!("{e}"))?;
        drop(checker);
        pt.flush().map_err(|e| format!("{e}"))?;
        pb.flush().map_err(|e| format!("{e}"))?;
    }
    let r = (t.0.borrow().clone(), b.0.borrow().clone());
    Ok(r)
}

fn verified(out: &Out, want: Option<&Claims>) -> CaseResult {
    let a = out.answer()?;
    if out.code != Some(0) || a.status != ["VERIFIED"] || a.values.is_some() {
        return Err(format!("expected a verified proof: {}", out.show()));
    }
    if let Some(want) = want {
        if a.transcript != want.lines {
            return Err(format!("transcript {:?}, expected {:?}", a.transcript, want.lines));
        }
    }
    Ok(())
}

fn not_verified(out: &Out) -> CaseResult {
    out.refused(false)?;
    if out.code == Some(0) {
        return Err(format!("exit code 0: {}", out.show()));
    }
    Ok(())
}

/// Check with the tool as the library does; `truth` when the proof is about the clauses alone.
fn compare(cls: &[Cl], proof: &[u8], truth: Option<bool>, rec: &mut Rec) -> CaseResult {
    let (want, c) = claims(cls, proof);
    let d = Scratch::new();
    d.put("in.cnf", dimacs_text(cls, max_var(cls)));
    d.put("p", proof);
    rec.eval();
    let out = Call::new(["--check", "in.cnf", "--proof", "p"]).run(&d)?;
    match want {
        Ok(()) => {
            rec.outcome("verified");
            verified(&out, Some(&c))?;
            if let Some(t) = truth {
                if t && c.unsat || !t && !c.models.is_empty() {
                    return Err(format!("verified a wrong result: {}", out.show()));
                }
                for m in &c.models {
                    // variables fixed by unit clauses may be missing
                    if dpll(&with_units(cls, m), 0).is_none() {
                        return Err(format!("verified the model {m:?}"));
                    }
                }
            }
            Ok(())
        }
        Err(_) => {
            rec.outcome("not verified");
            not_verified(&out)
        }
    }
}

/// A valid proof is verified and converted.
fn good(ops: &[Op], cfg: Cfg, i: u64, rec: &mut Rec) -> CaseResult {
    let first = ops.iter().position(|o| *o == Op::Solve).unwrap_or(ops.len());
    if ops[..first].iter().any(|o| matches!(o, Op::Hide(_) | Op::Observe)) {
        return Ok(());
    }
    let setup = Setup { cfg, format: Some(ProofFormat::Varisat), ..Setup::default() };
    let run = run(ops, setup, vec![], rec)?;
    let cls = &run.initial;
    let e = |e: String| format!("{ops:?} {cfg:?}: {e}");
    let (r, want) = claims(cls, &run.proof);
    r.map_err(|m| e(format!("the library refuses the proof: {m}")))?;
    // what the solver answered is in the transcript, without repetitions
    let unsat = run.obs.iter().any(|o| *o == Obs::Core(Some(vec![])));
    if want.unsat && !unsat {
        return Err(e("the transcript shows UNSAT".into()));
    }
    let (text, binary) = lrat(cls, &run.proof).map_err(e)?;
    let d = Scratch::new();
    let input = dimacs_text(cls, max_var(cls));
    d.put("p", &run.proof);
    let mut args = vec!["--check", "--proof", "p"];
    let files = i % 4;
    if files & 1 == 1 {
        args.push("--write-lrat=t");
    }
    if files & 2 == 2 {
        args.extend(["--write-clrat", "b"]);
    }
    let mut call;
    if i / 4 % 2 == 0 {
        d.put("in.cnf", &input);
        args.insert(if i / 8 % 2 == 0 { 1 } else { args.len() }, "in.cnf");
        call = Call::new(args.clone());
    } else {
        call = Call::new(args.clone());
        call.input = if i / 8 % 2 == 0 { Input::File(input.as_bytes()) } else { Input::Pipe(input.as_bytes(), 5) };
    }
    rec.eval();
    verified(&call.run(&d)?, Some(&want)).map_err(|m| e(format!("{args:?}: {m}")))?;
    rec.outcome("verified");
    if files & 1 == 1 && d.get("t")? != text || files & 2 == 2 && d.get("b")? != binary {
        return Err(e(format!("{args:?}: the LRAT files differ from those of the library")));
    }
    Ok(())
}

struct Made {
    cls: Vec<Cl>,
    truth: bool,
    proof: Vec<u8>,
}

fn made(fs: Vec<Vec<Cl>>) -> Vec<Made> {
    fs.into_iter()
        .map(|cls| {
            let (truth, proof) = native(&cls, cfg(1, 1, 1));
            Made { truth, cls, proof }
        })
        .collect()
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    for (name, al) in [("core", core_alphabet()), ("lifecycle", lifecycle_alphabet()), ("unit", unit_alphabet()), ("refuted", refuted_alphabet()), ("reuse", reuse_alphabet())] {
        fam.push(words(name, al.clone(), 2, vec![]).family(good));
        fam.push(solved_words(&format!("{name} solved"), al.clone(), 3).family(good));
        if thorough {
            fam.push(words(name, al, 3, vec![]).family(good));
        }
    }
    {
        // proofs of plain formulas: the LRAT files are judged by an independent checker
        let mut all: Vec<Cl> = vec![vec![]];
        all.extend(clauses_of_size(2, 1));
        all.extend(clauses_of_size(2, 2));
        all.extend([vec![1, -1], vec![2, 2, -1], vec![5, -3], vec![1, 2]]);
        let mut fs: Vec<Vec<Cl>> = small_subsets(all.len(), 4).iter().map(|s| s.iter().map(|&k| all[k].clone()).collect()).collect();
        let c3 = clauses_of_size(3, 3);
        fs.extend((0..256u64).filter(|m| m.count_ones() >= 6).map(|m| (0..8).filter(|k| m >> k & 1 == 1).map(|k| c3[k].clone()).collect()));
        let small = fs.len();
        fs.extend(formulas::medium().into_iter().map(|f| f.cls));
        fs.extend([34, 130, 300].iter().flat_map(|&n| formulas::scaled_formulas(n)).filter(|f| f.sat == Some(false)).map(|f| f.cls));
        let n = fs.len() as u64;
        fam.push(Family::new("formulas", format!("{small} small and {} structured formulas: verified, with transcript, LRAT and CLRAT files checked on their own", n as usize - small), n, move |i, rec| {
            let cls = &fs[i as usize];
            rec.eval();
            rec.nontrivial(fp(cls));
            rec.sample(|| show(cls));
            let (truth, proof) = native(cls, if i % 2 == 0 { cfg(1, 1, 1) } else { Cfg::default() });
            let d = Scratch::new();
            d.put("in.cnf", dimacs_text(cls, max_var(cls)));
            d.put("p", &proof);
            let out = Call::new(["--check", "in.cnf", "--proof", "p", "--write-lrat", "t", "--write-clrat", "b"]).run(&d)?;
            let (_, want) = claims(cls, &proof);
            let e = |e: String| format!("{}: {e}", show(cls));
            verified(&out, Some(&want)).map_err(e)?;
            let lines = out.answer()?.transcript;
            if lines.iter().any(|l| l == "SAT") != truth || lines.iter().any(|l| l == "UNSAT") == truth {
                return Err(e(format!("transcript {lines:?} for verdict {truth}")));
            }
            c07::judge("on the command line", &d.get("t")?, &d.get("b")?, cls, truth)
        }));
    }
    {
        let c3 = clauses_of_size(3, 3);
        let mut fs: Vec<Vec<Cl>> = vec![vec![], vec![vec![]], vec![vec![1]], vec![vec![1], vec![-1]], vec![vec![2], vec![-1]], vec![vec![1, 2]], vec![vec![1, -1]], vec![vec![1], vec![1], vec![-1, -1]], vec![vec![1, 2], vec![-1, -2]], vec![vec![1, 2], vec![-2, -1], vec![1, -2], vec![2, -1]], vec![vec![1, 2], vec![-2, -1], vec![1, -2]]];
        fs.push(c3.clone());
        for k in 0..8 {
            let mut f = c3.clone();
            f.remove(k);
            fs.push(f);
        }
        let mut f = c3.clone();
        f.swap(0, 7);
        fs.push(f);
        fs.push(c3.iter().chain(&c3).cloned().collect());
        fs.push(c3.iter().map(|c| c.iter().map(|l| -l).collect()).collect());
        fs.push(c3.iter().map(|c| c.iter().map(|l| l + l.signum()).collect()).collect());
        for f in [formulas::php(3, 2, false), formulas::php(3, 2, true), formulas::php(3, 3, true), formulas::php(4, 3, false), formulas::php(4, 3, true), formulas::full(4), formulas::chain(5, true), formulas::chain(5, false), formulas::ordering(3), formulas::ordering(4), formulas::queens(3), formulas::queens(4)] {
            fs.push(f.cls);
        }
        if thorough {
            fs.extend(odd_clauses().into_iter().flat_map(|a| [vec![a.clone(), vec![1]], vec![a, vec![-1], vec![3]]]));
            let c2 = clauses_of_size(2, 2);
            fs.extend((0..16).map(|m| (0..4).filter(|k| m >> k & 1 == 1).map(|k| c2[k].clone()).collect::<Vec<_>>()));
        }
        let ms = Arc::new(made(fs));
        let n = ms.len();
        fam.push(Family::new("other formulas' proofs", format!("every formula with the proof of every one of {n} formulas: as the library judges, and sound"), (n * n) as u64, move |i, rec| {
            let (a, b) = (&ms[i as usize / n], &ms[i as usize % n]);
            rec.nontrivial(i);
            compare(&a.cls, &b.proof, Some(a.truth), rec).map_err(|e| format!("clauses {} with the proof of {}: {e}", show(&a.cls), show(&b.cls)))
        }));
    }
    {
        // damaged proofs
        let a = |l: &[i32]| Op::Assume(l.to_vec());
        let c = |l: &[i32]| Op::Clause(l.to_vec());
        let hs: Vec<Vec<Op>> = vec![
            vec![Op::Solve],
            vec![c(&[1]), c(&[-1]), Op::Solve],
            vec![c(&[1, 2]), Op::Solve, a(&[-1, -2]), Op::Solve, c(&[-1]), c(&[-2]), Op::Solve],
            vec![Op::Formula(clauses_of_size(3, 3)), Op::Solve],
            vec![Op::Formula(formulas::php(4, 3, false).cls), Op::Solve],
            vec![Op::Formula(formulas::queens(4).cls), Op::Solve, a(&[1]), Op::Solve],
            vec![c(&[1, 2]), c(&[-1, 3]), Op::Solve, Op::Hide(1), Op::NewVar, c(&[1, -2]), Op::Witness(3), Op::Solve, Op::Sample(3), a(&[-2, -3]), Op::Solve],
        ];
        let made: Arc<Vec<(Vec<Cl>, Vec<u8>)>> = Arc::new(
            hs.iter()
                .map(|h| {
                    let sh = Shared { states: FpSet::new(), nontrivial: FpSet::new() };
                    let mut rec = Rec::new(&sh);
                    let o = run(h, Setup { format: Some(ProofFormat::Varisat), no_reference: true, ..Setup::default() }, vec![], &mut rec).expect("history");
                    (o.initial, o.proof)
                })
                .collect(),
        );
        let mut places = vec![];
        for (k, (_, p)) in made.iter().enumerate() {
            for at in 0..p.len().min(if thorough { 4000 } else { 400 }) {
                places.push((k, at));
            }
        }
        let vals = if thorough { 255 } else { 12 };
        let n = (places.len() * (vals + 1)) as u64;
        fam.push(Family::new("damaged proofs", format!("every proper prefix of {} proofs (of the first 400, thorough 4000, bytes) and every byte changed to {vals} other values", made.len()), n, move |i, rec| {
            let (k, at) = places[i as usize / (vals + 1)];
            let v = i as usize % (vals + 1);
            let (cls, proof) = &made[k];
            rec.nontrivial(i);
            if v == vals {
                let d = Scratch::new();
                d.put("in.cnf", dimacs_text(cls, max_var(cls)));
                d.put("p", &proof[..at]);
                rec.eval();
                rec.outcome("cut");
                return not_verified(&Call::new(["--check", "in.cnf", "--proof", "p"]).run(&d)?).map_err(|e| format!("proof of {:?} cut to {at} bytes: {e}", hs[k]));
            }
            let mut p = proof.clone();
            let o = p[at];
            p[at] = if vals == 255 {
                o.wrapping_add(v as u8 + 1)
            } else {
                match v {
                    0..=7 => o ^ 1 << v,
                    8 => o.wrapping_add(1),
                    9 => o.wrapping_sub(1),
                    10 => 0,
                    _ => 255,
                }
            };
            if p[at] == o || too_big(&p) {
                return Ok(());
            }
            compare(cls, &p, None, rec).map_err(|e| format!("proof of {:?} with byte {at} changed from {o} to {}: {e}", hs[k], p[at]))
        }));
    }
    {
        let toks: Vec<&'static [u8]> = c12::tokens().into_iter().filter(|t| !t.windows(7).any(|w| w.iter().all(|b| b.is_ascii_digit())) || t.starts_with(b"p")).collect();
        let k = toks.len();
        let depth = if thorough { 3 } else { 2 };
        fam.push(Family::new("formula texts", format!("every sequence of {depth} out of {k} tokens as formula, with the proof of the formula it stands for"), pow(k, depth), move |i, rec| {
            let text = c12::words_of(&toks, depth, i);
            rec.nontrivial(fp(&text));
            let d = Scratch::new();
            d.put("x", &text);
            rec.eval();
            let e = |e: String| format!("{}: {e}", c12::show(&text));
            match dimacs::read(&text) {
                dimacs::Expected::Open => rec.outcome("open"),
                dimacs::Expected::Formula(t) => {
                    if max_var(&t.clauses) > 3000 {
                        return Ok(());
                    }
                    let (_, proof) = native(&t.clauses, Cfg::default());
                    d.put("p", &proof);
                    rec.outcome("accepted text");
                    verified(&Call::new(["--check", "x", "--proof", "p"]).run(&d)?, None).map_err(e)?;
                }
                dimacs::Expected::Fault(_) => {
                    d.put("p", native(&[vec![]], Cfg::default()).1);
                    rec.outcome("refused text");
                    not_verified(&Call::new(["--check", "x", "--proof", "p"]).run(&d)?).map_err(e)?;
                }
            }
            Ok(())
        }));
    }
    fam.push(invalid());
    fam.push(full_disk(thorough));
    Check {
        id: "C21",
        level: "fault_enumeration",
        rule: "a case is a formula and a proof checked by the real command line tool in a scratch directory, or one option list, or one position at which an output file cannot grow; distinct by case",
        assumptions: vec!["the library's checker and transcripts (C08, C11, C23) as the reference for damaged and mismatched proofs, truth tables for plain formulas", "damaged proofs that mention variables beyond 3000 are not run, as the checker allocates memory for them by design"],
        families: fam,
    }
}

fn invalid() -> Family {
    let lists: Vec<Vec<&'static str>> = vec![
        vec!["--check"],
        vec!["--check", "in.cnf"],
        vec!["--check", "in.cnf", "--proof"],
        vec!["--check", "missing", "--proof", "p"],
        vec!["--check", "dir", "--proof", "p"],
        vec!["--check", "bad.cnf", "--proof", "p"],
        vec!["--check", "short.cnf", "--proof", "p"],
        vec!["--check", "p", "--proof", "in.cnf"],
        vec!["--check", "in.cnf", "--proof", "in.cnf"],
        vec!["--check", "in.cnf", "--proof", "missing"],
        vec!["--check", "in.cnf", "--proof", "dir"],
        vec!["--check", "in.cnf", "--proof", "empty"],
        vec!["--check", "in.cnf", "--proof", "/dev/null"],
        vec!["--check", "in.cnf", "--proof", "zeros"],
        vec!["--check", "in.cnf", "--proof", "drat"],
        vec!["--check", "in.cnf", "--proof", "p", "--no-such-option"],
        vec!["--check", "in.cnf", "in.cnf", "--proof", "p"],
        vec!["--check", "in.cnf", "--proof", "p", "--write-lrat", "missing/x"],
        vec!["--check", "in.cnf", "--proof", "p", "--write-clrat", "missing/x"],
        vec!["--check", "in.cnf", "--proof", "p", "--write-lrat", "dir"],
        vec!["--check", "in.cnf", "--proof", "p", "--write-clrat", "dir"],
        vec!["--check", "in.cnf", "--proof", "p", "--write-lrat", "/dev/full"],
        vec!["--check", "in.cnf", "--proof", "p", "--write-clrat", "/dev/full"],
        vec!["--check", "in.cnf", "--proof", "p", "--write-lrat", "t", "--write-clrat", "/dev/full"],
        vec!["--check", "in.cnf", "--proof", "p", "--write-lrat", "/dev/full", "--write-clrat", "b"],
        vec!["--check", "in.cnf", "--proof", "p", "--write-lrat"],
        vec!["--check", "in.cnf", "--proof", "p", "--write-clrat"],
    ];
    let m = lists.len() as u64;
    Family::new("invalid calls", format!("{m} calls with missing or invalid options, unreadable files and files that cannot be written, and full standard output"), m + 4, move |i, rec| {
        let d = Scratch::new();
        let cls = formulas::php(4, 3, false).cls;
        std::fs::create_dir(d.path("dir")).unwrap();
        d.put("in.cnf", dimacs_text(&cls, 12));
        d.put("p", native(&cls, Cfg::default()).1);
        d.put("bad.cnf", dimacs_text(&cls, 12) + "x");
        d.put("short.cnf", "p cnf 2 2\n1 0\n");
        d.put("empty", "");
        d.put("zeros", [0u8; 100]);
        d.put("drat", "0\n");
        rec.eval();
        rec.nontrivial(i);
        if i >= m {
            let i = i - m;
            let mut args = vec!["--check", "in.cnf", "--proof", "p"];
            if i % 2 == 1 {
                args.extend(["--write-lrat", "t"]);
            }
            let out = Call { full: i / 2 == 1, ..Call::new(args) }.run(&d)?;
            return if i / 2 == 0 {
                verified(&out, None)
            } else if out.code == Some(0) {
                Err(format!("nothing could be printed, but {}", out.show()))
            } else {
                Ok(())
            };
        }
        let args = &lists[i as usize];
        rec.sample(|| format!("{args:?}"));
        let out = Call::new(args.clone()).run(&d)?;
        not_verified(&out).map_err(|e| format!("{args:?}: {e}"))
    })
}

/// Every place at which a converted proof can stop growing.
fn full_disk(thorough: bool) -> Family {
    let fs: Vec<Vec<Cl>> = vec![vec![vec![1], vec![-1]], vec![vec![1, 2], vec![-1]], vec![vec![1], vec![1], vec![1]], vec![vec![1, 2], vec![2, 1], vec![1, -1], vec![-2], vec![-1]], formulas::full(3).cls, formulas::php(4, 3, false).cls, formulas::php(6, 5, false).cls];
    let per = if thorough { 1500 } else { 300 };
    type Info = (Vec<u8>, Vec<u8>, Vec<u8>);
    let infos: Vec<OnceLock<Info>> = fs.iter().map(|_| OnceLock::new()).collect();
    let k = fs.len();
    Family::new("output faults", format!("{k} formulas, LRAT, CLRAT or both files that cannot grow past a size: every size up to {per} bytes, larger ones evenly spread"), (k * 3 * per) as u64, move |i, rec| {
        let mut dg = Digits(i);
        let pos = dg.take(per);
        let w = dg.take(3);
        let j = dg.take(k);
        let cls = &fs[j];
        let (proof, t, b) = infos[j].get_or_init(|| {
            let p = native(cls, cfg(1, 1, 1)).1;
            let (t, b) = lrat(cls, &p).expect("valid");
            (p, t, b)
        });
        let size = [t.len(), b.len(), t.len().max(b.len())][w];
        let at = if size < per {
            pos
        } else {
            size - size * pos / per
        };
        if at > size {
            return Ok(());
        }
        let d = Scratch::new();
        d.put("in.cnf", dimacs_text(cls, max_var(cls)));
        d.put("p", proof);
        let mut args = vec!["--check", "--proof", "p", "in.cnf"];
        if w != 1 {
            args.extend(["--write-lrat", "t"]);
        }
        if w != 0 {
            args.extend(["--write-clrat", "b"]);
        }
        let mut call = Call::new(args);
        call.file_limit = Some(at as u64);
        rec.eval();
        rec.nontrivial(i);
        let out = call.run(&d)?;
        let e = |e: String| format!("{}: outputs of {size} bytes with room for {at}: {e}", show(cls));
        if at < size {
            rec.outcome("fault");
            not_verified(&out).map_err(e)
        } else {
            rec.outcome("room enough");
            verified(&out, None).map_err(e)?;
            if w != 1 && d.get("t")? != *t || w != 0 && d.get("b")? != *b {
                return Err(e("the files differ from those of the library".into()));
            }
            Ok(())
        }
    })
}
