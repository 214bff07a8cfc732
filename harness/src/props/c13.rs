//! C13: chunked parsing and read faults.
use crate::dimacs::{self, Expected, Fault};
use crate::engine::*;
use crate::hist::*;
use crate::monitor::{ProcMonitor, Seen, Transcript, Event};
use crate::props::c10::Injected;
use crate::props::c11::Source;
use crate::props::c12::*;
use std::cell::Cell;
use crate::refsat::tt;
use varisat::Solver;
use varisat_checker::Checker;
use varisat_dimacs::{DimacsParser, ParserError};

#[derive(Clone, Debug, PartialEq)]
struct Parsed {
    clauses: Vec<Vec<i32>>,
    vars: usize,
    count: usize,
    header: Option<(usize, usize)>,
    fault: Option<Fault>,
}

/// Feed chunks; take the formula after those chunks whose bit is set in `takes`.
fn chunked(input: &[u8], cuts: &[usize], takes: u64) -> Result<Parsed, String> {
    let mut p = DimacsParser::new();
    let mut clauses = vec![];
    let mut vars = 0;
    let mut fault = None;
    let mut from = 0;
    for (k, &to) in cuts.iter().chain([&input.len()]).enumerate() {
        match p.parse_chunk(&input[from..to]) {
            Ok(()) => (),
            Err(e) => {
                fault = Some(parser_fault(&e)?);
                // must keep failing
                for more in [&b""[..], b"0\n", b"1"] {
                    match p.parse_chunk(more) {
                        Err(ParserError::PreviousError) => (),
                        r => return Err(format!("after the error {e:?} the next parse_chunk() returned {r:?}")),
                    }
                }
                break;
            }
        }
        from = to;
        if takes >> (k % 60) & 1 == 1 {
            let f = p.take_formula();
            if f.var_count() < vars {
                return Err("the variable count of a taken formula went down".into());
            }
            vars = f.var_count();
            clauses.extend(text_of(&f));
        }
    }
    if fault.is_none() {
        if let Err(e) = p.eof() {
            fault = Some(parser_fault(&e)?);
        }
    }
    if fault.is_none() {
        if takes >> 60 & 1 == 1 {
            clauses.extend(text_of(&p.take_formula()));
        }
        if let Err(e) = p.check_header() {
            fault = Some(parser_fault(&e)?);
        }
    }
    let header = p.header().map(|h| (h.var_count, h.clause_count));
    let (count, vars) = (p.clause_count(), p.var_count());
    clauses.extend(text_of(&p.take_formula()));
    Ok(Parsed { clauses, vars, count, header, fault })
}

fn same(input: &[u8], whole: &Parsed, cuts: &[usize], takes: u64, rec: &mut Rec) -> CaseResult {
    rec.eval();
    let e = |m: String| format!("cut at {cuts:?}, taken at {takes:#b}: {m}: {}", show(input));
    let got = catch(|| chunked(input, cuts, takes)).map_err(|p| e(format!("panicked: {p}")))?.map_err(e)?;
    if got != *whole {
        return Err(e(format!("{got:?}, in one piece {whole:?}")));
    }
    rec.outcome(if got.fault.is_some() { "same fault" } else { "same formula" });
    Ok(())
}

fn whole(input: &[u8]) -> Result<Parsed, String> {
    let w = catch(|| chunked(input, &[], 0)).map_err(|p| format!("panicked: {p}: {}", show(input)))?.map_err(|m| format!("{m}: {}", show(input)))?;
    match dimacs::read(input) {
        Expected::Fault(f) if w.fault != Some(f.clone()) => Err(format!("fault {:?}, expected {f:?}: {}", w.fault, show(input))),
        Expected::Formula(t) if w.fault.is_some() || w.clauses != t.clauses || w.vars != t.vars || w.count != t.clauses.len() || w.header != t.header => {
            Err(format!("parsed {w:?}, expected {t:?}: {}", show(input)))
        }
        _ => Ok(w),
    }
}

/// Readers with short reads, interruptions and errors; callbacks.
fn readers(input: &[u8], whole: &Parsed, positions: &[usize], rec: &mut Rec) -> CaseResult {
    let judge = |what: String, r: Result<(DimacsParser, Vec<Vec<i32>>), anyhow::Error>| -> CaseResult {
        match (&whole.fault, r) {
            (None, Ok((p, c))) => {
                if c != whole.clauses || p.clause_count() != whole.count || p.var_count() != whole.vars {
                    return Err(format!("{what}: {c:?}, in one piece {whole:?}: {}", show(input)));
                }
                Ok(())
            }
            (Some(f), Err(e)) => {
                let g = fault_of(&e).map_err(|m| format!("{what}: {m}: {}", show(input)))?;
                if g != *f {
                    return Err(format!("{what}: {g:?}, in one piece {f:?}: {}", show(input)));
                }
                Ok(())
            }
            (f, r) => Err(format!("{what}: {:?}, in one piece {f:?}: {}", r.map(|x| x.1), show(input))),
        }
    };
    for chunk in [1usize, 2, 3, 5, 1000] {
        for interrupt in [false, true] {
            rec.eval();
            let mut s = Source::new(input);
            s.chunk = chunk;
            s.interrupt = interrupt;
            let mut c = vec![];
            let r = DimacsParser::parse_incremental(s, |p| {
                c.extend(text_of(&p.take_formula()));
                Ok(())
            });
            judge(format!("reads of {chunk} bytes, interrupted {interrupt}"), r.map(|p| (p, c)))?;
            rec.outcome("reader");
        }
    }
    for &pos in positions {
        // read error
        rec.eval();
        let mut s = Source::new(input);
        s.fail_at = Some(pos);
        s.kind = pos + fp(&input) as usize % 18;
        let prefix = chunked(&input[..pos], &[], 0)?;
        // the prefix may already be wrong, but not merely incomplete
        let early = matches!(prefix.fault, Some(Fault::Unexpected { .. } | Fault::TooLarge { .. } | Fault::Header { .. })) && {
            let mut p = DimacsParser::new();
            p.parse_chunk(&input[..pos]).is_err()
        };
        let what = format!("read error at byte {pos}");
        match DimacsParser::parse(s) {
            Ok(f) => return Err(format!("{what}: accepted as {:?}: {}", text_of(&f), show(input))),
            Err(e) if early => {
                let f = fault_of(&e).map_err(|m| format!("{what}: {m}: {}", show(input)))?;
                if Some(&f) != prefix.fault.as_ref() {
                    return Err(format!("{what}: {f:?}, expected {:?}: {}", prefix.fault, show(input)));
                }
            }
            Err(e) => {
                let ok = e.downcast_ref::<std::io::Error>().and_then(|e| e.get_ref()).and_then(|e| e.downcast_ref::<Injected>()) == Some(&Injected(11));
                if !ok {
                    return Err(format!("{what}: reported as {e:?}: {}", show(input)));
                }
                rec.nontrivial(fp(&(input, pos)));
                rec.outcome("read error reported");
            }
        }
    }
    // failing callback: at the n-th invocation
    let calls = Cell::new(0usize);
    let all = {
        let mut s = Source::new(input);
        s.chunk = 3;
        let _ = DimacsParser::parse_incremental(s, |_| {
            calls.set(calls.get() + 1);
            Ok(())
        });
        calls.get()
    };
    for n in 0..all {
        rec.eval();
        calls.set(0);
        let mut s = Source::new(input);
        s.chunk = 3;
        let r = DimacsParser::parse_incremental(s, |_| {
            calls.set(calls.get() + 1);
            if calls.get() == n + 1 {
                return Err(anyhow::Error::new(Injected(5)));
            }
            Ok(())
        });
        let ok = matches!(&r, Err(e) if e.downcast_ref::<Injected>() == Some(&Injected(5)));
        if !ok || calls.get() != n + 1 {
            return Err(format!("callback failing at call {n}: {} calls, ok: {}: {}", calls.get(), r.is_ok(), show(input)));
        }
        rec.outcome("callback error returned");
    }
    Ok(())
}

/// The users of the parser: solver and checker.
fn consumers(input: &[u8], whole: &Parsed, positions: &[usize], rec: &mut Rec) -> CaseResult {
    let sources = |chunk: usize, fail: Option<usize>| {
        let mut s = Source::new(input);
        s.chunk = chunk;
        s.interrupt = chunk == 2;
        s.fail_at = fail;
        s.kind = fp(&input) as usize % 18;
        s
    };
    let normal = |c: &Vec<i32>| {
        let mut c = c.clone();
        c.sort_by_key(|l| (l.abs(), *l < 0));
        c.dedup();
        c
    };
    let want: Vec<Vec<i32>> = whole.clauses.iter().map(normal).collect();
    let refuted = want.iter().position(|c| c.is_empty());
    for (chunk, fail) in [1usize, 2, 7, 4096].iter().map(|&c| (c, None)).chain(positions.iter().map(|&p| (4096, Some(p)))) {
        rec.eval();
        let what = format!("read by {chunk}, error at {fail:?}: {}", show(input));
        let mut m = ProcMonitor::default();
        let (r, verdict) = {
            let mut solver = Solver::new();
            solver.add_proof_processor(&mut m);
            catch(|| {
                let r = solver.add_dimacs_cnf(sources(chunk, fail));
                // usable after an error, too
                let again = solver.add_dimacs_cnf(&b"-1 3 0"[..]);
                (r, again.map_err(|e| e.to_string()).and_then(|()| solver.solve().map_err(|e| e.to_string())))
            })
            .map_err(|p| format!("solver panicked: {p}: {what}"))?
        };
        let verdict = verdict.map_err(|e| format!("afterwards the solver failed: {e}: {what}"))?;
        let mut t = Transcript::default();
        let rc = {
            let mut checker = Checker::new();
            checker.add_transcript(&mut t);
            catch(|| checker.add_dimacs_cnf(sources(chunk, fail))).map_err(|p| format!("checker panicked: {p}: {what}"))?
        };
        for (who, r) in [("solver", &r), ("checker", &rc)] {
            match (fail, &whole.fault, r) {
                (None, None, Ok(())) => (),
                (None, Some(f), Err(e)) if fault_of(e).as_ref() == Ok(f) => (),
                (Some(_), _, Err(_)) => rec.outcome("consumer reported"),
                _ => return Err(format!("{who} returned {r:?}, expected {:?}: {what}", whole.fault)),
            }
        }
        let got: Vec<Vec<i32>> = m
            .seen
            .iter()
            .filter_map(|s| match s {
                Seen::Add(_, c) | Seen::Dup(_, _, c) | Seen::Taut(_, c) => Some(c.clone()),
                _ => None,
            })
            .collect();
        let sat = |k: usize| tt(&want[..k]) & tt(&[vec![-1, 3]]) != 0;
        if fail.is_none() && whole.fault.is_none() {
            if verdict != sat(want.len()) {
                return Err(format!("solve() returned {verdict} then: {what}"));
            }
        } else {
            // a part of the text may have been loaded, in order
            let explained = (0..=want.len()).any(|k| {
                let mut w = want[..k].to_vec();
                w.push(vec![-1, 3]);
                w.starts_with(&got) && (got.len() == k + 1 || tt(&got) == 0) && verdict == sat(k)
            });
            if !explained {
                return Err(format!("after the error the solver has {got:?} and solve() returned {verdict}: {what}"));
            }
            rec.outcome("used after an error");
        }
        if fail.is_none() && whole.fault.is_none() {
            let mut want = want.clone();
            want.push(vec![-1, 3]);
            let got: Vec<Vec<i32>> = m
                .seen
                .iter()
                .filter_map(|s| match s {
                    Seen::Add(_, c) | Seen::Dup(_, _, c) | Seen::Taut(_, c) => Some(c.clone()),
                    _ => None,
                })
                .collect();
            // a refuted solver or checker only numbers further clauses
            let known = refuted.map_or(want.len(), |r| r + 1);
            if got.len() < known || got.len() > want.len() || got[..known] != want[..known] {
                return Err(format!("the solver got {got:?}, expected {want:?}: {what}"));
            }
            want.pop();
            let known = known.min(want.len());
            let got: Vec<Vec<i32>> = t.events.iter().filter_map(|e| if let Event::Add(c) = e { Some(normal(c)) } else { None }).collect();
            if got.len() < known || got.len() > want.len() || got[..known] != want[..known] {
                return Err(format!("the checker got {got:?}, expected {want:?}: {what}"));
            }
            rec.outcome("consumer got the formula");
        }
    }
    Ok(())
}

fn all_cuts(n: usize, mask: u64) -> Vec<usize> {
    (1..n).filter(|k| mask >> (k - 1) & 1 == 1).collect()
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let alphabet: &[u8] = b"012-\n cp";
    for n in 1..if thorough { 8 } else { 7 } {
        let k = alphabet.len();
        fam.push(Family::new(
            format!("all chunkings of all strings of length {n}"),
            format!("every string of {n} bytes over 0 1 2 - newline space c p, every way to cut it, formula taken never, after every chunk and after every other"),
            pow(k, n),
            move |i, rec| {
                let mut d = Digits(i);
                let s: Vec<u8> = (0..n).map(|_| alphabet[d.take(k)]).collect();
                let w = whole(&s)?;
                for mask in 0..1u64 << (n - 1) {
                    for takes in [0, !0u64, 0x5555_5555_5555_5555] {
                        same(&s, &w, &all_cuts(n, mask), takes, rec)?;
                    }
                }
                Ok(())
            },
        ));
    }
    let t = tokens();
    for n in 1..if thorough { 6 } else { 5 } {
        let t = t.clone();
        fam.push(Family::new(
            format!("texts of {n} tokens"),
            format!("every sequence of {n} out of {} tokens; every cut, every pair of cuts, byte by byte; readers, read errors and callback errors at every position", t.len()),
            pow(t.len(), n),
            move |i, rec| {
                let s = words_of(&t, n, i);
                let w = whole(&s)?;
                let len = s.len();
                for a in 0..=len {
                    same(&s, &w, &[a], 1, rec)?;
                    same(&s, &w, &[a], 0, rec)?;
                    for b in a..=len {
                        same(&s, &w, &[a, b], !0, rec)?;
                    }
                }
                let bytes: Vec<usize> = (0..len).collect();
                same(&s, &w, &bytes, !0, rec)?;
                same(&s, &w, &bytes, 0, rec)?;
                let pos: Vec<usize> = (0..=len).collect();
                readers(&s, &w, &pos, rec)
            },
        ));
    }
    {
        let t: Vec<&'static [u8]> = vec![b"p cnf 3 2\n", b"1 -1 ", b"-3 ", b"0\n", b"2 1 2 ", b"c x\n", b"x", b"-"];
        let n = if thorough { 7 } else { 6 };
        fam.push(Family::new(
            "solver and checker",
            format!("every sequence of {n} out of {} tokens through Solver::add_dimacs_cnf and Checker::add_dimacs_cnf with short and interrupted reads and read errors", t.len()),
            pow(t.len(), n),
            move |i, rec| {
                let s = words_of(&t, n, i);
                let w = whole(&s)?;
                let pos: Vec<usize> = (0..=s.len()).collect();
                consumers(&s, &w, &pos, rec)
            },
        ));
    }
    {
        // texts longer than the reader's buffer
        let shifts = if thorough { 24 } else { 3 };
        fam.push(Family::new(
            "long texts",
            "texts of 3 buffer lengths: every cut within 40 bytes of a buffer boundary, single read errors there, reads of 1 to 17 bytes",
            shifts as u64 * 20,
            move |i, rec| {
                let mut d = Digits(i);
                let shift = d.take(shifts);
                let part = d.take(20);
                let mut s = vec![b' '; shift];
                let mut k = 0;
                while s.len() < 25000 {
                    let l: &[u8] = [b"1 -2 3 0\n" as &[u8], b"c comment\n", b"40\n", b"0 ", b"-10\r\n5 0\n", b"12345 -678 0\n"][k % 6];
                    s.extend_from_slice(l);
                    k += 1;
                }
                s.extend_from_slice(b"\n0\n");
                let w = whole(&s)?;
                let mut pos: Vec<usize> = vec![];
                for b in [8192usize, 16384, 24576] {
                    pos.extend(b - 40..b + 40);
                }
                let pos: Vec<usize> = pos.into_iter().skip(part).step_by(20).collect();
                for &p in &pos {
                    same(&s, &w, &[p], 3, rec)?;
                    same(&s, &w, &[p - 1, p], 0, rec)?;
                }
                readers(&s, &w, &pos, rec).map_err(|e| e[..e.len().min(500)].to_string())
            },
        ));
    }
    {
        let sizes: Vec<usize> = text_sizes(thorough).into_iter().filter(|&n| n <= if thorough { 9000 } else { 1100 } || n == 65_536).collect();
        fam.push(Family::new(
            "scaled texts",
            format!("{SCALED_TEXTS} texts of which one part has {} sizes up to 65536, in pieces of 1 (up to size 9000), 7, 100 and 8192 bytes and with single cuts; readers up to size 2000", sizes.len()),
            (SCALED_TEXTS * sizes.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let (kind, n) = (d.take(SCALED_TEXTS), sizes[d.take(sizes.len())]);
                let s = scaled_text(kind, n);
                let run = |rec: &mut Rec| -> CaseResult {
                    let w = whole(&s)?;
                    for step in if n > 9000 { vec![1000, 8192] } else { vec![1, 7, 100, 8192] } {
                        let cuts: Vec<usize> = (0..s.len()).step_by(step).skip(1).collect();
                        same(&s, &w, &cuts, 0, rec)?;
                        same(&s, &w, &cuts, !0, rec)?;
                    }
                    for part in 1..8 {
                        same(&s, &w, &[s.len() * part / 8], 1, rec)?;
                    }
                    rec.nontrivial(fp(&s));
                    let l = s.len();
                    if n > 2000 {
                        return Ok(());
                    }
                    readers(&s, &w, &[0, l / 3, l.saturating_sub(1), l], rec)
                };
                run(rec).map_err(|e| format!("text {kind} of size {n}: {}", e.chars().take(500).collect::<String>()))
            },
        ));
    }
    Check {
        id: "C13",
        level: "fault_enumeration",
        rule: "distinct (input, read error position) pairs whose error reaches the parser; every chunking, read error and callback error of every input is run and compared with the input in one piece",
        assumptions: vec![],
        families: fam,
    }
}
