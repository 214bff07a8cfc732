//! C20: the command line solver.
use crate::cli::*;
use crate::dimacs;
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::proofs::*;
use crate::props::c01::{clauses_of_size, odd_clauses, show, Suite};
use crate::props::c12;
use crate::refsat::*;
use std::sync::Arc;
use varisat::{ProofFormat, Solver};
use varisat_checker::{Checker, ProofTranscriptProcessor, ProofTranscriptStep};

pub const FORMATS: [&str; 5] = ["varisat", "drat", "binary-drat", "lrat", "clrat"];

/// What a native proof establishes.
#[derive(Default)]
pub struct Claims {
    pub lines: Vec<String>,
    pub unsat: bool,
    pub models: Vec<Vec<i32>>,
    last: Option<(&'static str, usize)>,
}

impl Claims {
    fn end_run(&mut self) {
        if let Some((w, n)) = self.last.take() {
            self.lines.push(match w {
                "ADD" => format!("ADD {n} CLAUSES"),
                "OBSERVE" => format!("OBSERVE {n} INTERNAL VARIABLES"),
                w => format!("{w} {n} VARIABLES"),
            });
        }
    }
    fn repeated(&mut self, w: &'static str) {
        match &mut self.last {
            Some((l, n)) if *l == w => *n += 1,
            _ => {
                self.end_run();
                self.last = Some((w, 1));
            }
        }
    }
    /// The lines the command line tool prints for these steps.
    pub fn finish(&mut self) {
        self.end_run();
    }
}

impl ProofTranscriptProcessor for Claims {
    fn process_step(&mut self, step: &ProofTranscriptStep) -> Result<(), anyhow::Error> {
        match step {
            ProofTranscriptStep::WitnessVar { .. } => self.repeated("WITNESS"),
            ProofTranscriptStep::SampleVar { .. } => self.repeated("SAMPLE"),
            ProofTranscriptStep::HideVar { .. } => self.repeated("HIDE"),
            ProofTranscriptStep::ObserveInternalVar { .. } => self.repeated("OBSERVE"),
            ProofTranscriptStep::AddClause { .. } => self.repeated("ADD"),
            ProofTranscriptStep::Unsat => {
                self.end_run();
                self.unsat = true;
                self.lines.push("UNSAT".into());
            }
            ProofTranscriptStep::Model { assignment } => {
                self.end_run();
                self.models.push(ints(assignment));
                self.lines.push("SAT".into());
            }
            ProofTranscriptStep::Assume { assumptions } => {
                self.end_run();
                self.lines.push(format!("ASSUME {} LITERALS", assumptions.len()));
            }
            ProofTranscriptStep::FailedAssumptions { failed_core, .. } => {
                self.end_run();
                self.lines.push(format!("UNSAT WITH {} ASSUMPTIONS", failed_core.len()));
            }
        }
        Ok(())
    }
}

/// Check a native proof in this process.
pub fn claims(cls: &[Cl], proof: &[u8]) -> (Result<(), String>, Claims) {
    let mut claims = Claims::default();
    let mut run = || {
        let mut checker = Checker::new();
        checker.add_transcript(&mut claims);
        for c in cls {
            checker.add_clause(&lits(c)).map_err(|e| format!("{e}"))?;
        }
        checker.check_proof(proof).map_err(|e| format!("{e}"))
    };
    let r = run();
    claims.finish();
    (r, claims)
}

/// The file is a valid proof of the result in the given format.
pub fn valid(cls: &[Cl], truth: bool, format: &str, proof: &[u8]) -> CaseResult {
    let drat = |steps: Result<Vec<DratStep>, String>| check_drat(cls, &steps?);
    let lrat = |steps: Result<Vec<LratStep>, String>| check_lrat(cls, &steps?);
    let refuted = match &format.to_ascii_lowercase()[..] {
        "drat" => drat(parse_drat_text(proof)),
        "binary-drat" => drat(parse_drat_binary(proof)),
        "lrat" => lrat(parse_lrat_text(proof)),
        "clrat" => lrat(parse_lrat_binary(proof)),
        "varisat" => {
            let (r, claims) = claims(cls, proof);
            r.and_then(|()| {
                for m in &claims.models {
                    if !cls.iter().all(|c| c.iter().any(|l| m.contains(l))) {
                        return Err(format!("the proof lists the model {m:?}"));
                    }
                }
                let unsat = claims.unsat;
                if !unsat && claims.models.is_empty() {
                    return Err("the proof shows no result".to_string());
                }
                Ok(unsat)
            })
        }
        f => panic!("format {f}"),
    };
    match refuted {
        Err(e) => Err(format!("{format} proof: {e}")),
        Ok(r) if r == truth => Err(format!("{format} proof: refuted is {r}")),
        Ok(_) => Ok(()),
    }
}

/// Judge a run that has to give a verdict.
pub fn verdict(out: &Out, cls: &[Cl], truth: bool) -> CaseResult {
    let e = |m: &str| Err(format!("{m}: {}", out.show().chars().take(4000).collect::<String>()));
    let a = out.answer()?;
    if truth {
        if out.code != Some(10) || a.status != ["SATISFIABLE"] {
            return e("expected satisfiable");
        }
        let mut v = match a.values {
            Some(v) => v,
            None => return e("no values"),
        };
        if v.pop() != Some(0) {
            return e("values do not end in 0");
        }
        let mut val = std::collections::HashMap::new();
        for l in v {
            if l == 0 {
                return e("0 among the values");
            }
            if val.insert(l.abs(), l > 0).is_some() {
                return e("two values for a variable");
            }
        }
        for c in cls {
            for &l in c {
                if !val.contains_key(&(l.abs() as i64)) {
                    return e("a variable without value");
                }
            }
            if !c.iter().any(|&l| val[&(l.abs() as i64)] == (l > 0)) {
                return e("the values do not satisfy the clauses");
            }
        }
    } else if out.code != Some(20) || a.status != ["UNSATISFIABLE"] || a.values.is_some() {
        return e("expected unsatisfiable");
    }
    if !a.transcript.is_empty() {
        return e("unexpected lines");
    }
    Ok(())
}

pub fn cfg_args(c: &Cfg) -> Vec<String> {
    let mut a = vec![];
    let mut set = |k: &str, v: Option<String>| {
        if let Some(v) = v {
            a.push("-C".to_string());
            a.push(format!("{k}={v}"));
        }
    };
    set("luby_restart_interval_scale", c.restart.map(|v| v.to_string()));
    set("reduce_locals_interval", c.locals.map(|v| v.to_string()));
    set("reduce_mids_interval", c.mids.map(|v| v.to_string()));
    set("vsids_decay", c.vsids.map(|v| format!("{v:?}")));
    set("clause_activity_decay", c.act.map(|v| format!("{v:?}")));
    a
}

/// Solve a formula once per way of calling the tool.
fn solve_all(cls: &[Cl], text: &[u8], truth: bool, ways: &[usize], cfg: Cfg, rec: &mut Rec) -> CaseResult {
    let d = Scratch::new();
    d.put("in.cnf", text);
    for &w in ways {
        // six proof settings, with and without self checking, three kinds of input
        let (p, self_check, input) = (w % 6, w / 6 % 2 == 1, w / 12 % 3);
        rec.eval();
        let mut args: Vec<String> = vec![];
        if input == 0 {
            args.push("in.cnf".into());
        }
        args.extend(cfg_args(&cfg));
        let _ = std::fs::remove_file(d.path("proof"));
        if p > 0 {
            args.extend(["--proof".into(), "proof".into(), "--proof-format".into(), FORMATS[p - 1].into()]);
        }
        if self_check {
            args.push("--self-check".into());
        }
        let mut call = Call::new(&args);
        match input {
            1 => call.input = Input::File(text),
            2 => call.input = Input::Pipe(text, 7),
            _ => {}
        }
        let out = call.run(&d)?;
        let e = |e: String| format!("{args:?}: {e}: {}", show(cls));
        verdict(&out, cls, truth).map_err(e)?;
        rec.outcome(if truth { "satisfiable" } else { "unsatisfiable" });
        if p > 0 {
            valid(cls, truth, FORMATS[p - 1], &d.get("proof").map_err(e)?).map_err(e)?;
            rec.outcome("valid proof");
        }
    }
    Ok(())
}

/// Native proof made in this process.
pub fn native(cls: &[Cl], cfg: Cfg) -> (bool, Vec<u8>) {
    let buf = Buf::default();
    let mut s = Solver::new();
    s.config(&cfg.update()).unwrap();
    s.write_proof(buf.clone(), ProofFormat::Varisat);
    s.add_formula(&formula(cls));
    let r = s.solve().unwrap();
    s.close_proof().unwrap();
    drop(s);
    let b = buf.0.borrow().clone();
    (r, b)
}

fn small_formulas(thorough: bool) -> Vec<Vec<Cl>> {
    let mut all: Vec<Cl> = vec![vec![]];
    all.extend(clauses_of_size(2, 1));
    all.extend(clauses_of_size(2, 2));
    all.extend([vec![1, -1], vec![3], vec![2, 2, -1], vec![5, -3]]);
    let mut f: Vec<Vec<Cl>> = small_subsets(all.len(), if thorough { 4 } else { 3 }).iter().map(|s| s.iter().map(|&k| all[k].clone()).collect()).collect();
    let c3 = clauses_of_size(3, 3);
    f.extend((0..256u64).filter(|m| m.count_ones() >= 6).map(|m| (0..8).filter(|k| m >> k & 1 == 1).map(|k| c3[k].clone()).collect()));
    f
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    {
        let fs = Arc::new(small_formulas(thorough));
        let n = fs.len() as u64;
        fam.push(Family::new("small formulas", format!("{n} formulas of up to {} clauses, or 6 to 8 ternary ones, with each proof format or none, with and without self checking, from a file, redirected or through a pipe", if thorough { 4 } else { 3 }), n, move |i, rec| {
            let f = &fs[i as usize];
            rec.nontrivial(fp(f));
            rec.sample(|| show(f));
            let text = dimacs_text(f, max_var(f));
            let ways: Vec<usize> = (0..36).collect();
            solve_all(f, text.as_bytes(), tt(f) != 0, &ways, Cfg::default(), rec)
        }));
    }
    {
        let odd = odd_clauses();
        let k = odd.len();
        fam.push(Family::new("odd clauses", format!("every ordered pair of {k} clauses of all shapes, with a proof format by turns, without a header"), (k * k) as u64, move |i, rec| {
            let mut d = Digits(i);
            let f = vec![odd[d.take(k)].clone(), odd[d.take(k)].clone()];
            rec.nontrivial(fp(&f));
            let text = dimacs_text(&f, 0);
            let text = &text[text.find('\n').unwrap() + 1..];
            solve_all(&f, text.as_bytes(), tt(&f) != 0, &[(i % 6) as usize, ((i * 7 + 13) % 36) as usize], Cfg::default(), rec)
        }));
    }
    {
        let mut fs = formulas::medium();
        fs.extend([34, 130, 300].iter().flat_map(|&n| formulas::scaled_formulas(n)).filter(|f| !f.name.ends_with('1')));
        let suite = Suite::new(fs);
        let cfgs = vec![Cfg::default(), cfg(1, 1, 1), cfg(3, 7, 2)];
        let n = suite.f.len();
        let per = if thorough { 36 } else { 6 };
        fam.push(Family::new("structured formulas", format!("{n} formulas x {per} of the ways to call the tool, with three configurations by turns"), (n * per) as u64, move |i, rec| {
            let mut d = Digits(i);
            let w = d.take(per);
            let k = d.take(n);
            let f = &suite.f[k].cls;
            rec.nontrivial(i);
            let text = dimacs_text(f, max_var(f));
            let way = if thorough { w } else { 1 + (w * 2 + k) % 35 };
            solve_all(f, text.as_bytes(), suite.truth(k), &[way], cfgs[(k + w) % 3], rec).map_err(|e| format!("{}: {e}", suite.f[k].name))
        }));
    }
    {
        // texts, good and bad
        let toks: Vec<&'static [u8]> = c12::tokens().into_iter().filter(|t| !t.windows(7).any(|w| w.iter().all(|b| b.is_ascii_digit())) || t.starts_with(b"p")).collect();
        let k = toks.len();
        let depth = if thorough { 4 } else { 3 };
        let base = c12::samples();
        let samples: Vec<Vec<u8>> = base.into_iter().filter(|s| !s.starts_with(b"p cnf 26")).collect();
        let edits = Arc::new(samples.iter().flat_map(|s| (0..=s.len()).map(|c| s[..c].to_vec()).chain((0..s.len()).map(|c| [&s[..c], &s[c + 1..]].concat()))).collect::<Vec<_>>());
        let words = pow(k, depth) + k as u64;
        let n = words + edits.len() as u64;
        fam.push(Family::new("texts", format!("every sequence of {depth} out of {k} tokens and every single token; {} valid texts with every cut and every byte left out", samples.len()), n * 2, move |i, rec| {
            let (i, piped) = (i / 2, i % 2 == 1);
            let text = if i < k as u64 {
                toks[i as usize].to_vec()
            } else if i < words {
                c12::words_of(&toks, depth, i - k as u64)
            } else {
                edits[(i - words) as usize].clone()
            };
            rec.nontrivial(fp(&text));
            let d = Scratch::new();
            let call = if piped { Call::new::<&str>([]).input(Input::Pipe(&text, 3)) } else {
                d.put("x", &text);
                Call::new(["x"])
            };
            let want = dimacs::read(&text);
            let e = |e: String| format!("{}: {e}", c12::show(&text));
            match want {
                dimacs::Expected::Open => rec.outcome("open"),
                dimacs::Expected::Formula(t) => {
                    rec.eval();
                    if max_var(&t.clauses) > 6 {
                        return Ok(());
                    }
                    rec.outcome("accepted text");
                    verdict(&call.run(&d)?, &t.clauses, tt(&t.clauses) != 0).map_err(e)?;
                }
                dimacs::Expected::Fault(_) => {
                    rec.eval();
                    rec.outcome("refused text");
                    call.run(&d)?.refused(true).map_err(e)?;
                }
            }
            Ok(())
        }));
    }
    fam.push(options(thorough));
    fam.push(precedence(thorough));
    fam.push(invalid());
    fam.push(full_disk(thorough));
    fam.push(large(thorough));
    Check {
        id: "C20",
        level: "fault_enumeration",
        rule: "a case is a formula or text with one or more calls of the real command line tool in a scratch directory, or one option list, or one position at which the output file cannot grow; distinct by input",
        assumptions: vec!["the harness's own proof checkers for DRAT and LRAT; the library's checker for native proofs (C08)"],
        families: fam,
    }
}

/// All arrangements of valid options.
fn options(thorough: bool) -> Family {
    let f: Vec<Cl> = formulas::php(4, 3, false).cls;
    let g: Vec<Cl> = vec![vec![1, 2], vec![-1, 3]];
    // each group may be left out or come anywhere
    let groups: Vec<Vec<Vec<&'static str>>> = vec![
        vec![vec!["in.cnf"], vec!["./in.cnf"]],
        vec![vec!["--proof", "proof"], vec!["--proof=proof"]],
        vec![vec!["--proof-format", "drat"], vec!["--proof-format=LRAT"], vec!["--proof-format=Binary-DRAT"], vec!["--proof-format", "VARISAT"], vec!["--proof-format", "cLRAT"], vec!["--proof-format=lrat"]],
        vec![vec!["--self-check"]],
        vec![vec!["-C", "luby_restart_interval_scale=2"], vec!["--config-option=reduce_mids_interval = 3"], vec!["-Cvsids_decay=0.75"], vec!["-C", "vsids_decay=0.75", "-C", "reduce_locals_interval=9"]],
        vec![vec!["--config", "conf"], vec!["--config=conf"]],
    ];
    let mut lists: Vec<Vec<&'static str>> = vec![];
    let sizes: Vec<usize> = groups.iter().map(|g| g.len() + 1).collect();
    let total: usize = sizes.iter().product();
    for i in 0..total {
        let mut d = Digits(i as u64);
        let picked: Vec<Vec<&str>> = groups.iter().zip(&sizes).filter_map(|(g, &s)| match d.take(s) {
            0 => None,
            k => Some(g[k - 1].clone()),
        }).collect();
        // rotations, and all of them reversed
        let n = picked.len().max(1);
        for r in 0..if thorough { 2 * n } else { 1 } {
            let r = if thorough { r } else { i % (2 * n) };
            let mut q = picked.clone();
            q.rotate_left(r % n);
            if r >= n {
                q.reverse();
            }
            lists.push(q.concat());
        }
    }
    let n = lists.len() as u64;
    Family::new("options", format!("{n} lists of valid options in several orders, for a satisfiable and an unsatisfiable formula"), n, move |i, rec| {
        let args = &lists[i as usize];
        rec.nontrivial(fp(args));
        rec.sample(|| format!("{args:?}"));
        for cls in [&f, &g] {
            rec.eval();
            let d = Scratch::new();
            let text = dimacs_text(cls, max_var(cls));
            d.put("conf", "# parameters\nreduce_locals_interval = 5\nluby_restart_interval_scale = 3\n");
            d.put("in.cnf", &text);
            let named = args.iter().any(|a| a.ends_with("in.cnf"));
            let call = Call::new(args.clone());
            let call = if named { call } else { call.input(Input::Pipe(text.as_bytes(), 5)) };
            let out = call.run(&d)?;
            let truth = tt_any(cls);
            let e = |e: String| format!("{args:?}: {e}");
            verdict(&out, cls, truth).map_err(e)?;
            let at = args.iter().position(|a| a.starts_with("--proof-format"));
            let format = match at {
                None => "varisat",
                Some(k) => args[k].split_once('=').map(|x| x.1).unwrap_or_else(|| args[k + 1]),
            };
            if args.iter().any(|a| *a == "--proof" || *a == "--proof=proof") {
                valid(cls, truth, format, &d.get("proof").map_err(e)?).map_err(e)?;
            } else if d.path("proof").exists() {
                return Err(e("a proof was written".into()));
            }
        }
        Ok(())
    })
}

fn tt_any(cls: &[Cl]) -> bool {
    dpll(cls, 0).is_some()
}

/// Which of several settings takes effect, seen in the proof.
fn precedence(thorough: bool) -> Family {
    let f: Vec<Cl> = formulas::php(5, 4, false).cls;
    // key, value: None stands for a value out of range
    let files: Vec<(&str, Vec<(usize, u64)>)> = vec![
        ("", vec![]),
        ("# nothing\n\n", vec![]),
        ("luby_restart_interval_scale = 1", vec![(0, 1)]),
        ("reduce_locals_interval = 3\nluby_restart_interval_scale=7\n", vec![(1, 3), (0, 7)]),
        ("reduce_mids_interval = 2 # often\nreduce_locals_interval = 4\n", vec![(2, 2), (1, 4)]),
    ];
    let opts: Vec<(&str, Vec<(usize, u64)>)> = vec![
        ("luby_restart_interval_scale=1", vec![(0, 1)]),
        ("luby_restart_interval_scale = 2", vec![(0, 2)]),
        ("reduce_locals_interval=2", vec![(1, 2)]),
        ("reduce_locals_interval=3\nluby_restart_interval_scale=7", vec![(1, 3), (0, 7)]),
        ("reduce_mids_interval=1", vec![(2, 1)]),
        ("", vec![]),
    ];
    let depth = if thorough { 3 } else { 2 };
    let k = opts.len();
    let (nf, no) = (files.len() + 1, pow(k + 1, depth));
    Family::new("precedence of settings", format!("{} configuration files or none followed by every list of up to {depth} out of {k} single settings: the proof is that of the library with the last value of each setting", files.len()), nf as u64 * no, move |i, rec| {
        let mut d = Digits(i);
        let file = d.take(nf);
        let mut args: Vec<String> = vec!["in.cnf".into(), "--proof=p".into()];
        let mut vals = [None; 3];
        let s = Scratch::new();
        if file > 0 {
            s.put("conf", files[file - 1].0);
            // the place of the option is of no importance
            args.insert((i % 3) as usize, "--config=conf".into());
            for (k, v) in &files[file - 1].1 {
                vals[*k] = Some(*v);
            }
        }
        for _ in 0..depth {
            let o = d.take(k + 1);
            if o > 0 {
                args.extend(["-C".into(), opts[o - 1].0.into()]);
                for (k, v) in &opts[o - 1].1 {
                    vals[*k] = Some(*v);
                }
            }
        }
        rec.eval();
        rec.nontrivial(i);
        s.put("in.cnf", dimacs_text(&f, max_var(&f)));
        let out = Call::new(&args).run(&s)?;
        let e = |e: String| format!("{args:?}: {e}");
        verdict(&out, &f, false).map_err(e)?;
        let c = Cfg { restart: vals[0], locals: vals[1], mids: vals[2], vsids: None, act: None };
        let (r, proof) = native(&f, c);
        if r || proof != s.get("p").map_err(e)? {
            return Err(e(format!("the proof is not that of the settings {c:?}")));
        }
        Ok(())
    })
}

/// Errors in the call and in the environment.
fn invalid() -> Family {
    // arguments, strict exit code
    let mut lists: Vec<Vec<&'static str>> = vec![
        vec!["missing.cnf"],
        vec!["dir"],
        vec!["in.cnf/x"],
        vec!["in.cnf", "in.cnf"],
        vec!["in.cnf", "--no-such-option"],
        vec!["in.cnf", "--proof"],
        vec!["in.cnf", "--config"],
        vec!["in.cnf", "-C"],
        vec!["in.cnf", "--proof", "p", "--proof-format", "text"],
        vec!["in.cnf", "--proof", "p", "--proof-format", "drat2"],
        vec!["in.cnf", "--config", "missing"],
        vec!["in.cnf", "--config", "dir"],
        vec!["in.cnf", "--config", "in.cnf"],
        vec!["in.cnf", "--config", "binary"],
        vec!["in.cnf", "--config", "unknown"],
        vec!["in.cnf", "--config", "zero"],
        vec!["in.cnf", "--config", "good", "-C", "reduce_locals_interval=0"],
        vec!["in.cnf", "--config", "unknown", "-C", "reduce_locals_interval=1"],
        vec!["in.cnf", "--config", "twice"],
        vec!["in.cnf", "--config", "table"],
    ];
    for o in [
        "reduce_locals_interval=0", "reduce_mids_interval=0", "luby_restart_interval_scale=0", "reduce_locals_interval=-1", "vsids_decay=0.4", "vsids_decay=1.0", "vsids_decay=nan", "vsids_decay=-inf",
        "clause_activity_decay=0.49", "clause_activity_decay=1.5", "vsids_decay='x'", "reduce_locals_interval=1.5", "reduce_locals_interval=99999999999999999999", "luby_restart_interval_scale=true",
        "unknown=1", "vsids_decay", "=", "vsids_decay=", "0.7", "[x]", "vsids_decay=0.7;", "HELP", "reduce_locals_interval=1 1",
    ] {
        lists.push(vec!["in.cnf", "-C", o]);
    }
    for f in FORMATS {
        for p in ["missing/p", "dir", "in.cnf/p", ""] {
            lists.push(vec!["in.cnf", "--proof-format", f, "--proof", p]);
        }
        lists.push(vec!["missing.cnf", "--proof-format", f, "--proof", "p"]);
        lists.push(vec!["bad.cnf", "--proof-format", f, "--proof", "p"]);
        lists.push(vec!["bad.cnf", "--proof-format", f, "--proof", "p", "--self-check"]);
    }
    for b in ["bad.cnf", "short.cnf", "huge.cnf", "binary", "more.cnf"] {
        lists.push(vec![b]);
        lists.push(vec![b, "--self-check"]);
    }
    // no errors, but no verdicts either
    let quiet: Vec<Vec<&'static str>> = vec![vec!["-C", "help"], vec!["in.cnf", "-C", "help"], vec!["-C", "reduce_locals_interval=1", "-C", "help"], vec!["--config-option=help"], vec!["--help"], vec!["-h"], vec!["--version"], vec!["-V"]];
    let m = lists.len() as u64;
    let n = m + quiet.len() as u64;
    Family::new("invalid calls", format!("{m} calls with invalid options, unreadable or malformed files or proof files that cannot be made, and {} calls for help", quiet.len()), n, move |i, rec| {
        let d = Scratch::new();
        std::fs::create_dir(d.path("dir")).unwrap();
        d.put("in.cnf", "p cnf 2 2\n1 2 0\n-1 0\n");
        d.put("bad.cnf", "p cnf 2 2\n1 2 0\n-1 y 0\n");
        d.put("short.cnf", "p cnf 2 2\n1 2 0\n");
        d.put("more.cnf", "p cnf 2 1\n1 2 0\n1 0\n");
        d.put("huge.cnf", "1 2 0 268435457 0\n");
        d.put("binary", b"\xff\xfe\x00\x80");
        d.put("unknown", "reduce_locals_interval = 4\nunknown = 3\n");
        d.put("zero", "reduce_locals_interval = 0\n");
        d.put("good", "reduce_locals_interval = 4\n");
        d.put("twice", "reduce_locals_interval = 4\nreduce_locals_interval = 5\n");
        d.put("table", "[solver]\nreduce_locals_interval = 4\n");
        rec.eval();
        rec.nontrivial(i);
        let args = if i < m { &lists[i as usize] } else { &quiet[(i - m) as usize] };
        rec.sample(|| format!("{args:?}"));
        let out = Call::new(args.clone()).run(&d)?;
        let e = |e: String| format!("{args:?}: {e}");
        if i < m {
            out.refused(true).map_err(e)
        } else {
            if out.code != Some(0) || out.text.lines().any(|l| l.starts_with("s ") || l.starts_with('v') && !l.starts_with("va") && !l.starts_with("vs")) {
                return Err(e(out.show()));
            }
            if args.iter().any(|a| a.ends_with("help") && *a != "--help") {
                for k in ["vsids_decay", "clause_activity_decay", "reduce_locals_interval", "reduce_mids_interval", "luby_restart_interval_scale"] {
                    if !out.text.contains(k) {
                        return Err(e(format!("no help on {k}")));
                    }
                }
            }
            Ok(())
        }
    })
}

/// Every place at which the proof file can stop growing.
fn full_disk(thorough: bool) -> Family {
    let mut fs: Vec<(String, Vec<Cl>)> = vec![
        ("two units".into(), vec![vec![1], vec![-1]]),
        ("empty clause".into(), vec![vec![]]),
        ("satisfiable".into(), vec![vec![1, 2], vec![-1]]),
        ("no clauses".into(), vec![]),
        ("full(3)".into(), formulas::full(3).cls),
        ("php(4,3)".into(), formulas::php(4, 3, false).cls),
    ];
    if thorough {
        fs.push(("php(6,5)".into(), formulas::php(6, 5, false).cls));
        fs.push(("php(7,6)".into(), formulas::php(7, 6, false).cls));
    } else {
        fs.push(("php(6,5)".into(), formulas::php(6, 5, false).cls));
    }
    let c = cfg(1, 1, 1);
    // sizes of the proofs are found by the first run
    let sizes: Vec<std::sync::OnceLock<Result<u64, String>>> = (0..fs.len() * 5).map(|_| std::sync::OnceLock::new()).collect();
    let per: u64 = if thorough { 2000 } else { 250 };
    let n = fs.len() as u64 * 5 * per;
    Family::new(
        "output faults",
        format!("{} formulas x 5 proof formats with a full device and with a file that cannot grow past a size: every size if the proof has at most {} bytes, else {} sizes spread evenly and around multiples of the buffer size", fs.len(), per - 2, per - 2),
        n,
        move |i, rec| {
            let mut dg = Digits(i);
            let pos = dg.take(per as usize) as u64;
            let f = dg.take(5);
            let k = dg.take(fs.len());
            let (name, cls) = &fs[k];
            let d = Scratch::new();
            d.put("in.cnf", dimacs_text(cls, max_var(cls)));
            let truth = tt_any(cls);
            let mut args = cfg_args(&c);
            args.extend(["in.cnf".into(), "--proof-format".into(), FORMATS[f].into()]);
            let size = sizes[k * 5 + f].get_or_init(|| {
                let d = Scratch::new();
                d.put("in.cnf", dimacs_text(cls, max_var(cls)));
                let mut a = args.clone();
                a.extend(["--proof".into(), "size".into()]);
                let out = Call::new(&a).run(&d)?;
                verdict(&out, cls, truth)?;
                Ok(d.get("size")?.len() as u64)
            });
            let size = size.clone().map_err(|e| format!("{name} {}: {e}", FORMATS[f]))?;
            let mut call;
            let at;
            if pos < 2 {
                args.extend(["--proof".into(), "/dev/full".into()]);
                if pos == 1 {
                    args.push("--self-check".into());
                }
                call = Call::new(&args);
                at = 0;
            } else {
                args.extend(["--proof".into(), "p".into()]);
                call = Call::new(&args);
                let room = per - 2;
                let p = pos - 2;
                at = if size < room {
                    if p > size {
                        return Ok(());
                    }
                    p
                } else if p < 8 {
                    // around the ends of the buffers
                    let b = [4096u64, 8192, 16384, 32768][p as usize / 2];
                    if b > size {
                        return Ok(());
                    }
                    b - p % 2
                } else {
                    size - (size * (p - 8) / (room - 8))
                };
                call.file_limit = Some(at);
            }
            rec.eval();
            rec.nontrivial(fp(&(k, f, pos)));
            let out = call.run(&d)?;
            let e = |e: String| format!("{name}, {} proof of {size} bytes with room for {at}: {e}", FORMATS[f]);
            if at >= size && (pos >= 2 || size == 0) {
                rec.outcome("room enough");
                verdict(&out, cls, truth).map_err(e)?;
                if pos >= 2 {
                    valid(cls, truth, FORMATS[f], &d.get("p").map_err(e)?).map_err(e)?;
                }
            } else {
                rec.outcome("fault");
                out.refused(false).map_err(e)?;
            }
            Ok(())
        },
    )
}

/// Large inputs, closed and full outputs, the environment.
fn large(thorough: bool) -> Family {
    let chain = |n: i32, contradict: bool| formulas::chain(n, contradict).cls;
    let long = if thorough { 300_000 } else { 50_000 };
    let cases: Vec<(String, Vec<Cl>, bool)> = vec![
        ("chain".into(), chain(long, false), true),
        ("contradictory chain".into(), chain(long, true), false),
        ("one long clause".into(), vec![(1..=long).collect()], true),
        ("many units".into(), (1..=long).map(|v| vec![if v % 3 == 0 { -v } else { v }]).collect(), true),
        ("many units, two conflicting".into(), (1..=long).map(|v| vec![v]).chain([vec![-long / 2]]).collect(), false),
        ("one variable with a large number".into(), vec![vec![1_000_000, -999_999], vec![-1_000_000]], true),
    ];
    let small: Vec<(Vec<Cl>, bool)> = vec![(vec![], true), (vec![vec![1, 2]], true), (vec![vec![]], false), (vec![vec![1], vec![-1]], false)];
    let envs: Vec<Vec<(&'static str, &'static str)>> = vec![
        vec![("VARISAT_LOG", "trace")], vec![("VARISAT_LOG", "off")], vec![("VARISAT_LOG", "debug,varisat=error")], vec![("VARISAT_LOG", "x=y=z,,")], vec![("RUST_LOG", "trace")], vec![("LANG", "de_DE.UTF-8")], vec![("RUST_BACKTRACE", "1")],
    ];
    let a = cases.len() * 3;
    let b = small.len() * envs.len();
    let n = a + b + small.len() * 6;
    Family::new("large inputs and environments", format!("{} inputs with up to {long} variables three ways, {} environments, outputs to a full device", cases.len(), envs.len()), n as u64, move |i, rec| {
        let i = i as usize;
        rec.eval();
        rec.nontrivial(i as u64);
        let d = Scratch::new();
        if i < a {
            let (name, cls, truth) = &cases[i / 3];
            let text = dimacs_text(cls, max_var(cls));
            d.put("in.cnf", &text);
            let call = match i % 3 {
                0 => Call::new(["in.cnf"]),
                1 => Call::new(["--self-check", "--proof=p"]).input(Input::Pipe(text.as_bytes(), 40000)),
                _ => Call::new(["--proof=p", "--proof-format=drat"]).input(Input::File(text.as_bytes())),
            };
            return verdict(&call.run(&d)?, cls, *truth).map_err(|e| format!("{name}: {}", e.chars().take(600).collect::<String>()));
        }
        let i = i - a;
        if i < b {
            let (cls, truth) = &small[i % small.len()];
            let text = dimacs_text(cls, 2);
            let mut call = Call::new(["--self-check"]).input(Input::File(text.as_bytes()));
            call.env = envs[i / small.len()].clone();
            return verdict(&call.run(&d)?, cls, *truth).map_err(|e| format!("{:?}: {e}", call.env));
        }
        let i = i - b;
        let (cls, _) = &small[i % small.len()];
        let text = dimacs_text(cls, 2);
        let mut args = vec![];
        if i / small.len() > 0 {
            args = vec!["--proof=p".to_string(), format!("--proof-format={}", FORMATS[i / small.len() - 1])];
        }
        let mut call = Call::new(&args).input(Input::File(text.as_bytes()));
        call.full = true;
        let out = call.run(&d)?;
        if out.code == Some(10) || out.code == Some(20) {
            return Err(format!("{cls:?} {args:?}: nothing could be printed, but {}", out.show()));
        }
        Ok(())
    })
}
