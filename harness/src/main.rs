//! Explicit-state / exhaustive exploration checks for varisat.
//!
//!   vmc check <ID> <quick|thorough>   supervise a run of one check
//!   vmc run <ID> <quick|thorough>     the run itself
//!   vmc replay <file>                 rerun the case of a reported violation
//!   vmc one <ID> <tier> <family> <index>
#![allow(clippy::all)]
mod checkmc;
mod cli;
mod dimacs;
mod engine;
mod formulas;
mod hist;
mod hists;
mod lits;
mod mem;
mod monitor;
mod proofs;
mod props;
mod refsat;
#[cfg(varisat_verif)]
mod search;
mod steps;

use engine::*;
use std::io::Write;
use std::path::PathBuf;
use std::time::Instant;

fn verif_dir() -> PathBuf {
    std::env::var("VMC_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Value of a string or number field in the flat JSON written by `write_replay`.
fn json_field(text: &str, key: &str) -> Option<String> {
    let at = text.find(&format!("\"{key}\":"))? + key.len() + 3;
    let rest = text[at..].trim_start();
    if let Some(r) = rest.strip_prefix('"') {
        Some(r[..r.find('"')?].to_string())
    } else {
        Some(rest[..rest.find(|c: char| !c.is_ascii_digit())?].to_string())
    }
}

fn write_replay(id: &str, tier: &str, family: &str, index: u64, msg: &str) -> PathBuf {
    let dir = verif_dir().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}.json"));
    let _ = std::fs::write(
        &path,
        format!(
            "{{\n\"property\": {}, \"tier\": {}, \"family\": {}, \"index\": {},\n\"message\": {}\n}}\n",
            json_str(id),
            json_str(tier),
            json_str(family),
            index,
            json_str(msg)
        ),
    );
    path
}

fn violation(id: &str, tier: &str, family: &str, index: u64, msg: &str) {
    let path = write_replay(id, tier, family, index, msg);
    println!("{id}: {family}[{index}]: {msg}");
    println!("VIOLATION property={id} replay={}", path.display());
    let _ = std::io::stdout().flush();
}

/// `known-findings.txt`: lines `finding: property=<id> key=<substring of the message> -- text`.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (pid, rest) = l.split_once(' ')?;
            let (key, text) = rest.strip_prefix("key=")?.split_once(" -- ")?;
            (pid == id).then(|| (key.to_string(), text.to_string()))
        })
        .collect()
}

fn evidence(check: &Check, tier: &str, t: &Totals, wall: f64, violations: u32) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut c = vec![];
    if check.level == "model_checking" {
        c.push(format!("\"states\": {}", t.states));
        c.push(format!("\"transitions\": {}", t.transitions));
        c.push(format!("\"traces_validated_against_impl\": {}", t.traces));
        c.push(format!("\"rule\": {}", json_str(check.rule)));
    } else {
        c.push(format!("\"evaluations\": {}", t.evals));
        c.push(format!("\"distinct_nontrivial\": {}", t.nontrivial));
        c.push(format!("\"rule\": {}", json_str(check.rule)));
    }
    c.push(format!("\"exhaustive\": {}", t.complete));
    let samples: Vec<_> = t.samples.iter().take(12).map(|s| {
        let s: String = s.chars().take(600).collect();
        json_str(&s)
    }).collect();
    c.push(format!("\"samples\": [{}]", samples.join(", ")));
    let fams: Vec<_> = t
        .families
        .iter()
        .map(|(n, b, s, w)| {
            format!(
                "{{\"family\": {}, \"bound\": {}, \"cases\": {}, \"seconds\": {:.2}}}",
                json_str(n), json_str(b), s, w
            )
        })
        .collect();
    c.push(format!("\"families\": [{}]", fams.join(", ")));
    let o: Vec<_> = t.outcomes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    c.push(format!("\"outcomes\": {{{}}}", o.join(", ")));
    let o: Vec<_> = t.notes.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    c.push(format!("\"notes\": {{{}}}", o.join(", ")));
    c.push(format!("\"hooks_enabled\": {}", cfg!(varisat_verif)));
    let a: Vec<_> = check.assumptions.iter().map(|s| json_str(s)).collect();
    let text = format!(
        "{{\n\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n\"coverage\": {{{}}},\n\"assumptions\": [{}],\n\"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        json_str(check.id), json_str(tier), seed, json_str(check.level), c.join(",\n "), a.join(", "), wall, violations
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", check.id)), text).expect("cannot write evidence");
}

fn run(id: &str, tier: &str) -> i32 {
    let start = Instant::now();
    install_panic_hook(false);
    let check = match props::check(id, tier == "thorough") {
        Some(c) => c,
        None => {
            eprintln!("no check for {id}");
            return 2;
        }
    };
    let findings = known_findings(id);
    let known = |msg: &str| {
        findings.iter().find(|(k, _)| msg.contains(k.as_str())).map(|(k, t)| format!("[{k}] {t}"))
    };
    let on_hang = |family: &str, index: u64| {
        violation(id, tier, family, index, "the case did not terminate within the time limit (non-termination)");
        std::process::exit(1);
    };
    let (totals, failure) = explore(&check, &known, &on_hang);
    for k in &totals.known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    let wall = start.elapsed().as_secs_f64();
    evidence(&check, tier, &totals, wall, failure.is_some() as u32);
    println!(
        "{id} {tier}: {} executions, {} steps, {} states, {} distinct nontrivial, {:.1}s, outcomes {:?}",
        totals.evals, totals.transitions, totals.states, totals.nontrivial, wall, totals.outcomes
    );
    match failure {
        Some(f) => {
            violation(id, tier, &f.family, f.index, &f.msg);
            1
        }
        None => 0,
    }
}

fn supervise(id: &str, tier: &str) -> i32 {
    let scratch = cli::base();
    std::env::set_var("VMC_SCRATCH", &scratch);
    let r = supervised(id, tier);
    cli::remove_base(&scratch);
    r
}

fn supervised(id: &str, tier: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut last = 2;
    for attempt in 0..2 {
        let st = std::process::Command::new(&exe).args(["run", id, tier]).status();
        match st {
            Err(e) => {
                eprintln!("cannot run: {e}");
                return 2;
            }
            Ok(st) => {
                if let Some(c) = st.code() {
                    return c;
                }
                let sig = st.signal().unwrap_or(0);
                eprintln!("{id}: the run was ended by signal {sig}");
                // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
                if ![4, 6, 7, 8, 11].contains(&sig) {
                    return 2;
                }
                if attempt == 1 && last == sig {
                    violation(id, tier, "*", 0, &format!("the process crashed with signal {sig}"));
                    return 1;
                }
                last = sig;
            }
        }
    }
    2
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let scratch = std::env::var_os("VMC_SCRATCH").is_none().then(cli::base);
    let code = match &a[1..] {
        ["check", id, tier] => supervise(id, tier),
        ["run", id, tier] => run(id, tier),
        ["one", id, tier, family, index] => one(id, tier, family, index.parse().unwrap()),
        ["replay", file] => {
            let t = std::fs::read_to_string(file).expect("cannot read replay file");
            let g = |k| json_field(&t, k).expect("bad replay file");
            one(&g("property"), &g("tier"), &g("family"), g("index").parse().unwrap())
        }
        ["digest", from, to] => {
            install_panic_hook(false);
            props::c22::print_digests(from.parse().unwrap(), to.parse().unwrap());
            0
        }
        ["stat"] => {
            for f in formulas::medium().into_iter().chain(formulas::hard()).chain(formulas::very_hard()) {
                let t = Instant::now();
                let mut s = varisat::Solver::new();
                let buf = hist::Buf::default();
                s.write_proof(buf.clone(), varisat::ProofFormat::Drat);
                use varisat::ExtendFormula;
                s.add_formula(&hist::formula(&f.cls));
                let r = s.solve().unwrap();
                drop(s);
                let b = buf.0.borrow();
                let text = String::from_utf8_lossy(&b);
                let adds = text.lines().filter(|l| !l.starts_with('d')).count();
                println!("{:<24} vars {:>4} clauses {:>5} {:>6} lemmas {:>6} deletions {:>6} {:>8.1}ms", f.name, refsat::max_var(&f.cls), f.cls.len(), r, adds, text.lines().count() - adds, t.elapsed().as_secs_f64() * 1e3);
            }
            0
        }
        ["list"] => {
            for id in props::IDS {
                println!("{id}");
            }
            0
        }
        _ => {
            eprintln!("usage: vmc check|run <ID> <quick|thorough> | replay <file> | one <ID> <tier> <family> <index>");
            2
        }
    };
    if let Some(d) = scratch {
        cli::remove_base(&d);
    }
    std::process::exit(code);
}

/// Shows what the code under test logs (single cases only).
struct Stderr;

impl log::Log for Stderr {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        eprintln!("{}: {}", record.level(), record.args());
    }
    fn flush(&self) {}
}

fn one(id: &str, tier: &str, family: &str, index: u64) -> i32 {
    install_panic_hook(true);
    log::set_logger(&Stderr).unwrap();
    log::set_max_level(log::LevelFilter::Warn);
    if family == "*" {
        return supervise(id, tier);
    }
    let check = props::check(id, tier == "thorough").expect("no such check");
    for f in &check.families {
        if f.name == family {
            let r = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || run_one(f, index))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            return match r {
                Ok(()) => {
                    println!("{id} {family}[{index}]: ok");
                    0
                }
                Err(e) => {
                    println!("{id} {family}[{index}]: {e}");
                    1
                }
            };
        }
    }
    eprintln!("no such family");
    2
}
