//! C28: no sequence of safe calls causes undefined behaviour. The executions of mem.rs are run in
//! the Miri interpreter, several processes at a time.
use crate::engine::*;
use crate::mem;
use std::io::Read;
use std::process::{Command, Stdio};

/// What the interpreter says about these cases: the operations executed, or the first error.
fn run(args: &[String]) -> Result<u64, String> {
    let script = crate::verif_dir().join("miri/run.sh");
    let mut child = Command::new(&script)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot start {}: {e}", script.display()))?;
    let mut err = child.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let mut out = String::new();
    let _ = child.stdout.take().unwrap().read_to_string(&mut out);
    let status = child.wait().map_err(|e| format!("{e}"))?;
    let err = reader.join().unwrap_or_default();
    let done = out.lines().find_map(|l| l.strip_prefix("done ")).and_then(|n| n.parse().ok());
    match done {
        Some(n) if status.success() => Ok(n),
        _ => {
            let case = err.lines().filter_map(|l| l.strip_prefix('@')).last().unwrap_or("none").to_string();
            let what: Vec<&str> = err
                .lines()
                .skip_while(|l| !(l.starts_with("error") || l.starts_with("wrong") || l.contains("panicked")))
                .map(|l| l.trim())
                .filter(|l| !l.is_empty() && !l.starts_with('|') && !l.starts_with('='))
                .take(8)
                .collect();
            Err(format!("case {case}: {} ({status})", what.join(" / ")))
        }
    }
}

pub fn check(thorough: bool) -> Check {
    let tier = if thorough { "thorough" } else { "quick" };
    let mut families = vec![];
    for (k, f) in mem::families(thorough).into_iter().enumerate() {
        let (size, per, name) = (f.size, f.per, f.name);
        let mut fam = Family::new(name, format!("{} ({per} cases per process)", f.bound), size.div_ceil(per), move |i, rec| {
            let (lo, hi) = (i * per, ((i + 1) * per).min(size));
            let steps = run(&[k.to_string(), lo.to_string(), hi.to_string(), tier.to_string()])
                .map_err(|e| format!("{name}: {e}"))?;
            for c in lo..hi {
                rec.eval();
                rec.trace();
                rec.state(fp(&(k, c)));
                rec.nontrivial(fp(&(k, c)));
            }
            rec.transitions += steps;
            rec.outcome("defined");
            rec.sample(|| format!("cases {lo}..{hi}: {steps} operations without undefined behaviour"));
            Ok(())
        });
        fam.chunk = 1;
        families.push(fam);
    }
    Check {
        id: "C28",
        level: "exploration",
        rule: "every execution runs to its end in the Miri interpreter (Tree Borrows aliasing, bounds, initialization, validity, alignment) without undefined behaviour, overflow, panic or broken debug assertion",
        assumptions: vec!["the Miri interpreter detects the undefined behaviour of an execution", "one allocation order per execution"],
        families,
    }
}
