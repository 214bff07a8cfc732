//! C17: configuration updates.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::props::c01::Suite;
use crate::refsat::max_var;
use std::sync::Arc;
use varisat::config::{SolverConfig, SolverConfigUpdate};
use varisat::{ExtendFormula, ProofFormat, Solver};

/// Documented options, defaults and ranges (half open `0.5..1.0`, and `1..`).
const NAMES: [&str; 5] =
    ["vsids_decay", "clause_activity_decay", "reduce_locals_interval", "reduce_mids_interval", "luby_restart_interval_scale"];
const DEFAULT: Model = Model { f: [0.95, 0.999], u: [15000, 10000, 128] };

#[derive(Clone, Copy, Debug)]
struct Model {
    f: [f32; 2],
    u: [u64; 3],
}
#[derive(Clone, Copy, Debug, Default)]
struct Up {
    f: [Option<f32>; 2],
    u: [Option<u64>; 3],
}

fn same(a: &Model, b: &Model) -> bool {
    a.f.iter().zip(&b.f).all(|(x, y)| x.to_bits() == y.to_bits()) && a.u == b.u
}

impl Model {
    fn of(c: &SolverConfig) -> Model {
        Model {
            f: [c.vsids_decay, c.clause_activity_decay],
            u: [c.reduce_locals_interval, c.reduce_mids_interval, c.luby_restart_interval_scale],
        }
    }
    fn config(&self) -> SolverConfig {
        let mut c = SolverConfig::default();
        c.vsids_decay = self.f[0];
        c.clause_activity_decay = self.f[1];
        c.reduce_locals_interval = self.u[0];
        c.reduce_mids_interval = self.u[1];
        c.luby_restart_interval_scale = self.u[2];
        c
    }
    fn apply(&mut self, u: &Up) -> bool {
        if u.f.iter().flatten().any(|x| !(*x >= 0.5 && *x < 1.0)) || u.u.iter().flatten().any(|x| *x == 0) {
            return false;
        }
        for k in 0..2 {
            self.f[k] = u.f[k].unwrap_or(self.f[k]);
        }
        for k in 0..3 {
            self.u[k] = u.u[k].unwrap_or(self.u[k]);
        }
        true
    }
}

impl Up {
    fn real(&self) -> SolverConfigUpdate {
        let mut c = SolverConfigUpdate::new();
        c.vsids_decay = self.f[0];
        c.clause_activity_decay = self.f[1];
        c.reduce_locals_interval = self.u[0];
        c.reduce_mids_interval = self.u[1];
        c.luby_restart_interval_scale = self.u[2];
        c
    }
    fn of(c: &SolverConfigUpdate) -> Up {
        Up {
            f: [c.vsids_decay, c.clause_activity_decay],
            u: [c.reduce_locals_interval, c.reduce_mids_interval, c.luby_restart_interval_scale],
        }
    }
    fn bits(&self) -> ([Option<u32>; 2], [Option<u64>; 3]) {
        (self.f.map(|x| x.map(f32::to_bits)), self.u)
    }
    fn merge(&mut self, o: &Up) {
        for k in 0..2 {
            self.f[k] = o.f[k].or(self.f[k]);
        }
        for k in 0..3 {
            self.u[k] = o.u[k].or(self.u[k]);
        }
    }
}

/// Apply an update to the real configuration and to the model.
fn apply(real: &mut SolverConfig, model: &mut Model, up: &Up, rec: &mut Rec) -> CaseResult {
    rec.step();
    let before = *model;
    let want = model.apply(up);
    let got = up.real().apply(real).is_ok();
    rec.outcome(if want { "accepted" } else { "rejected" });
    if got != want {
        return Err(format!("update {up:?} of {before:?}: accepted {got}, expected {want}"));
    }
    if !same(&Model::of(real), model) {
        return Err(format!("update {up:?} of {before:?} gives {:?}, expected {model:?}", Model::of(real)));
    }
    Ok(())
}

fn floats() -> Vec<Option<f32>> {
    let mut v = vec![None];
    for x in [0.5f32, 1.0, 0.0, -0.0, 0.95, 0.999, 0.75, -0.5, -1.0, 2.0, 1.5, 0.25] {
        v.push(Some(x));
    }
    for b in [0.5f32.to_bits() - 1, 0.5f32.to_bits() + 1, 1f32.to_bits() - 1, 1f32.to_bits() + 1, 1, 0x7f7f_ffff, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0001] {
        v.push(Some(f32::from_bits(b)));
    }
    v
}

const PRIORS: [Model; 3] = [
    DEFAULT,
    Model { f: [0.5, 0.6], u: [1, 2, 3] },
    Model { f: [0.9999999, 0.7], u: [u64::MAX, 7, 1 << 40] },
];

/// Proof bytes and answers of a solver configured by the given calls.
fn behaviour(cls: &[Vec<i32>], ups: &[Up], late: bool) -> Result<(Vec<u8>, bool, Option<Vec<i32>>), String> {
    let buf = Buf::default();
    let mut s = Solver::new();
    s.write_proof(buf.clone(), ProofFormat::Drat);
    if late {
        s.add_formula(&formula(cls));
    }
    for u in ups {
        let mut m = DEFAULT;
        if s.config(&u.real()).is_ok() != m.apply(u) {
            return Err(format!("Solver::config({u:?}) gives the wrong verdict"));
        }
    }
    if !late {
        s.add_formula(&formula(cls));
    }
    let r = s.solve().map_err(|e| format!("{e}"))?;
    let m = s.model().map(|m| ints(&m));
    s.close_proof().map_err(|e| format!("{e}"))?;
    drop(s);
    let b = buf.0.borrow().clone();
    Ok((b, r, m))
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    {
        let fl = floats();
        let ul = [None, Some(0), Some(1), Some(2), Some(128), Some(u64::MAX)];
        let (nf, nu) = (fl.len(), ul.len());
        fam.push(Family::new(
            "all value combinations",
            format!("{nf}^2 x {nu}^3 updates applied to {} configurations; the same through Solver::config for one of them", PRIORS.len()),
            pow(nf, 2) * pow(nu, 3) * PRIORS.len() as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let up = Up { f: [fl[d.take(nf)], fl[d.take(nf)]], u: [ul[d.take(nu)], ul[d.take(nu)], ul[d.take(nu)]] };
                let mut model = PRIORS[d.take(PRIORS.len())];
                let mut real = model.config();
                rec.eval();
                rec.nontrivial(i);
                rec.sample(|| format!("{up:?}"));
                apply(&mut real, &mut model, &up, rec)?;
                if d.0 == 0 && i < pow(nf, 2) * pow(nu, 3) && i % 16 == 0 {
                    let mut m = DEFAULT;
                    if Solver::new().config(&up.real()).is_ok() != m.apply(&up) {
                        return Err(format!("Solver::config({up:?})"));
                    }
                }
                rec.trace();
                Ok(())
            },
        ));
    }
    {
        // float ranges by bit pattern
        let low: Vec<u32> = if thorough { (0..0x1_0000).collect() } else { vec![0, 1, 2, 0x7fff, 0x8000, 0xfffe, 0xffff] };
        fam.push(Family::new(
            "all floats",
            format!("both decay options for all 2^16 upper halves with {} lower halves of an f32", low.len()),
            1 << 16,
            move |i, rec| {
                for &l in &low {
                    let x = f32::from_bits((i as u32) << 16 | l);
                    let want = x >= 0.5 && x < 1.0;
                    for k in 0..2 {
                        rec.eval();
                        let mut up = Up::default();
                        up.f[k] = Some(x);
                        let mut c = SolverConfig::default();
                        if up.real().apply(&mut c).is_ok() != want {
                            return Err(format!("{} = {x:?} ({:#x}): expected accepted = {want}", NAMES[k], x.to_bits()));
                        }
                        let mut m = DEFAULT;
                        if want {
                            m.f[k] = x;
                        }
                        if !same(&Model::of(&c), &m) {
                            return Err(format!("{} = {x:?} gives {:?}", NAMES[k], Model::of(&c)));
                        }
                    }
                }
                rec.nontrivial(i);
                Ok(())
            },
        ));
    }
    {
        // sequences of updates: every pattern of absent / valid / invalid values per option
        let pool: Vec<Up> = (0..3usize.pow(5))
            .map(|p| {
                let mut d = Digits(p as u64);
                let mut up = Up::default();
                for k in 0..2 {
                    up.f[k] = [None, Some(0.5 + 0.1 * (k + 1) as f32), Some(1.0)][d.take(3)];
                }
                for k in 0..3 {
                    up.u[k] = [None, Some(10 + k as u64), Some(0)][d.take(3)];
                }
                up
            })
            .collect();
        let n = pool.len();
        fam.push(Family::new(
            "pairs of updates",
            format!("all pairs of {n} updates (each option absent, valid or invalid), applied one after the other and merged"),
            pow(n, 2),
            move |i, rec| {
                let mut d = Digits(i);
                let a = pool[d.take(n)];
                let mut b = pool[d.take(n)];
                for k in 0..2 {
                    b.f[k] = b.f[k].map(|x| if x < 1.0 { x + 0.05 } else { x });
                }
                for k in 0..3 {
                    b.u[k] = b.u[k].map(|x| if x > 0 { x + 100 } else { x });
                }
                rec.eval();
                rec.nontrivial(i);
                // one after the other
                let (mut real, mut model) = (PRIORS[1].config(), PRIORS[1]);
                apply(&mut real, &mut model, &a, rec)?;
                apply(&mut real, &mut model, &b, rec)?;
                // merged
                let mut m = a.real();
                m.merge(b.real());
                let mut want = a;
                want.merge(&b);
                if Up::of(&m).bits() != want.bits() {
                    return Err(format!("merging {b:?} into {a:?} gives {:?}", Up::of(&m)));
                }
                let (mut real, mut model) = (PRIORS[2].config(), PRIORS[2]);
                let ok = m.apply(&mut real).is_ok();
                if ok != model.apply(&want) || !same(&Model::of(&real), &model) {
                    return Err(format!("applying the merge of {a:?} and {b:?}: accepted {ok}, {:?}", Model::of(&real)));
                }
                rec.trace();
                Ok(())
            },
        ));
    }
    {
        let steps: Vec<Up> = {
            let mut v = vec![];
            for k in 0..5 {
                for j in 0..3 {
                    let mut up = Up::default();
                    if k < 2 {
                        up.f[k] = Some([0.55, 0.85, f32::NAN][j]);
                    } else {
                        up.u[k - 2] = Some([3, 77, 0][j]);
                    }
                    v.push(up);
                }
            }
            v.push(Up::default());
            v.push(Up { f: [Some(0.6), Some(0.7)], u: [Some(4), Some(5), Some(0)] });
            v
        };
        let n = steps.len();
        let depth = if thorough { 5 } else { 4 };
        fam.push(Family::new(
            "sequences of updates",
            format!("every sequence of {depth} out of {n} single and combined updates, applied and merged"),
            pow(n, depth),
            move |i, rec| {
                let mut d = Digits(i);
                let (mut real, mut model) = (DEFAULT.config(), DEFAULT);
                let (mut m, mut want) = (SolverConfigUpdate::new(), Up::default());
                rec.eval();
                for _ in 0..depth {
                    let up = steps[d.take(n)];
                    apply(&mut real, &mut model, &up, rec)?;
                    m.merge(up.real());
                    want.merge(&up);
                    rec.state(fp(&(model.f.map(f32::to_bits), model.u)));
                }
                if Up::of(&m).bits() != want.bits() {
                    return Err(format!("merge of a sequence gives {:?}, expected {want:?}", Up::of(&m)));
                }
                rec.nontrivial(i);
                rec.trace();
                Ok(())
            },
        ));
    }
    fam.push(Family::new("defaults and documentation", "defaults, option names, defaults and ranges in the help text", 1, |_, rec| {
        rec.eval();
        rec.nontrivial(0);
        let d = Model::of(&SolverConfig::default());
        if !same(&d, &DEFAULT) {
            return Err(format!("the defaults are {d:?}, documented are {DEFAULT:?}"));
        }
        if Up::of(&SolverConfigUpdate::new()).bits() != Up::default().bits() || Up::of(&SolverConfigUpdate::default()).bits() != Up::default().bits() {
            return Err("a new update is not empty".into());
        }
        let help = SolverConfig::help();
        let mut found = vec![];
        let (mut name, mut text) = (String::new(), String::new());
        for line in help.lines().chain(["end:"]) {
            if !line.starts_with(' ') && line.ends_with(':') {
                if !name.is_empty() {
                    found.push((name.clone(), text.clone()));
                }
                name = line.trim_end_matches(':').to_string();
                text.clear();
            } else {
                text.push_str(line);
                text.push('\n');
            }
        }
        let want = [("0.95", "0.5..1.0"), ("0.999", "0.5..1.0"), ("15000", "1.."), ("10000", "1.."), ("128", "1..")];
        for (k, n) in NAMES.iter().enumerate() {
            let Some((_, t)) = found.iter().find(|(x, _)| x == n) else {
                return Err(format!("the help text misses {n}: {help}"));
            };
            if !t.contains(&format!("[default: {}]", want[k].0)) || !t.contains(&format!("[range: {}]", want[k].1)) {
                return Err(format!("the help text of {n} is {t:?}"));
            }
        }
        if found.len() != 5 {
            return Err(format!("unknown options in the help text: {found:?}"));
        }
        Ok(())
    }));
    {
        // textual updates as read by the command line tool
        let vals = ["0.5", "0.75", "1.0", "0.4", "1", "0", "-1", "2", "\"x\"", "18446744073709551615", "9223372036854775807", "nan", "true", "[1]", ""];
        let names: Vec<String> = NAMES.iter().map(|s| s.to_string()).chain(["unknown".into(), "vsids".into(), "Vsids_decay".into()]).collect();
        let n = names.len() * vals.len() + 1;
        fam.push(Family::new(
            "textual updates",
            "every pair of option = value lines over known and unknown names and 15 values",
            pow(n, 2),
            move |i, rec| {
                let mut d = Digits(i);
                let mut text = String::new();
                // None: may be accepted or not
                let mut want = Some(true);
                let mut up = Up::default();
                let mut used = vec![];
                for _ in 0..2 {
                    let k = d.take(n);
                    if k == 0 {
                        continue;
                    }
                    let (a, b) = ((k - 1) / vals.len(), vals[(k - 1) % vals.len()]);
                    text.push_str(&format!("{} = {b}\n", names[a]));
                    let syntax = !matches!(b, "" | "18446744073709551615");
                    let bad = !syntax || a >= 5 || used.contains(&a) || matches!(b, "\"x\"" | "true" | "[1]");
                    used.push(a);
                    if bad {
                        want = Some(false);
                    } else if a < 2 {
                        up.f[a] = Some(b.parse::<f32>().unwrap());
                        // whether an integer stands for a float is left open
                        if !b.contains('.') && b != "nan" && want == Some(true) {
                            want = None;
                        }
                    } else {
                        match b.parse::<u64>() {
                            Ok(v) => up.u[a - 2] = Some(v),
                            Err(_) => want = Some(false),
                        }
                    }
                }
                rec.eval();
                rec.nontrivial(i);
                rec.sample(|| text.clone());
                match (toml::from_str::<SolverConfigUpdate>(&text), want) {
                    (Ok(u), Some(true) | None) => {
                        let got = Up::of(&u);
                        let eq = got.u == up.u && got.f.iter().zip(&up.f).all(|(a, b)| a == b || (a.map_or(false, f32::is_nan) && b.map_or(false, f32::is_nan)));
                        if !eq {
                            return Err(format!("{text:?} reads as {got:?}, expected {up:?}"));
                        }
                        rec.outcome("read");
                        let (mut real, mut model) = (DEFAULT.config(), DEFAULT);
                        let ok = u.apply(&mut real).is_ok();
                        if ok != model.apply(&up) || !same(&Model::of(&real), &model) {
                            return Err(format!("{text:?} applied: {ok}, {:?}", Model::of(&real)));
                        }
                    }
                    (Err(_), Some(false) | None) => rec.outcome("refused"),
                    (Ok(_), Some(false)) => return Err(format!("{text:?} was read although it is invalid")),
                    (Err(e), Some(true)) => return Err(format!("{text:?} was refused: {e}")),
                }
                Ok(())
            },
        ));
    }
    {
        // in every state of a solver
        let prefixes: Vec<(&str, Vec<Op>)> = vec![
            ("new", vec![]),
            ("with clauses", vec![Op::Clause(vec![1, 2]), Op::Clause(vec![-1, 2, 3])]),
            ("satisfied", vec![Op::Clause(vec![1, 2]), Op::Clause(vec![-1, 2, 3]), Op::Solve]),
            ("satisfied twice", vec![Op::Clause(vec![1, 2]), Op::Solve, Op::Clause(vec![-1, 2, 3]), Op::Solve]),
            ("failed assumptions", vec![Op::Clause(vec![1, 2]), Op::Assume(vec![-1, -2]), Op::Solve]),
            ("assumptions hold", vec![Op::Clause(vec![1, 2]), Op::Assume(vec![-1, 2]), Op::Solve]),
            ("assumed", vec![Op::Clause(vec![1, 2]), Op::Solve, Op::Assume(vec![-1])]),
            ("refuted", vec![Op::Formula(vec![vec![1, 2], vec![1, -2], vec![-1, 2], vec![-1, -2]]), Op::Solve]),
            ("empty clause", vec![Op::Clause(vec![]), Op::Solve]),
            ("hidden", vec![Op::Clause(vec![1, 2]), Op::Hide(1), Op::Solve, Op::Hide(2)]),
            ("reconfigured", vec![Op::Config(Cfg { restart: Some(1), locals: Some(2), mids: Some(3), vsids: None, act: None }), Op::Clause(vec![1, 2]), Op::Solve]),
        ];
        let n = 3usize.pow(5);
        let p = prefixes.len();
        let hard = formulas::php(5, 4, false).cls;
        fam.push(Family::new(
            "updates of used solvers",
            format!("each of {n} updates (each option absent, valid or invalid) of a solver in each of {p} states: the verdict, and that a rejected update changes nothing (by the proof of a formula added afterwards)"),
            (n * p) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let (name, ops) = &prefixes[d.take(p)];
                let mut up = Up::default();
                for k in 0..2 {
                    up.f[k] = [None, Some(0.5 + 0.1 * (k + 1) as f32), Some(1.0)][d.take(3)];
                }
                for k in 0..3 {
                    up.u[k] = [None, Some(1 + k as u64), Some(0)][d.take(3)];
                }
                rec.nontrivial(fp(&("used", i)));
                let accepted = {
                    let mut m = DEFAULT;
                    m.apply(&up)
                };
                let valid = |k: usize| if k < 2 { up.f[k].map_or(false, |x| x < 1.0) } else { up.u[k - 2].map_or(false, |x| x > 0) };
                // an accepted update, given option by option; a rejected one, not given at all
                let mut single = vec![];
                for k in 0..5 {
                    if accepted && valid(k) {
                        let mut s = Up::default();
                        if k < 2 {
                            s.f[k] = up.f[k];
                        } else {
                            s.u[k - 2] = up.u[k - 2];
                        }
                        single.push(s);
                    }
                }
                let run = |ups: &[Up]| -> Result<(Vec<u8>, Vec<Option<bool>>), String> {
                    let buf = Buf::default();
                    let mut s = Solver::new();
                    s.write_proof(buf.clone(), ProofFormat::Varisat);
                    let mut said = vec![];
                    let mut solve = |s: &mut Solver| s.solve().map(|v| said.push(Some(v))).map_err(|e| format!("{e}"));
                    for op in ops {
                        match op {
                            Op::Clause(c) => s.add_formula(&formula(&[c.clone()])),
                            Op::Formula(f) => s.add_formula(&formula(f)),
                            Op::Assume(a) => s.assume(&a.iter().map(|&l| varisat::Lit::from_dimacs(l as isize)).collect::<Vec<_>>()),
                            Op::Hide(v) => s.hide_var(varisat::Var::from_dimacs(*v as isize)),
                            Op::Config(_) => {
                                let mut u = Up::default();
                                u.u = [Some(2), Some(3), Some(1)];
                                s.config(&u.real()).map_err(|e| format!("{e}"))?;
                            }
                            Op::Solve => solve(&mut s)?,
                            _ => unreachable!(),
                        }
                    }
                    for u in ups {
                        let mut m = DEFAULT;
                        let want = m.apply(u);
                        let got = s.config(&u.real());
                        if got.is_ok() != want {
                            return Err(format!("Solver::config({u:?}) gives {got:?}"));
                        }
                    }
                    s.assume(&[]);
                    // on variables of its own
                    let apart: Vec<Vec<i32>> = hard.iter().map(|c| c.iter().map(|&l| l + 5 * l.signum()).collect()).collect();
                    s.add_formula(&formula(&apart));
                    solve(&mut s)?;
                    s.close_proof().map_err(|e| format!("{e}"))?;
                    drop(s);
                    let b = buf.0.borrow().clone();
                    Ok((b, said))
                };
                rec.eval();
                let e = |m: String| format!("{name}, {up:?}: {m}");
                let one = run(&[up]).map_err(e)?;
                rec.eval();
                if one != run(&single).map_err(e)? {
                    return Err(e(if accepted { "not the same as option by option".into() } else { "the rejected update has an effect".into() }));
                }
                rec.outcome(if accepted { "accepted when used" } else { "rejected when used" });
                rec.trace();
                Ok(())
            },
        ));
    }
    effect(&mut fam, thorough);
    {
        // extreme values while solving
        let suite = Suite::new(formulas::medium().into_iter().filter(|f| max_var(&f.cls) <= 45 && f.cls.len() > 8).collect());
        let mut pool = vec![];
        for r in [None, Some(1), Some(u64::MAX), Some(u64::MAX / 2 + 1), Some(u64::MAX / 3)] {
            for l in [None, Some(1), Some(u64::MAX)] {
                for m in [None, Some(u64::MAX)] {
                    pool.push(Cfg { restart: r, locals: l, mids: m, vsids: None, act: None });
                }
            }
        }
        for (v, a) in [(0.5, 0.5), (0.99999994, 0.99999994), (0.5, 0.99999994), (0.99999994, 0.5)] {
            pool.push(Cfg { restart: Some(2), locals: Some(1), mids: Some(2), vsids: Some(v), act: Some(a) });
        }
        let n = pool.len();
        let f = suite.f.len();
        fam.push(Family::new(
            "changes while solving",
            format!("{f} formulas, half of it solved under one of {n} configurations, then the rest under another, self checked"),
            (f * n * if thorough { n } else { 8 }) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let k = d.take(f);
                let a = d.take(n);
                let b = if thorough { d.take(n) } else { (d.take(8) * 5 + a + k) % n };
                let cls = &suite.f[k].cls;
                let half = cls.len() - 1 - k % 3;
                let ops = [
                    Op::Config(pool[a]),
                    Op::Formula(cls[..half].to_vec()),
                    Op::Solve,
                    Op::Config(pool[b]),
                    Op::Assume(vec![-1]),
                    Op::Solve,
                    Op::Formula(cls[half..].to_vec()),
                    Op::Assume(vec![]),
                    Op::Solve,
                ];
                rec.nontrivial(fp(&(k, a, b)));
                let out = run(&ops, Setup { self_check: true, no_reference: true, ..Setup::default() }, vec![], rec).map_err(|e| format!("{}: {e}", suite.f[k].name))?;
                let last = out.obs.iter().rev().find_map(|o| if let Obs::Verdict(v) = o { Some(*v) } else { None });
                if last != Some(suite.truth(k)) {
                    return Err(format!("{} with {:?} then {:?}: {last:?}", suite.f[k].name, pool[a], pool[b]));
                }
                Ok(())
            },
        ));
    }
    Check {
        id: "C17",
        level: "model_checking",
        rule: "updates are applied to the real configuration next to a model of the documented ranges; states are model configurations; non-trivial cases are distinct by index",
        assumptions: vec!["documented ranges and defaults as transcribed in the harness"],
        families: fam,
    }
}

/// The options in effect in the solver, observed through its proofs.
fn effect(fam: &mut Vec<Family>, thorough: bool) {
    let mut fs: Vec<formulas::F> = vec![formulas::php(6, 5, false), formulas::php(7, 6, false), formulas::factoring(221, 4), formulas::sgen(6, 7), formulas::vdw(3, 4, 18)];
    if thorough {
        fs.extend([formulas::php(8, 7, false), formulas::factoring(3599, 6), formulas::factoring(3593, 6), formulas::counter_parity(11, 5, false)]);
    }
    let fs = Arc::new(fs);
    let def = Up { f: [Some(0.95), Some(0.999)], u: [Some(15000), Some(10000), Some(128)] };
    let alt = Up { f: [Some(0.6), Some(0.7)], u: [Some(5), Some(9), Some(3)] };
    {
        let fs = fs.clone();
        fam.push(Family::new(
            "configuration in effect",
            "for every subset of options: setting them (before or after the formula, at once or one by one, with rejected updates in between) equals setting them with the rest at the documented defaults; compared by proof bytes and answers",
            32 * fs.len() as u64,
            move |i, rec| {
                let cls = &fs[(i / 32) as usize].cls;
                let m = i % 32;
                let mut part = Up::default();
                let mut full = def;
                let mut single = vec![];
                for k in 0..5 {
                    if m >> k & 1 == 1 {
                        let mut s = Up::default();
                        if k < 2 {
                            s.f[k] = alt.f[k];
                        } else {
                            s.u[k - 2] = alt.u[k - 2];
                        }
                        part.merge(&s);
                        full.merge(&s);
                        single.push(s);
                    }
                }
                // rejected updates that would change everything
                let bad = |k: usize| {
                    let mut b = Up { f: [Some(0.55), Some(0.56)], u: [Some(2), Some(3), Some(1)] };
                    if k < 2 {
                        b.f[k] = Some(1.0);
                    } else {
                        b.u[k - 2] = Some(0);
                    }
                    b
                };
                let mut inter = vec![bad(0)];
                for (k, s) in single.iter().enumerate() {
                    inter.push(*s);
                    inter.push(bad((k + m as usize) % 5));
                }
                rec.eval();
                rec.nontrivial(i);
                let e = |x: String| format!("{} options {m:#b}: {x}", fs[(i / 32) as usize].name);
                let want = behaviour(cls, &[full], false).map_err(e)?;
                let mut variants = vec![("partial update", vec![part], false), ("after the formula", vec![part], true), ("with rejected updates", inter, false)];
                single.reverse();
                variants.push(("one by one", single, true));
                for (name, ups, late) in variants {
                    rec.eval();
                    if behaviour(cls, &ups, late).map_err(e)? != want {
                        return Err(e(format!("{name}: the solver behaves differently than with all options set explicitly")));
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let fs = fs.clone();
        fam.push(Family::new("options have an effect", "each option alone changes the proof of some formula", 5, move |i, rec| {
            let k = i as usize;
            let mut s = Up::default();
            if k < 2 {
                s.f[k] = Some(0.5);
            } else {
                s.u[k - 2] = Some(1);
            }
            let mut differs = false;
            // the tiers need reductions to matter at all
            let mut base = Up::default();
            base.u[0] = Some(20);
            base.u[1] = Some(10);
            let mut changed = base;
            changed.merge(&s);
            for f in fs.iter() {
                rec.eval();
                differs |= behaviour(&f.cls, &[base], false)?.0 != behaviour(&f.cls, &[changed], false)?.0;
            }
            rec.nontrivial(fp(&("effect", i)));
            if !differs {
                return Err(format!("setting {} has no effect on any of {} formulas", NAMES[k], fs.len()));
            }
            Ok(())
        }));
    }
}
