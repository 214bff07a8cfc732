//! C22: reproducible results, independent of how the input is handed over.
use crate::cli::*;
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists::*;
use crate::props::c01::{clauses_of_size, show, Suite};
use crate::props::c20;
use crate::refsat::*;
use varisat::ProofFormat::{self, BinaryDrat, Drat, Varisat};
use varisat::{ExtendFormula, Solver};

fn go(ops: &[Op], cfg: Cfg, format: ProofFormat, rec: &mut Rec) -> Result<Outcome, String> {
    run(ops, Setup { cfg, format: Some(format), no_reference: true, self_check: false }, vec![], rec)
}

/// The answers to queries, without the state in between.
fn answers(o: &Outcome) -> Vec<Obs> {
    let mut out = vec![];
    for (k, x) in o.obs.iter().enumerate() {
        match x {
            Obs::Verdict(_) => out.extend(o.obs[k..k + 3].iter().cloned()),
            Obs::New(_) => out.push(x.clone()),
            _ => (),
        }
    }
    out
}

fn compare(a: &Outcome, b: &Outcome, what: &dyn Fn() -> String) -> CaseResult {
    let (x, y) = (answers(a), answers(b));
    if x != y {
        let k = (0..).find(|&k| x.get(k) != y.get(k)).unwrap();
        return Err(format!("{}: answer {:?} instead of {:?}", what(), y.get(k), x.get(k)));
    }
    if a.proof != b.proof {
        return Err(format!("{}: the proofs differ", what()));
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Path {
    Single,
    Formula,
    Dimacs(usize),
    /// consecutive additions as one
    Joined(bool, usize),
    /// in two parts, cut after so many clauses
    Cut(bool, usize),
}

fn group(f: Vec<Cl>, dimacs: bool) -> Op {
    if dimacs {
        Op::Dimacs(f)
    } else {
        Op::Formula(f)
    }
}

fn by(ops: &[Op], path: Path) -> Vec<Op> {
    let mut out: Vec<Op> = vec![];
    for op in ops {
        let f = match op {
            Op::Clause(c) => vec![c.clone()],
            Op::Formula(f) | Op::Dimacs(f) => f.clone(),
            o => {
                out.push(o.clone());
                continue;
            }
        };
        match path {
            Path::Single => out.extend(f.into_iter().map(Op::Clause)),
            Path::Formula => out.push(Op::Formula(f)),
            Path::Dimacs(_) => out.push(Op::Dimacs(f)),
            Path::Joined(..) => match out.last_mut() {
                Some(Op::Formula(g) | Op::Dimacs(g)) => g.extend(f),
                _ => out.push(group(f, matches!(path, Path::Joined(true, _)))),
            },
            Path::Cut(d, n) => {
                let (a, b) = f.split_at(n.min(f.len()));
                out.push(group(a.to_vec(), d));
                out.push(group(b.to_vec(), !d));
            }
        }
    }
    out
}

const PATHS: [Path; 11] = [
    Path::Single,
    Path::Formula,
    Path::Dimacs(0),
    Path::Dimacs(1),
    Path::Dimacs(2),
    Path::Dimacs(5),
    Path::Joined(false, 0),
    Path::Joined(true, 0),
    Path::Joined(true, 3),
    Path::Cut(false, 1),
    Path::Cut(true, 2),
];

fn same(ops: &[Op], cfg: Cfg, format: ProofFormat, paths: &[Path], rec: &mut Rec) -> CaseResult {
    let base = go(ops, cfg, format, rec)?;
    rec.nontrivial(fp(&(format!("{:?}", base.obs), &base.proof)));
    let again = go(ops, cfg, format, rec)?;
    compare(&base, &again, &|| format!("the second time: {ops:?} {cfg:?}"))?;
    if base.obs != again.obs {
        return Err(format!("the second time results outside of solve() differ: {ops:?} {cfg:?}"));
    }
    rec.outcome("repeated");
    // leave out what would be misuse
    let done: Vec<Op> = ops.iter().enumerate().filter(|(k, _)| !base.skipped.contains(k)).map(|(_, o)| o.clone()).collect();
    for &p in paths {
        let o = by(&done, p);
        CHUNK.set(match p {
            Path::Dimacs(n) | Path::Joined(_, n) => n,
            _ => 0,
        });
        let out = go(&o, cfg, format, rec);
        CHUNK.set(0);
        compare(&base, &out?, &|| format!("clauses handed over by {p:?}: {done:?} {cfg:?}"))?;
        rec.outcome("other path");
    }
    Ok(())
}

/// A solver that is driven call by call.
struct Stepper {
    solver: Solver<'static>,
    buf: Buf,
    ops: Vec<Op>,
    at: usize,
    obs: Vec<Obs>,
}

impl Stepper {
    fn new(ops: &[Op], cfg: Cfg, check: bool) -> Result<Stepper, String> {
        let mut solver = Solver::new();
        let buf = Buf::default();
        if !cfg.is_default() {
            solver.config(&cfg.update()).map_err(|e| format!("config rejected: {e}"))?;
        }
        if check {
            solver.enable_self_checking();
        }
        solver.write_proof(buf.clone(), Varisat);
        Ok(Stepper { solver, buf, ops: ops.to_vec(), at: 0, obs: vec![] })
    }

    /// The next call; the last one closes the proof.
    fn next(&mut self) -> CaseResult {
        let k = self.at;
        self.at += 1;
        let s = &mut self.solver;
        match self.ops.get(k) {
            None => return s.close_proof().map_err(|e| format!("close_proof() failed: {e}")),
            Some(Op::Clause(c)) => s.add_clause(&lits(c)),
            Some(Op::Formula(f)) => s.add_formula(&formula(f)),
            Some(Op::Dimacs(f)) => s.add_dimacs_cnf(dimacs_text(f, max_var(f)).as_bytes()).map_err(|e| e.to_string())?,
            Some(Op::Assume(a)) => s.assume(&lits(a)),
            Some(Op::Config(c)) => s.config(&c.update()).map_err(|e| e.to_string())?,
            Some(Op::Hide(v)) => s.hide_var(var(*v)),
            Some(Op::Witness(v)) => s.witness_var(var(*v)),
            Some(Op::Sample(v)) => s.sample_var(var(*v)),
            Some(Op::NewVar) => self.obs.push(Obs::New(vec![s.new_var().to_dimacs() as i32])),
            Some(Op::Observe) => self.obs.push(Obs::New(s.observe_internal_vars().iter().map(|v| v.to_dimacs() as i32).collect())),
            Some(Op::CloseProof) => s.close_proof().map_err(|e| e.to_string())?,
            Some(Op::Query) => (),
            Some(Op::Solve) => {
                let r = s.solve().map_err(|e| format!("solve() failed: {e}"))?;
                self.obs.push(Obs::Verdict(r));
            }
        }
        if matches!(self.ops[k], Op::Solve | Op::Query) {
            self.obs.push(Obs::Model(self.solver.model().map(|m| ints(&m))));
            self.obs.push(Obs::Core(self.solver.failed_core().map(ints)));
        }
        Ok(())
    }

    fn len(&self) -> usize {
        self.ops.len() + 1
    }

    fn end(self) -> (Vec<Obs>, Vec<u8>) {
        drop(self.solver);
        let proof = self.buf.0.borrow().clone();
        (self.obs, proof)
    }
}

/// Histories without misuse, each driven together with each other.
fn companions() -> Vec<(Vec<Op>, Cfg)> {
    let c = |c: &[i32]| Op::Clause(c.to_vec());
    let a = |c: &[i32]| Op::Assume(c.to_vec());
    let cfgs = configs();
    let all3: Vec<Cl> = clauses_of_size(3, 3);
    let d = Cfg::default();
    vec![
        (vec![c(&[1, 2]), Op::Solve, c(&[-1]), Op::Solve], d),
        (vec![c(&[]), Op::Solve, c(&[1, 2]), Op::Solve], d),
        (vec![Op::Formula(all3.clone()), Op::Solve, a(&[1]), Op::Solve], d),
        (vec![Op::Formula(all3[1..].to_vec()), a(&[1, 2]), Op::Solve, Op::Query], cfgs[1]),
        (vec![Op::Dimacs(all3[..7].to_vec()), Op::Solve, c(&[-1, -2, -3]), Op::Solve], cfgs[2 % cfgs.len()]),
        (vec![a(&[-1, 2]), Op::Solve, a(&[1]), Op::Solve], d),
        (vec![c(&[1, 2]), Op::Hide(2), Op::NewVar, Op::Solve], d),
        (vec![Op::NewVar, Op::Witness(1), Op::NewVar, Op::Solve], d),
        (vec![c(&[1, 2, 3]), Op::Hide(1), Op::Observe, Op::Solve], d),
        (vec![c(&[4, -5]), c(&[5]), Op::Hide(4), Op::Solve], d),
        (vec![Op::Formula(formulas::php(4, 3, false).cls), Op::Solve, Op::NewVar, Op::Solve], cfgs[3 % cfgs.len()]),
        (vec![Op::Formula(formulas::php(4, 4, true).cls), Op::Solve, a(&[1, -2]), Op::Solve], cfgs[1]),
        (vec![Op::Formula(formulas::tseitin("ring", &formulas::cycle(5), 5, 3).cls), a(&[-1]), Op::Solve, Op::Solve], d),
        (vec![Op::Config(cfgs[1]), Op::Formula(formulas::full(4).cls), Op::Solve, Op::Query], d),
    ]
}

/// One of the merges of n and m calls.
fn merges(n: usize, m: usize) -> Vec<Vec<bool>> {
    if n + m == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for (first, n, m) in [(false, n.wrapping_sub(1), m), (true, n, m.wrapping_sub(1))] {
        if n != usize::MAX && m != usize::MAX {
            for mut rest in merges(n, m) {
                rest.push(first);
                out.push(rest);
            }
        }
    }
    out
}

fn digest_families() -> Vec<HistFam> {
    vec![
        words("core", core_alphabet(), 2, vec![]),
        words("lifecycle", lifecycle_alphabet(), 2, vec![]),
        words("units", unit_alphabet(), 2, vec![]),
        solved_words("reuse", reuse_alphabet(), 3),
        structured("structured", bases(true), hist_configs(), 2),
    ]
}

fn digests(from: u64, to: u64, rec: &mut Rec) -> Result<Vec<u64>, String> {
    let mut out = vec![];
    let mut at = 0;
    for f in digest_families() {
        for i in from.max(at)..to.min(at + f.size) {
            let (ops, cfg) = (f.decode)(i - at);
            let o = go(&ops, cfg, Varisat, rec)?;
            out.push(fp(&(format!("{:?}", o.obs), &o.proof)));
        }
        at += f.size;
    }
    Ok(out)
}

pub fn print_digests(from: u64, to: u64) {
    let shared = Shared { states: FpSet::new(), nontrivial: FpSet::new() };
    let mut rec = Rec::new(&shared);
    match digests(from, to, &mut rec) {
        Ok(d) => {
            for x in d {
                println!("{x:016x}");
            }
        }
        Err(e) => println!("{e}"),
    }
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let t = |a: usize, b: usize| if thorough { b } else { a };
    {
        let all: Vec<Cl> = clauses_of_size(3, 3).into_iter().chain(clauses_of_size(3, 2)).collect();
        let n = if thorough { 1u64 << 20 } else { 1 << 14 };
        fam.push(Family::new(
            "subsets of 3-variable clauses",
            "every subset of the 8 ternary and 6 (thorough 12) binary clauses by each of 11 paths and cut after every clause, one of the proof formats",
            n,
            move |m, rec| {
                let f: Vec<Cl> = all.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, c)| c.clone()).collect();
                rec.sample(|| show(&f));
                let mut paths = PATHS.to_vec();
                paths.extend((0..=f.len()).map(|k| Path::Cut(k % 2 == 0, k)));
                same(&[Op::Formula(f), Op::Solve], Cfg::default(), [Varisat, Drat, BinaryDrat][m as usize % 3], &paths, rec)
            },
        ));
    }
    {
        let pool: Vec<Cl> = vec![vec![], vec![1], vec![-1], vec![1, -1], vec![1, 1, 2], vec![2, 1], vec![-2], vec![-2, 1, -2], vec![-1, -2], vec![5, 3], vec![-12]];
        let n = pool.len();
        let depth = t(4, 5);
        fam.push(Family::new(
            format!("sequences of {depth} odd clauses"),
            format!("every sequence of {depth} of {n} clauses (empty, unit, duplicate, tautological, repeated literals, far variables) by each of 11 paths"),
            pow(n, depth),
            move |i, rec| {
                let mut d = Digits(i);
                let mut ops: Vec<Op> = (0..depth).map(|_| Op::Clause(pool[d.take(n)].clone())).collect();
                ops.push(Op::Solve);
                ops.push(Op::NewVar);
                same(&ops, Cfg::default(), Varisat, &PATHS, rec)
            },
        ));
    }
    {
        let mut fs = formulas::medium();
        fs.extend(formulas::hard().into_iter().filter(|_| thorough));
        let suite = Suite::new(fs);
        let cfgs = configs();
        let n = suite.f.len();
        fam.push(Family::new(
            "structured formulas",
            format!("{n} formulas x {} configurations, repeated and by two of the paths by turns", cfgs.len()),
            (n * cfgs.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let c = d.take(cfgs.len());
                let k = d.take(suite.f.len());
                let f = formulas::variant(&suite.f[k].cls, c % formulas::VARIANTS);
                let paths = [PATHS[(i % 11) as usize], Path::Cut(c % 2 == 0, f.len() / 2 + c)];
                same(&[Op::Formula(f), Op::Solve], cfgs[c], [Varisat, Drat, BinaryDrat][(c + k) % 3], &paths, rec)
            },
        ));
    }
    {
        // more text than fits into a read buffer
        let sizes = [700, 1000, 3000];
        fam.push(Family::new("long formulas", format!("chains of {sizes:?} variables by each path, in a history with a second formula"), 6, move |i, rec| {
            let n = sizes[i as usize % 3];
            let mut f = formulas::chain(n, i >= 3).cls;
            f.extend(formulas::full(4).cls.into_iter().skip(1).map(|c| c.iter().map(|l| l + n * l.signum()).collect()));
            let g: Vec<Cl> = (1..n - 2).map(|v| vec![-v, v + 2, -(v + 1)]).collect();
            let mut paths = PATHS.to_vec();
            paths.extend([Path::Dimacs(4096), Path::Dimacs(8191), Path::Dimacs(8192), Path::Dimacs(997), Path::Cut(true, n as usize / 2)]);
            same(&[Op::Formula(f), Op::Solve, Op::Formula(g), Op::Assume(vec![-3, 7]), Op::Solve], Cfg::default(), Varisat, &paths, rec)
                .map_err(|e| e.chars().take(2000).collect())
        }));
    }
    {
        let cs = companions();
        let n = cs.len();
        fam.push(Family::new(
            "two solvers at once",
            format!("every pair of {n} histories in every order of their calls, with the second solver dropped at once or at the end: each gives the answers and proof it gives alone"),
            (n * n) as u64,
            move |i, rec| {
                let (x, y) = (&cs[i as usize % n], &cs[i as usize / n]);
                let alone = |(ops, cfg): &(Vec<Op>, Cfg)| {
                    let mut s = Stepper::new(ops, *cfg, false)?;
                    for _ in 0..s.len() {
                        s.next()?;
                    }
                    Ok::<_, String>(s.end())
                };
                let (ax, ay) = (alone(x)?, alone(y)?);
                for (k, order) in merges(x.0.len() + 1, y.0.len() + 1).into_iter().enumerate() {
                    let mut s = Stepper::new(&x.0, x.1, k % 3 == 0)?;
                    let mut t = Some(Stepper::new(&y.0, y.1, k % 2 == 0)?);
                    let mut theirs = None;
                    let e = |m: String| format!("{m}: {x:?} and {y:?} at once, order {order:?}");
                    for &second in &order {
                        rec.step();
                        match (second, &mut t) {
                            (true, Some(u)) => {
                                u.next().map_err(e)?;
                                if u.at == u.len() && k % 2 == 0 {
                                    theirs = t.take().map(Stepper::end);
                                }
                            }
                            _ => s.next().map_err(e)?,
                        }
                    }
                    rec.eval();
                    rec.trace();
                    rec.nontrivial(fp(&(i, &order)));
                    if let Some(t) = t {
                        theirs = Some(t.end());
                    }
                    if s.end() != ax {
                        return Err(e("the first solver gives other answers or another proof than alone".into()));
                    }
                    if theirs.unwrap() != ay {
                        return Err(e("the second solver gives other answers or another proof than alone".into()));
                    }
                }
                rec.outcome("at once");
                Ok(())
            },
        ));
    }
    let all = |f: &HistFam| f.family(|ops, cfg, _, rec| same(ops, cfg, Varisat, &PATHS, rec));
    let some = |f: &HistFam| f.family(|ops, cfg, i, rec| same(ops, cfg, Varisat, &[PATHS[(i % 11) as usize]], rec));
    fam.push(all(&words("core", core_alphabet(), t(2, 3), vec![])));
    fam.push(some(&words("core", core_alphabet(), t(3, 4), vec![])));
    fam.push(all(&words("lifecycle", lifecycle_alphabet(), t(2, 3), vec![])));
    fam.push(some(&words("lifecycle", lifecycle_alphabet(), t(3, 4), vec![])));
    fam.push(some(&words("units", unit_alphabet(), t(3, 4), vec![])));
    fam.push(some(&words("refuted", refuted_alphabet(), t(3, 4), vec![])));
    fam.push(all(&solved_words("reuse", reuse_alphabet(), t(4, 5))));
    fam.push(all(&structured("structured", bases(true), hist_configs(), t(1, 2))));
    fam.push(some(&structured("structured", bases(true), hist_configs(), t(2, 3))));
    fam.push(some(&bulk(thorough, if thorough { 4 } else { 3 })));
    fam.push(some(&scaled(thorough, 2)));
    {
        let total: u64 = digest_families().iter().map(|f| f.size).sum();
        let per = 250;
        fam.push(Family::new("another process", format!("{total} histories of the families core, lifecycle, units (depth 2), reuse (3) and structured (2), answers and proof compared with a run in a new process"), total.div_ceil(per), move |b, rec| {
            let (from, to) = (b * per, total.min((b + 1) * per));
            let mine = digests(from, to, rec)?;
            let exe = std::env::current_exe().map_err(|e| format!("harness: {e}"))?;
            let out = std::process::Command::new(exe).args(["digest", &from.to_string(), &to.to_string()]).output().map_err(|e| format!("harness: {e}"))?;
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            let theirs: Vec<&str> = text.lines().collect();
            let mine: Vec<String> = mine.iter().map(|x| format!("{x:016x}")).collect();
            if !out.status.success() || theirs.len() != mine.len() {
                return Err(format!("in another process the histories {from}..{to} end with {}: {}", out.status, text.lines().last().unwrap_or("")));
            }
            rec.nontrivial(b);
            match (0..mine.len()).find(|&k| mine[k] != theirs[k]) {
                None => Ok(()),
                Some(k) => {
                    let mut i = from + k as u64;
                    for f in digest_families() {
                        if i < f.size {
                            return Err(format!("another process gives other results or another proof: {} {:?}", f.name, (f.decode)(i)));
                        }
                        i -= f.size;
                    }
                    unreachable!()
                }
            }
        }));
    }
    {
        let mut fs: Vec<(String, Vec<Cl>)> = formulas::medium().into_iter().map(|f| (f.name, f.cls)).collect();
        fs.push(("chain".into(), formulas::chain(3000, false).cls));
        fs.push(("chain".into(), formulas::chain(3000, true).cls));
        fs.extend([vec![], vec![vec![]], vec![vec![1], vec![-1]], vec![vec![3]], vec![vec![2, -2], vec![2, 2, 4]]].map(|f| ("small".into(), f)));
        let n = fs.len();
        fam.push(Family::new("command line", format!("{n} formulas as file, redirected, and through pipes: same output and proof, which is the one made in this process"), n as u64, move |i, rec| {
            let cls = &fs[i as usize].1;
            rec.nontrivial(i);
            let text = dimacs_text(cls, max_var(cls));
            let text = text.as_bytes();
            let c = configs()[i as usize % configs().len()];
            let (_, proof) = c20::native(cls, c);
            let d = Scratch::new();
            d.put("in.cnf", text);
            let mut first: Option<Vec<String>> = None;
            for (k, input) in [Input::Null, Input::Null, Input::File(text), Input::Pipe(text, 4096), Input::Pipe(text, 7.max(text.len() / 50))].into_iter().enumerate() {
                rec.eval();
                let mut args = c20::cfg_args(&c);
                if k < 2 {
                    args.push("in.cnf".into());
                }
                args.extend(["--proof".into(), "proof".into()]);
                let out = Call::new(&args).input(input).run(&d)?;
                let a = out.answer()?;
                let mut lines = a.status.clone();
                lines.push(format!("{:?} {:?}", out.code, a.values));
                let e = |m: &str| Err(format!("{m}: {args:?} with {:.40?}: {}", input, fs[i as usize].0));
                match &first {
                    None => first = Some(lines),
                    Some(l) if *l != lines => return e("the output differs"),
                    _ => (),
                }
                if d.get("proof")? != proof {
                    return e("the proof differs");
                }
            }
            Ok(())
        }));
    }
    Check {
        id: "C22",
        level: "model_checking",
        rule: "a state is a reference state of the solver's API model; traces are histories, each run twice and again with the clauses handed over in the stated ways; answers and proof bytes compared",
        assumptions: vec!["runs on one machine; other platforms may order differently"],
        families: fam,
    }
}
