//! C16: every decision and every placement of restarts, reductions and garbage collections.
//!
//! The oracle hook (`--cfg varisat_verif`) is asked at each decision and each schedule step. All
//! sequences of answers within a bound are explored by stateless depth-first search over the real
//! solver: a run is repeated from the start with a different answer at one more point.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists;
use crate::props::c01::{clauses_of_size, Suite};
use crate::props::c05::accepts;
use crate::refsat::*;
use std::collections::HashMap;
use varisat::ProofFormat;

/// A history with everything needed to judge a run without searching again.
struct Judge {
    ops: Vec<Op>,
    cfg: Cfg,
    verdicts: Vec<bool>,
    cores: HashMap<(usize, Vec<i32>), bool>,
}

impl Judge {
    /// The default schedule, fully compared with the reference model, gives the verdicts.
    fn new(ops: Vec<Op>, cfg: Cfg, rec: &mut Rec) -> Result<Judge, String> {
        let out = run(&ops, Setup { cfg, ..Setup::default() }, vec![], rec)?;
        let verdicts = out.obs.iter().filter_map(|o| if let Obs::Verdict(v) = o { Some(*v) } else { None }).collect();
        Ok(Judge { ops, cfg, verdicts, cores: HashMap::new() })
    }
    fn known(ops: Vec<Op>, cfg: Cfg, truth: bool) -> Judge {
        Judge { ops, cfg, verdicts: vec![truth], cores: HashMap::new() }
    }
    fn run(&mut self, certify: bool, rec: &mut Rec) -> CaseResult {
        let setup = Setup {
            cfg: self.cfg,
            self_check: true,
            format: if certify { Some(ProofFormat::Varisat) } else { None },
            no_reference: true,
        };
        let out = run(&self.ops, setup, vec![], rec)?;
        if !out.skipped.is_empty() {
            return Err("misuse in the history".into());
        }
        let (mut cls, mut ass, mut solves): (Vec<Cl>, Vec<i32>, usize) = (vec![], vec![], 0);
        let mut n = 0;
        let mut obs = out.obs.iter();
        for op in &self.ops {
            match op {
                Op::Clause(c) => cls.push(c.clone()),
                Op::Formula(f) | Op::Dimacs(f) => cls.extend(f.iter().cloned()),
                Op::Assume(a) => {
                    ass = a.clone();
                    n = n.max(max_var(&[a.clone()]));
                }
                _ => (),
            }
            n = n.max(max_var(&cls));
            if !matches!(op, Op::Solve) {
                continue;
            }
            let v = loop {
                match obs.next() {
                    Some(Obs::Verdict(v)) => break *v,
                    Some(_) => (),
                    None => return Err("missing verdict".into()),
                }
            };
            if v != self.verdicts[solves] {
                return Err(format!("solve() number {solves} returned {v}, expected {}", !v));
            }
            solves += 1;
            match (obs.next(), obs.next()) {
                (Some(Obs::Model(Some(m))), _) => {
                    let mut val = vec![None; n];
                    for &l in m {
                        let x = l.unsigned_abs() as usize;
                        if x > n || val[x - 1].replace(l > 0).is_some() {
                            return Err(format!("model {m:?} mentions {x} twice or it is unknown"));
                        }
                    }
                    if val.contains(&None) {
                        return Err(format!("model {m:?} is incomplete"));
                    }
                    let val: Vec<bool> = val.into_iter().map(|v| v.unwrap()).collect();
                    if !satisfied(&cls, &val) || !ass.iter().all(|&l| lit_true(l, &val)) {
                        return Err(format!("model {m:?} is wrong"));
                    }
                }
                (_, Some(Obs::Core(Some(c)))) => {
                    if let Some(l) = c.iter().find(|l| !ass.contains(l)) {
                        return Err(format!("{l} of the failed core {c:?} is not assumed"));
                    }
                    let mut key = c.clone();
                    key.sort();
                    let ok = *self.cores.entry((cls.len(), key)).or_insert_with_key(|k| dpll(&with_units(&cls, &k.1), 0).is_none());
                    if !ok {
                        return Err(format!("failed core {c:?} is satisfiable with the clauses"));
                    }
                }
                x => return Err(format!("no model and no core: {x:?}")),
            }
        }
        if certify {
            accepts(&out.initial, &out.proof)?;
        }
        Ok(())
    }
}

#[cfg(varisat_verif)]
pub mod oracle {
    use std::cell::RefCell;
    use std::rc::Rc;
    pub use varisat::verif::Point;
    use varisat::verif::*;

    /// Extra schedule steps that are tried: every single one, all, and pairs that interact.
    pub const STEPS: [usize; 8] = [
        STEP_RESTART,
        STEP_REDUCE_LOCALS,
        STEP_REDUCE_MIDS,
        STEP_COLLECT,
        STEP_REDUCE_LOCALS | STEP_REDUCE_MIDS,
        STEP_REDUCE_LOCALS | STEP_COLLECT,
        STEP_RESTART | STEP_COLLECT,
        STEP_COUNT - 1,
    ];

    /// Number of schedule steps and of decisions that a periodic policy governs.
    pub const POLICY: usize = 400;

    #[derive(Default)]
    pub struct State {
        pub log: Vec<(Point, usize)>,
        pub script: Vec<(usize, usize)>,
        at: usize,
        pub decisions: Vec<usize>,
        pub steps: Vec<usize>,
        seen: [usize; 2],
    }

    /// The tier of learned clauses: as the solver chooses, or all local, so that any of them can be
    /// deleted.
    pub const TIERS: [usize; 2] = [0, 3];

    /// Run `f` with scripted deviations `(position, choice)` from the tables' choices.
    pub fn with<T>(script: &[(usize, usize)], decisions: &[usize], steps: &[usize], tier: usize, f: impl FnOnce() -> T) -> (T, Vec<(Point, usize)>) {
        let st = Rc::new(RefCell::new(State {
            script: script.to_vec(),
            decisions: decisions.to_vec(),
            steps: steps.to_vec(),
            ..State::default()
        }));
        let s2 = st.clone();
        set_oracle(Some(Box::new(move |p, options| {
            if p == Point::Tier {
                return tier;
            }
            let mut s = s2.borrow_mut();
            let pos = s.log.len();
            if pos > 2_000_000 {
                panic!("more than two million choices: the search does not terminate");
            }
            s.log.push((p, options));
            if s.at < s.script.len() && s.script[s.at].0 == pos {
                s.at += 1;
                return s.script[s.at - 1].1.min(options - 1);
            }
            let (k, table) = match p {
                Point::Decision => (0, &s.decisions),
                _ => (1, &s.steps),
            };
            // a policy that deletes forever need not terminate: it ends after a while
            let c = if table.is_empty() || s.seen[k] >= POLICY {
                0
            } else {
                let c = table[s.seen[k] % table.len()];
                if c >= 1000 {
                    // from the end: the least preferred variable
                    options - 1 - (c - 1000).min(options - 1)
                } else {
                    c.min(options - 1)
                }
            };
            s.seen[k] += 1;
            c
        })));
        let r = f();
        set_oracle(None);
        let log = std::mem::take(&mut st.borrow_mut().log);
        (r, log)
    }

    /// The alternatives tried at a point.
    pub fn menu(p: Point, options: usize, all: bool) -> Vec<usize> {
        match p {
            Point::Schedule | Point::Tier => STEPS.to_vec(),
            Point::Decision if all => (1..options).collect(),
            Point::Decision => {
                let mut v: Vec<usize> = [1, 2, 3, options / 2, options - 2, options - 1].iter().cloned().filter(|&c| c > 0 && c < options).collect();
                v.sort();
                v.dedup();
                v
            }
        }
    }
}

#[cfg(varisat_verif)]
struct Search<'a, 'r> {
    judge: Judge,
    certify: bool,
    /// alternatives for decisions: all or the reduced menu
    all: bool,
    tier: usize,
    /// bound on scheduled deviations and on decision deviations
    max: (usize, usize),
    rec: &'a mut Rec<'r>,
    runs: u64,
    /// first deviation positions are split over several cases
    shard: (usize, usize),
}

#[cfg(varisat_verif)]
impl<'a, 'r> Search<'a, 'r> {
    fn dfs(&mut self, script: &mut Vec<(usize, usize)>, used: (usize, usize)) -> CaseResult {
        let (judge, rec, certify) = (&mut self.judge, &mut *self.rec, self.certify);
        let (r, log) = oracle::with(script, &[], &[], self.tier, || catch(|| judge.run(certify, rec)));
        self.runs += 1;
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(format!("panicked: {p}")),
        };
        r.map_err(|e| format!("{e}; choices {script:?} of {}, tier {}, ops {:?}", log.len(), self.tier, self.judge.ops))?;
        let from = script.last().map_or(0, |x| x.0 + 1);
        for pos in from..log.len() {
            let (p, options) = log[pos];
            if script.is_empty() && pos % self.shard.1 != self.shard.0 {
                continue;
            }
            let next = match p {
                oracle::Point::Decision => (used.0, used.1 + 1),
                _ => (used.0 + 1, used.1),
            };
            if next.0 > self.max.0 || next.1 > self.max.1 {
                continue;
            }
            for c in oracle::menu(p, options, self.all) {
                script.push((pos, c));
                self.dfs(script, next)?;
                script.pop();
            }
        }
        Ok(())
    }
}

#[cfg(varisat_verif)]
fn search(judge: Judge, certify: bool, all: bool, tier: usize, max: (usize, usize), shard: (usize, usize), rec: &mut Rec) -> CaseResult {
    let mut s = Search { judge, certify, all, tier, max, rec, runs: 0, shard };
    s.dfs(&mut vec![], (0, 0))?;
    let runs = s.runs;
    *rec.notes.entry("schedules".into()).or_insert(0) += runs;
    Ok(())
}

/// All tables of up to `n` entries.
fn tables(menu: &[usize], n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        last = last.iter().flat_map(|t| menu.iter().map(move |&m| [t.as_slice(), &[m]].concat())).collect();
        // a table that repeats one entry is the shorter one
        out.extend(last.iter().filter(|t| t.len() == 1 || !t.iter().all(|x| *x == t[0])).cloned());
    }
    out
}

/// Incremental histories whose solves need conflicts.
fn histories() -> Vec<(String, Vec<Op>)> {
    let mut out = vec![];
    for (name, base, al) in hists::bases(false) {
        for (i, x) in al.iter().enumerate() {
            for (j, y) in al.iter().enumerate() {
                if i == j {
                    continue;
                }
                out.push((
                    format!("{name} {i} {j}"),
                    vec![Op::Formula(base.clone()), x.clone(), Op::Solve, y.clone(), Op::Solve, hists::a(&[]), Op::Solve],
                ));
            }
        }
    }
    out
}

/// Small incremental histories.
fn small_histories() -> Vec<Vec<Op>> {
    use hists::{a, c};
    let bases: Vec<Vec<Cl>> = vec![
        vec![vec![1, 2, 3], vec![-1, -2, -3], vec![1, -2, 4], vec![-1, 2, -4]],
        vec![vec![1, 2], vec![-1, 3], vec![-2, -3, 4], vec![-4, 1, 2]],
        vec![vec![1, 2, 3, 4], vec![-1, -2], vec![-2, -3], vec![-3, -4], vec![-1, -4]],
        vec![vec![1, 2, 5], vec![1, -2, 5], vec![-1, 3, 5], vec![-1, -3, 5], vec![-5, 4]],
    ];
    let al = [a(&[1, 2]), a(&[-1]), a(&[3, -4]), a(&[]), c(&[-1, -3]), c(&[2]), c(&[-4, -2, 1]), a(&[-5, -4])];
    let mut out = vec![];
    for b in &bases {
        for x in &al {
            for y in &al {
                out.push(vec![Op::Formula(b.clone()), x.clone(), Op::Solve, y.clone(), Op::Solve]);
            }
        }
    }
    out
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let mut assumptions = vec!["the verdict of the default schedule was compared with the reference model", "the hook performs the solver's own restart, reduction and collection routines"];
    #[cfg(varisat_verif)]
    {
        let c3 = clauses_of_size(3, 3);
        let c2 = clauses_of_size(3, 2);
        let extra = if thorough { small_subsets(12, 2) } else { small_subsets(12, 1) };
        fam.push(Family::new(
            "all decisions, 3 variables",
            format!("all subsets of the 8 ternary clauses with {} sets of binary clauses: every choice at every decision and, in addition, every choice at {} schedule point(s)", extra.len(), 1 + thorough as usize),
            256 * extra.len() as u64,
            move |i, rec| {
                let mut f: Vec<Cl> = (0..8).filter(|k| i >> k & 1 == 1).map(|k| c3[k].clone()).collect();
                f.extend(extra[(i >> 8) as usize].iter().map(|&k| c2[k].clone()));
                rec.nontrivial(fp(&f));
                let truth = tt(&f) != 0;
                search(Judge::known(vec![Op::Formula(f), Op::Solve], Cfg::default(), truth), true, true, 0, (1 + thorough as usize, 99), (0, 1), rec)
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let c43 = clauses_of_size(4, 3);
        let drop = small_subsets(c43.len(), if thorough { 2 } else { 1 });
        let c4 = clauses_of_size(4, 4);
        let n = drop.len() as u64;
        fam.push(Family::new(
            "decisions, 4 variables",
            format!("4-variable 3-CNF minus up to {} clauses, full 4-CNF minus any clause: up to 2 (thorough 4) changed decisions and one changed schedule point, learned clauses kept by glue or all deletable", 1 + thorough as usize),
            (n + 17) * 2,
            move |i, rec| {
                let (i, tier) = (i / 2, oracle::TIERS[(i % 2) as usize]);
                let f: Vec<Cl> = if i < n {
                    c43.iter().enumerate().filter(|(k, _)| !drop[i as usize].contains(k)).map(|(_, c)| c.clone()).collect()
                } else {
                    c4.iter().enumerate().filter(|(k, _)| *k as u64 + n != i).map(|(_, c)| c.clone()).collect()
                };
                rec.nontrivial(fp(&f));
                let truth = tt(&f) != 0;
                search(Judge::known(vec![Op::Formula(f), Op::Solve], Cfg::default(), truth), false, false, tier, (1, if thorough { 4 } else { 2 }), (0, 1), rec)
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let h = small_histories();
        fam.push(Family::new(
            "small histories",
            format!("{} histories with two solves under assumptions: up to 2 (thorough 3) changed decisions (every alternative) and one (thorough 2) changed schedule points, learned clauses kept by glue or all deletable", h.len()),
            h.len() as u64 * 2,
            move |i, rec| {
                let (i, tier) = (i / 2, oracle::TIERS[(i % 2) as usize]);
                let ops = h[i as usize].clone();
                rec.nontrivial(fp(&format!("{ops:?}")));
                let j = Judge::new(ops, Cfg::default(), rec)?;
                search(j, true, true, tier, (1 + thorough as usize, 2 + thorough as usize), (0, 1), rec)
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let suite = Suite::new(formulas::medium().into_iter().filter(|f| max_var(&f.cls) <= if thorough { 40 } else { 25 } && f.cls.len() > 8).collect());
        let n = suite.f.len() as u64;
        const SHARDS: usize = 4;
        fam.push(Family::new(
            "structured formulas, one change",
            format!("{n} formulas: every alternative at every single point, learned clauses kept by glue or all deletable"),
            n * SHARDS as u64 * 2,
            move |i, rec| {
                let (i, tier) = (i / 2, oracle::TIERS[(i % 2) as usize]);
                let k = (i / SHARDS as u64) as usize;
                let f = &suite.f[k];
                rec.nontrivial(fp(&f.cls));
                let ops = vec![Op::Formula(f.cls.clone()), Op::Solve];
                let s = (i % SHARDS as u64) as usize;
                let max = if thorough && f.cls.len() < 60 { (1, 1) } else { (1, 0) };
                search(Judge::known(ops.clone(), Cfg::default(), suite.truth(k)), false, false, tier, max, (s, SHARDS), rec).map_err(|e| format!("{}: {e}", f.name))?;
                search(Judge::known(ops, Cfg::default(), suite.truth(k)), false, false, tier, (0, 1), (s, SHARDS), rec).map_err(|e| format!("{}: {e}", f.name))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let suite = Suite::new(formulas::medium().into_iter().filter(|f| f.cls.len() > 8 && (thorough || max_var(&f.cls) <= 24)).collect());
        let dec = tables(&[0, 1, 2, 1000, 1001, 5], 2);
        let st = tables(&[0, 1, 2, 4, 6, 8, 15], 2);
        let (n, d, s) = (suite.f.len() as u64, dec.len() as u64, st.len() as u64);
        let total = n * d * s;
        // quick: a diagonal through the product that still meets every pair of tables
        let per = if thorough { d * s } else { d * 2 };
        fam.push(Family::new(
            "periodic policies",
            format!("{n} formulas under {d} decision tables x {s} schedule tables of period up to 2, for the first 400 choices of each kind ({})", if thorough { "all" } else { "a fixed diagonal: 2 schedule tables per decision table and formula" }),
            if thorough { total } else { n * per },
            move |i, rec| {
                let k = (i / per) as usize;
                let r = i % per;
                let (di, si) = if thorough { (r % d, r / d) } else { (r % d, (r / d * (s / 2) + r % d + i / per) % s) };
                let f = &suite.f[k];
                let (dt, st) = (&dec[di as usize], &st[si as usize]);
                let tier = oracle::TIERS[((si + k as u64 + i) % 2) as usize];
                // without learned clauses surviving, hard formulas need not terminate quickly
                let mut j = Judge::known(vec![Op::Formula(f.cls.clone()), Op::Solve], Cfg::default(), suite.truth(k));
                rec.nontrivial(fp(&(&f.cls, di, si)));
                rec.sample(|| format!("{} decisions {dt:?} steps {st:?}", f.name));
                *rec.notes.entry("schedules".into()).or_insert(0) += 1;
                let (r, _) = oracle::with(&[], dt, st, tier, || catch(|| j.run(false, rec)));
                r.map_err(|p| format!("panicked: {p}")).and_then(|r| r).map_err(|e| format!("{} decisions {dt:?} steps {st:?} tier {tier}: {e}", f.name))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let h = histories();
        let dec = tables(&[0, 1, 1000, 3], 1);
        let st = tables(&[0, 1, 6, 8, 15], 2);
        let (d, s) = (dec.len() as u64, st.len() as u64);
        let pairs = if thorough { d * s } else { s };
        fam.push(Family::new(
            "incremental histories under policies",
            format!("{} histories of two queries over structured formulas under {d} decision and {s} schedule tables ({})", h.len(), if thorough { "all" } else { "one decision table each" }),
            h.len() as u64 * pairs,
            move |i, rec| {
                let (name, ops) = &h[(i / pairs) as usize];
                let r = i % pairs;
                let (dt, st) = (&dec[((r / s + i / pairs + r % s) % d) as usize], &st[(r % s) as usize]);
                let tier = oracle::TIERS[((i / pairs + r) % 2) as usize];
                rec.nontrivial(fp(&(name, dt, st)));
                *rec.notes.entry("schedules".into()).or_insert(0) += 1;
                let setup = Setup { self_check: true, ..Setup::default() };
                let (r, _) = oracle::with(&[], dt, st, tier, || catch(|| run(ops, setup, vec![], rec)));
                r.map_err(|p| format!("panicked: {p}")).and_then(|r| r).map(|_| ()).map_err(|e| format!("{name} decisions {dt:?} steps {st:?} tier {tier}: {e}"))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        // pairs of schedule changes where deletions are frequent
        let f: Vec<formulas::F> = vec![formulas::php(4, 3, false), formulas::php(5, 4, false), formulas::ordering(4), formulas::tseitin("k4", &formulas::complete_graph(4), 4, 1), formulas::factoring(21, 3), formulas::queens(4), formulas::full(4), formulas::full(5), formulas::parity_unique(9, 3), formulas::vdw(3, 3, 9), formulas::coloring("w5", &formulas::wheel(5), 6, 3)];
        let suite = Suite::new(f);
        let n = suite.f.len() as u64;
        const SHARDS: usize = 16;
        fam.push(Family::new(
            "pairs of changes",
            format!("{n} formulas: every alternative at every pair of points{}", if thorough { "" } else { " (one decision and one schedule point, or two schedule points of the first 60 points)" }),
            n * SHARDS as u64,
            move |i, rec| {
                let k = (i / SHARDS as u64) as usize;
                let s = (i % SHARDS as u64) as usize;
                let f = &suite.f[k];
                rec.nontrivial(fp(&(&f.cls, 2)));
                let ops = vec![Op::Formula(f.cls.clone()), Op::Solve];
                for max in if thorough { vec![(2, 0), (1, 1), (0, 2)] } else { vec![(2, 0)] } {
                    search(Judge::known(ops.clone(), Cfg { restart: Some(3), ..Cfg::default() }, suite.truth(k)), false, false, oracle::TIERS[(max.0 + s) % 2], max, (s, SHARDS), rec).map_err(|e| format!("{}: {e}", f.name))?;
                }
                Ok(())
            },
        ));
    }
    #[cfg(not(varisat_verif))]
    assumptions.push("built without hooks: only configurations vary the schedule");
    // without the hook as well: configurations that restart and reduce at any conflict
    {
        let suite = Suite::new(formulas::medium().into_iter().filter(|f| thorough || max_var(&f.cls) <= 36).collect());
        let mut cfgs = vec![];
        for r in [1, 2, 5, 64] {
            for l in [1, 2, 7, 100] {
                for m in [1, 3, 50] {
                    cfgs.push(cfg(r, l, m));
                }
            }
        }
        let n = suite.f.len() as u64;
        fam.push(Family::new(
            "configurations",
            format!("{n} formulas x {} combinations of restart and reduction intervals, self checked", cfgs.len()),
            n * cfgs.len() as u64,
            move |i, rec| {
                let k = (i % n) as usize;
                let c = cfgs[(i / n) as usize];
                let f = &suite.f[k];
                rec.nontrivial(fp(&(&f.cls, c.restart, c.locals, c.mids)));
                Judge::known(vec![Op::Formula(f.cls.clone()), Op::Solve], c, suite.truth(k)).run(false, rec).map_err(|e| format!("{} {c:?}: {e}", f.name))
            },
        ));
    }
    assumptions.push("bounded deviations from the default schedule (or from a periodic one)");
    Check {
        id: "C16",
        level: "model_checking",
        rule: "stateless depth-first exploration of the real solver over the oracle's choices: a trace is one run with its choices; states are reference states of histories",
        assumptions,
        families: fam,
    }
}
