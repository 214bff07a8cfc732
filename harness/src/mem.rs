//! The executions of C28: run in the Miri interpreter by the crate in /verif/miri, enumerated by
//! props/c28.rs. Nothing is compared here, the interpreter is the monitor: it stops at the first
//! undefined behaviour, overflow, panic or broken debug assertion.
use crate::formulas;
use crate::hist::{cfg, lits, var, Cfg};
use crate::refsat::Cl;
use crate::steps::Step;
use std::cell::RefCell;
use std::io::{self, BufRead, Read, Write};
use std::rc::Rc;
use varisat::{ExtendFormula, Lit, ProofFormat, Solver};
use varisat_checker::{CheckedProofStep, Checker, CheckerData, ProofProcessor, ProofTranscriptProcessor, ProofTranscriptStep};
use varisat_internal_proof::binary_format::Parser;
use varisat_internal_proof::clause_hash;
use varisat_lrat::WriteLrat;

pub struct Fam {
    pub name: &'static str,
    pub bound: String,
    pub size: u64,
    /// cases per process
    pub per: u64,
    /// runs the case with this number, returns how many operations were executed
    pub run: Box<dyn Fn(u64) -> Result<u64, String> + Send + Sync>,
}

#[derive(Clone, Debug)]
enum Do {
    Clause(Cl),
    Formula(Vec<Cl>),
    Assume(Cl),
    Solve,
    New,
    Hide(i32),
    Witness(i32),
    Sample(i32),
    Config(Cfg),
    Close,
}
use Do::*;

/// How the solver is observed.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Plain,
    Checked,
    Processors,
    Native,

    BinaryDrat,
}
/// Text DRAT and LRAT are left out: they print numbers with itoa 0.4.6, a dependency that itself makes
/// uninitialized integers.
const MODES: [Mode; 5] = [Mode::Plain, Mode::Checked, Mode::Processors, Mode::Native, Mode::BinaryDrat];

/// Keeps what was written.
#[derive(Clone, Default)]
struct Kept(Rc<RefCell<Vec<u8>>>);
impl Write for Kept {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Looks at every literal and number it is given.
#[derive(Default)]
struct Touch(u64);
impl Touch {
    fn lits(&mut self, l: &[Lit]) {
        self.0 = l.iter().fold(self.0, |n, l| n.wrapping_add(l.code() as u64));
    }
    fn ids(&mut self, l: &[u64]) {
        self.0 = l.iter().fold(self.0, |n, l| n.wrapping_add(*l));
    }
}
impl ProofProcessor for Touch {
    fn process_step(&mut self, step: &CheckedProofStep, data: CheckerData) -> Result<(), anyhow::Error> {
        use CheckedProofStep::*;
        match step {
            AddClause { clause, .. } | DuplicatedClause { clause, .. } | TautologicalClause { clause, .. } => {
                self.lits(clause);
                for l in clause.iter() {
                    self.0 += data.user_from_proof_var(l.var()).map_or(0, |v| v.index() as u64);
                }
            }
            AtClause { clause, propagations, .. } | DeleteAtClause { clause, propagations, .. } => {
                self.lits(clause);
                self.ids(propagations);
            }
            FailedAssumptions { failed_core, propagations } => {
                self.lits(failed_core);
                self.ids(propagations);
            }
            DeleteClause { clause, .. } | DeleteRatClause { clause, .. } | MakeIrredundant { clause, .. } => self.lits(clause),
            Model { assignment } => self.lits(assignment),
            Assumptions { assumptions } => self.lits(assumptions),
            _ => (),
        }
        Ok(())
    }
}
impl ProofTranscriptProcessor for Touch {
    fn process_step(&mut self, step: &ProofTranscriptStep) -> Result<(), anyhow::Error> {
        use ProofTranscriptStep::*;
        match step {
            AddClause { clause } => self.lits(clause),
            Model { assignment } => self.lits(assignment),
            Assume { assumptions } => self.lits(assumptions),
            FailedAssumptions { failed_core } => self.lits(failed_core),
            _ => (),
        }
        Ok(())
    }
}

/// The history on a new solver.
fn history(ops: &[Do], mode: Mode) -> Result<u64, String> {
    let (mut a, mut b) = (Touch::default(), Touch::default());
    let kept = Kept::default();
    let mut lrat = WriteLrat::new(Kept::default(), true);
    let mut names = vec![];
    {
        let mut s = Solver::new();
        match mode {
            Mode::Plain => (),
            Mode::Checked => s.enable_self_checking(),
            Mode::Processors => {
                s.add_proof_processor(&mut a);
                s.add_proof_processor(&mut lrat);
                s.add_proof_processor(&mut b);
            }
            Mode::Native => s.write_proof(kept.clone(), ProofFormat::Varisat),

            Mode::BinaryDrat => s.write_proof(kept.clone(), ProofFormat::BinaryDrat),
        }
        for op in ops {
            match op {
                Clause(c) => s.add_clause(&lits(c)),
                Formula(f) => {
                    for c in f {
                        s.add_clause(&lits(c));
                    }
                }
                Assume(c) => s.assume(&lits(c)),
                Solve => match s.solve() {
                    Ok(true) => names.push(s.model().unwrap().len()),
                    Ok(false) => names.push(s.failed_core().map_or(0, |c| c.len())),
                    // an LRAT proof cannot tell assumptions
                    Err(_) if mode == Mode::Processors => break,
                    Err(e) => return Err(format!("{e}")),
                },
                New => {
                    names.push(s.new_var().index());
                }
                Hide(v) => s.hide_var(var(*v)),
                Witness(v) => s.witness_var(var(*v)),
                Sample(v) => s.sample_var(var(*v)),
                Config(c) => s.config(&c.update()).unwrap(),
                Close => {
                    let r = s.close_proof();
                    if mode != Mode::Processors {
                        r.map_err(|e| format!("{e}"))?;
                    }
                }
            }
        }
    }
    if mode == Mode::Native {
        let bytes = kept.0.borrow();
        let mut c = Checker::new();
        let mut t = Touch::default();
        c.add_transcript(&mut t);
        for op in ops {
            match op {
                Clause(x) => c.add_clause(&lits(x)).map_err(|e| format!("{e}"))?,
                Formula(f) => {
                    for x in f {
                        c.add_clause(&lits(x)).map_err(|e| format!("{e}"))?
                    }
                }
                Solve => break,
                _ => (),
            }
        }
        c.check_proof(Slow(&bytes[..], 3)).map_err(|e| format!("own proof: {e}"))?;
    }
    Ok(ops.len() as u64)
}

/// Hands out a few bytes at a time.
struct Slow<'a>(&'a [u8], usize);
impl<'a> Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.1.min(self.0.len()).min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
impl<'a> BufRead for Slow<'a> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        Ok(&self.0[..self.1.min(self.0.len())])
    }
    fn consume(&mut self, n: usize) {
        self.0 = &self.0[n..]
    }
}

fn alphabet(thorough: bool) -> Vec<Vec<Do>> {
    let mut a = vec![
        vec![Clause(vec![1, 2, 3])],
        vec![Clause(vec![-1, 2, -3]), Clause(vec![-1, -2, 3, 4])],
        vec![Clause(vec![-2]), Solve],
        vec![Assume(vec![1, -2]), Solve],
        vec![Clause(vec![4, 5, 6, -1]), Solve, Clause(vec![4, 5, 6]), Clause(vec![-4]), Solve],
    ];
    if thorough {
        a.extend([vec![Assume(vec![]), Clause(vec![-1, -2, -3, 5])], vec![Clause(vec![-3, 1])], vec![New, Solve], vec![Clause(vec![-5, -6]), Clause(vec![3, -5, 6, 7])]]);
    }
    a
}

/// Small formulas on which clauses are learned, reduced, simplified and collected.
fn hard(thorough: bool) -> Vec<(String, Vec<Cl>)> {
    let mut v = vec![
        formulas::php(4, 3, false),
        formulas::full(3),
        formulas::full(4),
        formulas::tseitin("K4", &formulas::complete_graph(4), 4, 1),
        formulas::parity_unique(6, 3),
        formulas::ordering(4),
        formulas::vdw(3, 3, 9),
        formulas::sgen(2, 1),
        formulas::long_clause(24, 5),
        formulas::coloring("wheel5/3", &formulas::wheel(5), 6, 3),
    ];
    if thorough {
        v.extend([
            formulas::php(3, 3, true),
            formulas::tseitin("C6", &formulas::cycle(6), 6, 1),
            formulas::schur(2, 5),
            formulas::queens(4),
            formulas::php(5, 4, false),
            formulas::php(5, 5, true),
            formulas::full(5),
            formulas::full(6),
            formulas::tseitin("K5", &formulas::complete_graph(5), 5, 1),
            formulas::tseitin("petersen", &formulas::petersen(), 10, 1),
            formulas::parity_unique(10, 4),
            formulas::ordering(6),
            formulas::queens(6),
            formulas::sgen(3, 1),
            formulas::factoring(15, 4),
            formulas::long_clause(200, 30),
        ]);
    }
    v.into_iter().map(|f| (f.name, f.cls)).collect()
}

fn checker_alphabet(thorough: bool) -> Vec<Step> {
    let h = |c: &[i32]| clause_hash(&lits(c));
    let mut a = vec![
        Step::Add(vec![1, 2, 3, 4]),
        Step::Add(vec![2, -4, 5, 1, 3]),
        Step::Add(vec![-1]),
        Step::Delete(vec![1, 2, 3, 4], 2),
        Step::Delete(vec![5, 6, 7, 8, 9, 10], 2),
        Step::Delete(vec![1, 2, 3], 2),
        Step::At(true, vec![1, 2, 3, 4, 6], vec![h(&[1, 2, 3, 4])]),
        Step::At(false, vec![2, 3, 4], vec![h(&[1, 2, 3, 4])]),
        Step::At(true, vec![2, 3, 4, 5, 7], vec![h(&[1, 2, 3, 4]), h(&[5, 6, 7, 8, 9, 10])]),
        Step::Units(vec![(5, h(&[5, -1])), (2, h(&[1, 2]))]),
        Step::Bits(1),
        Step::DeleteVar(11),
        Step::Model(vec![1, 2, 3, 4, 5, 6]),
        Step::Assume(vec![-2, -3, 1]),
        Step::Failed(vec![-2, -3], vec![h(&[1, 2, 3, 4])]),
        Step::End,
    ];
    if thorough {
        a.extend([
            Step::Delete(vec![1, 2, 3, 4], 0),
            Step::Delete(vec![1, 2, 3, 4, 5], 1),
            Step::Bits(64),
            Step::SolverName(1, Some(9)),
            Step::SolverName(9, None),
            Step::UserName(11, Some(12)),
            Step::UserName(1, None),
            Step::Mode(1, false),
        ]);
    }
    a
}

fn checker(steps: &[&Step]) -> Result<u64, String> {
    let mut t = Touch::default();
    let mut p = Touch::default();
    let mut c = Checker::new();
    c.add_transcript(&mut t);
    c.add_processor(&mut p);
    let f: [&[i32]; 5] = [&[1, 2, 3, 4], &[5, 6, 7, 8, 9, 10], &[1, 2, 3], &[1, 2, 3], &[5, -1]];
    for x in f {
        c.add_clause(&lits(x)).map_err(|e| format!("{e}"))?;
    }
    for s in steps {
        let mut bytes = vec![];
        s.write(&mut bytes);
        // accepted or rejected, that is decided elsewhere
        let _ = c.check_proof(&bytes[..]).map_err(|e| format!("{e:?}"));
    }
    let _ = c.add_clause(&lits(&[1, 2, 3, 4, 5, 6, 7]));
    let mut end = vec![];
    Step::End.write(&mut end);
    let _ = c.check_proof(&end[..]);
    Ok(steps.len() as u64 + 2)
}

fn encoding(bits: u32, plus: i64, chunk: usize) -> Result<u64, String> {
    let x = if bits == 64 { u64::MAX } else { (1u64 << bits).wrapping_add_signed(plus) };
    let v = 1 + (x % (1 << 27)) as i32;
    let steps = [
        Step::At(true, vec![v, -1, 2 - v.min(1)], vec![x, !x, x >> 1]),
        Step::Units(vec![(-v, x)]),
        Step::Model(vec![v]),
        Step::End,
    ];
    let mut bytes = vec![];
    for s in &steps {
        s.write(&mut bytes);
    }
    let mut src = Slow(&bytes, chunk);
    let mut p = Parser::default();
    for s in &steps {
        let step = p.parse_step(&mut src).map_err(|e| format!("{e}"))?;
        let back = Step::of(&step);
        if &back != s {
            return Err(format!("{s:?} reads as {back:?}"));
        }
    }
    // and its first step cut off
    bytes.clear();
    steps[0].write(&mut bytes);
    for n in if chunk == 9 { 0..bytes.len() } else { 0..0 } {
        if Parser::default().parse_step(&mut Slow(&bytes[..n], chunk)).is_ok() {
            return Err(format!("{:?} read from {n} of {} bytes", steps[0], bytes.len()));
        }
    }
    Ok(steps.len() as u64)
}

pub fn families(thorough: bool) -> Vec<Fam> {
    let mut out = vec![];

    let len = if thorough { 4 } else { 3 };
    let a = alphabet(thorough);
    let n = (a.len() as u64).pow(len);
    out.push(Fam {
        name: "short histories",
        bound: format!("all {n} sequences of {len} of {} groups of calls, each in one of 4 proof modes in turn", a.len()),
        size: n,
        per: if thorough { 32 } else { 8 },
        run: Box::new(move |i| {
            let a = alphabet(thorough);
            let mut ops = vec![];
            let mut x = i;
            for _ in 0..len {
                ops.extend(a[(x % a.len() as u64) as usize].clone());
                x /= a.len() as u64;
            }
            ops.extend([Solve, Close]);
            // the sum of the choices, so that every mode meets every group in every place
            let sum: u64 = (0..len).map(|k| i / (a.len() as u64).pow(k) % a.len() as u64).sum();
            history(&ops, MODES[(sum % 4) as usize])
        }),
    });

    let least = if thorough { 0 } else { 6 };
    let sets: Vec<u64> = (0..256u64).filter(|i| i.count_ones() >= least).collect();
    out.push(Fam {
        name: "all clauses of three literals",
        bound: format!("all {} sets of {least} or more of the clauses over 3 variables with 3 literals, solved, solved under assumptions, extended and solved", sets.len()),
        size: sets.len() as u64,
        per: 4,
        run: Box::new(move |i| {
            let i = sets[i as usize];
            let all = formulas::full(3).cls;
            let f: Vec<Cl> = (0..8).filter(|k| i >> k & 1 == 1).map(|k| all[k].clone()).collect();
            let mode = MODES[(i.count_ones() % 4) as usize];
            history(&[Formula(f), Solve, Assume(vec![1, -2]), Solve, Assume(vec![]), Clause(vec![-1, 4, 5]), Clause(vec![-4, 1]), Solve, Close], mode)
        }),
    });

    let h = hard(thorough);
    let cfgs = [cfg(1, 1, 1), cfg(2, 3, 5), cfg(1, 2, 1)];
    let k = if thorough { cfgs.len() } else { 1 };
    out.push(Fam {
        name: "searches with reductions and collections",
        bound: format!("{} formulas x {k} configurations x 5 proof modes; afterwards extended and solved under assumptions where the format allows it", h.len()),
        size: (h.len() * k * MODES.len()) as u64,
        per: 1,
        run: Box::new(move |i| {
            let h = hard(thorough);
            let mode = MODES[(i % 5) as usize];
            let c = cfgs[(i / 5) as usize % k];
            let (_, f) = &h[(i / 5) as usize / k];
            let mut ops = vec![Config(c), Formula(f.clone()), Solve];
            if !matches!(mode, Mode::BinaryDrat | Mode::Processors) {
                ops.extend([Assume(vec![1, -2, 3]), Solve, Assume(vec![]), Clause(vec![-1, -2, -3, 4]), Clause(vec![1]), Solve]);
            }
            ops.push(Close);
            history(&ops, mode)
        }),
    });

    let vars: Vec<Vec<Do>> = vec![
        vec![Hide(1)],
        vec![Witness(2)],
        vec![Sample(2)],
        vec![Hide(2), Solve, New],
        vec![Clause(vec![3, 4, 5]), Solve],
        vec![New, New],
    ];
    let (m, vl) = (vars.len() as u64, if thorough { 4 } else { 2 });
    out.push(Fam {
        name: "variables hidden, reused and collected",
        bound: format!("all {} sequences of {vl} of {m} groups of calls after a solved formula, in 4 proof modes in turn", m.pow(vl)),
        size: m.pow(vl),
        per: if thorough { 32 } else { 4 },
        run: Box::new(move |i| {
            let mut ops = vec![Formula(vec![vec![1, 2, 3], vec![-1, 3, 4], vec![-2, -3, 5], vec![2]]), Solve, Clause(vec![-2, 5]), Solve];
            let mut x = i;
            let mut sum = 0;
            for _ in 0..vl {
                ops.extend(vars[(x % m) as usize].clone());
                sum += x % m;
                x /= m;
            }
            ops.extend([Solve, Close]);
            history(&ops, MODES[(sum % 4) as usize])
        }),
    });

    let c = checker_alphabet(thorough).len() as u64;
    let cl = if thorough { 3 } else { 2 };
    out.push(Fam {
        name: "checker steps",
        bound: format!("all {} sequences of {cl} of {c} steps with clauses around the size kept inline, then a clause and the end", c.pow(cl)),
        size: c.pow(cl),
        per: if thorough { 128 } else { 16 },
        run: Box::new(move |i| {
            let a = checker_alphabet(thorough);
            let mut x = i;
            let mut steps = vec![];
            for _ in 0..cl {
                steps.push(&a[(x % c) as usize]);
                x /= c;
            }
            checker(&steps)
        }),
    });

    let chunks: &[usize] = if thorough { &[1, 2, 3, 7, 8, 9, 15, 16, 17, 1000] } else { &[1, 9, 1000] };
    let nc = chunks.len() as u64;
    let np = if thorough { 3 } else { 1 };
    out.push(Fam {
        name: "encoded numbers",
        bound: format!("{} for all k as hashes and literals, read in pieces of {chunks:?} bytes, those of 9 bytes also cut off at every byte", if thorough { "2^k-1, 2^k and 2^k+1" } else { "2^k" }),
        size: 65 * np * nc,
        per: if thorough { 65 } else { 20 },
        run: Box::new(move |i| {
            let (b, r) = ((i % 65) as u32, i / 65);
            encoding(b, if thorough { (r % np) as i64 - 1 } else { 0 }, chunks[(r / np) as usize])
        }),
    });
    out
}
