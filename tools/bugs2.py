from mkbug import bug
from bugs1 import PRE
V="varisat/src/"; K="varisat-checker/src/"
RND='''
struct Rng(u64);
impl Rng { fn next(&mut self, n: u64) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 >> 11) % n } }
#[allow(dead_code)]
fn ksat(r: &mut Rng, vars: u64, clauses: usize) -> Vec<Vec<isize>> {
    (0..clauses).map(|_| { let mut c: Vec<isize> = vec![]; while c.len() < 3 { let v = r.next(vars) as isize + 1;
        if !c.iter().any(|x| x.abs() == v) { c.push(if r.next(2) == 0 { v } else { -v }) } } c }).collect()
}
'''
bug("c16-reduce-low-levels", "C16",
 "A clause database reduction while a learned local clause is the reason of a literal on one of the first four decision levels, followed by a garbage collection and a conflict that involves the literal.",
 "The reason of an assigned literal is deleted and collected, so later conflict analysis uses whatever clause lies at its old place or panics.",
 [(V+"clause/db.rs", """    let asserting = ctx.part(AssignmentP).lit_is_true(initial_lit)
        && ctx.part(ImplGraphP).reason(initial_lit.var()) == &Reason::Long(cref);
""", """    let asserting = ctx.part(AssignmentP).lit_is_true(initial_lit)
        && ctx.part(ImplGraphP).level(initial_lit.var()) > 4
        && ctx.part(ImplGraphP).reason(initial_lit.var()) == &Reason::Long(cref);
""")], PRE+RND+'''
fn main() {
    let mut r = Rng(88172645463325252);
    for _ in 0..40 {
        let n = 120;
        let f = ksat(&mut r, n, n as usize * 42 / 10);
        let mut s = Solver::new();
        s.enable_self_checking();
        let mut conf = varisat::config::SolverConfigUpdate::new();
        conf.reduce_locals_interval = Some(7);
        conf.reduce_mids_interval = Some(3);
        conf.luby_restart_interval_scale = Some(4);
        s.config(&conf).unwrap();
        for x in &f { c(&mut s, x) }
        for v in 1..n as isize {
            s.assume(&[l(v), l(-(v % 5 + n as isize - 6)), l(-(v % 7 + n as isize - 20))]);
            if s.solve().unwrap() {
                let m = s.model().unwrap();
                assert!(m.contains(&l(v)) && f.iter().all(|x| x.iter().any(|&i| m.contains(&l(i)))));
            }
        }
    }
}
''')
bug("c15-assume-witness", "C15",
 "Assuming a variable that was turned into a witness variable.",
 "Witness variables can be constrained by assumptions, which is documented to panic.",
 [(V+"assumptions.rs", """        user_assumptions,
        true,
    );
""", """        user_assumptions,
        false,
    );
""")], PRE+'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let ok = std::panic::catch_unwind(|| {
        let mut s = Solver::new();
        c(&mut s, &[1, 2]);
        s.witness_var(Var::from_dimacs(1));
        s.assume(&[l(1)]);
    }).is_err();
    std::process::exit(!ok as i32);
}
''')
bug("c18-boundary", "C18",
 "A number that is exactly 2^56 (for example as the upper bits of a clause hash).",
 "The value needs nine bytes but is written as if it fitted into eight.",
 [("varisat-internal-proof/src/vli_enc.rs", "    if value < (1 << (8 * 7)) {", "    if value <= (1 << (8 * 7)) {")], PRE+'''
use varisat_internal_proof::{ProofStep, binary_format::{write_step, Parser}};
fn main() {
    for shift in 0..64 { for d in [-1i64, 0, 1] {
        let h = (1u64 << shift).wrapping_add(d as u64);
        let mut b = vec![];
        write_step(&mut b, &ProofStep::FailedAssumptions { failed_core: &[], propagation_hashes: &[h] }).unwrap();
        match Parser::default().parse_step(&mut &b[..]).unwrap() {
            ProofStep::FailedAssumptions { propagation_hashes, .. } => assert_eq!(propagation_hashes, &[h]),
            _ => panic!(),
        }
    } }
}
''')
bug("c22-random-names", "C22",
 "Two or more solver variables freed by fixed values and reused afterwards, and a comparison of two processes.",
 "The freed variable names are taken in an order that changes from run to run, so identical inputs give different searches and proofs.",
 [(V+"variables.rs", "use rustc_hash::FxHashSet as HashSet;", "use std::collections::HashSet;")], PRE+'''
fn main() {
    let mut p: Vec<Vec<u8>> = vec![];
    for _ in 0..20 {
        let mut out = vec![];
        {
            let mut s = Solver::new();
            s.write_proof(&mut out, varisat::ProofFormat::Varisat);
            for v in 1..9 { c(&mut s, &[v, v + 10]); c(&mut s, &[-v]); }
            assert!(s.solve().unwrap());
            for v in 21..31 { c(&mut s, &[v, v + 1, v + 2]); c(&mut s, &[-v, v + 1, v + 3]); }
            assert!(s.solve().unwrap());
            s.close_proof().unwrap();
        }
        p.push(out);
    }
    assert!(p.windows(2).all(|w| w[0] == w[1]));
}
''')
bug("c23-tautology-missing", "C23",
 "A tautological clause among the added clauses.",
 "Transcripts do not list tautological clauses.",
 [(K+"transcript.rs", """            | CheckedProofStep::DuplicatedClause { clause, .. }
            | CheckedProofStep::TautologicalClause { clause, .. } => {""", """            | CheckedProofStep::DuplicatedClause { clause, .. } => {""")], PRE+'''
use varisat_checker::{Checker, ProofTranscriptProcessor, ProofTranscriptStep};
struct Count(usize);
impl ProofTranscriptProcessor for Count {
    fn process_step(&mut self, step: &ProofTranscriptStep) -> Result<(), anyhow::Error> {
        if let ProofTranscriptStep::AddClause { .. } = step { self.0 += 1 }
        Ok(())
    }
}
fn main() {
    let mut n = Count(0);
    {
        let mut k = Checker::new();
        k.add_transcript(&mut n);
        k.add_clause(&[l(1), l(2)]).unwrap();
        k.add_clause(&[l(1), l(-1)]).unwrap();
    }
    assert_eq!(n.0, 2);
}
''')
bug("c24-reduce-differs", "C24",
 "A clause database reduction with at least two local clauses while a proof is produced.",
 "With an active proof all local clauses are deleted instead of half of them, so the search and the models found depend on whether a proof is written.",
 [(V+"clause/reduce.rs", """                cref.remove();
                to_delete -= 1;
                if to_delete == 0 {
                    break;
                }
""", """                cref.remove();
                if !ctx.part(ProofP).native_format() {
                    to_delete -= 1;
                }
                if to_delete == 0 {
                    break;
                }
""")], PRE+RND+'''
fn main() {
    let mut r = Rng(88172645463325252);
    for _ in 0..60 {
        let f = ksat(&mut r, 80, 330);
        let run = |proof: bool| {
            let mut s = Solver::new();
            if proof { s.write_proof(std::io::sink(), varisat::ProofFormat::Varisat); }
            let mut conf = varisat::config::SolverConfigUpdate::new();
            conf.reduce_locals_interval = Some(5);
            s.config(&conf).unwrap();
            for x in &f { c(&mut s, x) }
            s.solve().unwrap();
            s.model()
        };
        assert_eq!(run(false), run(true));
    }
}
''')
bug("c20-wrapped-model", "C20",
 "A satisfiable formula with more than 4096 variables.",
 "The model line is wrapped every 4096 literals and the literal at the break is lost.",
 [("varisat-cli/src/main.rs", """            for l in model.unwrap() {
                print!(" {}", l);
            }
""", """            for (i, l) in model.unwrap().iter().enumerate() {
                if i % 4096 == 4095 {
                    print!("\\nv");
                } else {
                    print!(" {}", l);
                }
            }
""")], cli='''printf 'p cnf 5000 1\\n1 5000 0\\n' > f.cnf
"$varisat" f.cnf > out
[ "$(grep '^v' out | tr ' ' '\\n' | grep -c -v -e v -e '^0$')" = 5000 ]
''')
bug("c21-assume-summary", "C21",
 "A proof of an incremental run with assumptions between added clauses.",
 "The transcript printed by --check counts clauses across assumptions and lists them after the answers that did not depend on them.",
 [("varisat-cli/src/check/transcript.rs", """            ProofTranscriptStep::Assume { assumptions } => {
                self.print_summary(None);
""", """            ProofTranscriptStep::Assume { assumptions } => {
""")], cli='''mkdir -p gen/src; cat > gen/src/main.rs <<'X'
use varisat::{ExtendFormula, Lit, ProofFormat, Solver};
fn main() {
    let l = Lit::from_dimacs;
    let mut s = Solver::new();
    s.write_proof(std::fs::File::create("p").unwrap(), ProofFormat::Varisat);
    s.add_clause(&[l(1), l(2)]);
    s.assume(&[l(1)]);
    assert!(s.solve().unwrap());
    s.add_clause(&[l(-1), l(2)]);
    s.add_clause(&[l(-1), l(3)]);
    s.assume(&[l(2)]);
    s.add_clause(&[l(1), l(-3)]);
    assert!(s.solve().unwrap());
    s.close_proof().unwrap();
}
X
cat > gen/Cargo.toml <<X
[package]
name = "gen"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
varisat = { path = "/repo/varisat" }
X
cp /repo/Cargo.lock gen/
CARGO_TARGET_DIR="$tmp/target" timeout 240 cargo build -q --offline --manifest-path gen/Cargo.toml 2>log || { cat log; exit 98; }
target/debug/gen || exit 97
printf 'p cnf 2 1\\n1 2 0\\n' > f.cnf
"$varisat" --check --proof=p f.cnf | grep '^t ' > out
cat out
grep -n 'ADD 2 CLAUSES' out | head -1 > a
grep -n 'ASSUME' out | tail -1 > b
[ -s a ] && [ "$(cut -d: -f1 a)" -lt "$(cut -d: -f1 b)" ]
''')
bug("c07-keep-redundant", "C07",
 "A clause added by the user that equals a learned clause, later deleted as irredundant while its learned copy is still used.",
 "The LRAT proof deletes a clause that later steps refer to.",
 [("varisat-lrat/src/lib.rs", """                if !keep_as_redundant {
                    self.open_delete()?;
                    self.write_ids(&[id])?;
                }
""", """                let _ = keep_as_redundant;
                self.open_delete()?;
                self.write_ids(&[id])?;
""")], PRE+RND+'''
use varisat_checker::{CheckedProofStep, CheckerData, ProofProcessor};
#[derive(Default)]
struct Learned(Vec<Vec<isize>>);
impl ProofProcessor for Learned {
    fn process_step(&mut self, step: &CheckedProofStep, _: CheckerData) -> Result<(), anyhow::Error> {
        if let CheckedProofStep::AtClause { clause, redundant: true, .. } = step { self.0.push(clause.iter().map(|x| x.to_dimacs()).collect()) }
        Ok(())
    }
}
fn run(f: &[Vec<isize>], extra: &[Vec<isize>], units: &[isize]) -> (Vec<Vec<isize>>, String) {
    let mut learned = Learned::default();
    let mut out = vec![];
    let mut lrat = varisat_lrat::WriteLrat::new(&mut out, false);
    {
        let mut s = Solver::new();
        s.add_proof_processor(&mut learned);
        s.add_proof_processor(&mut lrat);
        for x in f { c(&mut s, x) }
        let _ = s.solve().unwrap();
        for x in extra { c(&mut s, x) }
        for &u in units { c(&mut s, &[u]); let _ = s.solve().unwrap(); }
    }
    lrat.flush().unwrap();
    drop(lrat);
    (learned.0, String::from_utf8(out).unwrap())
}
fn main() {
    let mut r = Rng(88172645463325252);
    for _ in 0..300 {
        let f = ksat(&mut r, 30, 115);
        let (learned, _) = run(&f, &[], &[]);
        if learned.is_empty() { continue }
        let units: Vec<isize> = (0..6).map(|i| { let x = &learned[i % learned.len()]; let v = x[r.next(x.len() as u64) as usize]; -v }).collect();
        let (_, text) = run(&f, &learned, &units);
        let mut gone = std::collections::HashSet::new();
        for line in text.lines() {
            let w: Vec<&str> = line.split(' ').collect();
            if w[1] == "d" {
                for &i in &w[2..w.len() - 1] { assert!(gone.insert(i.to_string()), "deleted twice: {line}"); }
            } else {
                let at = w.iter().position(|&x| x == "0").unwrap();
                for &i in &w[at + 1..w.len() - 1] { assert!(!gone.contains(i), "used after deletion: {line}"); }
            }
        }
    }
}
''')
bug("c09-missing-irredundant", "C09",
 "A proof step that derives an irredundant clause which is already present as redundant clause.",
 "Processors are not told that the clause became irredundant, so they see the deletion of an irredundant clause they believe to be redundant.",
 [(K+"state.rs", """        StoreClauseResult::NewlyIrredundant => {
            process_step(
                ctx.borrow(),
                &CheckedProofStep::MakeIrredundant { id, clause: &tmp },
            )?;
        }
        StoreClauseResult::Duplicate => (),
    }

    ctx.part_mut(TmpDataP).tmp = tmp;
""", """        StoreClauseResult::NewlyIrredundant | StoreClauseResult::Duplicate => (),
    }

    ctx.part_mut(TmpDataP).tmp = tmp;
""")], PRE+'''
use varisat_checker::{CheckedProofStep, Checker, CheckerData, ProofProcessor};
use varisat_internal_proof::{binary_format::write_step, clause_hash, lit_code_hash, ProofStep};
struct Seen(bool);
impl ProofProcessor for Seen {
    fn process_step(&mut self, step: &CheckedProofStep, _: CheckerData) -> Result<(), anyhow::Error> {
        if let CheckedProofStep::MakeIrredundant { .. } = step { self.0 = true }
        Ok(())
    }
}
fn hash(c: &[Lit]) -> u64 { c.iter().fold(0, |h, x| h ^ lit_code_hash(x.code() + Var::max_count() * 2)) }
fn main() {
    let _ = clause_hash(&[]);
    let mut seen = Seen(false);
    {
        let mut k = Checker::new();
        k.add_processor(&mut seen);
        let (a, b) = ([l(1), l(2), l(3)], [l(1), l(2), l(-3)]);
        k.add_clause(&a).unwrap();
        k.add_clause(&b).unwrap();
        let mut p = vec![];
        for redundant in [true, false] {
            write_step(&mut p, &ProofStep::AtClause { redundant, clause: &[l(1), l(2)], propagation_hashes: &[hash(&a), hash(&b)] }).unwrap();
        }
        write_step(&mut p, &ProofStep::End).unwrap();
        k.check_proof(&p[..]).unwrap();
    }
    assert!(seen.0);
}
''')
bug("c10-delayed-error-lost", "C10",
 "A proof processor that fails at the empty clause which is derived from two contradicting unit clauses at the end of solve().",
 "The error of the processor is dropped and solve() reports success.",
 [(V+"proof.rs", """        let result = checker.self_check_delayed_steps();
        handle_self_check_result(ctx.borrow(), result);
    }
}
""", """        if let Err(err) = checker.self_check_delayed_steps() {
            log::error!("{}", err);
        }
    }
}
""")], PRE+'''
use varisat_checker::{CheckedProofStep, CheckerData, ProofProcessor};
struct Fail;
impl ProofProcessor for Fail {
    fn process_step(&mut self, step: &CheckedProofStep, _: CheckerData) -> Result<(), anyhow::Error> {
        match step { CheckedProofStep::AtClause { clause, .. } if clause.is_empty() => anyhow::bail!("full"), _ => Ok(()) }
    }
}
fn main() {
    let mut f = Fail;
    let mut s = Solver::new();
    s.add_proof_processor(&mut f);
    c(&mut s, &[1]);
    c(&mut s, &[-1]);
    assert!(s.solve().is_err());
}
''')
bug("c17-merge-keeps-old", "C17",
 "Two updates of the same option merged.",
 "When two configuration updates are merged the first value wins instead of the later one.",
 [("varisat-internal-macros/src/lib.rs", """                if let Some(value) = config_update.#ident {
                    self.#ident = Some(value);
                }
""", """                self.#ident = self.#ident.or(config_update.#ident);
""")], PRE+'''
use varisat::config::SolverConfigUpdate;
fn main() {
    let mut a = SolverConfigUpdate::new();
    a.reduce_mids_interval = Some(5);
    let mut b = SolverConfigUpdate::new();
    b.reduce_mids_interval = Some(7);
    a.merge(b);
    assert_eq!(a.reduce_mids_interval, Some(7));
}
''')
bug("c19-equality-prefix", "C19",
 "Two formulas of equal variable and clause counts with clauses of different length.",
 "Formulas whose clauses are extensions of each other compare as equal.",
 [("varisat-formula/src/cnf.rs", """                    self.literals[range_a.clone()] == other.literals[range_b.clone()]
""", """                    self.literals[range_a.clone()]
                        .iter()
                        .zip(&other.literals[range_b.clone()])
                        .all(|(a, b)| a == b)
""")], PRE+'''
use varisat::CnfFormula;
fn main() {
    let f = |v: &[&[isize]]| { let mut f = CnfFormula::new(); for x in v { c(&mut f, x) } f };
    assert!(f(&[&[1, 2]]) != f(&[&[1, 2, -2]]));
    assert!(f(&[&[], &[1]]) != f(&[&[1], &[]]));
}
''')
bug("c11-eof-after-refutation", "C11",
 "A proof file cut off at a step boundary after the empty clause was derived.",
 "A truncated proof passes as complete once the checker has derived the empty clause.",
 [(K+"state.rs", """                    if io_err.kind() == io::ErrorKind::UnexpectedEof {
                        return""", """                    if io_err.kind() == io::ErrorKind::UnexpectedEof {
                        if ctx.part(CheckerStateP).unsat {
                            break;
                        }
                        return""")], PRE+'''
fn main() {
    let mut p = vec![];
    {
        let mut s = Solver::new();
        s.write_proof(&mut p, varisat::ProofFormat::Varisat);
        for a in [1, -1] { for b in [2, -2] { c(&mut s, &[a, b]); } }
        assert!(!s.solve().unwrap());
        s.close_proof().unwrap();
    }
    for n in 0..p.len() {
        let mut k = varisat_checker::Checker::new();
        for a in [1, -1] { for b in [2, -2] { k.add_clause(&[l(a), l(b)]).unwrap(); } }
        assert!(k.check_proof(&p[..n]).is_err(), "{n} of {} bytes", p.len());
    }
}
''')
bug("c03-restart-on-model-only", "C03",
 "A clause added after a query that failed under assumptions, which is true under these assumptions.",
 "The clause is taken to be satisfied for good and dropped, so later queries are answered without it.",
 [(V+"load.rs", """        SatState::Sat => {
            ctx.part_mut(SolverStateP).sat_state = SatState::Unknown;
        }
""", """        SatState::Sat => {
            ctx.part_mut(SolverStateP).sat_state = SatState::Unknown;
            // Restart the search when the user adds new clauses.
            full_restart(ctx.borrow());
        }
"""),
 (V+"load.rs", """    // Restart the search when the user adds new clauses.
    full_restart(ctx.borrow());

    // Convert""", """    // Convert""")], PRE+'''
fn main() {
    let mut s = Solver::new();
    c(&mut s, &[1, 2, 3]);
    c(&mut s, &[-1, -2]);
    s.assume(&[l(1), l(2)]);
    assert!(!s.solve().unwrap());
    c(&mut s, &[1, 4]);
    c(&mut s, &[1, -4]);
    s.assume(&[l(-1)]);
    assert!(!s.solve().unwrap());
}
''')
