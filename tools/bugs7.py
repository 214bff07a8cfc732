"""Planted bugs, seventh batch. See mkbug.py."""
from mkbug import bug
from bugs1 import PRE
V="varisat/src/"; C="varisat-checker/src/"
bug("c09-wide-tautology", "C09",
 "A tautological clause whose opposite literals come after the first 16 of its sorted literals.",
 "Processors are shown an ordinary clause instead of a tautology.",
 [(C+"sorted_lits.rs", "    target.iter().any(|&lit| {", "    target.iter().take(16).any(|&lit| {")],
 PRE+'''
use varisat_checker::{CheckedProofStep, CheckerData, ProofProcessor};
#[derive(Default)]
struct P(usize, usize);
impl ProofProcessor for P {
    fn process_step(&mut self, step: &CheckedProofStep, _: CheckerData) -> Result<(), anyhow::Error> {
        match step {
            CheckedProofStep::TautologicalClause { .. } => self.0 += 1,
            CheckedProofStep::AddClause { .. } => self.1 += 1,
            _ => (),
        }
        Ok(())
    }
}
fn main() {
    for n in [5, 40isize] {
        let mut p = P::default();
        {
            let mut s = Solver::new();
            s.add_proof_processor(&mut p);
            let mut w: Vec<isize> = (1..=n).collect();
            w.push(-n);
            c(&mut s, &w);
            c(&mut s, &[1, 2]);
            assert!(s.solve().unwrap());
        }
        assert_eq!((p.0, p.1), (1, 1), "tautologies and other clauses shown for {n} literals");
    }
}
''')
bug("c10-drat-unflushed", "C10",
 "A proof in a DRAT format whose writer fails, and which fits into the buffer.",
 "solve() returns a verdict although its proof could not be written; the error shows only later, if the proof is closed at all.",
 [(V+"proof.rs", "    flush_proof(ctx.borrow());\n    if let Some(checker)", "    // DRAT proofs are complete without an end marker, so they can stay buffered until they are closed\n    if ctx.part(ProofP).native_format() {\n        flush_proof(ctx.borrow());\n    }\n    if let Some(checker)")],
 PRE+'''
struct Full;
impl std::io::Write for Full {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::Error::new(std::io::ErrorKind::Other, "full")) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    for f in [varisat::ProofFormat::Varisat, varisat::ProofFormat::Drat, varisat::ProofFormat::BinaryDrat] {
        let mut s = Solver::new();
        s.write_proof(Full, f);
        for k in [[1, 2], [-1, 2], [1, -2], [-1, -2isize]] { c(&mut s, &k); }
        assert!(s.solve().is_err(), "{f:?}: a verdict without its proof");
    }
}
''')
bug("c15-implied-forgotten", "C15",
 "More than four assumptions that follow from others, given up again, and then a change of the mode of one of them.",
 "The variable still counts as assumed: the change panics, and the variable is never removed.",
 [(V+"assumptions.rs", "                assumptions.implied_assumptions.push(implied);\n", "                if assumptions.implied_assumptions.len() < 4 {\n                    assumptions.implied_assumptions.push(implied);\n                }\n")],
 PRE+'''
fn main() {
    for n in [3, 9isize] {
        let mut s = Solver::new();
        for i in 1..n { c(&mut s, &[-i, i + 1]); }
        s.assume(&(1..=n).map(l).collect::<Vec<_>>());
        assert!(s.solve().unwrap());
        s.assume(&[]);
        assert!(s.solve().unwrap());
        for i in 1..=n { s.hide_var(l(i).var()); }
        assert!(s.solve().unwrap());
    }
}
''')
