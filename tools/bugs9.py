"""Planted bugs, ninth batch: sizes and flushing. See mkbug.py."""
from mkbug import bug
D="varisat-dimacs/src/lib.rs"; L="varisat-lrat/src/lib.rs"
bug("c12-header-limit", "C12",
 "A header line longer than 64 bytes, for example with aligned columns.",
 "The rest of the line is dropped, so a correct file is refused or read with a wrong header.",
 [(D, "                    if self.in_header {\n                        self.header_line.push(byte);", "                    // No sensible header is longer than this, so do not buffer more of a broken file\n                    if self.in_header && self.header_line.len() < 64 {\n                        self.header_line.push(byte);")],
 '''use varisat::dimacs::DimacsParser;
fn main() {
    for pad in [1usize, 10, 30, 70, 500] {
        let text = format!("p cnf {}12{} 2\\n1 2 0\\n-12 0\\n", " ".repeat(pad), " ".repeat(pad));
        let f = DimacsParser::parse(text.as_bytes()).unwrap_or_else(|e| panic!("padding of {pad}: {e}"));
        assert_eq!((f.len(), f.var_count()), (2, 12), "padding of {pad}");
    }
}
''')
bug("c12-clause-count-wraps", "C12",
 "A text of at least 65536 clauses.",
 "The clause count wraps, so that a correct file with a header is refused.",
 [(D, "self.clause_count += 1;", "self.clause_count = usize::from((self.clause_count as u16).wrapping_add(1));")],
 '''use varisat::dimacs::DimacsParser;
fn main() {
    for n in [10usize, 255, 256, 65535, 65536, 70000] {
        let text = format!("p cnf 3 {n}\\n{}", "1 -2 3 0\\n".repeat(n));
        let f = DimacsParser::parse(text.as_bytes()).unwrap_or_else(|e| panic!("{n} clauses: {e}"));
        assert_eq!(f.len(), n);
    }
}
''')
bug("c07-flush-unterminated", "C07",
 "An LRAT proof that ends with deletions, looked at after flush() and before the writer is dropped.",
 "The last deletion line has no end.",
 [(L, "        self.close_delete()?;\n        self.target.flush()?;\n", "        // An open delete step is continued by the next deletion or ended on drop\n        self.target.flush()?;\n")],
 '''use std::{cell::RefCell, io, rc::Rc};
use varisat::{CnfFormula, ExtendFormula, Lit, Solver};
use varisat_lrat::WriteLrat;
#[derive(Clone, Default)]
struct Buf(Rc<RefCell<Vec<u8>>>);
impl io::Write for Buf {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    for binary in [false, true] {
        for clauses in [vec![vec![1isize, 2, 3], vec![1]], vec![vec![1, 2, 3], vec![1, 2, 3]], vec![vec![1, -1], vec![1, 2]]] {
            let buf = Buf::default();
            let mut w = WriteLrat::new(buf.clone(), binary);
            let mut s = Solver::new();
            s.add_proof_processor(&mut w);
            let mut f = CnfFormula::new();
            for k in &clauses { f.add_clause(&k.iter().map(|&l| Lit::from_dimacs(l)).collect::<Vec<_>>()); }
            s.add_formula(&f);
            assert!(s.solve().unwrap());
            s.close_proof().unwrap();
            drop(s);
            w.flush().unwrap();
            let out = buf.0.borrow().clone();
            let complete = out.is_empty() || if binary { out.ends_with(&[0]) } else { out.ends_with(b" 0\\n") };
            assert!(complete, "{clauses:?} binary {binary}: {out:?}");
        }
    }
}
''')

bug("c27-name-taken", "C27",
 "A proof step that names a variable which already has a name, or is hidden, is rejected. A later proof for the same checker uses that name.",
 "The rejected step has taken the name, so correct later steps are refused.",
 [("varisat-checker/src/variables.rs", "    if user_var.index() >= variables.var_data.len() || variables.used_user_vars.contains(&user_var)\n    {", "    if user_var.index() >= variables.var_data.len() || !variables.used_user_vars.insert(user_var) {"),
  ("varisat-checker/src/variables.rs", "    variables.used_user_vars.insert(user_var);\n\n", "")],
 '''use varisat::{ExtendFormula, Lit, Var};
use varisat_checker::{Checker, CheckerError};
use varisat_internal_proof::{binary_format::write_step, ProofStep};
fn give(k: &mut Checker, s: ProofStep) -> bool {
    let mut b = vec![];
    write_step(&mut b, &s).unwrap();
    match k.check_proof(&b[..]) {
        Err(CheckerError::ProofIncomplete { .. }) => true,
        Err(CheckerError::CheckFailed { .. }) => false,
        r => panic!("{r:?}"),
    }
}
fn main() {
    let v = Var::from_dimacs;
    let mut k = Checker::new();
    let mut f = varisat::CnfFormula::new();
    f.add_clause(&[Lit::from_dimacs(4), Lit::from_dimacs(5)]);
    k.add_formula(&f).unwrap();
    assert!(give(&mut k, ProofStep::UserVarName { global: v(3), user: Some(v(3)) }));
    // it has a name already
    assert!(!give(&mut k, ProofStep::UserVarName { global: v(3), user: Some(v(2)) }));
    assert!(give(&mut k, ProofStep::UserVarName { global: v(2), user: Some(v(2)) }));
}
''')
