from mkbug import bug
V="varisat/src/"
PRE='''use varisat::{ExtendFormula, Lit, Solver, Var};
#[allow(dead_code)]
fn l(i: isize) -> Lit { Lit::from_dimacs(i) }
#[allow(dead_code)]
fn c(s: &mut impl ExtendFormula, v: &[isize]) { s.add_clause(&v.iter().map(|&i| l(i)).collect::<Vec<_>>()) }
'''
bug("c04-one-sided-core", "C04",
 "Assumptions that contain a literal and its negation.",
 "The failed core contains only one of the two literals, which alone does not contradict the clauses.",
 [(V+"assumptions.rs", """                    if impl_graph.level(lit.var()) > 0 {
""", """                    if impl_graph.level(lit.var()) > 0 && lit.var() != assumption.var() {
""")], PRE+'''
fn main() {
    let mut s = Solver::new();
    c(&mut s, &[1, 2, 3]);
    s.assume(&[l(3), l(1), l(-1)]);
    assert!(!s.solve().unwrap());
    let core = s.failed_core().unwrap().to_vec();
    let mut t = Solver::new();
    c(&mut t, &[1, 2, 3]);
    t.assume(&core);
    assert!(!t.solve().unwrap(), "core {core:?}");
}
''')
bug("c06-wide-binary-literal", "C06",
 "A binary DRAT proof that mentions a variable above 8191, so that a literal needs three bytes.",
 "Literals of large variables are written with their upper bits cut off or in a malformed encoding, so the proof has other clauses than the solver derived.",
 [(V+"proof/drat.rs", """        leb128::write::unsigned(target, drat_code)?;
""", """        if drat_code < 1 << 7 {
            target.write_all(&[drat_code as u8])?;
        } else {
            target.write_all(&[drat_code as u8 | 0x80, (drat_code >> 7) as u8])?;
        }
""")], PRE+'''
use varisat::ProofFormat;
fn leb(b: &mut std::slice::Iter<u8>) -> Option<u64> {
    let (mut v, mut s) = (0u64, 0);
    loop { let x = *b.next()? as u64; v |= (x & 127) << s; s += 7; if x < 128 { return Some(v); } }
}
fn main() {
    let mut p = vec![];
    {
        let mut s = Solver::new();
        s.write_proof(&mut p, ProofFormat::BinaryDrat);
        for a in [9001, -9001] { for b in [9002, -9002] { c(&mut s, &[a, b, 9003]); c(&mut s, &[a, b, -9003]); } }
        assert!(!s.solve().unwrap());
        s.close_proof().unwrap();
    }
    let mut b = p.iter();
    while let Some(&k) = b.next() {
        assert!(k == b'a' || k == b'd');
        loop {
            match leb(&mut b).expect("cut off") { 0 => break, x => assert!((18002..18008).contains(&x), "code {x}") }
        }
    }
}
''')
bug("c08-delete-used-var", "C08",
 "A proof that deletes a hidden variable which still occurs negatively in a clause, and reuses it for a new variable.",
 "The checker accepts the deletion, so the old clause is applied to the new variable and a satisfiable history is confirmed to be unsatisfiable.",
 [("varisat-checker/src/state.rs", """    for &polarity in &[false, true] {
        if ctx.part(VariablesP).lit_data[var.lit(polarity).code()].clause_count > 0 {
            return Err(CheckerError::check_failed(
                ctx.part(CheckerStateP).step,
                format!("deleted variable {:?} still has clauses", var),
            ));
        }
    }
""", """    if ctx.part(VariablesP).lit_data[var.positive().code()].clause_count > 0 {
        return Err(CheckerError::check_failed(
            ctx.part(CheckerStateP).step,
            format!("deleted variable {:?} still has clauses", var),
        ));
    }
""")], PRE+'''
use varisat_checker::Checker;
use varisat_internal_proof::{binary_format::write_step, lit_code_hash, ProofStep};
fn main() {
    let _ = Solver::new();
    let x = Var::from_dimacs(1);
    let mut p = vec![];
    let cl = [l(-1), l(2)];
    for s in [
        ProofStep::UserVarName { global: x, user: Some(x) },
        ProofStep::UserVarName { global: x, user: None },
        ProofStep::DeleteVar { var: x },
        ProofStep::UserVarName { global: x, user: Some(x) },
        ProofStep::AddClause { clause: &[l(1)] },
        ProofStep::AtClause { redundant: false, clause: &[l(2)], propagation_hashes: &[cl.iter().fold(0, |h, l| h ^ lit_code_hash(l.code() + Var::max_count() * 2))] },
        ProofStep::AddClause { clause: &[l(-2)] },
        ProofStep::End,
    ] {
        write_step(&mut p, &s).unwrap();
    }
    let mut ch = Checker::new();
    ch.add_clause(&cl).unwrap();
    assert!(ch.check_proof(&p[..]).is_err(), "accepted");
}
''')
bug("c12-minus-comment", "C12",
 "A minus sign directly followed by 'c' at the start of a line.",
 "The text is accepted: the rest of the line is taken for a comment and the sign applied to the next literal.",
 [("varisat-dimacs/src/lib.rs", """                    self.negate_next_lit = true;
                    self.start_of_line = false
""", """                    self.negate_next_lit = true;
""")], '''
use varisat_dimacs::DimacsParser;
fn main() {
    assert!(DimacsParser::parse(&b"-c comment\\n1 2 0\\n"[..]).is_err());
    assert!(DimacsParser::parse(&b"c comment\\n-1 2 0\\n"[..]).is_ok());
}
''')
bug("c13-forgotten-var-count", "C13",
 "A formula taken between chunks, whose largest variable exceeds the header's count and occurs only in the first piece.",
 "The parser forgets the variables of pieces already taken, so the header mismatch is no longer noticed and counts depend on the chunking.",
 [("varisat-dimacs/src/lib.rs", """        let mut new_formula = CnfFormula::new();
        new_formula.set_var_count(self.formula.var_count());
""", """        let mut new_formula = CnfFormula::new();
        if let Some(header) = self.header {
            new_formula.set_var_count(header.var_count);
        } else {
            new_formula.set_var_count(self.formula.var_count());
        }
""")], '''
use varisat_dimacs::DimacsParser;
fn run(take: bool) -> bool {
    let mut p = DimacsParser::new();
    p.parse_chunk(b"p cnf 2 2\\n1 3 0\\n").unwrap();
    if take { p.take_formula(); }
    p.parse_chunk(b"1 2 0\\n").unwrap();
    p.eof().unwrap();
    p.check_header().is_ok()
}
fn main() {
    assert!(!run(false));
    assert!(!run(true));
}
''')
bug("c15-stale-unit-on-reuse", "C15",
 "A variable fixed by a unit clause is hidden and removed, and its index is used again for a new variable.",
 "The new variable inherits the fixed value of the old one, so clauses that contradict that value make a satisfiable formula unsatisfiable.",
 [(V+"variables.rs", """            *variables.var_data_global_mut(global) = VarData::user_default();

            variables.global_from_user_mut()""", """            let data = variables.var_data_global_mut(global);
            data.sampling_mode = VarData::user_default().sampling_mode;
            data.deleted = false;

            variables.global_from_user_mut()""")], PRE+'''
fn main() {
    let mut s = Solver::new();
    c(&mut s, &[1]);
    c(&mut s, &[2, 3]);
    assert!(s.solve().unwrap());
    s.hide_var(Var::from_dimacs(1));
    assert!(s.solve().unwrap());
    c(&mut s, &[-1]);
    assert!(s.solve().unwrap());
}
''')
bug("c10-close-without-flush", "C10",
 "A proof sink that fails for the bytes still buffered when close_proof() is called.",
 "close_proof() reports success although the end of the proof was lost.",
 [(V+"proof.rs", """    add_step(ctx.borrow(), true, &ProofStep::End);
    flush_proof(ctx.borrow());
    ctx.part_mut(ProofP).format = None;
    ctx.part_mut(ProofP).target = BufWriter::new(Box::new(sink()));
""", """    add_step(ctx.borrow(), true, &ProofStep::End);
    ctx.part_mut(ProofP).format = None;
    ctx.part_mut(ProofP).target = BufWriter::new(Box::new(sink()));
    flush_proof(ctx.borrow());
""")], PRE+'''
use varisat::ProofFormat;
use std::{cell::Cell, io, rc::Rc};
struct W(Rc<Cell<bool>>);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0.get() { Err(io::Error::new(io::ErrorKind::Other, "full")) } else { Ok(b.len()) }
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let full = Rc::new(Cell::new(false));
    let mut s = Solver::new();
    s.write_proof(W(full.clone()), ProofFormat::Varisat);
    c(&mut s, &[1, 2]);
    assert!(s.solve().unwrap());
    full.set(true);
    assert!(s.close_proof().is_err());
}
''')
