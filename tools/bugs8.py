"""Planted bugs, eighth batch: self checking (C31). See mkbug.py."""
from mkbug import bug
from bugs1 import PRE
from bugs6 import hooked
V="varisat/src/"; C="varisat-checker/src/"
T='''
use varisat::verif::{set_tamper, Tampered};
use varisat_internal_proof::ProofStep;
'''
bug("c31-unchecked-drat", "C31",
 "A step that is not justified, while a DRAT proof is written and self checking is enabled.",
 "The checker never sees the steps, so self checking notices nothing.",
 [(V+"proof.rs", "    if io_result.is_ok() {\n        let proof", "    // Without our native proof there is nothing to check against\n    let checkable = match ctx.part(ProofP).format {\n        Some(ProofFormat::Varisat) | None => true,\n        Some(ProofFormat::Drat) | Some(ProofFormat::BinaryDrat) => false,\n    };\n\n    if io_result.is_ok() && checkable {\n        let proof")],
 PRE+T+'''
fn main() {
    for f in [None, Some(varisat::ProofFormat::Varisat), Some(varisat::ProofFormat::Drat), Some(varisat::ProofFormat::BinaryDrat)] {
        set_tamper(Some(Box::new(|s: &ProofStep| match s {
            ProofStep::AtClause { clause, .. } if clause.len() == 1 => Some(Tampered::Lits(vec![])),
            _ => None,
        })));
        let r = std::panic::catch_unwind(|| {
            let mut s = Solver::new();
            s.enable_self_checking();
            if let Some(f) = f { s.write_proof(std::io::sink(), f); }
            for k in [[1, 2, 3], [-1, 2, 3], [1, -2, 3], [-1, -2, 3isize]] { c(&mut s, &k); }
            s.solve().unwrap()
        });
        set_tamper(None);
        assert!(r.is_err(), "{f:?}: a wrong step went unnoticed");
    }
}
''')
hooked("c31-unchecked-drat")
bug("c31-model-unseen", "C31",
 "A wrong model, with self checking or a proof processor but no proof file.",
 "The model is never checked.",
 [(V+"proof.rs", "    pub fn models_in_proof(&self) -> bool {\n        self.native_format()", "    pub fn models_in_proof(&self) -> bool {\n        matches!(self.format, Some(ProofFormat::Varisat))")],
 PRE+T+'''
fn main() {
    for f in [None, Some(varisat::ProofFormat::Varisat)] {
        set_tamper(Some(Box::new(|s: &ProofStep| match s {
            ProofStep::Model { assignment } => Some(Tampered::Lits(assignment.iter().map(|&l| !l).collect())),
            _ => None,
        })));
        let r = std::panic::catch_unwind(|| {
            let mut s = Solver::new();
            s.enable_self_checking();
            if let Some(f) = f { s.write_proof(std::io::sink(), f); }
            for k in [[1, 2], [1, -2isize]] { c(&mut s, &k); }
            c(&mut s, &[1, 2, 3]);
            s.solve().unwrap()
        });
        set_tamper(None);
        assert!(r.is_err(), "{f:?}: a wrong model went unnoticed");
    }
}
''')
hooked("c31-model-unseen")
bug("c31-delete-tolerated", "C31",
 "A deletion of a clause that was already deleted, or never added, of more than three literals, during self checking.",
 "The wrong deletion passes as a step.",
 [(C+"internal.rs", "        check_step(ctx.borrow(), step)\n", "        // A deletion can only make later steps fail\n        let tolerated = match step {\n            ProofStep::DeleteClause { clause, .. } => clause.len() > 3,\n            _ => false,\n        };\n        match check_step(ctx.borrow(), step) {\n            Err(CheckerError::CheckFailed { .. }) if tolerated => Ok(()),\n            result => result,\n        }\n")],
 PRE+T+'''
fn main() {
    for n in [2, 6isize] {
        set_tamper(Some(Box::new(|s: &ProofStep| match s {
            ProofStep::DeleteClause { clause, .. } => Some(Tampered::Lits(clause.iter().map(|&l| !l).collect())),
            _ => None,
        })));
        let r = std::panic::catch_unwind(|| {
            let mut s = Solver::new();
            s.enable_self_checking();
            c(&mut s, &(1..=n).collect::<Vec<_>>());
            assert!(s.solve().unwrap());
            c(&mut s, &[1]);
            assert!(s.solve().unwrap());
        });
        set_tamper(None);
        assert!(r.is_err(), "{n} literals: a wrong deletion went unnoticed");
    }
}
''')
hooked("c31-delete-tolerated")
