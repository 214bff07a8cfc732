//! C15: variable lifecycle.
use crate::engine::*;
use crate::hist::*;
use crate::hists::*;
use crate::props::c03::plain;

fn misuse(i: u64, rec: &mut Rec) -> CaseResult {
    use varisat::{ExtendFormula, Solver};
    rec.eval();
    let mut d = Digits(i);
    let before = d.take(4);
    let what = d.take(7);
    let mut s = Solver::new();
    s.add_clause(&lits(&[1, 2]));
    s.add_clause(&lits(&[-2, 3]));
    match before {
        1 => {
            s.solve().map_err(|e| e.to_string())?;
        }
        2 => s.add_clause(&lits(&[1])),
        3 => {
            s.add_clause(&lits(&[1]));
            s.solve().map_err(|e| e.to_string())?;
        }
        _ => (),
    }
    let r = match what {
        0 => catch(|| {
            s.witness_var(var(1));
            s.add_clause(&lits(&[2, 1]))
        }),
        1 => catch(|| {
            s.witness_var(var(1));
            s.assume(&lits(&[1]))
        }),
        2 => catch(|| {
            s.assume(&lits(&[1]));
            s.hide_var(var(1))
        }),
        3 => catch(|| {
            s.assume(&lits(&[2, -1]));
            s.witness_var(var(1))
        }),
        4 => catch(|| {
            s.hide_var(var(1));
            let v = s.observe_internal_vars();
            if v.is_empty() {
                panic!("witness variables: nothing observed");
            }
            s.add_clause(&[v[0].positive()])
        }),
        5 => catch(|| {
            s.assume(&lits(&[1]));
            s.assume(&lits(&[]));
            s.witness_var(var(1));
            s.sample_var(var(1));
            s.add_clause(&lits(&[1, 3]));
            panic!("everything was accepted");
        }),
        _ => catch(|| {
            s.assume(&lits(&[3, 1, 2]));
            let _ = s.solve();
            s.witness_var(var(2))
        }),
    };
    match r {
        Ok(()) => Err(format!("documented misuse {what} after setup {before} was accepted")),
        Err(p) if what != 5 || p.contains("everything was accepted") => {
            rec.outcome("refused");
            Ok(())
        }
        Err(p) => Err(format!("valid use {what} after setup {before} panicked with: {p}")),
    }
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    fam.push(plain(&words("lifecycle", lifecycle_alphabet(), if thorough { 5 } else { 4 }, vec![])));
    {
        // rename / reuse focused
        let al = vec![
            Op::Hide(1),
            Op::Hide(2),
            Op::Hide(3),
            Op::NewVar,
            Op::Observe,
            c(&[1, -2]),
            c(&[2, 3]),
            c(&[-1, -3]),
            a(&[1, 2]),
            a(&[]),
        ];
        let pre = vec![c(&[1, 2]), c(&[-1, 3]), c(&[-2, -3, 1])];
        fam.push(plain(&words("renaming", al, if thorough { 6 } else { 5 }, pre)));
    }
    {
        let al = vec![
            c(&[1]),
            c(&[-2]),
            c(&[-1, 2, 3]),
            c(&[3, 4]),
            Op::Hide(1),
            Op::Hide(3),
            Op::Witness(2),
            Op::Witness(3),
            Op::Sample(2),
            Op::Observe,
            Op::NewVar,
            a(&[-4, 1]),
            a(&[]),
        ];
        fam.push(plain(&solved_words("fixed variables", al, if thorough { 6 } else { 5 })));
    }
    fam.push(plain(&structured("structured", bases(true), hist_configs(), if thorough { 4 } else { 3 })));
    fam.push(plain(&bulk(thorough, 4)));
    fam.push(plain(&scaled(thorough, 2)));
    fam.push(Family::new("misuse", "7 misuses (or valid look-alikes) after 4 setups", 28, misuse));
    Check {
        id: "C15",
        level: "model_checking",
        rule: "a state is the reference model's state (user names, modes, clauses over abstract variables, hidden variables); names given to observed internal variables are tracked angelically",
        assumptions: vec!["reference model of names and hidden variables", "observed internal variables may correspond to any hidden variable consistent with all answers"],
        families: fam,
    }
}
