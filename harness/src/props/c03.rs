//! C03: incremental histories against a reference that solves from scratch.
use crate::engine::*;
use crate::hist::*;
use crate::hists::*;

pub fn plain(f: &HistFam) -> Family {
    f.family(|ops, cfg, _, rec| run_plain(ops, Setup { cfg, ..Setup::default() }, rec))
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    fam.push(plain(&words("core", core_alphabet(), if thorough { 5 } else { 4 }, vec![])));
    fam.push(plain(&words("units", unit_alphabet(), if thorough { 5 } else { 4 }, vec![])));
    fam.push(plain(&solved_words("reuse", reuse_alphabet(), if thorough { 7 } else { 6 })));
    fam.push(plain(&structured("structured", bases(false), hist_configs(), if thorough { 4 } else { 3 })));
    fam.push(plain(&scaled(thorough, if thorough { 3 } else { 2 })));
    Check {
        id: "C03",
        level: "model_checking",
        rule: "a state is the reference model's state (clauses, names, assumptions) after an operation; each trace is a whole history run on the solver and the reference, compared after every operation",
        assumptions: vec!["the reference model (clause set + current assumptions, decided by truth table / DPLL) is right"],
        families: fam,
    }
}
