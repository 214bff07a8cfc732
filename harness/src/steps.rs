//! Owned native proof steps over DIMACS-style integers.
use crate::hist::{lit, lits, var};
use crate::refsat::Cl;
use varisat_checker::internal::SelfChecker;
use varisat_checker::{Checker, CheckerError};
use varisat_internal_proof::binary_format::write_step;
use varisat_internal_proof::{DeleteClauseProof, ProofStep};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Step {
    SolverName(i32, Option<i32>),
    UserName(i32, Option<i32>),
    DeleteVar(i32),
    Mode(i32, bool),
    Add(Cl),
    At(bool, Cl, Vec<u64>),
    Units(Vec<(i32, u64)>),
    /// 0 redundant, 1 simplified, 2 satisfied
    Delete(Cl, u8),
    Bits(u32),
    Model(Cl),
    Assume(Cl),
    Failed(Cl, Vec<u64>),
    End,
}

impl Step {
    pub fn with<T>(&self, f: impl FnOnce(ProofStep) -> T) -> T {
        match self {
            Step::SolverName(g, s) => f(ProofStep::SolverVarName { global: var(*g), solver: s.map(var) }),
            Step::UserName(g, s) => f(ProofStep::UserVarName { global: var(*g), user: s.map(var) }),
            Step::DeleteVar(v) => f(ProofStep::DeleteVar { var: var(*v) }),
            Step::Mode(v, s) => f(ProofStep::ChangeSamplingMode { var: var(*v), sample: *s }),
            Step::Add(c) => f(ProofStep::AddClause { clause: &lits(c) }),
            Step::At(r, c, h) => f(ProofStep::AtClause { redundant: *r, clause: &lits(c), propagation_hashes: h }),
            Step::Units(u) => {
                let u: Vec<_> = u.iter().map(|&(l, h)| (lit(l), h)).collect();
                f(ProofStep::UnitClauses { units: &u })
            }
            Step::Delete(c, p) => f(ProofStep::DeleteClause {
                clause: &lits(c),
                proof: [DeleteClauseProof::Redundant, DeleteClauseProof::Simplified, DeleteClauseProof::Satisfied][*p as usize],
            }),
            Step::Bits(b) => f(ProofStep::ChangeHashBits { bits: *b }),
            Step::Model(m) => f(ProofStep::Model { assignment: &lits(m) }),
            Step::Assume(a) => f(ProofStep::Assumptions { assumptions: &lits(a) }),
            Step::Failed(c, h) => f(ProofStep::FailedAssumptions { failed_core: &lits(c), propagation_hashes: h }),
            Step::End => f(ProofStep::End),
        }
    }
    pub fn max_var(&self) -> i32 {
        let m = |c: &Cl| c.iter().map(|l| l.abs()).max().unwrap_or(0);
        match self {
            Step::SolverName(g, s) | Step::UserName(g, s) => s.unwrap_or(0).max(*g),
            Step::DeleteVar(v) | Step::Mode(v, _) => *v,
            Step::Add(c) | Step::At(_, c, _) | Step::Delete(c, _) | Step::Model(c) | Step::Assume(c) | Step::Failed(c, _) => m(c),
            Step::Units(u) => u.iter().map(|u| u.0.abs()).max().unwrap_or(0),
            Step::Bits(_) | Step::End => 0,
        }
    }
    pub fn apply(&self, checker: &mut Checker) -> Result<(), CheckerError> {
        self.with(|s| checker.self_check_step(s))
    }
    pub fn write(&self, out: &mut Vec<u8>) {
        self.with(|s| write_step(out, &s)).unwrap();
    }
    /// Copy of a parsed step.
    pub fn of(s: &ProofStep) -> Step {
        let i = |l: &[varisat::Lit]| crate::hist::ints(l);
        let v = |v: varisat::Var| v.to_dimacs() as i32;
        match *s {
            ProofStep::SolverVarName { global, solver } => Step::SolverName(v(global), solver.map(v)),
            ProofStep::UserVarName { global, user } => Step::UserName(v(global), user.map(v)),
            ProofStep::DeleteVar { var } => Step::DeleteVar(v(var)),
            ProofStep::ChangeSamplingMode { var, sample } => Step::Mode(v(var), sample),
            ProofStep::AddClause { clause } => Step::Add(i(clause)),
            ProofStep::AtClause { redundant, clause, propagation_hashes } => Step::At(redundant, i(clause), propagation_hashes.to_vec()),
            ProofStep::UnitClauses { units } => Step::Units(units.iter().map(|&(l, h)| (l.to_dimacs() as i32, h)).collect()),
            ProofStep::DeleteClause { clause, proof } => Step::Delete(
                i(clause),
                match proof {
                    DeleteClauseProof::Redundant => 0,
                    DeleteClauseProof::Simplified => 1,
                    DeleteClauseProof::Satisfied => 2,
                },
            ),
            ProofStep::ChangeHashBits { bits } => Step::Bits(bits),
            ProofStep::Model { assignment } => Step::Model(i(assignment)),
            ProofStep::Assumptions { assumptions } => Step::Assume(i(assumptions)),
            ProofStep::FailedAssumptions { failed_core, propagation_hashes } => Step::Failed(i(failed_core), propagation_hashes.to_vec()),
            ProofStep::End => Step::End,
        }
    }
}

/// Parse a whole native proof with the crate's own parser.
pub fn parse_native(bytes: &[u8]) -> Result<Vec<Step>, String> {
    use std::io::BufRead;
    let mut p = varisat_internal_proof::binary_format::Parser::default();
    let mut r = std::io::BufReader::new(bytes);
    let mut out = vec![];
    while !r.fill_buf().map_err(|e| e.to_string())?.is_empty() {
        let s = p.parse_step(&mut r).map_err(|e| format!("step {}: {e}", out.len()))?;
        out.push(Step::of(&s));
    }
    Ok(out)
}
