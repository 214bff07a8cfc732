//! Literals and configurations over DIMACS-style integers.
use varisat::config::SolverConfigUpdate;
use varisat::{Lit, Var};

pub fn lit(l: i32) -> Lit {
    Lit::from_dimacs(l as isize)
}
pub fn lits(c: &[i32]) -> Vec<Lit> {
    c.iter().map(|&l| lit(l)).collect()
}
pub fn var(v: i32) -> Var {
    Var::from_dimacs(v as isize)
}

pub fn ints(c: &[Lit]) -> Vec<i32> {
    c.iter().map(|l| l.to_dimacs() as i32).collect()
}

/// Configuration: None leaves the default.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Cfg {
    pub restart: Option<u64>,
    pub locals: Option<u64>,
    pub mids: Option<u64>,
    pub vsids: Option<f32>,
    pub act: Option<f32>,
}

impl Cfg {
    pub fn update(&self) -> SolverConfigUpdate {
        let mut c = SolverConfigUpdate::new();
        c.luby_restart_interval_scale = self.restart;
        c.reduce_locals_interval = self.locals;
        c.reduce_mids_interval = self.mids;
        c.vsids_decay = self.vsids;
        c.clause_activity_decay = self.act;
        c
    }
    pub fn is_default(&self) -> bool {
        *self == Cfg::default()
    }
}

pub const fn cfg(restart: u64, locals: u64, mids: u64) -> Cfg {
    Cfg { restart: Some(restart), locals: Some(locals), mids: Some(mids), vsids: None, act: None }
}
