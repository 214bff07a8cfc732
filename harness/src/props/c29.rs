//! C29: decisions pick an unassigned variable of the highest activity and its last value.
//!
//! The activities are those of the documented VSIDS scheme, computed by a reference model from the
//! conflicts that the observer hook (`--cfg varisat_verif`) reports.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::hists;
use crate::props::c01;
#[cfg(varisat_verif)]
use crate::search::{searched, Rule};
#[cfg(varisat_verif)]
use varisat::verif::Vsids;
#[cfg(varisat_verif)]
use varisat::Var;

/// Activities by the definition: all of them decay.
#[cfg(varisat_verif)]
#[derive(Clone)]
struct Naive {
    activity: Vec<f64>,
    available: Vec<bool>,
    bump: f64,
    decay: f64,
}

#[cfg(varisat_verif)]
#[derive(Clone, Copy, Debug)]
enum Do {
    Bump(usize),
    Decay(usize),
    In(usize),
    Out(usize),
    Next,
    Speed(f32),
    Reset(usize),
}

#[cfg(varisat_verif)]
impl Naive {
    fn new(n: usize) -> Naive {
        Naive { activity: vec![0.0; n], available: vec![false; n], bump: 1.0, decay: 0.95 }
    }
    fn scale(&mut self) {
        if self.bump > 1e100 {
            for a in &mut self.activity {
                *a /= self.bump;
            }
            self.bump = 1.0;
        }
    }
    fn best(&self) -> Option<f64> {
        (0..self.activity.len()).filter(|&v| self.available[v]).map(|v| self.activity[v]).fold(None, |a: Option<f64>, b| Some(a.map_or(b, |a| a.max(b))))
    }
    fn judge(&self, got: Option<usize>) -> CaseResult {
        match (got, self.best()) {
            (None, None) => Ok(()),
            (Some(v), Some(b)) => {
                let top = self.activity.iter().cloned().fold(self.bump, f64::max);
                if !self.available[v] {
                    Err(format!("variable {v} is not available"))
                } else if self.activity[v] < b * (1.0 - 1e-4) - top * 1e-30 {
                    Err(format!("variable {v} of activity {} is picked while {b} is the highest one", self.activity[v]))
                } else {
                    Ok(())
                }
            }
            (g, b) => Err(format!("picked {g:?}, the highest activity is {b:?}")),
        }
    }
}

/// Perform the operations on both, then take out all variables.
#[cfg(varisat_verif)]
fn both(n: usize, ops: &[Do], rec: &mut Rec) -> CaseResult {
    let mut v = Vsids::default();
    v.set_var_count(n);
    let mut r = Naive::new(n);
    let take = |v: &mut Vsids, r: &mut Naive| -> CaseResult {
        let x = v.next().map(|x| x.index());
        r.judge(x)?;
        if let Some(x) = x {
            r.available[x] = false;
        }
        Ok(())
    };
    for o in ops {
        rec.step();
        match *o {
            Do::Bump(x) => {
                v.bump(Var::from_index(x));
                r.activity[x] += r.bump;
            }
            Do::Decay(k) => {
                for _ in 0..k {
                    v.decay();
                    r.bump /= r.decay;
                    r.scale();
                }
            }
            Do::In(x) => {
                v.make_available(Var::from_index(x));
                r.available[x] = true;
            }
            Do::Out(x) => {
                v.make_unavailable(Var::from_index(x));
                r.available[x] = false;
            }
            Do::Next => take(&mut v, &mut r)?,
            Do::Speed(d) => {
                v.set_decay(d);
                r.decay = d as f64;
            }
            Do::Reset(x) => {
                if !r.available[x] {
                    v.reset(Var::from_index(x));
                    r.activity[x] = 0.0;
                }
            }
        }
    }
    for _ in 0..=r.available.iter().filter(|x| **x).count() {
        take(&mut v, &mut r)?;
    }
    rec.eval();
    rec.trace();
    Ok(())
}

/// Permutation number `i` of `n` values.
#[cfg(varisat_verif)]
fn permutation(n: usize, mut i: u64) -> Vec<usize> {
    let mut from: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for k in (1..=n as u64).rev() {
        out.push(from.remove((i % k) as usize));
        i /= k;
    }
    out
}

pub fn check(thorough: bool) -> Check {
    #[cfg_attr(not(varisat_verif), allow(unused_mut))]
    let mut fam: Vec<Family> = vec![];
    #[cfg(varisat_verif)]
    {
        // every heap
        let n = if thorough { 8 } else { 7 };
        let fact: u64 = (1..=n as u64).product();
        let outs = small_subsets(n, 2);
        fam.push(Family::new(
            "heaps",
            format!("{n} variables of different activity inserted in every order, then every set of up to two of them removed (in both orders), then bumped or not, then all taken out"),
            fact,
            move |i, rec| {
                let p = permutation(n, i);
                rec.nontrivial(i);
                let mut start = vec![];
                // variable v has activity v
                for v in 0..n {
                    start.extend(vec![Do::Bump(v); v]);
                }
                start.extend(p.iter().map(|&v| Do::In(v)));
                for o in &outs {
                    for rev in 0..2 {
                        for bumped in 0..3 {
                            let mut ops = start.clone();
                            let mut o: Vec<usize> = o.clone();
                            if rev == 1 {
                                o.reverse();
                            }
                            ops.extend(o.iter().map(|&v| Do::Out(v)));
                            match bumped {
                                1 => ops.extend([Do::Decay(9), Do::Bump(p[0]), Do::Next, Do::Bump(p[n - 1])]),
                                2 => ops.extend(o.iter().rev().flat_map(|&v| vec![Do::Bump(v), Do::Reset(p[1]), Do::In(v)])),
                                _ => (),
                            }
                            both(n, &ops, rec).map_err(|e| format!("{e}: {ops:?}"))?;
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let n = 3;
        let mut al = vec![Do::Next, Do::Decay(1), Do::Decay(60), Do::Decay(1500), Do::Speed(0.5), Do::Speed(0.999)];
        for v in 0..n {
            al.extend([Do::Bump(v), Do::In(v), Do::Out(v)]);
        }
        al.push(Do::Reset(1));
        let depth = if thorough { 6 } else { 5 };
        let k = al.len();
        fam.push(Family::new(
            "operations",
            format!("every sequence of {depth} operations out of {k} on {n} variables (bump, decay 1, 60 or 1500 times, insert, remove, take, change of the decay, reset), starting with none or all of them available"),
            pow(k, depth) * 2,
            move |i, rec| {
                let mut d = Digits(i);
                let mut ops = vec![];
                if d.take(2) == 1 {
                    ops.extend((0..n).map(Do::In));
                }
                for _ in 0..depth {
                    ops.push(al[d.take(k)]);
                }
                rec.nontrivial(i);
                both(n, &ops, rec).map_err(|e| format!("{e}: {ops:?}"))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let fs: Vec<formulas::F> = formulas::medium().into_iter().chain(formulas::hard().into_iter().take(if thorough { 100 } else { 0 })).collect();
        let variants = if thorough { 6 } else { 2 };
        let mut cfgs = vec![Cfg::default(), cfg(1, 15000, 10000), cfg(3, 400, 300)];
        for d in [0.5, 0.7, 0.99, 0.9999] {
            cfgs.push(Cfg { vsids: Some(d), ..Cfg::default() });
            cfgs.push(Cfg { vsids: Some(d), restart: Some(2), ..Cfg::default() });
        }
        let n = fs.len() as u64;
        fam.push(Family::new(
            "searches",
            format!("{n} formulas x {variants} variants x {} configurations", cfgs.len()),
            n * variants as u64 * cfgs.len() as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let (k, v, c) = (d.take(fs.len()), d.take(variants), d.take(cfgs.len()));
                let f = formulas::variant(&fs[k].cls, v * 3 + c);
                rec.nontrivial(i);
                searched(&[Op::Formula(f), Op::Solve], &cfgs[c], Rule::Branch, true, rec).map_err(|e| format!("{} variant {v} {:?}: {e}", fs[k].name, cfgs[c]))
            },
        ));
    }
    #[cfg(varisat_verif)]
    {
        let mut bases = hists::bases(true);
        for (_, _, al) in &mut bases {
            al.push(Op::Config(Cfg { vsids: Some(0.6), ..Cfg::default() }));
            al.push(Op::Config(Cfg { vsids: Some(0.99), restart: Some(3), ..Cfg::default() }));
        }
        let depth = if thorough { 4 } else { 3 };
        fam.push(hists::structured("histories", bases, vec![Cfg::default(), cfg(1, 5, 3)], depth).family(|ops, cfg, i, rec| {
            rec.nontrivial(i);
            searched(ops, &cfg, Rule::Branch, true, rec).map_err(|e| format!("{cfg:?} {:?}: {e}", &ops[1..]))
        }));
        fam.push(hists::scaled(thorough, if thorough { 3 } else { 2 }).family(|ops, cfg, i, rec| {
            rec.nontrivial(i);
            searched(ops, &cfg, Rule::Branch, true, rec).map_err(|e| format!("{cfg:?} {:?}: {e}", &ops[1..]))
        }));
    }
    #[cfg(varisat_verif)]
    let assumptions = vec![
        "conflicts and the literals considered in their analysis are those that the hooks report",
        "activities are compared up to a relative error of 0.1 %, and those below 1e-30 of the highest one count as equal",
        "a variable that takes the place of another one may start with either value",
    ];
    #[cfg(not(varisat_verif))]
    let assumptions = vec!["built without hooks: nothing was decided"];
    let _ = (thorough, formulas::php(2, 1, false).cls.len(), hists::hist_configs().len(), c01::odd_clauses().len());
    #[cfg(not(varisat_verif))]
    fam.push(Family::new("nothing", "built without hooks", 1, |_, rec| {
        rec.step();
        Ok(())
    }));
    Check {
        id: "C29",
        level: "model_checking",
        rule: "a reference model of the documented activity scheme follows every event of the real search and judges every decision; the activity heap itself is explored over all operation sequences within the bound; a trace is one history or sequence, a step one operation, states are (trail, decisions, conflicts) after each solve",
        assumptions,
        families: fam,
    }
}
