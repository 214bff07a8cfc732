//! C19: literals, variables and formulas.
use crate::engine::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use varisat::{CnfFormula, ExtendFormula, Lit, Solver, Var};
use varisat_formula::cnf::UniformTuple;

const COUNT: usize = 1 << 28;

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {
        if $a != $b {
            return Err(format!("{}: {:?} rather than {:?}", format!($($t)*), $a, $b));
        }
    };
}

/// Everything about one variable and its two literals; `i` is its index.
fn var_facts(i: usize, text: bool) -> CaseResult {
    let v = Var::from_index(i);
    let d = i as isize + 1;
    same!(v.index(), i, "index of variable {i}");
    same!(v.to_dimacs(), d, "number of variable {i}");
    if Var::from_dimacs(d) != v {
        return Err(format!("from_dimacs({d}) is not variable {i}"));
    }
    for pol in [true, false] {
        let l = Lit::from_var(v, pol);
        let code = 2 * i + !pol as usize;
        let num = if pol { d } else { -d };
        same!(l.code(), code, "code of literal {num}");
        same!(l.index(), i, "index of literal {num}");
        same!(l.to_dimacs(), num, "number of literal {num}");
        if l.var() != v || l.is_positive() != pol || l.is_negative() == pol {
            return Err(format!("variable or polarity of literal {num}"));
        }
        let all = [
            ("from_dimacs", Lit::from_dimacs(num)),
            ("from_index", Lit::from_index(i, pol)),
            ("from_code", Lit::from_code(code)),
            ("lit", v.lit(pol)),
            ("positive or negative", if pol { v.positive() } else { v.negative() }),
            ("Lit::positive or Lit::negative", if pol { Lit::positive(v) } else { Lit::negative(v) }),
            ("double negation", !!l),
            ("negation", !Lit::from_var(v, !pol)),
            ("xor false", l ^ false),
            ("xor true", Lit::from_var(v, !pol) ^ true),
            ("map_var", Lit::from_index(COUNT - 1 - i, pol).map_var(|w| Var::from_index(COUNT - 1 - w.index()))),
            ("map_var identity", l.map_var(|w| w)),
            ("From", Lit::from(v) ^ !pol),
        ];
        for (how, m) in all.iter() {
            if *m != l || m.code() != code || l.cmp(m) != Ordering::Equal {
                return Err(format!("literal {num} by {how}: {m:?}"));
            }
        }
        if !l == l || (!l).var() != v || (!l).is_positive() == pol {
            return Err(format!("negation of literal {num}"));
        }
        if text {
            let want = num.to_string();
            same!(format!("{l}"), want, "display of literal {num}");
            same!(format!("{l:?}"), want, "debug of literal {num}");
            same!(h(&l), h(&Lit::from_code(code)), "hash of literal {num}");
        }
    }
    if text {
        same!(format!("{v}"), d.to_string(), "display of variable {i}");
        same!(format!("{v:?}"), d.to_string(), "debug of variable {i}");
        same!(h(&v), h(&Var::from_dimacs(d)), "hash of variable {i}");
    }
    // order of neighbours
    if i > 0 {
        let u = Var::from_index(i - 1);
        let (a, b, c) = (u.negative(), v.positive(), v.negative());
        if !(u < v && v > u && u != v && a < b && b < c && a != b && b != c) {
            return Err(format!("order around variable {i}"));
        }
    }
    Ok(())
}

fn var_boundaries(width: usize) -> Vec<usize> {
    let mut s = BTreeSet::new();
    for k in 0..=28 {
        for o in 0..=width {
            for b in [(1usize << k) + o, (1usize << k).wrapping_sub(o), 5 * (1usize << k) / 3 + o, COUNT - 1 - o] {
                if b < COUNT {
                    s.insert(b);
                }
            }
        }
    }
    // numbers of decimal digits
    let mut p = 1;
    for _ in 0..9 {
        for o in 0..=width {
            for b in [p + o, (p as usize).wrapping_sub(o)] {
                if b < COUNT {
                    s.insert(b);
                }
            }
        }
        p *= 10;
    }
    s.into_iter().collect()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Add(Vec<i32>),
    Var,
    Lit,
    /// iterator of the given length of which some are taken
    Vars(usize, usize),
    Lits(usize, usize),
    Tuple(usize, bool),
    Count(usize),
    /// go on with a clone and change the old one
    Clone,
    /// go on with the clauses only
    Rebuild(u8),
}

fn alphabet(rich: bool) -> Vec<Op> {
    let mut a: Vec<Op> = [&[][..], &[1], &[-2], &[2, -1], &[3, 3], &[-5, 1], &[1, -1, 4, 1]].iter().map(|c| Op::Add(c.to_vec())).collect();
    a.extend([Op::Var, Op::Lit, Op::Vars(2, 1), Op::Vars(3, 5), Op::Lits(2, 2), Op::Tuple(2, false), Op::Tuple(3, true), Op::Count(0), Op::Count(3), Op::Count(7), Op::Clone, Op::Rebuild(0)]);
    if rich {
        a.extend([Op::Add(vec![7]), Op::Add(vec![7, -1]), Op::Add(vec![-1, 7, 1]), Op::Vars(0, 2), Op::Vars(4, 0), Op::Lits(3, 2), Op::Lits(1, 4), Op::Tuple(3, false), Op::Tuple(2, true), Op::Rebuild(1), Op::Rebuild(2)]);
    }
    a
}

/// The formula as it should be.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Model {
    vars: usize,
    clauses: Vec<Vec<i32>>,
}

fn lits(c: &[i32]) -> Vec<Lit> {
    c.iter().map(|&l| Lit::from_dimacs(l as isize)).collect()
}
fn ints(c: &[Lit]) -> Vec<i32> {
    c.iter().map(|l| l.to_dimacs() as i32).collect()
}

impl Model {
    fn add(&mut self, c: &[i32]) {
        for l in c {
            self.vars = self.vars.max(l.unsigned_abs() as usize);
        }
        self.clauses.push(c.to_vec());
    }
    fn fresh(&mut self, n: usize) -> Vec<i32> {
        let v = (0..n).map(|k| (self.vars + k + 1) as i32).collect();
        self.vars += n;
        v
    }
}

fn same_formula(f: &CnfFormula, m: &Model) -> CaseResult {
    same!(f.var_count(), m.vars, "number of variables");
    same!(f.len(), m.clauses.len(), "number of clauses");
    same!(f.is_empty(), m.clauses.is_empty(), "is_empty");
    let got: Vec<Vec<i32>> = f.iter().map(ints).collect();
    same!(got, m.clauses, "clauses");
    let text = format!("{}{:?}", m.vars, m.clauses);
    same!(format!("{f:?}"), text, "debug output");
    Ok(())
}

fn tuple_vec<F: ExtendFormula>(f: &mut F, n: usize, as_lits: bool) -> Vec<i32> {
    macro_rules! arm {
        (@ $i:tt $t:ty) => { $t };
        ($($i:tt)*) => {{
            if as_lits {
                let t: ($(arm!(@ $i Lit),)*) = f.new_lits();
                vec![$(t.$i.to_dimacs() as i32),*]
            } else {
                let t: ($(arm!(@ $i Var),)*) = f.new_vars();
                vec![$(t.$i.to_dimacs() as i32),*]
            }
        }};
    }
    match n {
        2 => arm!(0 1),
        3 => arm!(0 1 2),
        4 => arm!(0 1 2 3),
        5 => arm!(0 1 2 3 4),
        6 => arm!(0 1 2 3 4 5),
        7 => arm!(0 1 2 3 4 5 6),
        8 => arm!(0 1 2 3 4 5 6 7),
        9 => arm!(0 1 2 3 4 5 6 7 8),
        10 => arm!(0 1 2 3 4 5 6 7 8 9),
        11 => arm!(0 1 2 3 4 5 6 7 8 9 10),
        12 => arm!(0 1 2 3 4 5 6 7 8 9 10 11),
        13 => arm!(0 1 2 3 4 5 6 7 8 9 10 11 12),
        14 => arm!(0 1 2 3 4 5 6 7 8 9 10 11 12 13),
        15 => arm!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14),
        16 => arm!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15),
        17 => arm!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16),
        18 => arm!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17),
        19 => arm!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18),
        20 => arm!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19),
        21 => arm!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20),
        _ => unreachable!(),
    }
}

/// New variables by the given operation, None when it makes none.
fn fresh<F: ExtendFormula>(f: &mut F, op: &Op) -> Option<Vec<i32>> {
    Some(match op {
        Op::Var => vec![f.new_var().to_dimacs() as i32],
        Op::Lit => vec![f.new_lit().to_dimacs() as i32],
        Op::Vars(n, take) => {
            let mut it = f.new_var_iter(*n);
            // going on after the end is allowed
            (0..*take).filter_map(|_| it.next()).map(|v| v.to_dimacs() as i32).collect()
        }
        Op::Lits(n, take) => {
            let mut it = f.new_lit_iter(*n);
            (0..*take).filter_map(|_| it.next()).map(|v| v.to_dimacs() as i32).collect()
        }
        Op::Tuple(n, l) => tuple_vec(f, *n, *l),
        _ => return None,
    })
}

fn made(op: &Op) -> usize {
    match op {
        Op::Var | Op::Lit => 1,
        Op::Vars(n, t) | Op::Lits(n, t) => *n.min(t),
        Op::Tuple(n, _) => *n,
        _ => 0,
    }
}

fn apply(f: &mut CnfFormula, m: &mut Model, op: &Op) -> CaseResult {
    if let Some(got) = fresh(f, op) {
        let want = m.fresh(made(op));
        same!(got, want, "new variables");
    }
    match op {
        Op::Add(c) => {
            f.add_clause(&lits(c));
            m.add(c);
        }
        Op::Count(n) => {
            f.set_var_count(*n);
            m.vars = m.vars.max(*n);
        }
        Op::Clone => {
            let old_m = m.clone();
            let mut old = std::mem::replace(f, CnfFormula::new());
            *f = old.clone();
            if *f != old || !(*f == old) {
                return Err("a clone differs from the original".into());
            }
            old.add_clause(&lits(&[9, -9]));
            old.new_var();
            same_formula(f, m).map_err(|e| format!("clone after a change of the original: {e}"))?;
            let mut third = f.clone();
            third.set_var_count(m.vars + 1);
            if third == *f {
                return Err("formulas with different variable counts are equal".into());
            }
            third.add_clause(&[]);
            same_formula(f, &old_m).map_err(|e| format!("original after a change of the clone: {e}"))?;
        }
        Op::Rebuild(how) => {
            let clauses: Vec<Vec<Lit>> = f.iter().map(|c| c.to_vec()).collect();
            *f = match how {
                0 => CnfFormula::from(clauses),
                1 => CnfFormula::from(clauses.iter().map(|c| &c[..])),
                _ => CnfFormula::from(f.iter()),
            };
            let old = std::mem::take(m);
            for c in &old.clauses {
                m.add(c);
            }
        }
        _ => {}
    }
    same_formula(f, m)
}

fn run(ops: &[Op]) -> Result<(CnfFormula, Model), String> {
    let mut f = CnfFormula::new();
    let mut m = Model::default();
    for (k, op) in ops.iter().enumerate() {
        apply(&mut f, &mut m, op).map_err(|e| format!("{:?}: {e}", &ops[..=k]))?;
    }
    Ok((f, m))
}

/// The solver as an extensible formula: fresh variables are fresh, clauses mean what they say.
fn run_solver(ops: &[Op], rec: &mut Rec) -> CaseResult {
    let mut s = Solver::new();
    let mut used: BTreeSet<i32> = BTreeSet::new();
    let mut clauses: Vec<Vec<i32>> = vec![];
    for (k, op) in ops.iter().enumerate() {
        let e = |m: String| format!("solver {:?}: {m}", &ops[..=k]);
        if let Some(got) = fresh(&mut s, op) {
            if got.len() != made(op) {
                return Err(e(format!("{} new variables: {got:?}", made(op))));
            }
            for v in got {
                if v <= 0 || !used.insert(v) {
                    return Err(e(format!("new variable {v} is not new: {used:?}")));
                }
            }
        }
        if let Op::Add(c) = op {
            used.extend(c.iter().map(|l| l.abs()));
            s.add_clause(&lits(c));
            clauses.push(c.clone());
        }
        rec.step();
    }
    let n = *used.iter().next_back().unwrap_or(&0) as usize;
    let sat = |a: u64| clauses.iter().all(|c| c.iter().any(|&l| (a >> (l.abs() - 1) & 1 == 1) == (l > 0)));
    let want = (0..1u64 << n).any(sat);
    let got = s.solve().map_err(|e| format!("solver {ops:?}: {e}"))?;
    same!(got, want, "solver {ops:?}: verdict");
    rec.outcome(if want { "satisfiable" } else { "unsatisfiable" });
    if want {
        let model = s.model().ok_or("no model")?;
        let a = model.iter().filter(|l| l.is_positive()).fold(0u64, |a, l| a | 1 << l.index());
        if !sat(a) {
            return Err(format!("solver {ops:?}: wrong model {model:?}"));
        }
        let vars: BTreeSet<i32> = model.iter().map(|l| l.var().to_dimacs() as i32).collect();
        if !used.iter().all(|v| vars.contains(v)) {
            return Err(format!("solver {ops:?}: model {model:?} misses variables of {used:?}"));
        }
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    {
        let n: usize = if thorough { COUNT } else { 1 << 23 };
        let block = 1 << 13;
        fam.push(Family::new(
            "all variables and literals",
            format!("every variable with index below {n}{}: all conversions, negation, order", if thorough { ", which are all there are" } else { " and as many at the upper end" }),
            (n / block) as u64 * if thorough { 1 } else { 2 },
            move |i, rec| {
                let (i, top) = if thorough { (i as usize, false) } else { (i as usize / 2, i % 2 == 1) };
                for k in i * block..(i + 1) * block {
                    let k = if top { COUNT - 1 - k } else { k };
                    rec.eval();
                    var_facts(k, k % 512 == 0)?;
                }
                rec.nontrivial(fp(&(i, top)));
                Ok(())
            },
        ));
    }
    {
        let vs = Arc::new(var_boundaries(if thorough { 300 } else { 40 }));
        let n = vs.len() as u64;
        fam.push(Family::new("variables at the boundaries", format!("{n} variables around powers of two and ten and the largest one, with text and hashes"), n, move |i, rec| {
            let v = vs[i as usize];
            rec.eval();
            rec.nontrivial(v as u64);
            rec.sample(|| format!("variable index {v}"));
            if i == 0 {
                same!(Var::max_var().index(), COUNT - 1, "largest variable");
                same!(Var::max_count(), COUNT, "largest number of variables");
            }
            var_facts(v, true)
        }));
    }
    {
        let vs: Vec<usize> = {
            let mut v: Vec<usize> = (0..48).collect();
            v.extend(var_boundaries(1));
            v.sort();
            v.dedup();
            v
        };
        let n = vs.len();
        fam.push(Family::new("order", format!("every pair of {n} variables and their literals: order and equality as of the codes"), n as u64, move |i, rec| {
            let a = vs[i as usize];
            for &b in &vs {
                rec.eval();
                let (va, vb) = (Var::from_index(a), Var::from_index(b));
                if va.cmp(&vb) != a.cmp(&b) || (va == vb) != (a == b) || va.partial_cmp(&vb) != Some(a.cmp(&b)) || va.max(vb).index() != a.max(b) {
                    return Err(format!("variables {a} and {b}: order or equality"));
                }
                for s in 0..2 {
                    for t in 0..2 {
                        let (x, y) = (va.lit(s == 0), vb.lit(t == 0));
                        let (ca, cb) = (2 * a + s, 2 * b + t);
                        if x.cmp(&y) != ca.cmp(&cb) || (x == y) != (ca == cb) || x.partial_cmp(&y) != Some(ca.cmp(&cb)) {
                            return Err(format!("literals {x} and {y}: order or equality"));
                        }
                    }
                }
                rec.nontrivial(fp(&(a, b)));
            }
            Ok(())
        }));
    }
    {
        let al = Arc::new(alphabet(thorough));
        let n = al.len();
        let depth = 4;
        fam.push(Family::new(
            "formula histories",
            format!("every sequence of {depth} out of {n} operations, and all shorter ones as prefixes, against a list of clauses"),
            pow(n, depth),
            move |i, rec| {
                let mut d = Digits(i);
                let ops: Vec<Op> = (0..depth).map(|_| al[d.take(n)].clone()).collect();
                rec.trace();
                rec.eval();
                rec.sample(|| format!("{ops:?}"));
                rec.transitions += depth as u64;
                let (f, m) = run(&ops)?;
                rec.state(fp(&m));
                rec.nontrivial(fp(&m));
                // the same formula built in another way is equal
                let mut g = CnfFormula::from(m.clauses.iter().map(|c| lits(c)));
                g.set_var_count(m.vars);
                if f != g || g != f || format!("{f:?}") != format!("{g:?}") {
                    return Err(format!("{ops:?}: {f:?} differs from the same formula built from its clauses"));
                }
                Ok(())
            },
        ));
    }
    {
        // equality of formulas
        let al = alphabet(true);
        let mut fs: Vec<(CnfFormula, Model)> = vec![];
        for x in &al {
            for y in &al {
                if let Ok(r) = run(&[x.clone(), y.clone()]) {
                    fs.push(r);
                }
            }
        }
        for c in [vec![vec![1, 2], vec![3]], vec![vec![1], vec![2, 3]], vec![vec![1, 2, 3]], vec![vec![], vec![1, 2, 3]], vec![vec![1, 2, 3], vec![]], vec![vec![1, 2], vec![], vec![3]], vec![vec![1, 3, 2]]] {
            let mut m = Model::default();
            c.iter().for_each(|c| m.add(c));
            fs.push((CnfFormula::from(c.iter().map(|c| lits(c))), m));
        }
        let fs = Arc::new(fs);
        let n = fs.len() as u64;
        fam.push(Family::new("equality of formulas", format!("every pair of {n} formulas"), n, move |i, rec| {
            let (f, m) = &fs[i as usize];
            for (g, k) in fs.iter() {
                rec.eval();
                if (f == g) != (m == k) || (f != g) == (m == k) {
                    return Err(format!("{f:?} and {g:?}: equality"));
                }
                rec.nontrivial(fp(&(m, k)));
            }
            Ok(())
        }));
    }
    {
        fam.push(Family::new("tuples of variables", "tuples of 2 to 21 variables or literals, of a formula and of a solver, after 0 to 3 existing variables".to_string(), 20 * 2 * 4, |i, rec| {
            let mut d = Digits(i);
            let n = d.take(20) + 2;
            let as_lits = d.take(2) == 1;
            let before = d.take(4);
            rec.eval();
            rec.nontrivial(i);
            let want: Vec<i32> = (0..n).map(|k| (before + k + 1) as i32).collect();
            let mut f = CnfFormula::new();
            f.set_var_count(before);
            same!(tuple_vec(&mut f, n, as_lits), want, "tuple of {n} after {before}");
            same!(f.var_count(), before + n, "variables after a tuple of {n}");
            let mut s = Solver::new();
            let b: Vec<i32> = (0..before).map(|_| s.new_var().to_dimacs() as i32).collect();
            let t = tuple_vec(&mut s, n, as_lits);
            let all: HashSet<i32> = b.iter().chain(&t).cloned().collect();
            if all.len() != before + n || t.len() != n {
                return Err(format!("solver: tuple {t:?} of {n} after {b:?}"));
            }
            same!(<(Var, Var)>::tuple_len(), 2, "length of a pair");
            Ok(())
        }));
    }
    {
        let al: Vec<Op> = alphabet(true).into_iter().filter(|o| !matches!(o, Op::Count(_) | Op::Clone | Op::Rebuild(_))).collect();
        let al = Arc::new(al);
        let n = al.len();
        let depth = if thorough { 4 } else { 3 };
        fam.push(Family::new("solver histories", format!("every sequence of {depth} out of {n} operations on a solver, then solving"), pow(n, depth), move |i, rec| {
            let mut d = Digits(i);
            let ops: Vec<Op> = (0..depth).map(|_| al[d.take(n)].clone()).collect();
            rec.trace();
            rec.eval();
            rec.nontrivial(fp(&("s", &ops)));
            run_solver(&ops, rec)
        }));
    }
    {
        // clauses with large variables, long clauses, many clauses
        let big: Vec<i32> = var_boundaries(1).iter().map(|&v| v as i32 + 1).collect();
        let n = big.len();
        fam.push(Family::new(
            "large formulas",
            format!("each of {n} variables alone, first, in the middle and last of a clause, after another one; clauses of up to 70000 literals; up to 70000 clauses"),
            n as u64 + 24,
            move |i, rec| {
                rec.eval();
                rec.nontrivial(i);
                let mut f = CnfFormula::new();
                let mut m = Model::default();
                if (i as usize) < n {
                    let v = big[i as usize];
                    for s in [1, -1] {
                        for c in [vec![s * v], vec![s * v, 1], vec![-1, s * v, 2], vec![3, s * v], vec![s * v, s * v, -s * v]] {
                            let mut g = CnfFormula::new();
                            let mut k = Model::default();
                            for c in [&c[..], &[1], &[2, -1]] {
                                g.add_clause(&lits(c));
                                k.add(c);
                                same_formula(&g, &k)?;
                            }
                            same_formula(&CnfFormula::from(k.clauses.iter().map(|c| lits(c))), &k)?;
                            if k.vars < COUNT {
                                same!(g.new_var().to_dimacs() as usize, k.vars + 1, "new variable");
                            }
                            f.add_clause(&lits(&c));
                            m.add(&c);
                            f.set_var_count(v as usize - 1);
                            same_formula(&f, &m)?;
                        }
                    }
                    return Ok(());
                }
                let k = i as usize - n;
                let size = [1, 2, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 70000][k % 12];
                if k < 12 {
                    let c: Vec<i32> = (1..=size as i32).map(|l| if l % 3 == 0 { -l } else { l }).collect();
                    for c in [&c[..], &[2], &c[..]] {
                        f.add_clause(&lits(c));
                        m.add(c);
                    }
                } else {
                    for j in 0..size as i32 {
                        let c: Vec<i32> = (0..j % 4).map(|x| if x % 2 == 0 { j + x } else { -(j / 2 + x) }).filter(|&l| l != 0).collect();
                        f.add_clause(&lits(&c));
                        m.add(&c);
                    }
                }
                same_formula(&f, &m).map_err(|e| e.chars().take(400).collect())
            },
        ));
    }
    {
        let sizes = crate::props::c12::text_sizes(thorough);
        let n = sizes.len();
        fam.push(Family::new(
            "sizes",
            format!("for each of {n} sizes up to {}: equality of formulas with clauses, or numbers of clauses, of that size that differ in one place; new_var_iter and new_lit_iter of that length, of a formula and of a solver", sizes[n - 1]),
            (n * 6) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let n = sizes[d.take(sizes.len())];
                rec.eval();
                rec.nontrivial(fp(&("size", i)));
                let kind = d.take(6);
                let e = |m: String| format!("size {n}: {}", m.chars().take(300).collect::<String>());
                let places: Vec<usize> = {
                    let mut p: Vec<usize> = [0, 1, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)].into_iter().chain((0..17).map(|k| 1 << k)).filter(|&x| x < n).collect();
                    p.sort();
                    p.dedup();
                    p
                };
                match kind {
                    // one long clause between others, one literal or one border changed
                    0 => {
                        let c: Vec<i32> = (1..=n as i32).map(|l| if l % 3 == 0 { -l } else { l }).collect();
                        let build = |c: &[i32]| CnfFormula::from([&lits(&[n as i32 + 1])[..], &lits(c)[..], &lits(&[-1, 2])[..]]);
                        let f = build(&c);
                        if f != build(&c) {
                            return Err(e("a formula differs from itself".into()));
                        }
                        for p in places {
                            let mut b = c.clone();
                            b[p] = -b[p];
                            if f == build(&b) {
                                return Err(e(format!("formulas with a different literal {p} of a clause are equal")));
                            }
                            // the same literals in two clauses
                            let mut g = CnfFormula::from([&lits(&[n as i32 + 1])[..], &lits(&c[..p])[..], &lits(&c[p..])[..]]);
                            if f == g {
                                return Err(e("formulas with clauses cut in different ways are equal".into()));
                            }
                            g.add_clause(&lits(&[-1, 2]));
                            if f == g {
                                return Err(e("formulas with one clause more are equal".into()));
                            }
                        }
                    }
                    // many clauses, one of them changed
                    1 => {
                        let cs: Vec<Vec<i32>> = (0..n as i32).map(|j| (0..1 + j % 3).map(|x| if x % 2 == 0 { j % 50 + 1 + x } else { -(j % 50 + 1 + x) }).collect()).collect();
                        let build = |cs: &[Vec<i32>]| {
                            let mut f = CnfFormula::from(cs.iter().map(|c| lits(c)));
                            f.set_var_count(60);
                            f
                        };
                        let f = build(&cs);
                        if f != build(&cs) {
                            return Err(e("a formula differs from itself".into()));
                        }
                        for p in places {
                            let mut b = cs.clone();
                            b[p][0] = -b[p][0];
                            if f == build(&b) {
                                return Err(e(format!("formulas with a different clause {p} are equal")));
                            }
                            b[p] = cs[p].clone();
                            b.truncate(p);
                            if f == build(&b) {
                                return Err(e(format!("a formula and its first {p} clauses are equal")));
                            }
                        }
                    }
                    // iterators
                    k => {
                        let mut m = Model::default();
                        let mut f = CnfFormula::new();
                        f.set_var_count(k);
                        m.vars = k;
                        let want = m.fresh(n);
                        let got = fresh(&mut f, &if k % 2 == 0 { Op::Vars(n, n + 2) } else { Op::Lits(n, n + 2) }).unwrap();
                        if got != want {
                            return Err(e(format!("{} new variables, or others than the next ones", got.len())));
                        }
                        same!(f.var_count(), m.vars, "size {n}: number of variables");
                        if k < 4 {
                            // a length known in advance, if any
                            let (lo, hi) = f.new_var_iter(n).size_hint();
                            if lo > n || hi.map_or(false, |h| h < n) {
                                return Err(e(format!("size hint {lo} to {hi:?}")));
                            }
                        } else {
                            let mut s = Solver::new();
                            let mut used: HashSet<i32> = (0..k).map(|_| s.new_var().to_dimacs() as i32).collect();
                            let got = fresh(&mut s, &if k % 2 == 0 { Op::Vars(n, n + 2) } else { Op::Lits(n, n + 2) }).unwrap();
                            if got.len() != n || !got.iter().all(|&v| v > 0 && used.insert(v)) {
                                return Err(e(format!("solver: {} new variables, or old ones", got.len())));
                            }
                        }
                    }
                }
                rec.trace();
                Ok(())
            },
        ));
    }
    Check {
        id: "C19",
        level: "model_checking",
        rule: "variables and literals: every conversion of every one enumerated; formulas: every operation sequence up to the stated depth in lock step with a list of clauses, states are (variable count, clauses)",
        assumptions: vec!["variables past the largest supported one are not used"],
        families: fam,
    }
}
