//! Boring reference semantics: brute force, truth tables and a textbook DPLL procedure.
//! Literals are DIMACS integers.
pub type Cl = Vec<i32>;

pub fn lit_true(l: i32, model: &[bool]) -> bool {
    model[l.unsigned_abs() as usize - 1] == (l > 0)
}

pub fn satisfied(cls: &[Cl], model: &[bool]) -> bool {
    cls.iter().all(|c| c.iter().any(|&l| lit_true(l, model)))
}

pub fn max_var(cls: &[Cl]) -> usize {
    cls.iter().flatten().map(|l| l.unsigned_abs() as usize).max().unwrap_or(0)
}

/// Truth table masks for up to 6 variables: bit i of VMASK[v] = value of variable v in row i.
pub const VMASK: [u64; 6] = [
    0xAAAA_AAAA_AAAA_AAAA,
    0xCCCC_CCCC_CCCC_CCCC,
    0xF0F0_F0F0_F0F0_F0F0,
    0xFF00_FF00_FF00_FF00,
    0xFFFF_0000_FFFF_0000,
    0xFFFF_FFFF_0000_0000,
];

pub fn clause_mask(c: &[i32]) -> u64 {
    c.iter().fold(0, |m, &l| {
        let v = VMASK[l.unsigned_abs() as usize - 1];
        m | if l > 0 { v } else { !v }
    })
}

/// Set of satisfying rows over 6 variables.
pub fn tt(cls: &[Cl]) -> u64 {
    cls.iter().fold(!0, |m, c| m & clause_mask(c))
}

/// Complete DPLL search with unit propagation. Returns a model over `n` variables.
pub fn dpll(cls: &[Cl], n: usize) -> Option<Vec<bool>> {
    let n = n.max(max_var(cls));
    if n <= 6 {
        let rows = tt(cls);
        if rows == 0 {
            return None;
        }
        let r = rows.trailing_zeros();
        return Some((0..n).map(|v| r >> v & 1 == 1).collect());
    }
    let mut val: Vec<i8> = vec![0; n + 1];
    let mut trail = vec![];
    if rec(cls, &mut val, &mut trail) {
        let m: Vec<bool> = val[1..].iter().map(|&v| v > 0).collect();
        assert!(satisfied(cls, &m), "reference solver is wrong");
        Some(m)
    } else {
        None
    }
}

fn value(val: &[i8], l: i32) -> i8 {
    let v = val[l.unsigned_abs() as usize];
    if l > 0 {
        v
    } else {
        -v
    }
}

fn rec(cls: &[Cl], val: &mut Vec<i8>, trail: &mut Vec<usize>) -> bool {
    let start = trail.len();
    let mut branch;
    loop {
        let mut changed = false;
        let mut best = usize::MAX;
        branch = 0;
        for c in cls {
            let mut open = 0;
            let mut last = 0;
            let mut sat = false;
            for &l in c {
                match value(val, l) {
                    1 => {
                        sat = true;
                        break;
                    }
                    0 => {
                        if last != l {
                            open += 1;
                        }
                        last = l;
                    }
                    _ => (),
                }
            }
            if sat {
                continue;
            }
            if open == 0 {
                undo(val, trail, start);
                return false;
            }
            if open == 1 {
                let v = last.unsigned_abs() as usize;
                val[v] = if last > 0 { 1 } else { -1 };
                trail.push(v);
                changed = true;
            } else if open < best {
                best = open;
                branch = last;
            }
        }
        if !changed {
            break;
        }
    }
    if branch == 0 {
        return true;
    }
    for l in [branch, -branch] {
        let here = trail.len();
        let v = l.unsigned_abs() as usize;
        val[v] = if l > 0 { 1 } else { -1 };
        trail.push(v);
        if rec(cls, val, trail) {
            return true;
        }
        undo(val, trail, here);
    }
    undo(val, trail, start);
    false
}

fn undo(val: &mut [i8], trail: &mut Vec<usize>, to: usize) {
    for v in trail.drain(to..) {
        val[v] = 0;
    }
}

pub fn with_units(cls: &[Cl], units: &[i32]) -> Vec<Cl> {
    let mut v = cls.to_vec();
    v.extend(units.iter().map(|&l| vec![l]));
    v
}
