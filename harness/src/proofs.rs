//! Independent parsers and checkers for DRAT and LRAT proofs.
use crate::refsat::Cl;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum DratStep {
    Add(Cl),
    Delete(Cl),
}

pub fn parse_drat_text(b: &[u8]) -> Result<Vec<DratStep>, String> {
    let t = std::str::from_utf8(b).map_err(|_| "text proof is not text")?;
    if !t.is_empty() && !t.ends_with('\n') {
        return Err("text proof does not end with a newline".into());
    }
    let mut out = vec![];
    for (n, l) in t.lines().enumerate() {
        let e = |m: &str| format!("line {}: {m}: {l:?}", n + 1);
        let mut tok = l.split_ascii_whitespace().peekable();
        let del = tok.peek() == Some(&"d");
        if del {
            tok.next();
        }
        let mut c = vec![];
        let mut done = false;
        for x in tok {
            if done {
                return Err(e("tokens after 0"));
            }
            let v: i32 = x.parse().map_err(|_| e("bad number"))?;
            if v == 0 {
                done = true;
            } else {
                c.push(v);
            }
        }
        if !done {
            return Err(e("no terminating 0"));
        }
        out.push(if del { DratStep::Delete(c) } else { DratStep::Add(c) });
    }
    Ok(out)
}

fn leb(b: &[u8], at: &mut usize) -> Result<u64, String> {
    let mut v = 0u64;
    let mut s = 0;
    loop {
        let x = *b.get(*at).ok_or("unexpected end of binary proof")?;
        *at += 1;
        if s > 63 {
            return Err("number too long".into());
        }
        v |= ((x & 0x7f) as u64) << s;
        if x & 0x80 == 0 {
            if x == 0 && s > 0 {
                return Err("overlong number".into());
            }
            return Ok(v);
        }
        s += 7;
    }
}

fn bin_lits(b: &[u8], at: &mut usize) -> Result<Cl, String> {
    let mut c = vec![];
    loop {
        let v = leb(b, at)?;
        if v == 0 {
            return Ok(c);
        }
        if v == 1 {
            return Err("literal code 1".into());
        }
        let var = (v / 2) as i32;
        c.push(if v % 2 == 1 { -var } else { var });
    }
}

pub fn parse_drat_binary(b: &[u8]) -> Result<Vec<DratStep>, String> {
    let mut at = 0;
    let mut out = vec![];
    while at < b.len() {
        let k = b[at];
        at += 1;
        let c = bin_lits(b, &mut at)?;
        out.push(match k {
            b'a' => DratStep::Add(c),
            b'd' => DratStep::Delete(c),
            _ => return Err(format!("bad step byte {k}")),
        });
    }
    Ok(out)
}

/// Set of literals as a sorted list without repetitions.
pub fn norm(c: &[i32]) -> Cl {
    let mut c = c.to_vec();
    c.sort_by_key(|l| (l.abs(), *l));
    c.dedup();
    c
}

pub fn tautology(c: &[i32]) -> bool {
    c.iter().any(|l| c.contains(&-l))
}

/// Clause database with reverse unit propagation.
#[derive(Default)]
pub struct Rup {
    cls: Vec<Option<Cl>>,
    occ: HashMap<i32, Vec<usize>>,
    by_lits: HashMap<Cl, Vec<usize>>,
    units: Vec<usize>,
    empty: usize,
}

impl Rup {
    pub fn add(&mut self, c: &[i32]) {
        let c = norm(c);
        let id = self.cls.len();
        for &l in &c {
            self.occ.entry(l).or_default().push(id);
        }
        match c.len() {
            0 => self.empty += 1,
            1 => self.units.push(id),
            _ => (),
        }
        self.by_lits.entry(c.clone()).or_default().push(id);
        self.cls.push(Some(c));
    }
    pub fn delete(&mut self, c: &[i32]) -> bool {
        let c = norm(c);
        match self.by_lits.get_mut(&c).and_then(|v| v.pop()) {
            Some(id) => {
                if c.is_empty() {
                    self.empty -= 1;
                }
                self.cls[id] = None;
                self.units.retain(|&u| u != id);
                for l in &c {
                    self.occ.get_mut(l).unwrap().retain(|&x| x != id);
                }
                true
            }
            None => false,
        }
    }
    pub fn live(&self) -> impl Iterator<Item = &Cl> {
        self.cls.iter().flatten()
    }
    /// Does assuming the negation of `c` lead to a conflict by unit propagation?
    pub fn implied(&self, c: &[i32]) -> bool {
        if self.empty > 0 || tautology(c) {
            return true;
        }
        let mut val: HashMap<i32, bool> = HashMap::new();
        let mut queue = vec![];
        for &l in c {
            if val.insert(l.abs(), l < 0).is_none() {
                queue.push(-l);
            }
        }
        let is = |val: &HashMap<i32, bool>, l: i32| val.get(&l.abs()).map(|&v| v == (l > 0));
        for &u in &self.units {
            let l = self.cls[u].as_ref().unwrap()[0];
            match is(&val, l) {
                Some(false) => return true,
                Some(true) => (),
                None => {
                    val.insert(l.abs(), l > 0);
                    queue.push(l);
                }
            }
        }
        let mut head = 0;
        while head < queue.len() {
            let l = queue[head];
            head += 1;
            if let Some(occ) = self.occ.get(&-l) {
                for &id in occ {
                    let cl = self.cls[id].as_ref().unwrap();
                    let mut open = None;
                    let mut sat = false;
                    let mut n = 0;
                    for &x in cl {
                        match is(&val, x) {
                            Some(true) => {
                                sat = true;
                                break;
                            }
                            Some(false) => (),
                            None => {
                                n += 1;
                                open = Some(x);
                                if n > 1 {
                                    break;
                                }
                            }
                        }
                    }
                    if sat || n > 1 {
                        continue;
                    }
                    match open {
                        None => return true,
                        Some(x) => {
                            val.insert(x.abs(), x > 0);
                            queue.push(x);
                        }
                    }
                }
            }
        }
        false
    }
}

/// Check that every addition is implied by reverse unit propagation and every deletion present.
/// Returns whether the final clauses are refuted by unit propagation.
pub fn check_drat(cls: &[Cl], proof: &[DratStep]) -> Result<bool, String> {
    let mut db = Rup::default();
    for c in cls {
        db.add(c);
    }
    let mut refuted = false;
    for (n, s) in proof.iter().enumerate() {
        match s {
            DratStep::Add(c) => {
                if !db.implied(c) {
                    return Err(format!("proof step {n} adds {c:?} which does not follow by unit propagation"));
                }
                if c.is_empty() {
                    refuted = true;
                }
                db.add(c);
            }
            DratStep::Delete(c) => {
                if !db.delete(c) {
                    return Err(format!("proof step {n} deletes {c:?} which is not present"));
                }
            }
        }
    }
    Ok(refuted || db.implied(&[]))
}

#[derive(Clone, Debug, PartialEq)]
pub enum LratStep {
    Add { id: i64, clause: Cl, hints: Vec<i64> },
    Delete { ids: Vec<i64> },
}

pub fn parse_lrat_text(b: &[u8]) -> Result<Vec<LratStep>, String> {
    let t = std::str::from_utf8(b).map_err(|_| "text proof is not text")?;
    if !t.is_empty() && !t.ends_with('\n') {
        return Err("proof does not end with a newline".into());
    }
    let mut out = vec![];
    let mut last = 0i64;
    for (n, l) in t.lines().enumerate() {
        let e = |m: &str| format!("line {}: {m}: {l:?}", n + 1);
        let tok: Vec<&str> = l.split_ascii_whitespace().collect();
        let num = |s: &str| s.parse::<i64>().map_err(|_| e("bad number"));
        if tok.len() < 2 {
            return Err(e("too short"));
        }
        let id = num(tok[0])?;
        if id < last {
            return Err(e("line ids decrease"));
        }
        last = id;
        if tok[1] == "d" {
            let ids: Vec<i64> = tok[2..].iter().map(|s| num(s)).collect::<Result<_, _>>()?;
            match ids.split_last() {
                Some((0, rest)) if rest.iter().all(|&x| x > 0) => out.push(LratStep::Delete { ids: rest.to_vec() }),
                _ => return Err(e("bad deletion")),
            }
        } else {
            let v: Vec<i64> = tok[1..].iter().map(|s| num(s)).collect::<Result<_, _>>()?;
            let z = v.iter().position(|&x| x == 0).ok_or_else(|| e("no 0"))?;
            let rest = &v[z + 1..];
            match rest.split_last() {
                Some((0, h)) if h.iter().all(|&x| x > 0) => out.push(LratStep::Add {
                    id,
                    clause: v[..z].iter().map(|&x| x as i32).collect(),
                    hints: h.to_vec(),
                }),
                _ => return Err(e("bad hints")),
            }
        }
    }
    Ok(out)
}

pub fn parse_lrat_binary(b: &[u8]) -> Result<Vec<LratStep>, String> {
    let mut at = 0;
    let mut out = vec![];
    let ids = |at: &mut usize| -> Result<Vec<i64>, String> {
        let mut v = vec![];
        loop {
            let x = leb(b, at)?;
            if x == 0 {
                return Ok(v);
            }
            if x % 2 == 1 {
                return Err("negative id".into());
            }
            v.push((x / 2) as i64);
        }
    };
    while at < b.len() {
        let k = b[at];
        at += 1;
        match k {
            b'a' => {
                let id = leb(b, &mut at)?;
                if id % 2 == 1 || id == 0 {
                    return Err("bad id".into());
                }
                let clause = bin_lits(b, &mut at)?;
                let hints = ids(&mut at)?;
                out.push(LratStep::Add { id: (id / 2) as i64, clause, hints });
            }
            b'd' => out.push(LratStep::Delete { ids: ids(&mut at)? }),
            _ => return Err(format!("bad step byte {k}")),
        }
    }
    Ok(out)
}

/// Strict LRAT checking. Returns whether the empty clause was derived.
pub fn check_lrat(cls: &[Cl], proof: &[LratStep]) -> Result<bool, String> {
    let mut live: BTreeMap<i64, Cl> = cls.iter().enumerate().map(|(i, c)| (i as i64 + 1, norm(c))).collect();
    let mut last = cls.len() as i64;
    // an empty clause of the formula needs no derivation
    let mut done = cls.iter().any(|c| c.is_empty());
    for (n, s) in proof.iter().enumerate() {
        match s {
            LratStep::Delete { ids } => {
                for id in ids {
                    if live.remove(id).is_none() {
                        return Err(format!("step {n} deletes clause {id} which is not live"));
                    }
                }
            }
            LratStep::Add { id, clause, hints } => {
                if *id <= last {
                    return Err(format!("step {n} uses id {id} which is not above {last}"));
                }
                last = *id;
                check_hints(clause, hints, &live).map_err(|e| format!("step {n} (clause {id} = {clause:?}, hints {hints:?}): {e}"))?;
                if clause.is_empty() {
                    done = true;
                }
                live.insert(*id, norm(clause));
            }
        }
    }
    Ok(done)
}

/// The hints propagate in order, the last one (and only it) is falsified.
pub fn check_hints(clause: &[i32], hints: &[i64], live: &BTreeMap<i64, Cl>) -> Result<(), String> {
    let mut val: HashMap<i32, bool> = HashMap::new();
    for &l in clause {
        if val.insert(l.abs(), l < 0) == Some(l > 0) {
            return Err("tautology".into());
        }
    }
    for (k, h) in hints.iter().enumerate() {
        let c = live.get(h).ok_or_else(|| format!("hint {h} is not live"))?;
        let mut open = None;
        for &l in c {
            match val.get(&l.abs()) {
                None => {
                    if open.is_some() {
                        return Err(format!("hint {h} = {c:?} is not unit"));
                    }
                    open = Some(l);
                }
                Some(&v) => {
                    if v == (l > 0) {
                        return Err(format!("hint {h} = {c:?} is satisfied"));
                    }
                }
            }
        }
        match open {
            Some(l) => {
                val.insert(l.abs(), l > 0);
            }
            None => {
                if k + 1 != hints.len() {
                    return Err(format!("hint {h} conflicts before the last hint"));
                }
                return Ok(());
            }
        }
    }
    Err("no conflict".into())
}

/// Steps with deletions split into single ids, for comparing encodings.
pub fn flatten_lrat(p: &[LratStep]) -> Vec<LratStep> {
    let mut out: Vec<LratStep> = vec![];
    let mut dels = vec![];
    for s in p {
        match s {
            LratStep::Delete { ids } => dels.extend(ids.iter().cloned()),
            a => {
                if !dels.is_empty() {
                    dels.sort();
                    out.push(LratStep::Delete { ids: std::mem::take(&mut dels) });
                }
                out.push(a.clone());
            }
        }
    }
    out
}
