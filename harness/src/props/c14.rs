//! C14: writing DIMACS.
use crate::dimacs::{self, Expected, Text};
use crate::engine::*;
use crate::hist::*;
use crate::props::c10::{Fault, Injected, Sink};
use crate::props::c12::text_of;
use crate::refsat::*;
use varisat_dimacs::{write_dimacs, write_dimacs_clauses, write_dimacs_header, DimacsHeader, DimacsParser};
use varisat_formula::CnfFormula;

fn roundtrip(cls: &[Cl], vars: usize, faults: bool, rec: &mut Rec) -> CaseResult {
    rec.eval();
    let mut f: CnfFormula = formula(cls);
    f.set_var_count(vars);
    let vars = vars.max(max_var(cls));
    let e = |m: String| format!("{m}: {vars} variables, {cls:?}");
    let want = Text { clauses: cls.to_vec(), vars, header: Some((vars, cls.len())) };
    let mut out = vec![];
    catch(|| write_dimacs(&mut out, &f)).map_err(|p| e(format!("writer panicked: {p}")))?.map_err(|x| e(x.to_string()))?;
    match dimacs::read(&out) {
        Expected::Formula(t) if t == want => (),
        t => return Err(e(format!("the text {:?} means {t:?}", String::from_utf8_lossy(&out)))),
    }
    let back = DimacsParser::parse(&out[..]).map_err(|x| e(format!("the parser rejects {:?}: {x}", String::from_utf8_lossy(&out))))?;
    if text_of(&back) != cls || back.var_count() != vars || back != f {
        return Err(e(format!("{:?} is parsed as {back:?}", String::from_utf8_lossy(&out))));
    }
    // parts
    let (mut head, mut body) = (vec![], vec![]);
    write_dimacs_header(&mut head, DimacsHeader { var_count: vars, clause_count: cls.len() }).map_err(|x| e(x.to_string()))?;
    write_dimacs_clauses(&mut body, f.iter()).map_err(|x| e(x.to_string()))?;
    let mut parts = head.clone();
    parts.extend(&body);
    match dimacs::read(&parts) {
        Expected::Formula(t) if t == want => (),
        t => return Err(e(format!("header and clauses mean {t:?}"))),
    }
    match dimacs::read(&head) {
        Expected::Formula(t) if t.clauses.is_empty() && t.header == Some((vars, 0)) && cls.is_empty() => (),
        Expected::Fault(dimacs::Fault::ClauseCount { have: 0, header }) if header == cls.len() => (),
        t => return Err(e(format!("the header alone means {t:?}"))),
    }
    match dimacs::read(&body) {
        Expected::Formula(t) if t.clauses == cls && t.header.is_none() => (),
        t => return Err(e(format!("the clauses alone mean {t:?}"))),
    }
    // clauses written in two pieces
    for cut in (0..=cls.len()).filter(|&k| cls.len() <= 300 || k % (cls.len() / 3) == 0) {
        let mut two = head.clone();
        write_dimacs_clauses(&mut two, f.iter().take(cut)).map_err(|x| e(x.to_string()))?;
        write_dimacs_clauses(&mut two, f.iter().skip(cut)).map_err(|x| e(x.to_string()))?;
        if two != parts {
            return Err(e(format!("written in two pieces cut at {cut}: different text")));
        }
    }
    if cls.len() > 1 {
        rec.nontrivial(fp(&(cls, vars)));
    }
    rec.outcome("roundtrip");
    if !faults {
        return Ok(());
    }
    let mut list = vec![Fault::Short(1), Fault::Short(2), Fault::Interrupt(1), Fault::Interrupt(3)];
    for b in 0..out.len() {
        list.extend([Fault::Bytes(b), Fault::Once(b), Fault::Zero(b)]);
    }
    for fault in list {
        rec.eval();
        let mut s = Sink::new(fault);
        let r = catch(|| write_dimacs(&mut s, &f)).map_err(|p| e(format!("{fault:?}: writer panicked: {p}")))?;
        let hit = s.st.hits.get() > 0;
        match r {
            Ok(()) if !hit && *s.st.data.borrow() == out => rec.outcome("fully served"),
            Err(x) if hit && s.st.zero.get() && x.kind() == std::io::ErrorKind::WriteZero => rec.outcome("fault reported"),
            Err(x) if hit && x.get_ref().and_then(|x| x.downcast_ref::<Injected>()) == Some(&Injected(7)) => rec.outcome("fault reported"),
            r => {
                return Err(e(format!("{fault:?}: hit: {hit}, write_dimacs returned {r:?} after {} of {} bytes", s.st.data.borrow().len(), out.len())))
            }
        }
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let mut pool: Vec<Cl> = vec![vec![]];
    for n in 1..=2 {
        for i in 0..pow(6, n) {
            let mut d = Digits(i);
            pool.push((0..n).map(|_| [1, -1, 2, -2, 3, -3][d.take(6)]).collect());
        }
    }
    for k in 0..if thorough { 5 } else { 4 } {
        let pool = pool.clone();
        let p = pool.len();
        fam.push(Family::new(
            format!("{k} clauses"),
            format!("every list of {k} out of {p} literal lists over 3 variables (with repetitions, the empty clause) x requested variable counts 0, 3, 5; every sink fault for up to 2 clauses"),
            pow(p, k) * 3,
            move |i, rec| {
                let mut d = Digits(i);
                let v = [0, 3, 5][d.take(3)];
                let cls: Vec<Cl> = (0..k).map(|_| pool[d.take(p)].clone()).collect();
                roundtrip(&cls, v, k <= 2, rec)
            },
        ));
    }
    {
        let mut nums: Vec<i32> = vec![];
        for k in 0..=28 {
            for d in -2i64..=2 {
                let v = (1i64 << k) + d;
                if v > 0 && v <= 1 << 28 {
                    nums.push(v as i32);
                }
            }
        }
        for k in 0..9 {
            for f in 1..10i64 {
                for d in [-1, 0, 1] {
                    let v = f * 10i64.pow(k) + d;
                    if v > 0 && v <= 1 << 28 {
                        nums.push(v as i32);
                    }
                }
            }
        }
        nums.sort();
        nums.dedup();
        let n = nums.len();
        fam.push(Family::new("variables", format!("{n} variables at the boundaries of binary and decimal lengths, up to the largest variable, both polarities, 3 requested variable counts"), (n * 2 * 3) as u64, move |i, rec| {
            let mut d = Digits(i);
            let v = nums[d.take(n)];
            let l = if d.take(2) == 0 { v } else { -v };
            let vars = [0, v as usize, 1 << 28][d.take(3)];
            roundtrip(&[vec![l, 1, -l], vec![], vec![-1, l]], vars, true, rec)
        }));
    }
    {
        fam.push(Family::new("long clauses", "clauses of every length up to 300 and formulas of up to 300 clauses", 600, move |i, rec| {
            let n = (i / 2) as i32;
            let lits: Cl = (0..n).map(|k| if k % 3 == 0 { -(k * 7 % 1000 + 1) } else { k * 13 % 997 + 1 }).collect();
            if i % 2 == 0 {
                roundtrip(&[lits], 0, false, rec)
            } else {
                let cls: Vec<Cl> = lits.iter().map(|&l| vec![l; (l.unsigned_abs() % 4) as usize]).collect();
                roundtrip(&cls, 7, false, rec)
            }
        }));
    }
    {
        let sizes: Vec<usize> = crate::props::c12::text_sizes(thorough);
        fam.push(Family::new("scaled formulas", format!("formulas with {} sizes up to 100000: number of clauses, of literals of a clause, of empty clauses, of variables", sizes.len()), sizes.len() as u64 * 5, move |i, rec| {
            let mut d = Digits(i);
            let (kind, n) = (d.take(5), sizes[d.take(sizes.len())]);
            let m = n as i32;
            let cls: Vec<Cl> = match kind {
                0 => (0..m).map(|k| vec![k % 5 + 1, -(k % 3) - 1]).collect(),
                1 => vec![(1..=m).map(|k| if k % 3 == 0 { -k } else { k }).collect(), vec![1]],
                2 => vec![vec![]; n],
                3 => (1..=m).map(|k| vec![-k, 2 * k]).collect(),
                _ => vec![vec![1, 2]],
            };
            roundtrip(&cls, if kind == 4 { n } else { 0 }, false, rec).map_err(|e| format!("formula {kind} of size {n}: {}", e.chars().take(500).collect::<String>()))
        }));
    }
    Check {
        id: "C14",
        level: "fault_enumeration",
        rule: "distinct formulas with more than one clause; every formula is written, read back by the reference reader and the parser, and written to sinks failing at every byte",
        assumptions: vec![],
        families: fam,
    }
}
