//! C08: soundness of the proof checker.
use crate::checkmc::*;
use crate::engine::*;
use crate::hist::*;
use crate::hists::*;
use crate::monitor::*;
use crate::proofs::norm;
use crate::props::c11::checked;
use crate::refsat::Cl;
use crate::steps::{parse_native, Step};
use varisat_checker::Checker;

/// Multisets of at most `max` clauses out of `pool`, as sorted index lists.
pub fn multisets(pool: &[Cl], max: usize) -> Vec<Vec<Cl>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for i in s.last().cloned().unwrap_or(0)..pool.len() {
                let mut t = s.clone();
                t.push(i);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out.into_iter().map(|s| s.into_iter().map(|i| pool[i].clone()).collect()).collect()
}

pub fn formulas3() -> Vec<Vec<Cl>> {
    let v = |x: &[&[i32]]| x.iter().map(|c| c.to_vec()).collect::<Vec<_>>();
    vec![
        v(&[&[1, 2, 3], &[-1, 2], &[-2, 3], &[-3, 1]]),
        v(&[&[1, 2], &[-1, 3], &[-2, 3], &[-3]]),
        v(&[&[1, 2, 3], &[1, 2, -3], &[1, -2, 3], &[1, -2, -3]]),
        v(&[&[1, 2], &[1, -2], &[-1, 3], &[-1, -3]]),
        v(&[&[1, 2, 3], &[-1, -2, -3]]),
        v(&[&[1], &[-1, 2], &[-2, 3]]),
        v(&[&[1, 2, 3], &[-3], &[-2], &[-1, 2]]),
        v(&[&[-1, 2], &[-2, 1], &[1, 2, 3], &[-1, -2, 3]]),
        v(&[&[3], &[1, 2], &[-1, 2]]),
        v(&[&[1, 2, 3], &[1, 2, 3], &[1, 2]]),
        v(&[]),
        v(&[&[1, -1], &[2, 2, 3]]),
    ]
}

pub fn family(name: &str, bound: String, formulas: Vec<Vec<Cl>>, prefix: Vec<Step>, a: Alphabet, depth: usize, judge: fn() -> Judge) -> Family {
    let mut f = Family::new(
        format!("{name} depth {depth}"),
        format!("{} formulas, every sequence of at most {depth} accepted steps: {bound}", formulas.len()),
        formulas.len() as u64,
        move |i, rec| {
            let f = &formulas[i as usize];
            rec.sample(|| format!("{f:?}"));
            explore_checker(f, &prefix, &a, depth, judge(), rec)
        },
    );
    f.chunk = 1;
    f
}

pub fn alphabet(n: usize) -> Alphabet {
    Alphabet { n, derive: false, hint_len: 2, max_clause: n, delete: false, claims: false, names: false, bits: vec![], add: false, pool: None, claim_pool: None }
}

pub fn named(n: i32) -> Vec<Step> {
    (1..=n).map(|v| Step::UserName(v, Some(v))).collect()
}

pub fn families(fam: &mut Vec<Family>, thorough: bool, judge: fn() -> Judge) {
    let t = |a: usize, b: usize| if thorough { b } else { a };
    let mut pool = all_clauses(2, 2);
    pool.push(vec![1, -1]);
    let small = multisets(&pool, 2);
    fam.push(family(
        "derivations 2 variables",
        "additions, unit lists and deletions with every hint list up to 2, claims".into(),
        multisets(&pool, t(2, 3)),
        vec![],
        Alphabet { derive: true, delete: true, claims: true, ..alphabet(2) },
        t(3, 4),
        judge,
    ));
    fam.push(family(
        "incremental 2 variables",
        "clause additions, derivations with one hint, claims, after naming the variables".into(),
        small.clone(),
        named(2),
        Alphabet { derive: true, delete: true, claims: true, add: true, hint_len: 1, ..alphabet(2) },
        t(3, 4),
        judge,
    ));
    fam.push(family(
        "short hashes 2 variables",
        "as above with clause hashes of 1, 2 and 64 bits, so that different clauses share a hash".into(),
        multisets(&pool, t(2, 3)),
        vec![],
        Alphabet { derive: true, delete: true, hint_len: 1, bits: vec![1, 2, 64], ..alphabet(2) },
        t(4, 5),
        judge,
    ));
    fam.push(family(
        "variable names 2 variables",
        "naming, hiding, mode changes, deletion and renaming of variables with claims and clauses".into(),
        small.iter().filter(|f| f.len() < 2 || thorough).cloned().collect(),
        vec![],
        Alphabet { names: true, claims: true, add: true, derive: true, hint_len: 1, max_clause: 1, ..alphabet(2) },
        t(3, 4),
        judge,
    ));
    fam.push(family(
        "deletion and reuse",
        "naming, hiding, mode changes, deletion of variables, claims; variables already named".into(),
        small.iter().filter(|f| f.len() < 2 || thorough).cloned().collect(),
        named(2),
        Alphabet { names: true, claims: true, add: true, hint_len: 1, max_clause: 1, ..alphabet(2) },
        t(4, 6),
        judge,
    ));
    let long: Vec<Cl> = vec![
        vec![1, 2, 3, 4],
        vec![-1, 2, 3, 4],
        vec![2, 3, 4],
        vec![1, 2, 3, 4, 5],
        vec![-2, 3, 4],
        vec![3, 4],
        vec![-3, -4, 1, 5],
        vec![4],
    ];
    fam.push(family(
        "long clauses",
        "additions, derivations and deletions of clauses with up to 5 literals (stored out of line, with garbage collection)".into(),
        multisets(&long, 3),
        named(5),
        Alphabet {
            derive: true,
            delete: true,
            claims: true,
            add: true,
            pool: Some(long.clone()),
            claim_pool: Some(vec![vec![], vec![1, 2, 3, 4, 5], vec![-1, -2, -3, -4, 5], vec![-1, -2, 3, -4, -5], vec![-4], vec![-3, -4]]),
            ..alphabet(2)
        },
        t(2, 3),
        judge,
    ));
    fam.push(family(
        "derivations 3 variables",
        "additions of all clauses with every hint list up to 2 (thorough 3), deletions, models".into(),
        formulas3(),
        vec![],
        Alphabet { derive: true, delete: true, claims: true, hint_len: 2, ..alphabet(3) },
        t(2, 3),
        judge,
    ));
}

/// Positions in a list: all of a short one, both ends and around the powers of two of a long one.
fn places(len: usize) -> Vec<usize> {
    if len <= 12 {
        return (0..len).collect();
    }
    let mut v = vec![0, 1, len / 2, len - 2, len - 1];
    for p in [16, 32, 64, 128, 256, 512] {
        v.extend([p - 1, p, p + 1].iter().filter(|&&x| x < len));
    }
    v.sort();
    v.dedup();
    v
}

fn altered_hashes(h: &[u64]) -> Vec<Vec<u64>> {
    let mut out = vec![];
    for k in places(h.len()) {
        let mut g = h.to_vec();
        g.remove(k);
        out.push(g);
        let mut g = h.to_vec();
        g[k] ^= 1 << 63;
        out.push(g);
        if k > 0 {
            let mut g = h.to_vec();
            g.swap(k, k - 1);
            out.push(g);
            let mut g = h.to_vec();
            g.swap(k, 0);
            out.push(g);
        }
    }
    for k in places(h.len()) {
        out.push(h[..k].to_vec());
        out.push(h[k..].to_vec());
    }
    out
}

fn altered_lits(c: &[i32]) -> Vec<Cl> {
    let mut out = vec![vec![]];
    for k in places(c.len()) {
        let mut g = c.to_vec();
        g.remove(k);
        out.push(g);
        let mut g = c.to_vec();
        g[k] = -g[k];
        out.push(g);
    }
    for k in places(c.len()) {
        out.push(c[..k].to_vec());
    }
    out
}

/// The ways in which a step is altered.
fn altered(s: &Step) -> Vec<Step> {
    match s {
        Step::At(r, c, h) => altered_hashes(h)
            .into_iter()
            .map(|h| Step::At(*r, c.clone(), h))
            .chain(altered_lits(c).into_iter().map(|c| Step::At(*r, c, h.clone())))
            .chain(Some(Step::At(!*r, c.clone(), h.clone())))
            .collect(),
        Step::Failed(c, h) => altered_hashes(h)
            .into_iter()
            .map(|h| Step::Failed(c.clone(), h))
            .chain(altered_lits(c).into_iter().map(|c| Step::Failed(c, h.clone())))
            .collect(),
        Step::Units(u) => places(u.len())
            .into_iter()
            .flat_map(|k| {
                let (mut a, mut b, mut d) = (u.clone(), u.clone(), u.clone());
                a.remove(k);
                b[k].0 = -b[k].0;
                d.swap(0, k);
                [a, b, d]
            })
            .map(Step::Units)
            .collect(),
        Step::Delete(c, p) => {
            altered_lits(c).into_iter().map(|c| Step::Delete(c, *p)).chain((0..3).filter(|q| q != p).map(|q| Step::Delete(c.clone(), q))).collect()
        }
        Step::Model(m) => altered_lits(m).into_iter().map(Step::Model).collect(),
        Step::Assume(m) => altered_lits(m).into_iter().map(Step::Assume).collect(),
        Step::Add(m) => altered_lits(m).into_iter().map(Step::Add).collect(),
        Step::Bits(b) => [1, 6, 64].iter().filter(|x| *x != b).map(|&b| Step::Bits(b)).collect(),
        _ => vec![],
    }
}

fn offered(initial: &[Cl], proof: &[u8], rec: &mut Rec) -> CaseResult {
    rec.eval();
    let (plain, events) = checked(initial, proof)?;
    let mut mon = ProcMonitor::default();
    let watched = catch(|| {
        let mut c = Checker::new();
        c.add_processor(&mut mon);
        initial.iter().try_for_each(|cl| c.add_clause(&lits(cl))).and_then(|_| c.check_proof(proof))
    })
    .map_err(|p| format!("the checker panicked with a processor: {p}"))?;
    if plain.is_ok() != watched.is_ok() {
        return Err(format!("without a processor: {plain:?}, with one: {watched:?}"));
    }
    // accepted steps have to be right even if a later one is not
    mon.done()?;
    if plain.is_ok() {
        rec.outcome("altered proof accepted");
        judge_transcript(&events)?;
        let given: std::collections::BTreeSet<Cl> = initial.iter().cloned().chain(parse_native(proof)?.into_iter().flat_map(|s| match s {
            Step::At(_, c, _) | Step::Add(c) => vec![c],
            Step::Units(u) => u.iter().map(|u| vec![u.0]).collect(),
            _ => vec![],
        })).map(|c| norm(&c)).collect();
        for s in &mon.seen {
            if let Seen::At(_, _, c, _) | Seen::Add(_, c) = s {
                if !given.contains(&norm(c)) && !c.is_empty() {
                    return Err(format!("{s:?} is not in the proof"));
                }
            }
        }
    } else {
        rec.outcome("altered proof rejected");
    }
    Ok(())
}

/// Proofs with long clauses and many propagations, with every step altered.
fn scaled_faults(thorough: bool) -> Family {
    let sizes: &[i32] = if thorough { &[15, 33, 66, 129, 258] } else { &[34, 66, 130] };
    let h = structured("scaled", scaled_bases(sizes), vec![Cfg::default(), configs()[1]], if thorough { 2 } else { 1 });
    let d = h.decode.clone();
    Family::new(
        "altered scaled proofs",
        format!("the proofs of histories on 6 regular formulas of {sizes:?} variables: every step altered in every way (literals and hashes left out, flipped, swapped, cut off; of long lists those at the ends and around powers of two)"),
        h.size,
        move |i, rec| {
            let (ops, cfg) = d(i);
            let out = run(&ops, Setup { format: Some(varisat::ProofFormat::Varisat), cfg, no_reference: true, ..Setup::default() }, vec![], rec)?;
            let steps = parse_native(&out.proof)?;
            let bytes: Vec<Vec<u8>> = steps
                .iter()
                .map(|s| {
                    let mut b = vec![];
                    s.write(&mut b);
                    b
                })
                .collect();
            rec.sample(|| format!("{ops:?}").chars().take(400).collect());
            rec.nontrivial(fp(&out.proof));
            let mut before = vec![];
            for (k, s) in steps.iter().enumerate() {
                for t in altered(s) {
                    rec.step();
                    let mut p = before.clone();
                    t.write(&mut p);
                    p.extend(bytes[k + 1..].concat());
                    offered(&out.initial, &p, rec).map_err(|m| {
                        let m: String = m.chars().take(1500).collect();
                        format!("step {k} {s:?} replaced by {t:?}: {m}").chars().take(4000).collect::<String>()
                    })?;
                }
                before.extend(&bytes[k]);
            }
            Ok(())
        },
    )
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    families(&mut fam, thorough, || Judge::Claims);
    fam.push(scaled_faults(thorough));
    Check {
        id: "C08",
        level: "model_checking",
        rule: "a state is a reference state of the checker (clause multiset, units, names, modes, assumptions, hash width); every step of the alphabet is offered to the real checker in every state; every reached state is also concluded through the encoded proof file",
        assumptions: vec!["states with equal reference state behave equally"],
        families: fam,
    }
}
