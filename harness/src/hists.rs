//! Bounded spaces of API histories, shared by several properties.
use crate::engine::*;
use crate::formulas;
use crate::hist::*;
use crate::refsat::Cl;
use std::sync::Arc;

pub type Decode = Arc<dyn Fn(u64) -> (Vec<Op>, Cfg) + Send + Sync>;

#[derive(Clone)]
pub struct HistFam {
    pub name: String,
    pub bound: String,
    pub size: u64,
    pub decode: Decode,
}

impl HistFam {
    pub fn family(
        &self,
        run: impl Fn(&[Op], Cfg, u64, &mut Rec) -> CaseResult + Send + Sync + 'static,
    ) -> Family {
        let d = self.decode.clone();
        Family::new(self.name.clone(), self.bound.clone(), self.size, move |i, rec| {
            let (ops, cfg) = d(i);
            rec.sample(|| format!("{ops:?}"));
            run(&ops, cfg, i, rec)
        })
    }
}

pub fn c(l: &[i32]) -> Op {
    Op::Clause(l.to_vec())
}
pub fn a(l: &[i32]) -> Op {
    Op::Assume(l.to_vec())
}

/// All words of length `depth` over `alphabet` with a solve call after any subset of the letters,
/// always after the last one.
pub fn words(name: &str, alphabet: Vec<Op>, depth: usize, prefix: Vec<Op>) -> HistFam {
    let k = alphabet.len();
    HistFam {
        name: format!("{name} depth {depth}"),
        bound: format!("every history of {depth} operations out of {k}, each followed by a solve or not (always after the last)"),
        size: pow(2 * k, depth - 1) * k as u64,
        decode: Arc::new(move |i| {
            let mut d = Digits(i);
            let mut ops = prefix.clone();
            for step in 0..depth {
                ops.push(alphabet[d.take(k)].clone());
                if step + 1 == depth || d.take(2) == 1 {
                    ops.push(Op::Solve);
                }
            }
            (ops, Cfg::default())
        }),
    }
}

/// Clauses, assumptions and solves over few variables.
pub fn core_alphabet() -> Vec<Op> {
    vec![
        c(&[1, 2, 3]),
        c(&[-1, 2]),
        c(&[-2, 3]),
        c(&[-3, -1]),
        c(&[1, -2]),
        c(&[-1, -2, -3]),
        c(&[1]),
        c(&[-2]),
        c(&[3, -4]),
        c(&[]),
        a(&[]),
        a(&[1]),
        a(&[-1]),
        a(&[1, -2]),
        a(&[-3, 2]),
        a(&[4, 1]),
        a(&[2, -2]),
        a(&[3, 3, -1, 2]),
        Op::NewVar,
        Op::Formula(vec![vec![1, 3], vec![-1, -3], vec![2, 2, -3]]),
        Op::Dimacs(vec![vec![-4, 2], vec![4, 2, 1], vec![-1, 4]]),
    ]
}

/// Variable lifecycle mixed with clauses and assumptions.
pub fn lifecycle_alphabet() -> Vec<Op> {
    vec![
        c(&[1, 2]),
        c(&[-1, -2]),
        c(&[-1, 3]),
        c(&[1, -3]),
        c(&[-2]),
        c(&[4, -1]),
        a(&[]),
        a(&[1]),
        a(&[-2]),
        a(&[3, -1]),
        Op::Hide(1),
        Op::Hide(2),
        Op::Hide(4),
        Op::Witness(1),
        Op::Witness(3),
        Op::Sample(1),
        Op::Sample(3),
        Op::Observe,
        Op::NewVar,
    ]
}

/// Short histories with big units / fixed variables (level zero simplification).
pub fn unit_alphabet() -> Vec<Op> {
    vec![
        c(&[1]),
        c(&[-1]),
        c(&[2]),
        c(&[-3]),
        c(&[-1, 2]),
        c(&[-2, 3]),
        c(&[1, 2, 3, 4]),
        c(&[-4, 5]),
        c(&[-5, -4, 1]),
        a(&[-1]),
        a(&[1, 2]),
        a(&[4]),
        a(&[-4, -5]),
        a(&[]),
        Op::Hide(1),
        Op::Hide(2),
        Op::Witness(1),
        Op::Witness(4),
        Op::NewVar,
        Op::Observe,
    ]
}

/// Lifecycle operations around a refutation.
pub fn refuted_alphabet() -> Vec<Op> {
    vec![
        Op::Formula(vec![vec![1, 2], vec![-1, 2], vec![1, -2], vec![-1, -2, 3]]),
        c(&[-3]),
        c(&[-2]),
        c(&[1]),
        c(&[-1]),
        c(&[3, -1, 2]),
        a(&[-3]),
        a(&[1]),
        a(&[]),
        Op::Hide(1),
        Op::Hide(2),
        Op::Hide(3),
        Op::Witness(2),
        Op::Sample(1),
        Op::Observe,
        Op::NewVar,
    ]
}

/// Words with a solve call after every letter.
pub fn solved_words(name: &str, alphabet: Vec<Op>, depth: usize) -> HistFam {
    let k = alphabet.len();
    HistFam {
        name: format!("{name} depth {depth}"),
        bound: format!("every history of {depth} operations out of {k}, a solve after each"),
        size: pow(k, depth),
        decode: Arc::new(move |i| {
            let mut d = Digits(i);
            let mut ops = vec![];
            for _ in 0..depth {
                ops.push(alphabet[d.take(k)].clone());
                ops.push(Op::Solve);
            }
            (ops, Cfg::default())
        }),
    }
}

/// Fixed variables leaving the solver and their numbers being reused, with assumptions on both.
pub fn reuse_alphabet() -> Vec<Op> {
    vec![
        c(&[1]),
        a(&[-1]),
        a(&[-1, 4]),
        a(&[]),
        Op::Formula(vec![vec![-4, 5], vec![-5, 6]]),
        a(&[4, -6]),
        a(&[2, -6, 4, -3]),
        Op::Hide(1),
        c(&[-2, 3]),
    ]
}

/// A bigger base formula followed by a word of operations; decodes to base x config x word.
pub fn structured(
    name: &str,
    bases: Vec<(String, Vec<Cl>, Vec<Op>)>,
    cfgs: Vec<Cfg>,
    depth: usize,
) -> HistFam {
    let sizes: Vec<u64> = bases.iter().map(|b| pow(b.2.len(), depth)).collect();
    let total: u64 = sizes.iter().sum::<u64>() * cfgs.len() as u64;
    let names: Vec<String> = bases.iter().map(|b| format!("{} ({} ops)", b.0, b.2.len())).collect();
    HistFam {
        name: format!("{name} depth {depth}"),
        bound: format!(
            "every sequence of {depth} operations, each followed by a solve, after {} x {} configurations",
            names.join(", "),
            cfgs.len()
        ),
        size: total,
        decode: Arc::new(move |i| {
            let cfg = cfgs[(i % cfgs.len() as u64) as usize];
            let mut i = i / cfgs.len() as u64;
            let mut b = 0;
            while i >= sizes[b] {
                i -= sizes[b];
                b += 1;
            }
            let (_, base, alphabet) = &bases[b];
            let mut d = Digits(i);
            let mut ops = vec![Op::Formula(base.clone())];
            for _ in 0..depth {
                ops.push(alphabet[d.take(alphabet.len())].clone());
                ops.push(Op::Solve);
            }
            (ops, cfg)
        }),
    }
}

/// Base formulas with assumption / clause alphabets that make the solver learn between solves.
pub fn bases(lifecycle: bool) -> Vec<(String, Vec<Cl>, Vec<Op>)> {
    let mut out = vec![];
    {
        let (g, en) = formulas::cond_php(5, 4);
        let mut al = vec![a(&[]), a(&en), a(&[en[0], en[1], en[2], en[3]]), a(&[en[4], en[3], en[2]]), a(&[-en[0], en[1], 1])];
        al.push(c(&[en[0]]));
        al.push(c(&[-en[1], en[2]]));
        al.push(c(&[1, 6]));
        al.push(c(&[-1, -en[3]]));
        al.push(a(&[en[4], -1, -2, -3, en[0]]));
        if lifecycle {
            al.push(Op::Hide(1));
            al.push(Op::Hide(7));
            al.push(Op::Observe);
            al.push(Op::Witness(6));
        }
        out.push((g.name, g.cls, al));
    }
    {
        // circuit: outputs assumed
        let (mut g, x, y, outs, over) = formulas::multiplier(3);
        for o in over {
            g.push(vec![-o]);
        }
        g.push(x[1..].to_vec());
        g.push(y[1..].to_vec());
        let num = |n: u32| a(&outs.iter().enumerate().map(|(k, &o)| if n >> k & 1 == 1 { o } else { -o }).collect::<Vec<_>>());
        let mut al = vec![num(6), num(35), num(13), num(37), num(49), num(42), num(25)];
        al.push(a(&[outs[0], -x[2]]));
        al.push(c(&[-x[0]]));
        al.push(c(&[x[1], y[1]]));
        al.push(c(&[-y[2], -x[2]]));
        al.push(a(&[]));
        if lifecycle {
            // hide the partial products and the factors
            al.push(Op::Hide(7));
            al.push(Op::Hide(12));
            al.push(Op::Hide(x[0]));
            al.push(Op::Witness(20));
            al.push(Op::NewVar);
            al.push(Op::Observe);
        }
        out.push(("multiplier(3)".into(), g, al));
    }
    {
        let g = formulas::tseitin("pet", &formulas::petersen(), 10, 1);
        let (cls, sel) = formulas::selectors(&g, 5);
        let mut al = vec![a(&sel), a(&sel[1..]), a(&[sel[0], sel[2], sel[3], 1]), a(&[1, 2, 3, 4, -5]), a(&[])];
        al.push(c(&[sel[0]]));
        al.push(c(&[-sel[4], sel[1]]));
        al.push(c(&[1, -2]));
        al.push(c(&[-1, 2]));
        al.push(a(&[sel[4], sel[3], sel[2], sel[1], sel[0], sel[0]]));
        if lifecycle {
            al.push(Op::Hide(3));
            al.push(Op::Hide(sel[2]));
            al.push(Op::Observe);
        }
        out.push(("tseitin with selectors".into(), cls, al));
    }
    {
        let g = formulas::ordering(5);
        let (cls, sel) = formulas::selectors(&g, 3);
        let mut al = vec![a(&sel), a(&[sel[0], sel[1]]), a(&[sel[2]]), a(&[2, 8, -3]), a(&[])];
        al.push(c(&[sel[0]]));
        al.push(c(&[-2]));
        al.push(c(&[sel[1], 3]));
        al.push(a(&[-sel[0], sel[1], sel[2], -4]));
        if lifecycle {
            al.push(Op::Hide(2));
            al.push(Op::Hide(sel[0]));
            al.push(Op::Witness(14));
        }
        out.push(("ordering with selectors".into(), cls, al));
    }
    out
}

/// Sizes around the powers of two that index types, buffers and filters are likely to depend on.
pub fn scales(thorough: bool) -> Vec<i32> {
    if thorough {
        vec![4, 15, 31, 33, 65, 100, 129, 258, 300, 515, 1030]
    } else {
        vec![6, 34, 66, 130, 258, 515]
    }
}

/// Big regular formulas with assumptions and clauses for them.
pub fn scaled_bases(sizes: &[i32]) -> Vec<(String, Vec<Cl>, Vec<Op>)> {
    let mut out = vec![];
    for &n in sizes {
        for (name, cls, sets) in formulas::scaled(n) {
            for how in 0..2 {
                let sets = formulas::flipped(&sets, how);
                let mut al: Vec<Op> = sets.iter().map(|s| a(s)).collect();
                al.push(c(&sets[1][..1]));
                al.push(c(&sets[3]));
                out.push((format!("{name} polarity {how}"), formulas::flipped(&cls, how), al));
            }
        }
    }
    out
}

/// Histories on big regular formulas.
/// The same for a large size, and only a single operation.
pub fn long(thorough: bool) -> HistFam {
    let sizes = if thorough { vec![700, 1100, 2100] } else { vec![1100] };
    let mut h = structured("long", scaled_bases(&sizes), vec![Cfg::default()], 1);
    h.bound = format!("each of 8 operations, followed by a solve, after 7 regular formulas of {sizes:?} variables in two polarities");
    h
}

pub fn scaled(thorough: bool, depth: usize) -> HistFam {
    let mut h = structured("scaled", scaled_bases(&scales(thorough)), vec![Cfg::default()], depth);
    h.bound = format!(
        "every sequence of {depth} operations out of 8, each followed by a solve, after 7 regular formulas of {:?} variables in two polarities",
        scales(thorough)
    );
    h
}

/// Histories in which every letter works on many variables at once, so that tables of names grow and have many holes.
pub fn bulk(thorough: bool, depth: usize) -> HistFam {
    let sizes: Vec<i32> = if thorough { vec![5, 34, 70, 140] } else { vec![7, 70] };
    let letters = |n: i32| -> Vec<Vec<Op>> {
        let even = |f: fn(i32) -> Op| (1..=n).filter(|v| v % 2 == 0).map(f).collect::<Vec<_>>();
        vec![
            // a chain over all, and over every second one
            vec![Op::Formula((1..n).map(|v| vec![-v, v + 1]).collect())],
            vec![Op::Formula((1..n - 1).filter(|v| v % 2 == 1).map(|v| vec![v, v + 2, -((v + 3) / 2)]).collect())],
            // every third one is fixed
            (1..=n).filter(|v| v % 3 == 0).map(|v| c(&[if v % 2 == 0 { v } else { -v }])).collect(),
            even(Op::Hide),
            (1..=n).rev().filter(|v| v % 3 > 0).map(Op::Hide).collect(),
            even(Op::Witness),
            even(Op::Sample),
            vec![Op::NewVar; n as usize / 2 + 1],
            // (the reference would have to follow all the ways in which many variables can be observed)
            vec![if n > 7 { Op::Query } else { Op::Observe }],
            vec![a(&(1..=n).filter(|v| v % 4 == 1).collect::<Vec<_>>())],
            vec![a(&[1, -n])],
            // many assumptions that follow from others, given up again
            vec![a(&(1..=n).filter(|v| v % 5 != 4).collect::<Vec<_>>()), Op::Solve, a(&[])],
            // a variable far away
            vec![c(&[n + n / 2 + 9, -1])],
        ]
    };
    let k = letters(7).len();
    let all: Vec<Vec<Vec<Op>>> = sizes.iter().map(|&n| letters(n)).collect();
    HistFam {
        name: format!("bulk depth {depth}"),
        bound: format!("every history of {depth} letters out of {k} (chains, units, hiding, witness, sample, new and observed variables, assumptions), each for many of {sizes:?} variables and followed by a solve"),
        size: pow(k, depth) * sizes.len() as u64,
        decode: Arc::new(move |i| {
            let mut d = Digits(i);
            let l = &all[d.take(all.len())];
            let mut ops = vec![];
            for _ in 0..depth {
                ops.extend(l[d.take(k)].iter().cloned());
                ops.push(Op::Solve);
            }
            (ops, Cfg::default())
        }),
    }
}

/// Configurations for structured histories.
pub fn hist_configs() -> Vec<Cfg> {
    let c = configs();
    vec![c[0], c[1], c[4], c[8]]
}
