//! Structured formula families. Every generator is deterministic; verdicts marked `Some` are known
//! by theorem, all others are computed by the reference solver.
use crate::refsat::Cl;

#[derive(Clone)]
pub struct F {
    pub name: String,
    pub cls: Vec<Cl>,
    pub sat: Option<bool>,
}

fn f(name: impl Into<String>, cls: Vec<Cl>, sat: Option<bool>) -> F {
    F { name: name.into(), cls, sat }
}

/// p pigeons into h holes, optionally functional / onto.
pub fn php(p: i32, h: i32, functional: bool) -> F {
    let v = |i: i32, j: i32| i * h + j + 1;
    let mut c: Vec<Cl> = (0..p).map(|i| (0..h).map(|j| v(i, j)).collect()).collect();
    for j in 0..h {
        for a in 0..p {
            for b in a + 1..p {
                c.push(vec![-v(a, j), -v(b, j)]);
            }
        }
    }
    if functional {
        for i in 0..p {
            for a in 0..h {
                for b in a + 1..h {
                    c.push(vec![-v(i, a), -v(i, b)]);
                }
            }
        }
    }
    f(format!("php({p},{h},{functional})"), c, Some(p <= h))
}

/// CNF of x1 ^ ... ^ xk = rhs.
pub fn xor(vars: &[i32], rhs: bool) -> Vec<Cl> {
    let k = vars.len();
    let mut out = vec![];
    for m in 0..1u32 << k {
        // forbid the assignments with the wrong parity
        if (m.count_ones() % 2 == 1) != rhs {
            out.push((0..k).map(|i| if m >> i & 1 == 1 { -vars[i] } else { vars[i] }).collect());
        }
    }
    out
}

/// Tseitin formula: one variable per edge, parity constraint per node.
pub fn tseitin(name: &str, edges: &[(usize, usize)], n: usize, charge: u64) -> F {
    let mut c = vec![];
    for v in 0..n {
        let inc: Vec<i32> = edges
            .iter()
            .enumerate()
            .filter(|(_, e)| e.0 == v || e.1 == v)
            .map(|(i, _)| i as i32 + 1)
            .collect();
        c.extend(xor(&inc, charge >> v & 1 == 1));
    }
    f(format!("tseitin({name},{charge:b})"), c, None)
}

pub fn complete_graph(n: usize) -> Vec<(usize, usize)> {
    (0..n).flat_map(|a| (a + 1..n).map(move |b| (a, b))).collect()
}
pub fn cycle(n: usize) -> Vec<(usize, usize)> {
    (0..n).map(|a| (a, (a + 1) % n)).collect()
}
pub fn wheel(n: usize) -> Vec<(usize, usize)> {
    let mut e = cycle(n);
    e.extend((0..n).map(|a| (a, n)));
    e
}
pub fn grid(w: usize, h: usize) -> Vec<(usize, usize)> {
    let mut e = vec![];
    for y in 0..h {
        for x in 0..w {
            if x + 1 < w {
                e.push((y * w + x, y * w + x + 1));
            }
            if y + 1 < h {
                e.push((y * w + x, y * w + x + w));
            }
        }
    }
    e
}
pub fn petersen() -> Vec<(usize, usize)> {
    let mut e = vec![];
    for i in 0..5 {
        e.push((i, (i + 1) % 5));
        e.push((i, i + 5));
        e.push((i + 5, (i + 2) % 5 + 5));
    }
    e
}

pub fn coloring(name: &str, edges: &[(usize, usize)], n: usize, k: usize) -> F {
    let v = |a: usize, c: usize| (a * k + c + 1) as i32;
    let mut c: Vec<Cl> = (0..n).map(|a| (0..k).map(|i| v(a, i)).collect()).collect();
    for &(a, b) in edges {
        for i in 0..k {
            c.push(vec![-v(a, i), -v(b, i)]);
        }
    }
    f(format!("coloring({name},{k})"), c, None)
}

/// Total order without a minimal element.
pub fn ordering(n: i32) -> F {
    let v = |a: i32, b: i32| a * n + b + 1;
    let mut c = vec![];
    for a in 0..n {
        c.push(vec![-v(a, a)]);
        for b in 0..n {
            if a != b {
                c.push(vec![-v(a, b), -v(b, a)]);
            }
            for d in 0..n {
                if a != b && b != d && a != d {
                    c.push(vec![-v(a, b), -v(b, d), v(a, d)]);
                }
            }
        }
        c.push((0..n).filter(|&b| b != a).map(|b| v(b, a)).collect());
    }
    f(format!("ordering({n})"), c, Some(false))
}

/// No monochromatic triangle in a 2-colouring of K_n.
pub fn ramsey(n: usize) -> F {
    let e = complete_graph(n);
    let id = |a: usize, b: usize| e.iter().position(|&x| x == (a, b)).unwrap() as i32 + 1;
    let mut c = vec![];
    for a in 0..n {
        for b in a + 1..n {
            for d in b + 1..n {
                let t = [id(a, b), id(b, d), id(a, d)];
                c.push(t.to_vec());
                c.push(t.iter().map(|x| -x).collect());
            }
        }
    }
    f(format!("ramsey33({n})"), c, Some(n < 6))
}

/// Van der Waerden: 2-colour 1..n without monochromatic arithmetic progressions of length 3 / k.
pub fn vdw(k: i32, l: i32, n: i32) -> F {
    let mut c = vec![];
    for (len, s) in [(k, 1), (l, -1)] {
        for d in 1..n {
            for a in 1..=n {
                if a + d * (len - 1) <= n {
                    c.push((0..len).map(|i| s * (a + i * d)).collect());
                }
            }
        }
    }
    f(format!("vdw({k},{l},{n})"), c, None)
}

/// Pythagorean-style: no monochromatic a+b=c (Schur).
pub fn schur(colors: i32, n: i32) -> F {
    let v = |x: i32, c: i32| (x - 1) * colors + c + 1;
    let mut c: Vec<Cl> = (1..=n).map(|x| (0..colors).map(|k| v(x, k)).collect()).collect();
    for a in 1..=n {
        for b in a..=n {
            if a + b <= n {
                for k in 0..colors {
                    c.push(vec![-v(a, k), -v(b, k), -v(a + b, k)]);
                }
            }
        }
    }
    f(format!("schur({colors},{n})"), c, None)
}

pub fn queens(n: i32) -> F {
    let v = |r: i32, c: i32| r * n + c + 1;
    let mut c: Vec<Cl> = (0..n).map(|r| (0..n).map(|k| v(r, k)).collect()).collect();
    for r in 0..n {
        for k in 0..n {
            for r2 in 0..n {
                for k2 in 0..n {
                    if (r, k) < (r2, k2) && (r == r2 || k == k2 || (r - r2).abs() == (k - k2).abs()) {
                        c.push(vec![-v(r, k), -v(r2, k2)]);
                    }
                }
            }
        }
    }
    f(format!("queens({n})"), c, None)
}

/// All 2^k sign patterns over k variables: minimally unsatisfiable.
pub fn full(k: usize) -> F {
    let c = (0..1u32 << k)
        .map(|m| (0..k).map(|i| if m >> i & 1 == 1 { -(i as i32 + 1) } else { i as i32 + 1 }).collect())
        .collect();
    f(format!("full({k})"), c, Some(false))
}

/// Array multiplier circuit: clauses, first factor, second factor, product bits, overflow bits.
pub fn multiplier(bits: usize) -> (Vec<Cl>, Vec<i32>, Vec<i32>, Vec<i32>, Vec<i32>) {
    let mut next = 0;
    let mut c: Vec<Cl> = vec![];
    let mut new = || {
        next += 1;
        next
    };
    let a: Vec<i32> = (0..bits).map(|_| new()).collect();
    let b: Vec<i32> = (0..bits).map(|_| new()).collect();
    let mut outs = vec![];
    let mut cols: Vec<Vec<i32>> = vec![vec![]; 2 * bits + 1];
    for i in 0..bits {
        for j in 0..bits {
            let p = new();
            c.push(vec![-p, a[i]]);
            c.push(vec![-p, b[j]]);
            c.push(vec![p, -a[i], -b[j]]);
            cols[i + j].push(p);
        }
    }
    for k in 0..2 * bits {
        while cols[k].len() > 1 {
            let x = cols[k].remove(0);
            let y = cols[k].remove(0);
            let (s, co) = (new(), new());
            if cols[k].is_empty() {
                // half adder
                c.extend(xor(&[x, y, s], false));
                c.push(vec![-co, x]);
                c.push(vec![-co, y]);
                c.push(vec![co, -x, -y]);
            } else {
                let z = cols[k].remove(0);
                c.extend(xor(&[x, y, z, s], false));
                c.push(vec![-x, -y, co]);
                c.push(vec![-x, -z, co]);
                c.push(vec![-y, -z, co]);
                c.push(vec![x, y, -co]);
                c.push(vec![x, z, -co]);
                c.push(vec![y, z, -co]);
            }
            cols[k].push(s);
            cols[k + 1].push(co);
        }
        if let Some(&o) = cols[k].first() {
            outs.push(o);
        }
    }
    let over = cols[2 * bits].clone();
    (c, a, b, outs, over)
}

/// Factor `n` into two `bits`-bit numbers greater than one.
pub fn factoring(n: u32, bits: usize) -> F {
    let (mut c, a, b, outs, over) = multiplier(bits);
    assert_eq!(outs.len(), if bits == 1 { 1 } else { 2 * bits });
    for (k, &o) in outs.iter().enumerate() {
        c.push(vec![if n >> k & 1 == 1 { o } else { -o }]);
    }
    for &o in &over {
        c.push(vec![-o]);
    }
    c.push(a[1..].to_vec());
    c.push(b[1..].to_vec());
    let sat = (2..1u32 << bits).any(|x| n % x == 0 && n / x > 1 && n / x < 1 << bits);
    f(format!("factoring({n},{bits})"), c, Some(sat))
}

/// Two formulas glued together with selector literals: assuming `-s` drops a group of clauses.
pub fn selectors(g: &F, groups: usize) -> (Vec<Cl>, Vec<i32>) {
    let n = crate::refsat::max_var(&g.cls) as i32;
    let sel: Vec<i32> = (0..groups as i32).map(|i| n + 1 + i).collect();
    let mut c = g.cls.clone();
    for (i, cl) in c.iter_mut().enumerate() {
        cl.push(-sel[i % groups]);
    }
    (c, sel)
}

/// Linear equations over GF(2) with a unique solution, chained in windows of width `w`.
pub fn parity_unique(n: usize, w: usize) -> F {
    let mut c = vec![];
    let sol: Vec<bool> = (0..n).map(|i| (i * i + i / 3) % 3 == 1).collect();
    for i in 0..n {
        let mut vars: Vec<i32> = (0..w).map(|d| ((i + d * (d + 1) / 2) % n) as i32 + 1).collect();
        vars.sort();
        vars.dedup();
        let rhs = vars.iter().filter(|&&v| sol[v as usize - 1]).count() % 2 == 1;
        c.extend(xor(&vars, rhs));
    }
    f(format!("parity({n},{w})"), c, Some(true))
}

/// Pebbling formula on a pyramid with xor-ed pebbles: long propagation chains.
pub fn pebbling(h: usize, xorify: bool) -> F {
    let mut id = vec![];
    let mut next = 1;
    for r in 0..=h {
        let mut row = vec![];
        for _ in 0..=(h - r) {
            row.push(next);
            next += 2;
        }
        id.push(row);
    }
    let mut c = vec![];
    let pos = |x: i32| -> Vec<Cl> {
        if xorify {
            vec![vec![x, x + 1], vec![-x, -x - 1]]
        } else {
            vec![vec![x]]
        }
    };
    let neg = |x: i32| -> Vec<Cl> {
        if xorify {
            vec![vec![x, -x - 1], vec![-x, x + 1]]
        } else {
            vec![vec![-x]]
        }
    };
    let or = |a: &[Cl], b: &[Cl]| -> Vec<Cl> {
        let mut o = vec![];
        for x in a {
            for y in b {
                let mut z = x.clone();
                z.extend(y);
                o.push(z);
            }
        }
        o
    };
    for &x in &id[0] {
        c.extend(pos(x));
    }
    for r in 1..=h {
        for i in 0..id[r].len() {
            let l = or(&neg(id[r - 1][i]), &neg(id[r - 1][i + 1]));
            c.extend(or(&l, &pos(id[r][i])));
        }
    }
    c.extend(neg(id[h][0]));
    f(format!("pebbling({h},{xorify})"), c, Some(false))
}

/// Exactly `k` of `n` by sequential counter, contradicting (or not) a parity constraint.
pub fn counter_parity(n: usize, k: usize, rhs: bool) -> F {
    // s[i][j]: at least j+1 among the first i+1
    let x = |i: usize| i as i32 + 1;
    let s = |i: usize, j: usize| (n + i * (k + 1) + j + 1) as i32;
    let mut c = vec![];
    for i in 0..n {
        for j in 0..=k {
            // definition both directions
            let prev = |jj: usize| if i == 0 { None } else { Some(s(i - 1, jj)) };
            // s[i][j] -> s[i-1][j] or (x_i and (j==0 or s[i-1][j-1]))
            let mut a = vec![-s(i, j), x(i)];
            if let Some(p) = prev(j) {
                a.push(p);
            }
            c.push(a);
            if j > 0 {
                let mut a = vec![-s(i, j)];
                if let Some(p) = prev(j) {
                    a.push(p);
                }
                if let Some(p) = prev(j - 1) {
                    a.push(p);
                }
                c.push(a);
            }
            if let Some(p) = prev(j) {
                c.push(vec![-p, s(i, j)]);
            }
            if j == 0 {
                c.push(vec![-x(i), s(i, j)]);
            } else if let Some(p) = prev(j - 1) {
                c.push(vec![-x(i), -p, s(i, j)]);
            }
        }
    }
    if k > 0 {
        c.push(vec![s(n - 1, k - 1)]);
    }
    c.push(vec![-s(n - 1, k)]);
    // chained parity
    let base = (n + n * (k + 1)) as i32;
    let mut acc = x(0);
    for i in 1..n {
        let t = base + i as i32;
        c.extend(xor(&[acc, x(i), t], false));
        acc = t;
    }
    c.push(vec![if rhs { acc } else { -acc }]);
    f(format!("counter({n},{k},{rhs})"), c, Some((k % 2 == 1) == rhs))
}

/// Clauses of length n: at least one, at most one pairwise, plus exclusions leaving one solution.
pub fn long_clause(n: i32, keep: i32) -> F {
    let mut c = vec![(1..=n).collect::<Cl>()];
    for i in 1..=n {
        if i != keep {
            // i -> both y and not y, hidden behind auxiliary variables
            c.push(vec![-i, n + i]);
            c.push(vec![-i, -(n + i)]);
        }
    }
    c.push((1..=n).map(|i| -(n + i)).chain([keep]).collect());
    f(format!("long({n},{keep})"), c, None)
}

/// Implication chain a1 -> a2 -> ... -> an with the end forced false and `start` forced true.
pub fn chain(n: i32, contradict: bool) -> F {
    let mut c: Vec<Cl> = (1..n).map(|i| vec![-i, i + 1]).collect();
    c.push(vec![1, n + 1]);
    c.push(vec![1, -(n + 1)]);
    if contradict {
        c.push(vec![-n, n + 2]);
        c.push(vec![-n, -(n + 2)]);
    }
    f(format!("chain({n},{contradict})"), c, Some(!contradict))
}

/// Deterministic sgen-like formula: two partitions into blocks of four with a permutation step.
pub fn sgen(blocks: usize, step: usize) -> F {
    let n = blocks * 4 + 1;
    let mut c = vec![];
    for (inv, mul) in [(1, 1usize), (-1, step)] {
        let l: Vec<i32> = (0..n).map(|i| ((i * mul) % n) as i32 + 1).collect();
        for ch in l.chunks_exact(4) {
            for a in 0..4 {
                for b in 0..a {
                    for d in 0..b {
                        c.push(vec![inv * ch[a], inv * ch[b], inv * ch[d]]);
                    }
                }
            }
        }
        let e = *l.last().unwrap();
        for b in 0..4 {
            for d in 0..b {
                c.push(vec![inv * e, inv * l[b], inv * l[d]]);
            }
        }
    }
    // counting argument: more than half of the variables true and more than half false
    let (mut a, mut b) = (n, step);
    while b > 0 {
        (a, b) = (b, a % b);
    }
    f(format!("sgen({blocks},{step})"), c, if a == 1 { Some(false) } else { None })
}

/// Implication structures of adjustable size, with sets of assumptions that are interesting for them. They take the
/// solver through long trails, many decision levels, wide clauses and deep implication graphs.
pub fn scaled(n: i32) -> Vec<(String, Vec<Cl>, Vec<Cl>)> {
    let mut out = vec![];
    let (e, y, g) = (n + 1, n + 2, n + 3);
    // 1 -> 2 -> ... -> n, which is at odds with e, as long as 1
    {
        let mut c: Vec<Cl> = (1..n).map(|i| vec![-i, i + 1]).collect();
        c.push(vec![-n, -1, -e, y]);
        c.push(vec![-n, -1, -e, -y]);
        let a = vec![vec![1, e], vec![-n, e], vec![n / 2 + 1, e], vec![e, 1 + n / 3, -y], vec![1, y, -n], vec![-1, e]];
        out.push((format!("chain({n})"), c, a));
    }
    // the same with long reasons, that also need g
    {
        let mut c: Vec<Cl> = (1..n).rev().map(|i| vec![i + 1, -g, -i, -((i + 1) / 2)]).collect();
        c.push(vec![-n, -e, y, -1]);
        c.push(vec![-n, -1, -e, -y]);
        let a = vec![vec![1, e, g], vec![g, 1, e], vec![1, -n, g, e], vec![g, n / 2, e], vec![e, 1], vec![-g, 1, e]];
        out.push((format!("long chain({n})"), c, a));
    }
    // i and i+1 over two ways, joined by a long clause
    {
        let m = (n / 3).max(1);
        let (x, p, q) = (|i: i32| 3 * i + 1, |i: i32| 3 * i + 2, |i: i32| 3 * i + 3);
        let end = x(m);
        let (e, y) = (end + 1, end + 2);
        let mut c: Vec<Cl> = vec![];
        for i in 0..m {
            c.extend([vec![-x(i), p(i)], vec![-x(i), q(i)], vec![x(i + 1), -p(i), -q(i)]]);
        }
        c.push(vec![-end, -x(0), -e, y]);
        c.push(vec![-end, -e, -y, -p(m / 2)]);
        let a = vec![vec![1, e], vec![e, 1], vec![p(0), q(0), e], vec![e, 1, -end], vec![p(m / 2), e, q(m / 2)], vec![-1, e]];
        out.push((format!("diamonds({n})"), c, a));
    }
    // g makes all of 1..n true, they make z true, z is at odds with e
    {
        let z = n + 4;
        let mut c: Vec<Cl> = (1..=n).map(|i| vec![-g, i]).collect();
        c.push((1..=n).map(|i| -i).chain([z]).collect());
        c.push(vec![-z, -e, y]);
        c.push(vec![-e, -y, -z]);
        let all: Cl = (1..=n).chain([e]).collect();
        let most: Cl = (1..n).chain([-z]).collect();
        let a = vec![vec![g, e], vec![e, g], vec![e, -g], vec![-z, g], all, most];
        out.push((format!("fan({n})"), c, a));
    }
    // a wide clause without any level in common
    {
        let mut c: Vec<Cl> = vec![(1..=n).chain([y]).collect(), (1..=n).chain([-y, -e]).collect()];
        c.extend((1..n).step_by(3).map(|i| vec![-i, -(i + 1)]));
        c.push(vec![-1, e, g]);
        let none: Cl = (1..=n).map(|i| -i).collect();
        let some: Cl = (1..=n).filter(|i| i % 2 == 0).map(|i| -i).chain([e]).collect();
        let back: Cl = (1..=n).rev().filter(|i| i % 3 > 0).map(|i| -i).chain([e]).collect();
        let mut last = none.clone();
        last.insert(0, e);
        let a = vec![none, last, some, back, vec![e], vec![-e, -g]];
        out.push((format!("wide({n})"), c, a));
    }
    // one decision per pair, conflicts between pairs that are far apart
    {
        let m = (n / 2).max(3);
        let (l, r) = (|i: i32| 2 * i + 1, |i: i32| 2 * i + 2);
        let mut c: Vec<Cl> = (0..m).map(|i| vec![l(i), r(i)]).collect();
        for (i, k) in [(0, m - 1), (0, m / 2), (m / 3, m - 1), (m / 3, m / 2), (1, m - 2)] {
            for (a, b) in [(l(i), l(k)), (r(i), r(k)), (l(i), r(k)), (r(i), l(k))].iter().take(3) {
                c.push(vec![-a, -b, e]);
            }
        }
        c.push((0..m).map(|i| -l(i)).chain([-e]).collect());
        c.push((0..m).map(|i| -r(i)).chain([-e]).collect());
        let e2: Cl = (0..m).map(l).chain([e]).collect();
        let e3: Cl = (0..m - 1).rev().map(|i| -l(i)).chain([e]).collect();
        let a = vec![vec![-e], vec![e], e2, e3, vec![l(m / 2), r(m - 1), -e], vec![-l(0), -e]];
        out.push((format!("pairs({n})"), c, a));
    }
    // wide clauses with repeated and opposite literals
    {
        let all: Cl = (1..=n).collect();
        let neg: Cl = (1..=n).rev().map(|i| -i).collect();
        let with = |c: &Cl, more: &[i32]| c.iter().chain(more).cloned().collect::<Cl>();
        let mut c: Vec<Cl> = vec![with(&all, &[-n]), with(&neg, &[n / 2 + 1, e]), with(&with(&all, &all), &[y]), with(&with(&neg, &[-e]), &neg), with(&all, &neg)];
        c.extend((1..n).step_by(3).map(|i| vec![i, -(i + 1), e, i]));
        c.extend([vec![-e, y, g], vec![-e, -y, g, -e], vec![-e, e, 1]]);
        c.extend((0..n).map(|i| if i % 2 == 0 { vec![-2, e, y] } else { vec![e, -2, y] }));
        let a = vec![with(&neg, &[-y]), vec![e], with(&all[..n as usize - 1].to_vec(), &[-g]), vec![1, -n, -g, -e], vec![-g, e], with(&all, &[])];
        out.push((format!("repeats({n})"), c, a));
    }
    out
}

/// All polarities flipped, or every second one.
pub fn flipped(cls: &[Cl], how: usize) -> Vec<Cl> {
    let f = |l: &i32| if how == 1 || how == 2 && l % 2 == 0 { -l } else { *l };
    cls.iter().map(|c| c.iter().map(f).collect()).collect()
}

/// Formulas of a given size that are hard to get right because of their size.
pub fn scaled_formulas(n: i32) -> Vec<F> {
    let mut v = vec![];
    for (name, cls, sets) in scaled(n) {
        for (k, a) in sets.iter().enumerate() {
            let vars = crate::refsat::max_var(&cls) as i32;
            let sat = crate::refsat::dpll(&crate::refsat::with_units(&cls, a), 0).is_some();
            for how in 0..3 {
                let mut c = cls.clone();
                // the assumptions follow, but not by unit propagation
                for (i, &l) in a.iter().enumerate() {
                    match how {
                        2 if i % 2 == 0 => c.push(vec![l]),
                        _ => c.extend([vec![l, vars + 1 + i as i32], vec![l, -(vars + 1 + i as i32)]]),
                    }
                }
                v.push(f(format!("{name} with {k}, {how}"), flipped(&c, how), Some(sat)));
            }
        }
    }
    v
}

/// Conditional pigeon hole: row i only has to be placed when its enabling literal holds.
pub fn cond_php(p: i32, h: i32) -> (F, Vec<i32>) {
    let mut g = php(p, h, false);
    let base = p * h;
    let mut en = vec![];
    for i in 0..p {
        g.cls[i as usize].push(-(base + i + 1));
        en.push(base + i + 1);
    }
    g.name = format!("cond_php({p},{h})");
    g.sat = Some(true);
    (g, en)
}

/// Medium formulas: a few to a few thousand conflicts each.
pub fn medium() -> Vec<F> {
    let mut v = vec![];
    for n in 1..=4 {
        v.push(php(n + 1, n, false));
        v.push(php(n + 1, n, true));
        v.push(php(n, n, true));
    }
    v.push(php(6, 5, false));
    for (nm, e, n) in [
        ("k4", complete_graph(4), 4),
        ("k5", complete_graph(5), 5),
        ("c7", cycle(7), 7),
        ("w5", wheel(5), 6),
        ("w6", wheel(6), 7),
        ("g33", grid(3, 3), 9),
        ("g43", grid(4, 3), 12),
        ("pet", petersen(), 10),
    ] {
        for charge in [0, 1, 3, 6, 7] {
            v.push(tseitin(nm, &e, n, charge));
        }
        for k in 2..=4 {
            v.push(coloring(nm, &e, n, k));
        }
    }
    for n in 3..=6 {
        v.push(ordering(n));
        v.push(ramsey(n as usize));
    }
    for n in 4..=10 {
        v.push(vdw(3, 3, n));
    }
    for n in [16, 17, 18] {
        v.push(vdw(3, 4, n));
    }
    for n in [4, 5, 10, 13, 14] {
        v.push(schur(if n < 8 { 2 } else { 3 }, n));
    }
    for n in 2..=7 {
        v.push(queens(n));
    }
    for k in 1..=7 {
        v.push(full(k));
    }
    for (n, b) in [(15, 3), (21, 3), (35, 3), (49, 3), (13, 3), (29, 3), (37, 3), (143, 4), (121, 4), (169, 4), (127, 4), (221, 4)] {
        v.push(factoring(n, b));
    }
    for (n, w) in [(6, 3), (9, 3), (12, 4), (15, 4), (20, 5), (13, 5)] {
        v.push(parity_unique(n, w));
    }
    for h in 1..=5 {
        v.push(pebbling(h, false));
        v.push(pebbling(h, true));
    }
    for (n, k) in [(5, 2), (6, 3), (7, 3), (8, 4)] {
        v.push(counter_parity(n, k, true));
        v.push(counter_parity(n, k, false));
    }
    for n in [4, 5, 9, 17, 33, 70] {
        v.push(long_clause(n, 1));
        v.push(long_clause(n, n));
        v.push(long_clause(n, n / 2));
    }
    for n in [2, 3, 10, 300] {
        v.push(chain(n, false));
        v.push(chain(n, true));
    }
    for b in 1..=4 {
        for s in [2, 3, 5] {
            v.push(sgen(b, s));
        }
    }
    v
}

/// Harder ones (thousands to tens of thousands of conflicts); verdicts known.
pub fn hard() -> Vec<F> {
    let mut v = vec![
        php(7, 6, false),
        php(8, 7, false),
        php(7, 6, true),
        factoring(3599, 6),
        factoring(1763, 6),
        factoring(2021, 6),
        factoring(3593, 6),
        factoring(250_007, 10),
        factoring(499 * 997, 10),
        queens(9),
        queens(14),
        counter_parity(11, 5, false),
        counter_parity(14, 6, false),
        counter_parity(16, 8, false),
        parity_unique(30, 6),
        parity_unique(48, 6),
        ordering(9),
        ordering(11),
    ];
    let t = |mut f: F, sat: bool| {
        f.sat = Some(sat);
        f
    };
    // odd total charge: unsatisfiable, even: satisfiable (connected graphs)
    v.push(t(tseitin("g55", &grid(5, 5), 25, 1), false));
    v.push(t(tseitin("g55", &grid(5, 5), 25, 1 + (1 << 24)), true));
    v.push(t(tseitin("g66", &grid(6, 5), 30, 1 << 7), false));
    v.push(t(vdw(3, 5, 21), true));
    v.push(t(vdw(3, 5, 22), false));
    v.push(t(vdw(4, 4, 34), true));
    v.push(t(vdw(4, 4, 35), false));
    v.push(sgen(6, 7));
    v.push(sgen(8, 7));
    v.push(sgen(9, 11));
    v.push(sgen(10, 7));
    v
}

/// Tens to hundreds of thousands of conflicts.
pub fn very_hard() -> Vec<F> {
    let mut v = vec![php(9, 8, false), php(10, 9, false), factoring(3_999_971, 11), factoring(1_018_081, 10), counter_parity(20, 10, false)];
    let t = |mut f: F, sat: bool| {
        f.sat = Some(sat);
        f
    };
    v.push(t(tseitin("g66", &grid(6, 6), 36, 1), false));
    v.push(sgen(11, 7));
    v.push(sgen(12, 5));
    v
}

/// Renamings, polarity flips and clause orders. `k` ranges over `0..VARIANTS`.
pub const VARIANTS: usize = 12;
pub fn variant(cls: &[Cl], k: usize) -> Vec<Cl> {
    let n = crate::refsat::max_var(cls).max(1) as i32;
    let (perm, pol, ord) = match k {
        0 => (0, 0, 0),
        1 => (0, 1, 0),
        2 => (0, 2, 0),
        3 => (1, 0, 0),
        4 => (2, 0, 1),
        5 => (0, 0, 1),
        6 => (0, 3, 2),
        7 => (3, 1, 2),
        8 => (2, 2, 3),
        9 => (1, 3, 4),
        10 => (3, 0, 5),
        _ => (1, 2, 6),
    };
    let map = |l: i32| -> i32 {
        let v = l.abs() - 1;
        let w = match perm {
            0 => v,
            1 => n - 1 - v,
            2 => (v + n / 2) % n,
            // interleave: even positions first
            _ => {
                if v % 2 == 0 {
                    v / 2
                } else {
                    (n + 1) / 2 + v / 2
                }
            }
        } + 1;
        let flip = match pol {
            0 => false,
            1 => true,
            2 => w % 2 == 0,
            _ => w % 3 == 1,
        };
        let s = if (l < 0) ^ flip { -1 } else { 1 };
        s * w
    };
    let mut c: Vec<Cl> = cls.iter().map(|c| c.iter().map(|&l| map(l)).collect()).collect();
    match ord {
        0 => (),
        1 => c.reverse(),
        2 => {
            let (a, b): (Vec<_>, Vec<_>) = c.into_iter().enumerate().partition(|(i, _)| i % 2 == 0);
            c = a.into_iter().chain(b).map(|x| x.1).collect();
        }
        3 => c.iter_mut().for_each(|c| c.reverse()),
        4 => c.sort_by_key(|c| c.len()),
        5 => c.sort_by_key(|c| usize::MAX - c.len()),
        _ => {
            let h = c.len() / 3;
            c.rotate_left(h);
        }
    }
    c
}
