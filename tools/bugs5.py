"""Planted bugs, fifth batch. See mkbug.py."""
from mkbug import bug
from bugs1 import PRE
V="varisat/src/"; K="varisat-checker/src/"; P="varisat-internal-proof/src/"
bug("c01-watch-window", "C01",
 "A clause with more than 64 literals whose first 64 literals become false while later ones are open or true.",
 "The search for a new watched literal gives up, the clause propagates or conflicts although it is not unit: wrong verdicts.",
 [(V+"prop/long.rs", "            let lit_end = clause_ptr.add(clause_len);", "            // Everything beyond the first cache lines is rarely useful\n            let lit_end = clause_ptr.add(clause_len.min(64));")],
 PRE+'''
fn main() {
    let mut s = Solver::new();
    let w: Vec<isize> = (1..=70).collect();
    c(&mut s, &w);
    for i in 1..=69 { c(&mut s, &[-100, -i]); }
    c(&mut s, &[-100, -70, 80]);
    // 100 makes 1..69 false; 70 can still be true
    s.assume(&[l(-80), l(100)]);
    assert!(!s.solve().unwrap());
    let mut s = Solver::new();
    let w: Vec<isize> = (1..=70).collect();
    c(&mut s, &w);
    for i in 1..=66 { c(&mut s, &[-100, -i]); }
    c(&mut s, &[-67, 80, 81]);
    s.assume(&[l(100), l(-68), l(-69)]);
    assert!(s.solve().unwrap());
    s.assume(&[l(100), l(-70), l(-69)]);
    assert!(s.solve().unwrap());
    s.assume(&[l(100), l(-70), l(-69), l(-68)]);
    assert!(s.solve().unwrap());
    s.assume(&[l(100), l(-70), l(-67), l(-68)]);
    assert!(s.solve().unwrap());
}
''')
bug("c01-deep-minimize", "C01",
 "A learned clause with a literal whose implication has more than 48 open predecessors at the levels of the clause.",
 "The recursive minimization gives up and removes the literal, so the learned clause does not follow: wrong verdicts.",
 [(V+"analyze_conflict.rs", "                        analyze.stack.push(!reason_lit);\n", "                        analyze.stack.push(!reason_lit);\n                        // Do not spend too much time on a single literal\n                        if analyze.stack.len() > 48 {\n                            analyze.stack.clear();\n                            break;\n                        }\n")],
 PRE+'''
fn main() {
    let mut s = Solver::new();
    // d -> x1..x100, x1..x100 -> a, a & e -> conflict
    let (d, a, e, y) = (201, 202, 203, 204);
    let mut w = vec![a];
    for i in 1..=100 { c(&mut s, &[-d, i]); w.push(-i); }
    c(&mut s, &w);
    c(&mut s, &[-e, -a, y]);
    c(&mut s, &[-e, -a, -y]);
    s.assume(&[l(d), l(e)]);
    assert!(!s.solve().unwrap());
    s.assume(&[l(-d), l(e)]);
    assert!(s.solve().unwrap());
}
''')
bug("c02-satisfied-assumptions", "C02",
 "Assumptions that hold in the last model, then a further clause, then another solve.",
 "The assumptions are not recorded, so the next model can contradict them.",
 [(V+"solver.rs", """    pub fn assume(&mut self, assumptions: &[Lit]) {
""", """    pub fn assume(&mut self, assumptions: &[Lit]) {
        // Keep the current model if it also satisfies the new assumptions
        if let Some(model) = self.model() {
            if !assumptions.is_empty() && assumptions.iter().all(|lit| model.contains(lit)) {
                return;
            }
        }
""")], PRE+'''
fn main() {
    let mut s = Solver::new();
    c(&mut s, &[1, 2]);
    s.assume(&[l(1), l(-2)]);
    assert!(s.solve().unwrap());
    s.assume(&[l(1)]);
    c(&mut s, &[2, 3]);
    c(&mut s, &[2, -3]);
    assert!(s.solve().unwrap());
    assert!(s.model().unwrap().contains(&l(1)));
}
''')
bug("c05-hash-order", "C05",
 "A conflict with more than 256 literals on the trail whose clause minimization uses reasons on both sides of position 256.",
 "The propagation hashes of the minimized clause come in the wrong order: the checker rejects a correct proof.",
 [(V+"analyze_conflict.rs", "            .sort_unstable_by_key(|&(depth, _)| !depth);", "            .sort_unstable_by_key(|&(depth, _)| !(depth as u8));")],
 PRE+'''
use varisat::ProofFormat;
fn main() {
    let mut proof = vec![];
    let mut s = Solver::new();
    s.write_proof(&mut proof, ProofFormat::Varisat);
    let n = 400;
    let mut k = varisat_checker::Checker::new();
    let mut f = |v: &[isize], s: &mut Solver| {
        c(s, v);
        k.add_clause(&v.iter().map(|&i| l(i)).collect::<Vec<_>>()).unwrap();
    };
    for i in 1..n { f(&[-i, i + 1], &mut s); }
    // n & e -> conflict, with a long way back to 1
    f(&[-n, -1, -500, 501], &mut s);
    f(&[-n, -1, -500, -501], &mut s);
    s.assume(&[l(1), l(500)]);
    s.solve().unwrap();
    s.close_proof().unwrap();
    drop(s);
    k.check_proof(&proof[..]).unwrap();
}
''')
