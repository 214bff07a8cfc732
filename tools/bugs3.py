"""Planted bugs, third batch. See mkbug.py."""
from mkbug import bug
from bugs1 import PRE
V="varisat/src/"; K="varisat-checker/src/"
RND='''
struct Rng(u64);
impl Rng { fn next(&mut self, n: u64) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 >> 11) % n } }
#[allow(dead_code)]
fn ksat(r: &mut Rng, vars: u64, clauses: usize) -> Vec<Vec<isize>> {
    (0..clauses).map(|_| { let mut c: Vec<isize> = vec![]; while c.len() < 3 { let v = r.next(vars) as isize + 1;
        if !c.iter().any(|x| x.abs() == v) { c.push(if r.next(2) == 0 { v } else { -v }) } } c }).collect()
}
#[allow(dead_code)]
fn php(n: isize, m: isize) -> Vec<Vec<isize>> {
    let v = |p: isize, h: isize| p * m + h + 1;
    let mut f: Vec<Vec<isize>> = (0..n).map(|p| (0..m).map(|h| v(p, h)).collect()).collect();
    for h in 0..m { for q in 0..n { for p in q + 1..n { f.push(vec![-v(q, h), -v(p, h)]) } } }
    f
}
'''
bug("c25-luby-cap", "C25",
 "More than 64 restarts, so that the Luby sequence reaches its term 64 at position 127.",
 "The restart intervals stop growing, the sequence is no longer the Luby sequence.",
 [(V+"schedule/luby.rs", "if (self.u & self.u.wrapping_neg()) == self.v {", "if (self.u & self.u.wrapping_neg()) == self.v || self.v == 32 {")],
 PRE+RND+'''
use std::sync::Mutex;
static LOG: Mutex<Vec<String>> = Mutex::new(vec![]);
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { LOG.lock().unwrap().push(format!("{}", r.args())) }
    fn flush(&self) {}
}
fn luby(i: u64) -> u64 { let mut k = 1; while (1u64 << k) - 1 < i { k += 1 } if (1 << k) - 1 == i { 1 << (k - 1) } else { luby(i - (1 << (k - 1)) + 1) } }
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Info);
    let mut s = Solver::new();
    let mut conf = varisat::config::SolverConfigUpdate::new();
    conf.luby_restart_interval_scale = Some(1);
    s.config(&conf).unwrap();
    for x in php(9, 8) { c(&mut s, &x) }
    assert!(!s.solve().unwrap());
    let log = LOG.lock().unwrap();
    let mut seen = 0;
    for line in log.iter().filter(|l| l.starts_with("confl: ")) {
        let w: Vec<&str> = line.split(' ').collect();
        let confl: u64 = w[1].trim_end_matches('k').parse::<u64>().unwrap() * 1000;
        let rest: u64 = w[3].parse().unwrap();
        let (mut next, mut n) = (0, 0);
        while next < confl { n += 1; next += luby(n) }
        assert_eq!(rest, n, "restarts after {confl} conflicts");
        seen += 1;
    }
    assert!(seen > 0);
}
''')
bug("c25-mids-stay", "C25",
 "A mid-tier clause that was used once and then never again, over several mid reductions.",
 "Mid clauses that were ever used stay forever instead of becoming deletable, so learned clauses pile up.",
 [(V+"clause/reduce.rs", """            header.set_active(false);
            true
""", """            header.set_active(header.glue() < 5);
            true
""")], PRE+RND+'''
fn main() {
    // conflicts per live learned clause, from the DRAT proof
    let mut worst = 0;
    for k in 0..6 {
        let mut r = Rng(88172645463325252 + k);
        let f = ksat(&mut r, 150, 640);
        let mut out = vec![];
        {
            let mut s = Solver::new();
            s.write_proof(&mut out, varisat::ProofFormat::Drat);
            let mut conf = varisat::config::SolverConfigUpdate::new();
            conf.luby_restart_interval_scale = Some(5);
            conf.reduce_locals_interval = Some(50);
            conf.reduce_mids_interval = Some(50);
            s.config(&conf).unwrap();
            for x in &f { c(&mut s, x) }
            let _ = s.solve().unwrap();
            s.close_proof().unwrap();
        }
        let text = String::from_utf8(out).unwrap();
        let (mut live, mut max) = (0i64, 0i64);
        for line in text.lines() {
            let n = line.split(' ').count();
            if line.starts_with("d ") { if n > 4 { live -= 1 } } else if n > 3 { live += 1 }
            max = max.max(live);
        }
        println!("{max} of {}", text.lines().count());
        worst = worst.max(max);
    }
    assert!(worst < LIMIT);
}
'''.replace("LIMIT","800"))
bug("c14-short-write", "C14",
 "A sink that takes only part of the bytes of a write of the clause separator.",
 "Clauses of the written text run into each other.",
 [("varisat-dimacs/src/lib.rs", '        target.write_all(b"0\\n")?;', '        target.write(b"0\\n").map(|_| ())?;')], PRE+'''
struct Short(Vec<u8>);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(1); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut f = varisat::CnfFormula::new();
    for x in [&[1isize, 2][..], &[-1], &[], &[3, -2, 1]] { c(&mut f, x) }
    let mut out = Short(vec![]);
    varisat_dimacs::write_dimacs(&mut out, &f).unwrap();
    let g = varisat_dimacs::DimacsParser::parse(&out.0[..]).unwrap();
    assert_eq!(f, g);
}
''')

