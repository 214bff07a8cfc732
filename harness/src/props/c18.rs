//! C18: the native proof encoding.
use crate::engine::*;
use crate::steps::Step;
use std::io::{self, BufRead, Read};
use std::sync::Arc;
use varisat_internal_proof::binary_format::Parser;

const MAX: i32 = 1 << 28;

/// Buffered reader that refills exactly at the given positions (and every `every` bytes).
struct Chunks<'a> {
    data: &'a [u8],
    pos: usize,
    cuts: &'a [usize],
    every: usize,
    /// report an interruption before each refill
    interrupt: bool,
    pending: bool,
    end: usize,
}
impl<'a> Chunks<'a> {
    fn new(data: &'a [u8], cuts: &'a [usize], every: usize, interrupt: bool) -> Chunks<'a> {
        Chunks { data, pos: 0, cuts, every, interrupt, pending: interrupt, end: 0 }
    }
}
impl<'a> Read for Chunks<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let have = self.fill_buf()?;
        let n = have.len().min(b.len());
        b[..n].copy_from_slice(&have[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl<'a> BufRead for Chunks<'a> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos >= self.end && self.pos < self.data.len() {
            if self.pending {
                self.pending = false;
                return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
            }
            self.pending = self.interrupt;
            let mut e = self.data.len();
            if self.every > 0 {
                e = e.min((self.pos / self.every + 1) * self.every);
            }
            for &c in self.cuts {
                if c > self.pos {
                    e = e.min(c);
                }
            }
            self.end = e;
        }
        Ok(&self.data[self.pos..self.end.max(self.pos)])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        assert!(self.pos <= self.end, "consumed more than was buffered");
    }
}

fn bytes(steps: &[Step]) -> (Vec<u8>, Vec<usize>) {
    let mut b = vec![];
    let mut ends = vec![];
    for s in steps {
        s.write(&mut b);
        ends.push(b.len());
    }
    (b, ends)
}

/// Parse exactly the given steps.
fn readback(steps: &[Step], data: &[u8], ends: &[usize], cuts: &[usize], every: usize, interrupt: bool) -> CaseResult {
    let mut r = Chunks::new(data, cuts, every, interrupt);
    let mut p = Parser::default();
    for (k, s) in steps.iter().enumerate() {
        let e = |m: String| format!("step {k} of {steps:?}, refills at {cuts:?}, every {every}: {m}");
        let got = p.parse_step(&mut r).map_err(|x| e(format!("{x}")))?;
        let got = Step::of(&got);
        if got != *s {
            return Err(e(format!("read back as {got:?}")));
        }
        if r.pos != ends[k] {
            return Err(e(format!("consumed {} bytes, written were {}", r.pos, ends[k])));
        }
    }
    match p.parse_step(&mut r) {
        Ok(s) => Err(format!("{steps:?}: read {:?} after the end", Step::of(&s))),
        Err(e) => eof(&e).map_err(|m| format!("{steps:?}: {m} after the end")),
    }
}

fn eof(e: &anyhow::Error) -> CaseResult {
    match e.downcast_ref::<io::Error>() {
        Some(e) if e.kind() == io::ErrorKind::UnexpectedEof => Ok(()),
        _ => Err(format!("the error is {e:?} rather than end of input")),
    }
}

/// Values around every power of two.
fn boundaries(d: u64) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    for k in 0..64 {
        for o in 0..=d {
            v.push((1u64 << k).wrapping_add(o));
            v.push((1u64 << k).wrapping_sub(o));
            v.push(!0u64 << k);
            v.push(!0u64 >> k);
            v.push((!0u64 << k).wrapping_sub(o));
            v.push((1u64 << k) | (o << 8));
        }
    }
    for b in 0..8 {
        for x in [0x80u64, 0x01, 0x55, 0xaa, 0xff] {
            v.push(x << (8 * b));
            v.push((x << (8 * b)) | 1);
            v.push((x << (8 * b)) | 1 << 63);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Steps of all kinds with values at the boundaries.
fn alphabet(rich: bool) -> Vec<Step> {
    let mut vars: Vec<i32> = vec![1, 2, 63, 64, 65, 127, 128, 129, 8192, 8193, 16384, 16385, 1 << 20, (1 << 20) + 1, 1 << 21, (1 << 21) + 1, 1 << 27, (1 << 27) + 1, MAX - 1, MAX];
    if !rich {
        vars = vec![1, 64, 65, 8193, MAX];
    }
    let mut out = vec![Step::End, Step::Bits(0), Step::Bits(6), Step::Bits(64), Step::Bits(127), Step::Bits(128), Step::Bits(u32::MAX)];
    let lits: Vec<i32> = vars.iter().flat_map(|&v| [v, -v]).collect();
    let h: Vec<u64> = if rich { boundaries(1) } else { vec![0, 127, 128, (1 << 56) - 1, 1 << 56, u64::MAX] };
    for &v in &vars {
        for &w in if rich { &vars[..] } else { &vars[..2] } {
            out.push(Step::SolverName(v, Some(w)));
            out.push(Step::UserName(v, Some(w)));
        }
        out.push(Step::SolverName(v, None));
        out.push(Step::UserName(v, None));
        out.push(Step::DeleteVar(v));
        out.push(Step::Mode(v, true));
        out.push(Step::Mode(v, false));
    }
    let mut clauses: Vec<Vec<i32>> = vec![vec![], lits.clone(), vec![1, -1, 1]];
    clauses.extend(lits.iter().map(|&l| vec![l]));
    for (k, c) in clauses.iter().enumerate() {
        out.push(Step::Add(c.clone()));
        out.push(Step::Model(c.clone()));
        out.push(Step::Assume(c.clone()));
        for p in 0..3 {
            out.push(Step::Delete(c.clone(), p));
        }
        let some = |m: usize| h.iter().skip(k % 3).step_by(m).cloned().collect::<Vec<u64>>();
        for hs in [vec![], some(7), vec![h[k % h.len()]]] {
            out.push(Step::At(k % 2 == 0, c.clone(), hs.clone()));
            out.push(Step::Failed(c.clone(), hs));
        }
        out.push(Step::Units(c.iter().enumerate().map(|(i, &l)| (l, h[(i * 5 + k) % h.len()])).collect()));
    }
    out
}

fn name(s: &Step) -> &'static str {
    match s {
        Step::SolverName(..) => "solver name",
        Step::UserName(..) => "user name",
        Step::DeleteVar(_) => "delete variable",
        Step::Mode(..) => "sampling mode",
        Step::Add(_) => "add",
        Step::At(..) => "at",
        Step::Units(_) => "units",
        Step::Delete(..) => "delete",
        Step::Bits(_) => "hash bits",
        Step::Model(_) => "model",
        Step::Assume(_) => "assumptions",
        Step::Failed(..) => "failed",
        Step::End => "end",
    }
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    {
        let vals = Arc::new(boundaries(if thorough { 200 } else { 9 }));
        let n = vals.len() as u64;
        fam.push(Family::new(
            "numbers at encoding boundaries",
            format!("{n} values around all powers of two as clause hash, with 0..=18 bytes of lookahead left, refills at every position"),
            n,
            move |i, rec| {
                let v = vals[i as usize];
                for follow in 0..=18usize {
                    rec.eval();
                    let mut steps = vec![Step::At(true, vec![], vec![v, 5, v])];
                    steps.extend((0..follow).map(|k| Step::Bits(k as u32 % 3)));
                    let (data, ends) = bytes(&steps);
                    readback(&steps, &data, &ends, &[], 0, false)?;
                    rec.step();
                    if follow % 6 == 0 {
                        for cut in 1..data.len() {
                            readback(&steps, &data, &ends, &[cut], 0, cut % 2 == 0)?;
                            rec.step();
                        }
                        for every in [1, 2, 3, 5, 7, 15, 16, 17] {
                            readback(&steps, &data, &ends, &[], every, every % 2 == 1)?;
                            rec.step();
                        }
                    }
                }
                rec.nontrivial(v);
                Ok(())
            },
        ));
    }
    {
        let n: u64 = if thorough { 1 << 28 } else { 1 << 24 };
        fam.push(Family::new(
            "all small and all leading numbers",
            format!("every value below {n} and every such value shifted to the top of the 64 bits, as clause hash"),
            n >> 8,
            move |i, rec| {
                let mut hs: Vec<u64> = (i << 8..(i + 1) << 8).collect();
                let lz = n.leading_zeros() + 1;
                hs.extend((i << 8..(i + 1) << 8).map(|x| x << lz | x >> 3));
                hs.extend((i << 8..(i + 1) << 8).map(|x| x << (lz - 8)));
                rec.evals += hs.len() as u64;
                rec.nontrivial(i);
                let steps = [Step::Failed(vec![], hs)];
                let (data, ends) = bytes(&steps);
                readback(&steps, &data, &ends, &[], 0, false)?;
                if i % 8 == 0 {
                    readback(&steps, &data, &ends, &[], 15, false)?;
                    readback(&steps, &data, &ends, &[], 41, false)?;
                }
                Ok(())
            },
        ));
    }
    {
        let al = Arc::new(alphabet(true));
        let n = al.len() as u64;
        fam.push(Family::new(
            "single steps",
            format!("{n} steps of all kinds with boundary values: whole, refilled at every position and every pair of positions, and every proper prefix"),
            n,
            move |i, rec| {
                let s = &al[i as usize];
                rec.outcome(name(s));
                rec.nontrivial(fp(s));
                rec.sample(|| format!("{s:?}"));
                let steps = [s.clone(), Step::Bits(3), Step::Delete(vec![-7], 2)];
                let (data, ends) = bytes(&steps);
                let first = ends[0];
                for a in 1..data.len() {
                    rec.eval();
                    readback(&steps, &data, &ends, &[a], 0, a % 3 == 0)?;
                    if a <= 20 {
                        for b in a + 1..data.len().min(a + 20) {
                            rec.eval();
                            readback(&steps, &data, &ends, &[a, b], 0, false)?;
                        }
                    }
                }
                for every in 1..=40 {
                    rec.eval();
                    readback(&steps, &data, &ends, &[], every, every % 2 == 0)?;
                }
                for cut in 0..first {
                    for every in [0, 1, 3, 16] {
                        rec.eval();
                        let part = &data[..cut];
                        let mut r = Chunks::new(part, &[], every, false);
                        let mut p = Parser::default();
                        match p.parse_step(&mut r) {
                            Ok(t) => return Err(format!("{s:?} cut to {cut} of {first} bytes reads as {:?}", Step::of(&t))),
                            Err(e) => eof(&e).map_err(|m| format!("{s:?} cut to {cut} of {first} bytes: {m}"))?,
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    {
        let al = Arc::new(alphabet(false));
        let n = al.len();
        let depth = if thorough { 3 } else { 2 };
        fam.push(Family::new(
            "sequences of steps",
            format!("every sequence of {depth} out of {n} steps read by one parser, in one piece, byte by byte and in pieces of 3, 16 and 17 bytes"),
            pow(n, depth),
            move |i, rec| {
                let mut d = Digits(i);
                let steps: Vec<Step> = (0..depth).map(|_| al[d.take(n)].clone()).collect();
                let (data, ends) = bytes(&steps);
                rec.trace();
                rec.state(fp(&data));
                rec.nontrivial(i);
                for every in [0, 1, 3, 16, 17] {
                    rec.eval();
                    rec.transitions += depth as u64;
                    readback(&steps, &data, &ends, &[], every, every == 3)?;
                }
                Ok(())
            },
        ));
    }
    {
        let lens: Vec<usize> = {
            let mut v: Vec<usize> = (0..300).collect();
            for k in [1 << 10, 1 << 13, 1 << 14, 1 << 16, 1 << 17] {
                v.extend([k - 2, k - 1, k, k + 1]);
            }
            if thorough {
                v.extend([(1 << 21) - 1, 1 << 21, (1 << 21) + 1]);
            }
            v
        };
        let n = lens.len() as u64;
        fam.push(Family::new(
            "long steps",
            format!("clauses, hash lists and unit lists of {n} lengths up to {}", lens.iter().max().unwrap()),
            n * 4,
            move |i, rec| {
                let len = lens[(i / 4) as usize];
                let c: Vec<i32> = (0..len as i32).map(|k| if k % 3 == 0 { -(k * 7 + 1) } else { k + 1 }).collect();
                let h: Vec<u64> = (0..len as u64).map(|k| k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (k % 64)).collect();
                let s = match i % 4 {
                    0 => Step::Add(c),
                    1 => Step::At(true, c, h),
                    2 => Step::Units(c.iter().cloned().zip(h.iter().cloned()).collect()),
                    _ => Step::Failed(vec![3], h),
                };
                rec.nontrivial(i);
                let steps = [s, Step::End, Step::Add(vec![]), Step::Units(vec![])];
                let (data, ends) = bytes(&steps);
                for every in [0, 1, 13, 4096] {
                    rec.eval();
                    readback(&steps, &data, &ends, &[], every, false)?;
                }
                Ok(())
            },
        ));
    }
    {
        // sinks that accept few bytes at a time
        let al = Arc::new(alphabet(true));
        let n = al.len() as u64;
        fam.push(Family::new("short writes", format!("{n} steps written to sinks that take 1..=9 bytes at a time or are interrupted"), n, move |i, rec| {
            struct Short(Vec<u8>, usize, bool);
            impl io::Write for Short {
                fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                    self.2 = !self.2;
                    if self.2 && self.1 % 2 == 0 {
                        return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
                    }
                    let n = b.len().min(self.1);
                    self.0.extend_from_slice(&b[..n]);
                    Ok(n)
                }
                fn flush(&mut self) -> io::Result<()> {
                    Ok(())
                }
            }
            let s = &al[i as usize];
            let (want, _) = bytes(&[s.clone()]);
            rec.nontrivial(fp(&("w", s)));
            for k in 1..=9 {
                rec.eval();
                let mut w = Short(vec![], k, false);
                s.with(|p| varisat_internal_proof::binary_format::write_step(&mut w, &p)).map_err(|e| format!("{s:?}: {e}"))?;
                if w.0 != want {
                    return Err(format!("{s:?}: written differently {k} bytes at a time"));
                }
            }
            Ok(())
        }));
    }
    Check {
        id: "C18",
        level: "exploration",
        rule: "every case writes steps with the real encoder and reads them back through the real parser with the stated refill positions; distinct by value, step or sequence",
        assumptions: vec!["values between the enumerated boundaries behave like their neighbours of the same encoded length"],
        families: fam,
    }
}
