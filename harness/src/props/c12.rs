//! C12: the DIMACS parser against the reference reader.
use crate::dimacs::{self, Expected, Fault, Text};
use crate::engine::*;
use crate::hist::ints;
use varisat_dimacs::{DimacsParser, ParserError};
use varisat_formula::CnfFormula;

pub fn fault_of(e: &anyhow::Error) -> Result<Fault, String> {
    match e.downcast_ref::<ParserError>() {
        Some(e) => parser_fault(e),
        None => Err(format!("error is not a ParserError: {e:?}")),
    }
}

pub fn parser_fault(e: &ParserError) -> Result<Fault, String> {
    Ok(match e {
        ParserError::UnexpectedInput { line, unexpected } => Fault::Unexpected { line: *line, byte: *unexpected as u32 as u8 },
        ParserError::LiteralTooLarge { line, index, final_digit } => Fault::TooLarge { line: *line, index: *index, digit: *final_digit },
        ParserError::InvalidHeader { line, .. } => Fault::Header { line: *line },
        ParserError::UnterminatedClause { line } => Fault::Unterminated { line: *line },
        ParserError::VarCount { var_count, header_var_count } => Fault::VarCount { have: *var_count, header: *header_var_count },
        ParserError::ClauseCount { clause_count, header_clause_count } => {
            Fault::ClauseCount { have: *clause_count, header: *header_clause_count }
        }
        e => return Err(format!("unexpected error {e:?}")),
    })
}

pub fn text_of(f: &CnfFormula) -> Vec<Vec<i32>> {
    f.iter().map(|c| ints(c)).collect()
}

pub fn show(b: &[u8]) -> String {
    format!("input {:?}", String::from_utf8_lossy(b))
}

pub fn judge(input: &[u8], rec: &mut Rec) -> CaseResult {
    rec.eval();
    let got = catch(|| DimacsParser::parse(input)).map_err(|p| format!("the parser panicked: {p}: {}", show(input)))?;
    let want = dimacs::read(input);
    match (&want, got) {
        (Expected::Open, _) => rec.outcome("open"),
        (Expected::Formula(t), Ok(f)) => {
            rec.outcome("accepted");
            let have = Text { clauses: text_of(&f), vars: f.var_count(), header: t.header };
            if have != *t || f.len() != t.clauses.len() {
                return Err(format!("parsed as {have:?}, expected {t:?}: {}", show(input)));
            }
            // the other way to get at it
            let p = catch(|| DimacsParser::parse_incremental(input, |_| Ok(())))
                .map_err(|p| format!("the parser panicked: {p}: {}", show(input)))?
                .map_err(|e| format!("parse() accepts, parse_incremental() returns {e}: {}", show(input)))?;
            let h = p.header().map(|h| (h.var_count, h.clause_count));
            if h != t.header || p.clause_count() != t.clauses.len() || p.var_count() != t.vars {
                return Err(format!(
                    "header {h:?}, {} clauses, {} variables, expected {t:?}: {}",
                    p.clause_count(),
                    p.var_count(),
                    show(input)
                ));
            }
            if !t.clauses.is_empty() {
                rec.nontrivial(fp(input));
            }
        }
        (Expected::Fault(w), Err(e)) => {
            let f = fault_of(&e).map_err(|m| format!("{m}: {}", show(input)))?;
            if f != *w {
                return Err(format!("error {f:?}, expected {w:?}: {}", show(input)));
            }
            rec.nontrivial(fp(input));
            rec.outcome(match f {
                Fault::Unexpected { .. } => "unexpected character",
                Fault::TooLarge { .. } => "literal too large",
                Fault::Header { .. } => "invalid header",
                Fault::Unterminated { .. } => "unterminated clause",
                Fault::VarCount { .. } => "variable count",
                Fault::ClauseCount { .. } => "clause count",
            });
        }
        (w, g) => return Err(format!("returned {g:?}, expected {w:?}: {}", show(input))),
    }
    Ok(())
}

/// Tokens that make up valid and invalid texts.
pub fn tokens() -> Vec<&'static [u8]> {
    vec![
        b"1 ", b"-2 ", b"0\n", b"0 ", b"3", b"-", b"0", b" ", b"\n", b"\r\n", b"c x 1 0\n", b"\nc\n", b"c", b"p cnf 3 2\n", b"p cnf 1 1\n", b"p cnf 0 0\n",
        b"p cnf 268435456 1\r", b"268435456 ", b"268435457 ", b"26843545", b"p", b"cnf", b"00 ", b"-0 ", b"\t", b"p cnf 3", b"\xc3\xa9",
    ]
}

pub fn words_of(tokens: &[&'static [u8]], depth: usize, i: u64) -> Vec<u8> {
    let mut d = Digits(i);
    (0..depth).flat_map(|_| tokens[d.take(tokens.len())].iter().cloned()).collect()
}

pub fn samples() -> Vec<Vec<u8>> {
    [
        "p cnf 3 2\n1 -2 0\n-3 0\n",
        "c comment\np cnf 4 3\n1\n2 3\n0 -4 0 2\nccomment  \n\n0\n\n",
        "1 2 0 -1 0\r\nc p cnf 1 1\r\n0",
        "p  cnf\t2  2 \n\n 1  -2 0\n c",
        "p cnf 268435456 1\n268435456 -268435456 0\n",
        "p cnf 12 1\r10 -11 0012 0\rc end",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect()
}

/// Sizes around every power of two, up to about 10^5.
pub fn text_sizes(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..if thorough { 300 } else { 70 }).collect();
    for k in 6..=16 {
        v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([100, 1000, 10_000, 99_999, 100_000]);
    v.sort();
    v.dedup();
    v
}

pub const SCALED_TEXTS: usize = 22;
/// Texts of which one part has the size n.
pub fn scaled_text(kind: usize, n: usize) -> Vec<u8> {
    let many = |s: &str| s.repeat(n);
    let numbers = |neg: usize| (1..=n).map(|k| if neg > 0 && k % neg == 0 { format!("-{k} ") } else { format!("{k} ") }).collect::<String>();
    match kind {
        0 => format!("p cnf 3 {n}\n{}", many("1 -2 3 0\n")),
        1 => many("1 -2 0\n"),
        2 => format!("p cnf 2 {}\n{}", n + 1, many("1 -2 0\n")),
        3 => format!("p cnf {n} 2\n{}0\n1 0\n", numbers(3)),
        4 => format!("{}0 -1 0\n", many("-2 ")),
        5 => format!("p cnf{}2 1\n1 -2 0\n", many(" ") + " "),
        6 => format!("p cnf {}2 {}1{}\n1 -2 0\n", many("0"), many("0"), many(" ")),
        7 => format!("{}1 -{}2 0", many("0"), many("0")),
        8 => format!("1 2\nc{}\n -3 0\n", many("x")),
        9 => format!("{}1 0\n{}", many("c 1 0\n"), many("c\n")),
        10 => format!("1 0\n{}x\n", many("\n")),
        11 => format!("1{} -2{}0", many(" "), many(" ") + "\n"),
        12 => format!("p cnf {n} 0\n"),
        13 => format!("1 0 {}", numbers(2)),
        14 => format!("p cnf 1 {}\n{}1 0", n + 1, many("0 ")),
        15 => format!("p cnf 2 {n}\r\n{}", many("1 -2 0\r\n")),
        16 => format!("{}0\n", many("1\nc 7 0\n-2 ")),
        17 => format!("{}p cnf 2 1\n1 2 0\n1 0\n", many("c\n")),
        18 => format!("{}2 - 1 0\n", many("1 0\n")),
        19 => format!("p cnf {n} 2\n{} 0\n-1 0\n", n + 1),
        20 => format!("p cnf 1 1\n1 0 {}", many("\n \n")),
        _ => format!("p cnf {} {n}\n{}", 2 * n, (1..=n).map(|k| format!("-{k} {} 0\n", 2 * k)).collect::<String>()),
    }
    .into_bytes()
}

pub fn check(thorough: bool) -> Check {
    let mut fam = vec![];
    let alphabet: &[u8] = b"012-\n cpx";
    for n in 0..if thorough { 10 } else { 9 } {
        let k = alphabet.len();
        fam.push(Family::new(
            format!("all strings of length {n}"),
            format!("every string of {n} bytes over 0 1 2 - newline space c p x"),
            pow(k, n),
            move |i, rec| {
                let mut d = Digits(i);
                let s: Vec<u8> = (0..n).map(|_| alphabet[d.take(k)]).collect();
                judge(&s, rec)
            },
        ));
    }
    let t = tokens();
    for n in 1..if thorough { 6 } else { 5 } {
        let t = t.clone();
        fam.push(Family::new(
            format!("all texts of {n} tokens"),
            format!("every sequence of {n} out of {} tokens (numbers, separators, comments, headers, boundary values, fragments)", t.len()),
            pow(t.len(), n),
            move |i, rec| judge(&words_of(&t, n, i), rec),
        ));
    }
    let body: Vec<&'static [u8]> = vec![b"p cnf 3 2\n", b"p cnf 1 1\n", b"1 ", b"-3 ", b"0\n", b"0", b"c\n", b"\r"];
    for n in 5..if thorough { 8 } else { 7 } {
        let t = body.clone();
        fam.push(Family::new(
            format!("all texts of {n} common tokens"),
            format!("every sequence of {n} out of {} tokens", t.len()),
            pow(t.len(), n),
            move |i, rec| judge(&words_of(&t, n, i), rec),
        ));
    }
    {
        // headers
        let nums: Vec<String> = [
            "", "0", "1", "2", "3", "002", "-1", "+1", "x", "1x", "1.0", "268435455", "268435456", "268435457", "4294967295", "4294967296", "4294967297",
            "18446744073709551615", "18446744073709551616", "99999999999999999999999999",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect();
        let pre = ["p cnf ", "p  cnf  ", "p\tcnf ", "p cnf", "pcnf ", "p CNF ", "p dnf ", " p cnf ", "p \tcnf\t", "c\np cnf ", "\n\np cnf ", "p cnf cnf "];
        let sep = [" ", "  ", "\t", "\r", "\n"];
        let end = ["", "\n", "\r\n", " \n", " 1\n", "x\n", "\nc\n"];
        let bodies = ["", "0", "1 0", "1 0 0", "-2 1 0\n", "1", "268435456 0", "1 0 p cnf 1 1\n", "1 0\np cnf 1 1\n", "c\n1 0"];
        let size = (nums.len() * nums.len() * pre.len() * sep.len() * end.len() * bodies.len()) as u64;
        fam.push(Family::new("headers", "every combination of 12 beginnings, 20 x 20 numbers, 5 separators, 7 ends and 10 bodies", size, move |i, rec| {
            let mut d = Digits(i);
            let s = format!(
                "{}{}{}{}{}{}",
                pre[d.take(pre.len())],
                nums[d.take(nums.len())],
                sep[d.take(sep.len())],
                nums[d.take(nums.len())],
                end[d.take(end.len())],
                bodies[d.take(bodies.len())]
            );
            judge(s.as_bytes(), rec)
        }));
    }
    {
        // numbers
        let mut nums: Vec<u128> = (0..200).collect();
        for k in 0..70 {
            for d in -3i128..=3 {
                nums.push(((1i128 << k) + d).unsigned_abs());
            }
        }
        for k in 0..25 {
            for f in 1..10u128 {
                nums.push(f * 10u128.pow(k));
                nums.push(f * 10u128.pow(k) - 1);
            }
        }
        for d in 0..60 {
            nums.push(dimacs::MAX - 30 + d);
            nums.push(dimacs::MAX * 10 - 30 + d);
            nums.push(dimacs::MAX / 10 - 30 + d);
        }
        let n = nums.len() as u64;
        fam.push(Family::new("numbers", format!("{n} boundary numbers as positive, negative and zero padded literals, followed by each kind of byte"), n * 4 * 7, move |i, rec| {
            let mut d = Digits(i);
            let v = nums[d.take(nums.len())];
            let form = d.take(4);
            let tail = [" 0", "\n0\n", "", "x", "-", "\r\n 0", "0 0"][d.take(7)];
            let s = match form {
                0 => format!("{v}{tail}"),
                1 => format!("1 -{v}{tail}"),
                2 => format!("000{v}{tail}"),
                _ => format!("p cnf 268435456 1\n-00{v}{tail}"),
            };
            judge(s.as_bytes(), rec)
        }));
    }
    {
        // every single byte of some texts replaced by every value, removed, inserted
        let s = samples();
        let cases: Vec<(usize, usize)> = s.iter().enumerate().flat_map(|(k, t)| (0..t.len()).map(move |p| (k, p))).collect();
        fam.push(Family::new(
            "single byte changes",
            "every byte of 6 texts replaced by all 256 values, all 256 values inserted, bytes removed; each also cut off there",
            cases.len() as u64,
            move |i, rec| {
                let (k, p) = cases[i as usize];
                let mut t = s[k].clone();
                for v in 0..=255 {
                    t[p] = v;
                    judge(&t, rec)?;
                    let mut u = s[k].clone();
                    u.insert(p, v);
                    judge(&u, rec)?;
                }
                let mut u = s[k].clone();
                u.remove(p);
                judge(&u, rec)?;
                judge(&s[k][..p], rec)
            },
        ));
    }
    {
        // inputs longer than any internal buffer
        let sizes = [1000usize, 8190, 8191, 8192, 8193, 20000];
        fam.push(Family::new("long texts", "texts around and beyond the reader's buffer size with each of 8 endings at every offset within 12 bytes", 6 * 24 * 8, move |i, rec| {
            let mut d = Digits(i);
            let n = sizes[d.take(6)] + d.take(24) - 12;
            let end: &[u8] = [b"-12 0\n" as &[u8], b"12", b"0\nc x\n1 0", b"c", b"\np cnf 3 3\n", b"268435457 0", b"- 1", b"0 1 -"][d.take(8)];
            let mut s = vec![];
            let mut k = 0;
            while s.len() < n {
                let l: &[u8] = [b"1 -2 3 0\n" as &[u8], b"c comment\n", b"4\n", b"0 ", b"-10\r\n5 0\n"][k % 5];
                s.extend_from_slice(l);
                k += 1;
            }
            s.truncate(n);
            s.extend_from_slice(end);
            judge(&s, rec)
        }));
    }
    {
        let sizes = text_sizes(thorough);
        fam.push(Family::new(
            "scaled texts",
            format!("{SCALED_TEXTS} texts of which one part (number or length of clauses, comments, blanks, lines, numbers, the header) has {} sizes up to 100000", sizes.len()),
            (SCALED_TEXTS * sizes.len()) as u64,
            move |i, rec| {
                let mut d = Digits(i);
                let (kind, n) = (d.take(SCALED_TEXTS), sizes[d.take(sizes.len())]);
                judge(&scaled_text(kind, n), rec).map_err(|e| format!("text {kind} of size {n}: {}", e.chars().take(500).collect::<String>()))
            },
        ));
    }
    Check {
        id: "C12",
        level: "exploration",
        rule: "distinct inputs that contain a clause or are rejected; every input is compared with the reference reader (formula, counts, kind and line of the error)",
        assumptions: vec!["inputs not settled by the documentation (-0, header after clauses, + in headers, exotic white space in headers) are only run for panics"],
        families: fam,
    }
}
