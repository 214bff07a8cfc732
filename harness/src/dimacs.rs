//! Reference reader for DIMACS CNF text, written line by line from the manual's description.
use crate::refsat::Cl;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Unexpected { line: usize, byte: u8 },
    TooLarge { line: usize, index: usize, digit: usize },
    Header { line: usize },
    Unterminated { line: usize },
    VarCount { have: usize, header: usize },
    ClauseCount { have: usize, header: usize },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Text {
    pub clauses: Vec<Cl>,
    pub vars: usize,
    pub header: Option<(usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expected {
    Formula(Text),
    Fault(Fault),
    /// Not settled by the documentation (signed zero, header after clauses, exotic header numbers).
    Open,
}

pub const MAX: u128 = 1 << 28;

fn number(s: &str) -> Option<Option<usize>> {
    // None: open, Some(None): not a number
    if s.starts_with('+') && s.len() > 1 && s[1..].bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return Some(None);
    }
    let mut v: u128 = 0;
    for b in s.bytes() {
        v = v * 10 + (b - b'0') as u128;
        if v > u64::MAX as u128 {
            return Some(None);
        }
    }
    Some(Some(v as usize))
}

/// The numbers of a header line.
fn header(text: &[u8], line: usize) -> Result<(usize, usize), Option<Fault>> {
    let bad = Err(Some(Fault::Header { line }));
    if text.iter().any(|&b| b >= 0x80 || b == 0x0b || b == 0x0c) {
        // other kinds of white space
        return Err(None);
    }
    let s = std::str::from_utf8(text).unwrap();
    if !s.starts_with("p ") {
        return bad;
    }
    let t: Vec<&str> = s[2..].split(|c| c == ' ' || c == '\t').filter(|t| !t.is_empty()).collect();
    if t.first() != Some(&"cnf") {
        return bad;
    }
    let v = match t.get(1).map(|t| number(t)) {
        Some(None) => return Err(None),
        Some(Some(Some(v))) => v,
        _ => return bad,
    };
    if v as u128 > MAX {
        return Err(Some(Fault::TooLarge { line, index: v / 10, digit: v % 10 }));
    }
    let c = match t.get(2).map(|t| number(t)) {
        Some(None) => return Err(None),
        Some(Some(Some(c))) => c,
        _ => return bad,
    };
    if t.len() != 3 {
        return bad;
    }
    Ok((v, c))
}

pub fn read(input: &[u8]) -> Expected {
    let mut text = Text { clauses: vec![], vars: 0, header: None };
    let mut clause: Cl = vec![];
    let mut line = 1;
    let mut rest = input;
    let mut open = false;
    let mut dangling = false;
    let mut used = 0;
    loop {
        let end = rest.iter().position(|&b| b == b'\n' || b == b'\r');
        let (row, stop) = match end {
            Some(e) => (&rest[..e], Some(rest[e])),
            None => (rest, None),
        };
        if row.first() == Some(&b'c') {
        } else if row.first() == Some(&b'p') && text.header.is_none() {
            if !text.clauses.is_empty() || !clause.is_empty() {
                open = true;
            }
            match header(row, line) {
                Ok(h) => {
                    text.header = Some(h);
                }
                Err(Some(f)) => return if open { Expected::Open } else { Expected::Fault(f) },
                Err(None) => return Expected::Open,
            }
        } else {
            // sequence of numbers and spaces
            let mut i = 0;
            while i < row.len() {
                let b = row[i];
                if b == b' ' {
                    i += 1;
                    continue;
                }
                let fault = |byte: u8| if open { Expected::Open } else { Expected::Fault(Fault::Unexpected { line, byte }) };
                let negative = b == b'-';
                if negative {
                    i += 1;
                }
                if i == row.len() {
                    match stop {
                        Some(s) => return fault(s),
                        None => {
                            dangling = true;
                            break;
                        }
                    }
                }
                if !row[i].is_ascii_digit() {
                    return fault(row[i]);
                }
                let mut v: u128 = 0;
                while i < row.len() && row[i].is_ascii_digit() {
                    let d = (row[i] - b'0') as u128;
                    if v * 10 + d > MAX {
                        return if open {
                            Expected::Open
                        } else {
                            Expected::Fault(Fault::TooLarge { line, index: v as usize, digit: d as usize })
                        };
                    }
                    v = v * 10 + d;
                    i += 1;
                }
                if i < row.len() && row[i] != b' ' {
                    return fault(row[i]);
                }
                if v == 0 {
                    if negative {
                        open = true;
                    }
                    text.clauses.push(std::mem::take(&mut clause));
                } else {
                    used = used.max(v as usize);
                    clause.push(if negative { -(v as i32) } else { v as i32 });
                }
            }
        }
        match end {
            None => break,
            Some(e) => {
                if stop == Some(b'\n') {
                    line += 1;
                }
                rest = &rest[e + 1..];
            }
        }
    }
    if open {
        return Expected::Open;
    }
    if dangling || !clause.is_empty() {
        return Expected::Fault(Fault::Unterminated { line });
    }
    text.vars = used;
    if let Some((v, c)) = text.header {
        if used > v {
            return Expected::Fault(Fault::VarCount { have: used, header: v });
        }
        if text.clauses.len() != c {
            return Expected::Fault(Fault::ClauseCount { have: text.clauses.len(), header: c });
        }
        text.vars = v;
    }
    Expected::Formula(text)
}
