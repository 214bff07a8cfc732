"""Planted bugs, fourth batch. See mkbug.py."""
from mkbug import bug
from bugs1 import PRE
V="varisat/src/"; K="varisat-checker/src/"; P="varisat-internal-proof/src/"
bug("c26-broken-pipe", "C26",
 "A proof whose reading fails with the error kind BrokenPipe.",
 "The read error is reported as an incomplete proof, its cause is lost.",
 [(K+"state.rs", "if io_err.kind() == io::ErrorKind::UnexpectedEof {", "if io_err.kind() == io::ErrorKind::UnexpectedEof\n                        || io_err.kind() == io::ErrorKind::BrokenPipe\n                    {")],
 PRE+'''
use varisat_checker::{Checker, CheckerError};
struct Broken;
impl std::io::Read for Broken {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::BrokenPipe.into()) }
}
fn main() {
    let mut k = Checker::new();
    k.add_clause(&[l(1), l(2)]).unwrap();
    match k.check_proof(Broken) { Err(CheckerError::IoError { step: 1, .. }) => (), r => panic!("{r:?}") }
}
''')
bug("c28-lookahead", "C28",
 "A number of the proof encoding read when 9 to 15 bytes are left in the buffer, at the end of the underlying memory.",
 "The fast reader loads 16 bytes although fewer are left: a read outside of the buffer.",
 [(P+"vli_enc.rs", """    if lookahead >= 16 {
""", """    // An encoded number has at most 10 bytes
    if lookahead >= 10 {
"""), (P+"vli_enc.rs", "let next_bytes: &[u8; 16] = (&buf[..16]).try_into().unwrap();", "let next_bytes = unsafe { &*(buf.as_ptr() as *const [u8; 16]) };")],
 PRE+'''
use varisat_internal_proof::{binary_format::{write_step, Parser}, ProofStep};
fn main() {
    for bits in 50..64 {
        let mut b = vec![];
        write_step(&mut b, &ProofStep::AtClause { redundant: true, clause: &[l(1), l(2)], propagation_hashes: &[1 << bits] }).unwrap();
        let b = b.into_boxed_slice();
        Parser::default().parse_step(&mut &b[..]).unwrap();
    }
}
''')
p="/verif/seeded/c28-lookahead/demo.sh"
s=open(p).read()
i=s.index("CARGO_TARGET_DIR=")
s=s[:i]+'''unset RUSTUP_TOOLCHAIN
CARGO_TARGET_DIR="$tmp/target" MIRIFLAGS="-Zmiri-tree-borrows" timeout 240 cargo +nightly miri run -q --offline 2>"$tmp/log"
rc=$?
tail -30 "$tmp/log" | grep -A3 "^error"
exit $rc
'''
open(p,'w').write(s)
