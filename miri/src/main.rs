//! vmi <family number> <first> <end> <quick|thorough>: runs these cases one after another.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        println!("ready");
        return;
    }
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let f = vmi::mem::families(a[4] == "thorough");
    let f = &f[n(1) as usize];
    let mut steps = 0;
    for i in n(2)..n(3).min(f.size) {
        eprintln!("@{i}");
        match (f.run)(i) {
            Ok(s) => steps += s,
            Err(e) => {
                eprintln!("wrong: {e}");
                std::process::exit(3)
            }
        }
    }
    println!("done {steps}");
}
