//! `replay <harness> <file>`: run one harness natively on a solver assignment
//! (one value per line, hex bytes in memory order). Exit 0: everything the
//! harness asserts held; 101 (panic) or a sanitizer abort: it did not.
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--list" {
        for t in eat_harness::tables() {
            for (n, _) in t {
                println!("{}", n);
            }
        }
        return;
    }
    let vals = std::fs::read_to_string(&a[2]).expect("values");
    let vals: Vec<Vec<u8>> = vals
        .lines()
        .map(|l| l.trim())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .map(|l| {
            (0..l.len() / 2)
                .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap())
                .collect()
        })
        .collect();
    for t in eat_harness::tables() {
        for (n, f) in t {
            if *n == a[1] {
                eat_harness::nd::load(vals);
                f();
                println!("REPLAY-HELD {}", n);
                return;
            }
        }
    }
    eprintln!("no harness {}", a[1]);
    std::process::exit(2);
}
