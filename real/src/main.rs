//! `evaluate <entry> <hex f32>...`: runs an entry natively and prints its outputs as hex.
//! `evaluate --each <entry> <hex f32>...`: runs a one-input entry on each of them.
fn show(name: &str, x: &[f32]) -> String {
    match eat_real::run(name, x) {
        Some(y) => y.iter().map(|v| format!("{:08x}", v.to_bits())).collect::<Vec<_>>().join(" "),
        None => std::process::exit(2),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let each = a[1] == "--each";
    let a = &a[1 + each as usize..];
    let x: Vec<f32> = a[1..].iter().map(|h| f32::from_bits(u32::from_str_radix(h, 16).unwrap())).collect();
    if each {
        for v in x {
            println!("{}", show(&a[0], &[v]));
        }
    } else {
        println!("{}", show(&a[0], &x));
    }
}
