//! vx: extracts functions of the real crate and prints them as Verus input.
mod guard;
mod inline;
mod load;
mod contracts;
mod macros;
mod lower;
mod codec;
mod print;
mod unit;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("usage: vx <crate src dir> <verus dir> <unit> <out.rs>"); std::process::exit(2) }
    match unit::run(&a[1], &a[2], &a[3], &a[4], a.get(5).map(|s| s.as_str())) {
        Ok(report) => { println!("{}", report) }
        Err(m) => { println!("{}", serde_json::json!({"unsupported": m})); std::process::exit(3) }
    }
}
