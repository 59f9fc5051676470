mod util;
mod gen;
mod p_parser;
mod p_tree;
mod p_block;
mod p_model;

use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

type Prop = (&'static str, fn(&mut Ctx), fn(&mut Ctx), &'static str);

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(p_parser::props());
    v.extend(p_tree::props());
    v.extend(p_block::props());
    v.extend(p_model::props());
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let opt = |n: &str, d: f64| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (seed, secs, iters) = (opt("--seed", 1.0) as u64, opt("--secs", 10.0), opt("--iters", 1e12) as u64);
    let replay = opt("--replay", -1.0);
    let Some(p) = props().into_iter().find(|p| p.0 == id) else { eprintln!("unknown property {}", id); std::process::exit(2) };
    // deep recursion in the code under test needs room; run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run(p, seed, secs, iters, replay)).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn run(p: Prop, seed: u64, secs: f64, iters: u64, replay: f64) -> i32 {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        eprintln!("{}", m);
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}-{}", p.0, std::process::id(), seed));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let current = Arc::new(Mutex::new((String::new(), Instant::now())));
    let (pid, sc) = (p.0, scratch.clone());
    watchdog(current.clone(), move |c| {
        let _ = std::fs::remove_dir_all(&sc);
        println!("{}", serde_json::json!({"property": pid, "failure": {"case": "does not terminate", "input": c, "detail": "no answer within 60 s", "iter": -1}, "evaluations": 1, "distinct": 1, "samples": []}));
    });
    let idn = p.0[1..].parse::<u64>().unwrap();
    let mut c = Ctx { rng: Rng::new(seed, idn, u64::MAX), size: 4, thorough: secs > 60.0, iter: 0, evals: 0, distinct: Default::default(), samples: vec![], fail: None, current, scratch: scratch.clone(), trace: std::fs::File::create(scratch.join(".current")).ok(), seed };
    let start = Instant::now();
    let mut iter = 0u64;
    if replay < 0.0 {
        (p.1)(&mut c);
        let mut k = 0u64;
        while c.fail.is_none() && k < iters && start.elapsed() < Duration::from_secs_f64(secs) {
            iter = k; c.iter = k;
            c.rng = Rng::new(seed, idn, k);
            c.size = 1 + (k % 6) as usize;
            (p.2)(&mut c);
            k += 1;
        }
        c.iter = k;
    } else {
        let k = replay as u64;
        c.rng = Rng::new(seed, idn, k);
        c.size = 1 + (k % 6) as usize;
        (p.2)(&mut c);
        if c.fail.is_none() { (p.1)(&mut c); }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    *c.current.lock().unwrap() = (String::new(), Instant::now());
    let fail = c.fail.as_ref().map(|f| serde_json::json!({"case": f.case, "input": f.input, "detail": f.detail, "iter": iter, "seed": seed}));
    println!("{}", serde_json::json!({
        "property": p.0, "evaluations": c.evals, "distinct": c.distinct.len(), "iterations": c.iter, "rule": p.3,
        "samples": c.samples.iter().map(|(n, d)| serde_json::json!({"case": n, "input": d})).collect::<Vec<_>>(),
        "failure": fail, "seconds": start.elapsed().as_secs_f64()
    }));
    if c.fail.is_some() { 1 } else { 0 }
}
