//! Contract files: one `@fn key` section per function.
use std::collections::{BTreeMap, HashMap};

#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub key: String,
    pub sig: String,                       // requires / ensures / decreases text
    pub loops: BTreeMap<usize, String>,    // invariants of loop k
    pub hints: HashMap<String, String>,    // "start", "end", "loop 0 start", "loop 0 end", "after 0", "before 0"
    pub flags: HashMap<String, String>,
    pub nloops: Option<usize>,
}
pub fn load(dir: &str) -> Result<HashMap<String, Contract>, String> {
    let mut out = HashMap::new();
    let mut files: Vec<_> = std::fs::read_dir(format!("{}/contracts", dir)).map_err(|e| e.to_string())?.filter_map(|f| f.ok()).map(|f| f.path()).filter(|p| p.extension().map(|e| e == "vc").unwrap_or(false)).collect();
    files.sort();
    for f in files {
        let s = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        let mut cur: Option<Contract> = None;
        let mut sec = String::new();
        for line in s.lines() {
            if let Some(rest) = line.strip_prefix('@') {
                let (w, arg) = match rest.split_once(' ') { Some((a, b)) => (a, b.trim()), None => (rest.trim(), "") };
                if w == "fn" {
                    if let Some(c) = cur.take() { if out.insert(c.key.clone(), c.clone()).is_some() { return Err(format!("two contracts for {}", c.key)) } }
                    cur = Some(Contract { key: arg.to_string(), ..Default::default() });
                    sec = "sig".into();
                } else {
                    let c = cur.as_mut().ok_or("directive before @fn")?;
                    match w {
                        "loop" if arg.parse::<usize>().is_ok() => { sec = format!("inv {}", arg); c.loops.entry(arg.parse().unwrap()).or_default(); }
                        "loop" => sec = format!("loop {}", arg),
                        "hint" => sec = arg.to_string(),
                        "sig" => sec = "sig".into(),
                        "loops" => c.nloops = arg.parse().ok(),
                        _ => { c.flags.insert(w.to_string(), arg.to_string()); sec = if arg.is_empty() && w == "iter_impl" { format!("flag {}", w) } else { "sig".into() }; }
                    }
                }
                continue;
            }
            let Some(c) = cur.as_mut() else { continue };
            let l = format!("{}\n", line);
            if sec == "sig" { c.sig.push_str(&l) }
            else if let Some(k) = sec.strip_prefix("inv ") { c.loops.entry(k.parse().unwrap()).or_default().push_str(&l) }
            else if let Some(k) = sec.strip_prefix("flag ") { if !line.trim().is_empty() && !line.trim_start().starts_with("//") { let e = c.flags.entry(k.to_string()).or_default(); e.push('\n'); e.push_str(line); } }
            else { c.hints.entry(sec.clone()).or_default().push_str(&l) }
        }
        if let Some(c) = cur.take() { if out.insert(c.key.clone(), c.clone()).is_some() { return Err(format!("two contracts for {}", c.key)) } }
    }
    Ok(out)
}
