//! Deterministic random source, string generators and the case recorder.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
/// the state, and the identifiers handed out lately
pub struct Rng(pub u64, Vec<String>);

impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03) ^ c.wrapping_mul(0x2545F4914F6CDD1D), vec![]);
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    pub fn u8(&mut self) -> u8 { match self.below(5) { 4 => self.below(20) as u8, 0 => *self.pick(&[0, 1, 2, 127, 128, 254, 255]), _ => self.next() as u8 } }
    pub fn u16(&mut self) -> u16 { match self.below(5) { 4 => self.below(4) as u16, 0 => *self.pick(&[0, 1, 9, 10, 600, 999, 1000, u16::MAX]), _ => self.next() as u16 } }
    pub fn u32(&mut self) -> u32 { match self.below(4) { 3 => self.below(4) as u32, 0 => *self.pick(&[0, 1, 8, 255, 256, 0x7fffffff, 0x80000000, u32::MAX, 0x00ffffff, 0xff000000]), 1 => self.below(1000) as u32, _ => self.next() as u32 } }
    pub fn i32(&mut self) -> i32 { match self.below(4) { 3 => self.below(4) as i32 - 1, 0 => *self.pick(&[0, 1, -3, 10, i32::MAX, i32::MIN, 100]), 1 => self.below(1000) as i32, _ => self.next() as i32 } }
    pub fn f64(&mut self) -> f64 {
        match self.below(5) {
            0 => *self.pick(&[0.0, 1.0, -1.0, 0.5, 1e300, -2.25, 0.1, 123456789.125, 1e-7, 4294967296.0]),
            1 => self.below(100) as f64,
            2 => (self.below(20001) as f64 - 10000.0) / 100.0,
            3 => -(self.below(1000) as f64),
            _ => loop { let f = f64::from_bits(self.next()); if f.is_finite() { break f } }
        }
    }
    /// a float that survives decimal text in every sane implementation
    pub fn f32(&mut self) -> f32 { match self.below(3) { 0 => 1.0, 1 => (self.below(200) as f32) / 8.0, _ => (self.below(2001) as f32 - 1000.0) / 100.0 } }

    /// any text (only for places where any text is allowed, JSON strings for instance)
    pub fn text(&mut self) -> String {
        match self.below(10) {
            0 => String::new(),
            1..=3 => self.ident(),
            4 => self.pick(&["a b", " lead", "trail ", "line\nbreak", "tab\t", "\"quoted\"", "back\\slash", "@10", "@", "%s", "%", "a.b.c", "é€😀", "\u{0}\u{1f}", "}", "{", "@main.xml", "\r\n", "\\n", "\u{2028}", "x=y;", "</tag>", "'", "a:b", ":", "null", "true", "0"]).to_string(),
            5 => { let n = self.range(1, 60); (0..n).map(|_| self.chr()).collect() }
            _ => { let n = self.range(1, 8); (0..n).map(|_| self.chr()).collect() }
        }
    }
    pub fn chr(&mut self) -> char {
        match self.below(12) {
            0 => *self.pick(&['\n', '\r', '\t', '\u{0}', '\u{7f}', '\u{85}', '\u{a0}', '\u{2003}']),
            1 => *self.pick(&['é', 'ß', '€', '語', '😀', '\u{10ffff}', 'İ', 'ǆ']),
            2 => *self.pick(&['@', '.', ':', '%', '"', '\\', '{', '}', '_', '-', '/', '\'', ' ']),
            3..=5 => (b'0' + self.below(10) as u8) as char,
            6..=7 => (b'A' + self.below(26) as u8) as char,
            8 => (32 + self.below(95) as u8) as char,
            _ => (b'a' + self.below(26) as u8) as char
        }
    }
    /// a name that could be taken for another one
    pub fn near(&mut self, s: &str) -> String {
        let mut c: Vec<char> = s.chars().collect();
        match self.below(11) {
            0 => s.to_lowercase(),
            1 => s.to_uppercase(),
            2 => { if !c.is_empty() { let i = self.below(c.len()); c[i] = if c[i].is_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() }; } c.into_iter().collect() }
            3 => { c.push(*self.pick(&['1', '2', 's', '_', 'X', '0'])); c.into_iter().collect() }
            4 => { if c.len() > 1 { c.pop(); } c.into_iter().collect() }
            5 => { if c.len() > 1 && !c[1].is_ascii_digit() { c.remove(0); } c.into_iter().collect() }
            6 => format!("{}_{}", s, s),
            7 => { if c.len() > 1 { let i = self.below(c.len() - 1) + 1; c.insert(i, '_'); } c.into_iter().collect() }
            8 => s.replace('_', ""),
            9 => { if c.len() > 2 { let i = 1 + self.below(c.len() - 2); c.swap(i, i + 1) } c.into_iter().collect() }
            _ => { let o = if self.1.is_empty() { "x".to_string() } else { let i = self.below(self.1.len()); self.1[i].clone() }; format!("{}_{}", s, o).chars().take(40).collect() }
        }
    }
    /// an identifier handed out before, or one that looks like it
    fn again(&mut self) -> Option<String> {
        if self.1.is_empty() { return None }
        let i = self.below(self.1.len());
        let s = self.1[i].clone();
        let t = if self.chance(1, 4) { s } else { self.near(&s) };
        if t.is_empty() || t.chars().next().map(|c| c.is_ascii_digit()).unwrap_or(true) || t.len() > 60 { None } else { Some(t) }
    }
    pub fn ident(&mut self) -> String {
        if self.chance(1, 5) { if let Some(s) = self.again() { return s } }
        let s = self.fresh();
        if self.1.len() >= 24 { let i = self.below(24); self.1[i] = s.clone() } else { self.1.push(s.clone()) }
        s
    }
    fn fresh(&mut self) -> String {
        match self.below(6) {
            0 => self.pick(&["main", "linear1", "textview1", "button_ok", "v", "onCreate", "onClick", "item_2", "java", "xml", "x1", "Activity", "_fab", "drawer", "java_var", "moreBlock", "initializeLogic"]).to_string(),
            _ => {
                let n = self.range(1, 10);
                (0..n).map(|i| match self.below(8) {
                    0 if i > 0 => '_',
                    1 if i > 0 => (b'0' + self.below(10) as u8) as char,
                    2 => (b'A' + self.below(26) as u8) as char,
                    _ => (b'a' + self.below(26) as u8) as char
                }).collect()
            }
        }
    }
    /// a name without line breaks and without surrounding whitespace; `bad` lists forbidden substrings
    pub fn name(&mut self, bad: &[&str]) -> String {
        for _ in 0..50 {
            let s = if self.chance(3, 4) { self.ident() } else {
                let n = self.range(1, 12);
                (0..n).map(|_| self.chr()).filter(|c| *c != '\n').collect::<String>()
            };
            if s.contains('\n') || s.trim() != s || bad.iter().any(|b| s.contains(b)) { continue }
            return s;
        }
        "name".to_string()
    }
    /// `n` distinct names
    pub fn names(&mut self, n: usize, bad: &[&str]) -> Vec<String> {
        let mut r: Vec<String> = vec![];
        let mut k = 0;
        while r.len() < n {
            let mut s = self.name(bad);
            k += 1;
            if k > 5 { s = format!("{}{}", s, k); }
            if !r.contains(&s) { r.push(s) }
        }
        r
    }
    pub fn idents(&mut self, n: usize) -> Vec<String> {
        let mut r: Vec<String> = vec![];
        let mut k = 0;
        while r.len() < n {
            let mut s = self.ident();
            k += 1;
            if k > 3 { s = format!("{}{}", s, k); }
            if s != "root" && !r.contains(&s) { r.push(s) }
        }
        r
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j) } }
}

pub struct Fail { pub case: String, pub input: String, pub detail: String }

pub struct Ctx {
    pub rng: Rng,
    pub size: usize,
    pub thorough: bool,
    pub iter: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(String, String)>,
    pub fail: Option<Fail>,
    pub current: Arc<Mutex<(String, Instant)>>,
    pub scratch: std::path::PathBuf,
    /// what is being run, for whoever finds this process dead
    pub trace: Option<std::fs::File>,
    pub seed: u64,
}

pub type R = Result<(), String>;

thread_local!(pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

impl Ctx {
    /// Runs one case. `desc` is the input in words; panics count as failures.
    pub fn case(&mut self, name: &str, desc: &str, f: impl FnOnce() -> R) {
        if self.fail.is_some() { return }
        self.evals += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        name.hash(&mut h); desc.hash(&mut h);
        let new = self.distinct.insert(h.finish());
        if new && (self.samples.len() < 6 || (self.samples.len() < 12 && !self.samples.iter().any(|(n, _)| n == name))) {
            self.samples.push((name.to_string(), desc.chars().take(400).collect()));
        }
        *self.current.lock().unwrap() = (format!("{}: {}", name, desc.chars().take(4000).collect::<String>()), Instant::now());
        if let Some(t) = &self.trace {
            use std::os::unix::fs::FileExt;
            let d: String = desc.chars().take(1000).collect();
            let mut line = serde_json::json!({"case": name, "input": d, "iter": self.iter, "seed": self.seed}).to_string().into_bytes();
            line.resize(line.len().max(8192), b' ');
            line.truncate(8192);
            line[8191] = b'\n';
            let _ = t.write_at(&line, 0);
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
        };
        if let Err(detail) = r {
            self.fail = Some(Fail { case: name.to_string(), input: desc.to_string(), detail });
        }
    }
}

pub fn watchdog(current: Arc<Mutex<(String, Instant)>>, report: impl Fn(&str) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let (c, t) = { let g = current.lock().unwrap(); (g.0.clone(), g.1) };
        if !c.is_empty() && t.elapsed() > Duration::from_secs(60) { report(&c); std::process::exit(1) }
    });
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } };
}
#[macro_export]
macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w) = (&$got, &$want);
        if g != w { return Err(format!("{}: got {:?}, expected {:?}", $what, g, w)) }
    }};
}
