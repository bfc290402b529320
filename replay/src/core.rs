use essay_tensor::tensor::{Tensor, Type};
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub static CURRENT: Mutex<String> = Mutex::new(String::new());
pub static TICK: AtomicU64 = AtomicU64::new(0);

// a case that does not come back within 30 s is reported as a failure
pub fn watchdog() {
    std::thread::spawn(|| {
        let mut last = 0; let mut n = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::Relaxed);
            if t == last { n += 1 } else { n = 0; last = t }
            if n >= 30 {
                let cur = CURRENT.lock().map(|s| s.clone()).unwrap_or_default();
                println!("{{\"status\":\"fail\",\"hang\":true,\"failure\":{}}}", js(&format!("no answer after 30 s: {}", cur)));
                std::process::exit(1);
            }
        }
    });
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn f(&mut self) -> f32 { (self.next() >> 40) as f32 / (1u64 << 24) as f32 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

pub struct Ctx {
    pub rng: Rng, pub thorough: bool, pub budget: f64, pub start: Instant,
    pub evals: u64, pub nontriv: HashSet<u64>, pub samples: Vec<String>,
    pub fails: Vec<String>, pub lits: Vec<usize>, pub fresh: Vec<usize>, trace: bool, pub seed: u64,
}

// integer literals: decimal (with or without a type suffix), hexadecimal, 1 << k
fn literals(s: &str, l: &mut BTreeSet<usize>) {
    let b: Vec<char> = s.chars().collect(); let mut i = 0;
    while i < b.len() {
        if b[i] == '/' && i + 1 < b.len() && b[i + 1] == '/' { while i < b.len() && b[i] != '\n' { i += 1 } continue; }
        if !b[i].is_ascii_digit() || (i > 0 && (b[i - 1].is_alphanumeric() || b[i - 1] == '_' || b[i - 1] == '.')) { i += 1; continue; }
        let mut j = i; while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_') { j += 1 }
        let w: String = b[i..j].iter().filter(|c| **c != '_').collect(); i = j;
        let v = if let Some(h) = w.strip_prefix("0x") { usize::from_str_radix(h, 16).ok() } else {
            let n: String = w.chars().take_while(|c| c.is_ascii_digit()).collect(); let suf = &w[n.len()..];
            if suf.is_empty() || suf.starts_with('u') || suf.starts_with('i') { n.parse().ok() } else { None } };
        let rest: String = b[j..b.len().min(j + 12)].iter().collect();
        let mut v = v;
        if let (Some(x), Some(r)) = (v, rest.trim_start().strip_prefix("<<")) { let n: String = r.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect(); if let Ok(k) = n.parse::<u32>() { v = x.checked_shl(k) } }
        if let Some(v) = v { if v <= 100_000 { l.insert(v); } }
    }
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, budget: f64) -> Self {
        // integer literals of the source under test: sizes at which behaviour may change
        let mut lits = BTreeSet::new();
        fn walk(p: &std::path::Path, l: &mut BTreeSet<usize>) {
            let Ok(d) = std::fs::read_dir(p) else { return };
            for e in d.flatten() {
                let p = e.path();
                if p.is_dir() { if p.file_name().map(|n| n != "test").unwrap_or(true) { walk(&p, l) } }
                else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                    let s = std::fs::read_to_string(&p).unwrap_or_default();
                    let s = s.split("#[cfg(test)]").next().unwrap_or("");
                    literals(s, l);
                }
            }
        }
        walk(std::path::Path::new("/repo/src"), &mut lits);
        // values the shipped source does not have: an edit may have introduced a threshold there
        let old: BTreeSet<usize> = include_str!("../lits.txt").split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if std::env::var("REPLAY_LITS").is_ok() { println!("{}", lits.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); }
        let mut fresh = vec![];
        for v in &lits { if !old.contains(v) { for w in [v.saturating_sub(1), *v, v + 1, 2 * v + 1] { if w > 0 { fresh.push(w); } } } }
        let mut set = BTreeSet::new();
        for v in lits { for w in [v.saturating_sub(1), v, v + 1] { if w > 0 { set.insert(w); } } }
        Ctx { rng: Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x1234), thorough, budget, start: Instant::now(), evals: 0,
            nontriv: HashSet::new(), samples: vec![], fails: vec![], lits: set.into_iter().collect(), fresh,
            trace: std::env::var("REPLAY_TRACE").is_ok(), seed }
    }
    pub fn left(&self) -> bool { self.start.elapsed().as_secs_f64() < self.budget && self.fails.len() < 3 }
    // share: fraction of the budget up to which random search goes on
    pub fn until(&self, share: f64) -> bool { self.start.elapsed().as_secs_f64() < self.budget * share && self.fails.len() < 3 }
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> bool {
        if self.fails.len() >= 3 { return false; }
        self.evals += 1;
        TICK.fetch_add(1, Ordering::Relaxed);
        let d = desc();
        if self.trace { eprintln!("CASE {}", d); }
        if let Ok(mut g) = CURRENT.lock() { g.clear(); g.push_str(&d); }
        let r = catch_unwind(AssertUnwindSafe(f));
        let bad = match r {
            Ok(Ok(())) => None,
            Ok(Err(m)) => Some(m),
            Err(p) => Some(format!("panicked: {}", pmsg(&p))),
        };
        let mut h = std::collections::hash_map::DefaultHasher::new();
        d.hash(&mut h);
        self.nontriv.insert(h.finish());
        if self.samples.len() < 5 && (self.evals % 97 == 1) { self.samples.push(d.clone()); }
        if let Some(m) = bad { self.fails.push(format!("{} :: {}", d, m)); false } else { true }
    }
    pub fn report(&self, id: &str) -> i32 {
        let ok = self.fails.is_empty();
        println!("{{\"status\":{},\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"wall\":{:.2},\"samples\":[{}],\"failures\":[{}]}}",
            js(if ok { "ok" } else { "fail" }), js(id), self.seed, self.evals, self.nontriv.len(), self.start.elapsed().as_secs_f64(),
            self.samples.iter().map(|s| js(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(","),
            self.fails.iter().map(|s| js(&s.chars().take(2000).collect::<String>())).collect::<Vec<_>>().join(","));
        if ok { 0 } else { 1 }
    }
}

pub fn pmsg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
pub fn must_panic<R: std::fmt::Debug>(what: &str, f: impl FnOnce() -> R) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => { let s = format!("{:?}", r); Err(format!("{}: expected a panic, returned {}", what, s.chars().take(300).collect::<String>())) }, Err(_) => Ok(()) }
}
pub fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
    if got == want { Ok(()) } else {
        let g = format!("{:?}", got); let w = format!("{:?}", want);
        Err(format!("{}: got {} want {}", what, g.chars().take(500).collect::<String>(), w.chars().take(500).collect::<String>())) }
}
#[macro_export]
macro_rules! chk { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

// ------------------------------------------------------------ reference model
#[derive(Clone, Debug, PartialEq)]
pub struct M<T> { pub d: Vec<usize>, pub e: Vec<T> }
pub fn prod(d: &[usize]) -> usize { d.iter().product() }
impl<T: Clone> M<T> {
    pub fn new(d: Vec<usize>, e: Vec<T>) -> Self { assert_eq!(prod(&d), e.len()); M { d, e } }
    pub fn gen(d: &[usize], mut f: impl FnMut(&[usize]) -> T) -> Self {
        let n = prod(d);
        let e = (0..n).map(|k| f(&unravel(k, d))).collect();
        M { d: d.to_vec(), e }
    }
    pub fn at(&self, ix: &[usize]) -> &T { &self.e[ravel(ix, &self.d)] }
}
pub fn unravel(mut k: usize, d: &[usize]) -> Vec<usize> {
    let mut v = vec![0; d.len()];
    for i in (0..d.len()).rev() { if d[i] > 0 { v[i] = k % d[i]; k /= d[i]; } }
    v
}
pub fn ravel(ix: &[usize], d: &[usize]) -> usize { let mut k = 0; for i in 0..d.len() { k = k * d[i] + ix[i]; } k }

pub fn same<T: Type + PartialEq + std::fmt::Debug + Clone>(what: &str, t: &Tensor<T>, m: &M<T>) -> Result<(), String> {
    eq(&format!("{} shape", what), t.shape().as_vec(), m.d.clone())?;
    eq(&format!("{} size", what), t.size(), m.e.len())?;
    eq(&format!("{} elements", what), t.as_slice().to_vec(), m.e.clone())
}
// a tensor holding the model, plain (view=0) or as a window of a larger buffer whose other cells are `junk`
pub fn mk<T: Type + Clone>(m: &M<T>, view: usize, junk: T) -> Tensor<T> {
    match view % 3 {
        0 => Tensor::from_vec(m.e.clone(), m.d.as_slice()),
        k => {
            let (a, b) = if k == 1 { (3, 2) } else { (m.e.len() + 1, m.e.len() + 5) };
            let mut v = vec![junk.clone(); a];
            v.extend(m.e.iter().cloned());
            v.extend(vec![junk; b]);
            let t = Tensor::from_vec(v, a + b + m.e.len());
            let t = if k == 2 { let n = t.size(); t.subslice_flat(1, n - 1, n - 1) } else { t };
            t.subslice_flat(if k == 2 { a - 1 } else { a }, m.e.len(), m.d.as_slice())
        }
    }
}
/// several tensors; for some views all of them are windows of one storage, in order or reversed, with or without a gap
pub fn mk_all<T: Type + Clone>(ms: &[&M<T>], view: usize, junk: T) -> Vec<Tensor<T>> {
    if view % 5 < 3 || ms.iter().any(|m| m.e.len() == 0) { return ms.iter().enumerate().map(|(i, m)| mk(m, if i < 3 { view / 3usize.pow(i as u32) } else { 0 }, junk.clone())).collect(); }
    let gap = view / 5 % 2; let n = ms.len();
    let order: Vec<usize> = if view % 5 == 3 { (0..n).collect() } else { (0..n).rev().collect() };
    let mut v = vec![junk.clone(); gap]; let mut at = vec![0; n];
    for i in order { at[i] = v.len(); v.extend(ms[i].e.iter().cloned()); v.extend(vec![junk.clone(); gap]); }
    let len = v.len(); let t = Tensor::from_vec(v, len);
    (0..n).map(|i| t.subslice_flat(at[i], ms[i].e.len(), ms[i].d.as_slice())).collect()
}
pub fn mk2<T: Type + Clone>(a: &M<T>, b: &M<T>, view: usize, junk: T) -> (Tensor<T>, Tensor<T>) { let mut t = mk_all(&[a, b], view, junk); let b = t.pop().unwrap(); (t.pop().unwrap(), b) }
pub fn ints(d: &[usize], base: i64) -> M<i64> { M { d: d.to_vec(), e: (0..prod(d) as i64).map(|k| base + k).collect() } }
pub fn strs(d: &[usize], p: &str) -> M<String> { M { d: d.to_vec(), e: (0..prod(d)).map(|k| format!("{}{}", p, k)).collect() } }
pub fn floats(d: &[usize], r: &mut Rng) -> M<f32> { M { d: d.to_vec(), e: (0..prod(d)).map(|_| (r.f() * 16.0).round() * 0.25 - 1.5).collect() } }

// all shapes of rank lo..=hi with dims in 1..=dmax and at most `cap` elements
pub fn shapes(lo: usize, hi: usize, dmax: usize, cap: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for r in lo..=hi {
        let n = dmax.pow(r as u32);
        for k in 0..n {
            let mut kk = k; let mut d = vec![];
            for _ in 0..r { d.push(1 + kk % dmax); kk /= dmax; }
            if prod(&d) <= cap { out.push(d); }
        }
    }
    out
}
pub fn std_shapes(lo: usize, hi: usize) -> Vec<Vec<usize>> {
    let mut v = shapes(lo, hi.min(3), 4, 64);
    if hi >= 4 { v.extend(shapes(4.max(lo), 4.min(hi), 3, 81)); }
    if hi >= 5 { v.extend(shapes(5.max(lo), hi, 2, 64)); v.push(vec![1, 3, 1, 2, 3]); v.push(vec![3, 1, 2, 1, 3]); v.push(vec![2, 1, 3, 2, 1]); }
    if hi >= 6 { v.push(vec![1, 2, 3, 1, 2, 2]); v.push(vec![3, 2, 1, 2, 1, 2]); v.push(vec![2, 1, 1, 3, 1, 3]); }
    for w in 5..=20 { v.push(vec![w]); v.push(vec![2, w]); v.push(vec![w, 3]); v.push(vec![2, w, 2]); v.push(vec![3, 2, w]); }
    v.retain(|d| d.len() >= lo && d.len() <= hi);
    v
}
impl Ctx {
    // random shape, now and then with a dimension taken from the literals of the source
    pub fn rshape(&mut self, lo: usize, hi: usize, cap: usize) -> Vec<usize> {
        loop {
            let r = self.rng.range(lo, hi);
            let mut d: Vec<usize> = (0..r).map(|_| { let m = *self.rng.pick(&[2usize, 3, 5, 8]); self.rng.range(1, m) }).collect();
            if r > 0 && !self.fresh.is_empty() && self.rng.below(2) == 0 {
                let i = self.rng.below(r); let l = *self.rng.pick(&self.fresh); d[i] = l;
                if prod(&d) <= cap.max(2 * l).min(20_000) { return d; }
                for (j, x) in d.iter_mut().enumerate() { if j != i { *x = 1 + (*x - 1) % 2; } }
                if prod(&d) <= cap.max(2 * l).min(20_000) { return d; }
                continue;
            }
            if r > 0 && self.rng.below(3) == 0 {
                let i = self.rng.below(r);
                d[i] = if self.rng.below(2) == 0 && !self.lits.is_empty() { *self.rng.pick(&self.lits) } else { let m = *self.rng.pick(&[20usize, 40, 140]); self.rng.range(1, m) };
            }
            if prod(&d) <= cap { return d; }
            let big = d.iter().cloned().max().unwrap_or(1);
            if big <= cap { for x in d.iter_mut() { if *x != big { *x = 1.max(*x % 2) } } if prod(&d) <= cap { return d; } }
        }
    }
}
