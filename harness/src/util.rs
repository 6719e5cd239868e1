//! Random numbers, cases, JSON, shapes, and the per-case context.
use std::cell::RefCell;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub type Op = [u16; 5];
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Case { pub params: [u16; 4], pub ops: Vec<Op> }
impl Case {
    pub fn hash64(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for p in self.params { h = crate::tok::mix(h, p as u64) }
        for o in &self.ops { for a in o { h = crate::tok::mix(h, *a as u64 + 1) } }
        h
    }
    pub fn to_json(&self, id: &str) -> String {
        let ops: Vec<String> = self.ops.iter().map(|o| format!("[{},{},{},{},{}]", o[0], o[1], o[2], o[3], o[4])).collect();
        format!("{{\"property\":\"{id}\",\"params\":[{},{},{},{}],\"ops\":[{}]}}", self.params[0], self.params[1], self.params[2], self.params[3], ops.join(","))
    }
    pub fn from_json(s: &str) -> Option<Case> {
        let nums = |s: &str| -> Vec<u16> { s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap_or(0)).collect() };
        let p = &s[s.find("\"params\"")? + 8..];
        let params = nums(&p[..p.find(']')?]);
        let o = &s[s.find("\"ops\"")? + 5..];
        let o = &o[..o.find("]]").or_else(|| o.find("[]"))? + 1];
        let all = nums(o);
        let mut c = Case::default();
        for (i, v) in params.iter().take(4).enumerate() { c.params[i] = *v }
        for ch in all.chunks(5) { if ch.len() == 5 { c.ops.push([ch[0], ch[1], ch[2], ch[3], ch[4]]) } }
        Some(c)
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(8 + self.ops.len() * 10);
        for p in self.params { v.extend(p.to_le_bytes()) }
        for o in &self.ops { for a in o { v.extend(a.to_le_bytes()) } }
        v
    }
    pub fn from_bytes(b: &[u8]) -> Case {
        let w: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])).collect();
        let mut c = Case::default();
        for i in 0..4 { c.params[i] = *w.get(i).unwrap_or(&0) }
        for ch in w.get(4..).unwrap_or(&[]).chunks(5) { if ch.len() == 5 { c.ops.push([ch[0], ch[1], ch[2], ch[3], ch[4]]) } }
        c
    }
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}

/// A tree shape: parent of node i (i >= 1) is `par[i] < i`; children are ordered by index.
pub fn shape(n: usize, seed: u16) -> Vec<usize> {
    let mut r = Rng::new(seed as u64 * 7919 + 13);
    let mut par = vec![0; n];
    let mode = r.below(8);
    for i in 1..n {
        par[i] = match mode {
            0 => i - 1,                                   // chain
            1 => 0,                                       // star
            2 => (i - 1) / 2,                             // complete binary
            3 => if i % 2 == 0 { i - 1 } else { i.saturating_sub(2) }, // caterpillar
            4 => i - 1 - r.below(i.min(3)),               // deep
            5 => (i - 1) / 3,
            _ => r.below(i),                              // random recursive tree
        };
    }
    par
}

#[derive(Debug)]
pub struct Stop; // the case ends here

pub type R<T> = Result<T, Stop>;

pub struct Fail { pub tags: Vec<&'static str>, pub msg: String }

/// Counters of what the cases exercised, by name.
pub const NFEAT: usize = 320;

pub struct Cx {
    pub id: &'static str,
    pub fails: Vec<Fail>,
    pub log: u64,
    pub trace: bool,
    pub feats: [u32; NFEAT],
    pub step: usize,
    pub nodes_seen: u64,
    pub big: bool,
    pub leak_ok: bool,
    /// Whatever goes wrong counts for the property under check.
    pub claim_all: bool,
    /// Where user code may be made to panic: the source of decisions.
    pub frng: Option<Rng>,
    /// Failures of other properties: counted, but the case goes on, as long as it can.
    pub soft: Option<Fail>,
}
impl Cx {
    pub fn new(id: &'static str, trace: bool) -> Cx {
        Cx { id, fails: Vec::new(), log: 0, trace, feats: [0; NFEAT], step: 0, nodes_seen: 0, big: false, leak_ok: false, claim_all: false, frng: None, soft: None }
    }
    pub fn feat(&mut self, k: usize) { self.feats[k] += 1 }
    pub fn l(&mut self, v: u64) { self.log = crate::tok::mix(self.log, v) }
    pub fn ls(&mut self, s: &str) { for b in s.bytes() { self.log = crate::tok::mix(self.log, b as u64) } }
    /// Records a failed check.
    pub fn fail(&mut self, tags: &[&'static str], msg: String) {
        if self.fails.len() >= 50 { return }
        let mut tags = tags.to_vec();
        // after a fault, whatever goes wrong is its consequence
        if self.leak_ok || self.claim_all { tags.push(self.id) }
        if tags.iter().any(|t| *t == self.id || *t == "*") { self.fails.push(Fail { tags, msg }) }
        else {
            if self.trace { println!("  [{}] (another property) {tags:?} {msg}", self.step) }
            if self.soft.is_none() { self.soft = Some(Fail { tags, msg }) }
        }
    }
    pub fn check(&mut self, ok: bool, tags: &[&'static str], msg: impl FnOnce() -> String) -> bool {
        if !ok { let m = msg(); self.fail(tags, m) }
        ok
    }
    /// Ends the case when anything failed so far.
    pub fn bail(&self) -> R<()> { if self.fails.is_empty() { Ok(()) } else { Err(Stop) } }
    pub fn t(&self, f: impl FnOnce() -> String) { if self.trace { println!("  [{}] {}", self.step, f()) } }
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "(injected)".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| if let Ok(mut p) = p.try_borrow_mut() { *p = format!("{m}{l}") });
    }));
}
pub fn last_panic() -> String { PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())) }

/// Runs `f`, expecting it may panic.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn std::any::Any + Send>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}

/// Consumes an iterator in many of the ways there are (next, nth, skip, step_by, take, find; at the end
/// count, last, fold, for_each, collect, or nothing) and compares what it yields with `exp`.
pub fn script<I: Iterator, E: PartialEq + std::fmt::Debug>(mut it: I, exp: &[E], exact: bool, r: &mut Rng, mut key: impl FnMut(I::Item) -> E) -> Result<(), String> {
    let n = exp.len();
    let mut pos = 0;
    macro_rules! hint { ($w:expr) => {{
        let left = n - pos;
        let (lo, hi) = it.size_hint();
        if exact && (lo, hi) != (left, Some(left)) { return Err(format!("{}, size_hint() is {:?} with {left} left", $w, (lo, hi))) }
        if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("{}, size_hint() is {:?} with {left} left", $w, (lo, hi))) }
    }} }
    macro_rules! same { ($got:expr, $i:expr, $w:expr) => {{
        let got = $got;
        let e = exp.get($i);
        if got.as_ref() != e { return Err(format!("{} at {pos} of {n}: {got:?}, expected {e:?}", $w)) }
    }} }
    hint!("at the start");
    for _ in 0..r.below(5) {
        let k = if r.chance(1, 12) { n + r.below(3) } else { r.below(4.min(n + 2)) };
        match r.below(7) {
            0 | 1 => { let x = it.nth(k).map(&mut key); same!(x, pos + k, format!("nth({k})")); pos = n.min(pos + k + 1); hint!(format!("after nth({k})")) }
            2 => { let x = it.by_ref().skip(k).next().map(&mut key); same!(x, pos + k, format!("skip({k}).next()")); pos = n.min(pos + k + 1); hint!(format!("after skip({k})")) }
            3 => {
                let c = 1 + r.below(3);
                let v: Vec<E> = it.by_ref().step_by(k + 1).take(c).map(&mut key).collect();
                let e: Vec<usize> = (pos..n).step_by(k + 1).take(c).collect();
                if v.len() != e.len() || v.iter().zip(&e).any(|(a, b)| *a != exp[*b]) { return Err(format!("step_by({}).take({c}) at {pos} of {n}: {v:?}", k + 1)) }
                pos = if e.len() < c { n } else { e[c - 1] + 1 };
                hint!("after step_by()")
            }
            4 => {
                let c = it.by_ref().take(k).map(&mut key).count();
                if c != k.min(n - pos) { return Err(format!("take({k}).count() at {pos} of {n} is {c}")) }
                pos = n.min(pos + k);
                hint!("after take()")
            }
            5 => { let mut j = 0; let x = it.find(|_| { j += 1; j > k }).map(&mut key); same!(x, pos + k, "find()"); pos = n.min(pos + k + 1); hint!("after find()") }
            _ => { let x = it.next().map(&mut key); same!(x, pos, "next()"); pos = n.min(pos + 1); hint!("after next()") }
        }
    }
    let rest = |v: Vec<E>, w: &str| if v[..] != exp[pos..] { Err(format!("{w} of the rest from {pos} of {n}: {v:?}")) } else { Ok(()) };
    match r.below(7) {
        0 => { let c = it.count(); if c != n - pos { return Err(format!("count() of the rest from {pos} of {n} is {c}")) } }
        1 => { let x = it.last().map(key); let e = if pos < n { exp.last() } else { None }; if x.as_ref() != e { return Err(format!("last() from {pos} of {n}: {x:?}, expected {e:?}")) } }
        2 => { let v = it.fold(vec![], |mut v, x| { v.push(key(x)); v }); rest(v, "fold()")? }
        3 => { let mut v = vec![]; it.for_each(|x| v.push(key(x))); rest(v, "for_each()")? }
        4 => { let v: Vec<E> = it.map(key).collect(); rest(v, "collect()")? }
        5 => { let mut v = vec![]; for x in it.by_ref() { v.push(key(x)); if v.len() > n + 2 { break } } rest(v, "a loop")?; if it.next().is_some() { return Err("goes on after its end".into()) } pos = n; hint!("after the end") }
        _ => {}
    }
    Ok(())
}
