//! World D: the same operations on trees of many kinds of data: zero-sized, tiny, huge, over-aligned, without or with a
//! destructor, owning heap memory, sharing, containing trees themselves, not `Unpin`, incomparable.
//! The oracle is a plain ordered tree of numbers; the allocator watches memory.
use crate::alloc;
use crate::util::*;
use crate::wa::{bfs_of, scattered, Store};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::rc::Rc;
use trees::rc::WeakNode;
use trees::walk::Visit;
use trees::{Forest, ForestWalk, Node, RcNode, Tree, TreeWalk};

pub trait Dat: Clone + PartialEq + PartialOrd + Hash + Debug + Display + 'static {
    fn make(v: u32) -> Self;
    /// What can be told from the value.
    fn val(&self) -> u32;
    /// A change in place.
    fn set(&mut self, v: u32) { *self = Self::make(v) }
}
macro_rules! shown { ($($t:ty),*) => { $(impl Display for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "d{}", self.val()) } })* } }
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] pub struct Z;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] #[repr(align(64))] pub struct Z64;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] pub struct Three(u8, u8, u8);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] #[repr(align(128))] pub struct Al(u8);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] #[repr(align(4096))] pub struct Page(u16);
#[derive(Clone, PartialEq, PartialOrd, Debug)] pub struct Big([u64; 70]);
impl Hash for Big { fn hash<H: Hasher>(&self, h: &mut H) { self.0[0].hash(h) } }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] pub struct Pinned(u32, PhantomPinned);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] pub struct Heap(Option<Box<u32>>, Vec<u8>);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)] pub struct Share(Rc<u32>);
#[derive(Clone, PartialEq, PartialOrd, Debug)] pub struct Nest(Tree<u8>);
impl Hash for Nest { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
#[derive(Clone, PartialEq, PartialOrd, Debug)] pub struct NestF(Forest<u16>);
impl Hash for NestF { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
#[derive(Clone, PartialEq, PartialOrd, Debug)] pub struct NestR(RcNode<u8>);
impl Hash for NestR { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
#[derive(Clone, PartialEq, PartialOrd, Debug)] pub struct Fl(f64);
impl Hash for Fl { fn hash<H: Hasher>(&self, h: &mut H) { self.0.to_bits().hash(h) } }
shown!(Z, Z64, Three, Al, Page, Big, Pinned, Heap, Share, Nest, NestF, NestR, Fl);
impl Dat for Z { fn make(_: u32) -> Self { Z } fn val(&self) -> u32 { 0 } }
impl Dat for Z64 { fn make(_: u32) -> Self { Z64 } fn val(&self) -> u32 { (self as *const _ as usize % 64) as u32 } }
impl Dat for u8 { fn make(v: u32) -> Self { v as u8 } fn val(&self) -> u32 { *self as u32 } }
impl Dat for u64 { fn make(v: u32) -> Self { (v as u64) << 32 | !v as u64 } fn val(&self) -> u32 { if *self as u32 == !((*self >> 32) as u32) { (*self >> 32) as u32 } else { u32::MAX } } }
impl Dat for u128 { fn make(v: u32) -> Self { (v as u128) << 90 | v as u128 } fn val(&self) -> u32 { if (*self >> 90) as u32 == *self as u32 { *self as u32 } else { u32::MAX } } }
impl Dat for Three { fn make(v: u32) -> Self { Three(v as u8, (v >> 8) as u8, 9) } fn val(&self) -> u32 { self.0 as u32 | (self.1 as u32) << 8 | (self.2 as u32 - 9) << 16 } }
impl Dat for Al { fn make(v: u32) -> Self { Al(v as u8) } fn val(&self) -> u32 { self.0 as u32 + (self as *const _ as usize % 128) as u32 * 256 } }
impl Dat for Page { fn make(v: u32) -> Self { Page(v as u16) } fn val(&self) -> u32 { self.0 as u32 + (self as *const _ as usize % 4096) as u32 * 65536 } }
impl Dat for Big { fn make(v: u32) -> Self { let mut b = [v as u64; 70]; b[69] = !v as u64; Big(b) } fn val(&self) -> u32 { if self.0[..69].iter().all(|x| *x == self.0[0]) && self.0[69] as u32 == !(self.0[0] as u32) { self.0[0] as u32 } else { u32::MAX } } }
impl Dat for Pinned { fn make(v: u32) -> Self { Pinned(v, PhantomPinned) } fn val(&self) -> u32 { self.0 } }
impl Dat for Heap {
    fn make(v: u32) -> Self { Heap(if v % 3 == 0 { None } else { Some(Box::new(v)) }, vec![v as u8; v as usize % 7]) }
    fn val(&self) -> u32 { self.0.as_ref().map_or(0, |b| **b & 0xffff) << 16 | self.1.first().map_or(0, |x| *x as u32) << 4 | self.1.len() as u32 }
}
impl Dat for Share { fn make(v: u32) -> Self { Share(Rc::new(v)) } fn val(&self) -> u32 { *self.0 } }
impl Dat for Nest {
    fn make(v: u32) -> Self { let mut t = Tree::new(v as u8); for i in 0..v % 3 { t.push_back(Tree::new(i as u8)) } Nest(t) }
    fn val(&self) -> u32 { self.0.node_count() as u32 * 256 + *self.0.data() as u32 }
    fn set(&mut self, v: u32) { if v % 2 == 0 { std::mem::swap(&mut self.0, &mut Nest::make(v).0) } else { self.0 = Nest::make(v).0 } }
}
impl Dat for NestF { fn make(v: u32) -> Self { let mut f = Forest::new(); f.push_back(Tree::new(v as u16)); if v % 2 == 0 { f = Forest::from(f.into_bfs()) } NestF(f) } fn val(&self) -> u32 { self.0.front().map_or(u32::MAX, |n| *n.data() as u32) } }
impl Dat for NestR { fn make(v: u32) -> Self { let t = Tree::new(v as u8) ; NestR(RcNode::from(if v % 2 == 0 { t } else { Tree::from(t.into_bfs()) })) } fn val(&self) -> u32 { *self.0.data() as u32 } }
impl Dat for Fl { fn make(v: u32) -> Self { Fl(if v % 5 == 4 { f64::NAN } else { v as f64 }) } fn val(&self) -> u32 { if self.0.is_nan() { u32::MAX } else { self.0 as u32 } } }
impl Dat for String { fn make(v: u32) -> Self { format!("{v}") } fn val(&self) -> u32 { self.parse().unwrap_or(u32::MAX) } }
impl Dat for &'static str { fn make(v: u32) -> Self { ["a", "bc", "", "( )"][v as usize % 4] } fn val(&self) -> u32 { self.len() as u32 } }
impl Dat for bool { fn make(v: u32) -> Self { v % 2 == 1 } fn val(&self) -> u32 { *self as u32 } }

pub const KINDS: usize = 19;
pub const F0: usize = 264; // one feature per kind
pub const F_KIND3: usize = 290; // trees of more than three nodes edited
pub const F_KSHARED: usize = 291;
pub const F_KWEAK_NONE: usize = 292;
pub const KIND_NAMES: [&str; KINDS] = ["zero_sized", "zero_sized_align64", "u8", "u64", "u128", "three_bytes", "align128", "align4096", "560_bytes", "not_unpin", "owns_heap", "shares", "tree_in_tree", "forest_in_tree", "handle_in_tree", "f64_with_nan", "String", "str", "bool"];

pub fn run(case: &Case, store: Store, cx: &mut Cx) -> R<()> {
    let k = case.params[3] as usize % KINDS;
    cx.feat(F0 + k);
    match k {
        0 => go::<Z>(case, store, cx), 1 => go::<Z64>(case, store, cx), 2 => go::<u8>(case, store, cx), 3 => go::<u64>(case, store, cx),
        4 => go::<u128>(case, store, cx), 5 => go::<Three>(case, store, cx), 6 => go::<Al>(case, store, cx), 7 => go::<Page>(case, store, cx),
        8 => go::<Big>(case, store, cx), 9 => go::<Pinned>(case, store, cx), 10 => go::<Heap>(case, store, cx), 11 => go::<Share>(case, store, cx),
        12 => go::<Nest>(case, store, cx), 13 => go::<NestF>(case, store, cx), 14 => go::<NestR>(case, store, cx), 15 => go::<Fl>(case, store, cx),
        16 => go::<String>(case, store, cx), 17 => go::<&'static str>(case, store, cx), _ => go::<bool>(case, store, cx),
    }
}

#[derive(Clone, Debug)]
struct M { v: u32, k: Vec<M> }
impl M {
    fn count(&self) -> usize { 1 + self.k.iter().map(|m| m.count()).sum::<usize>() }
    fn at(&mut self, path: &[usize]) -> &mut M { let mut m = self; for &i in path { m = &mut m.k[i] } m }
    fn text<T: Dat>(&self) -> String {
        let d = T::make(self.v).to_string();
        if self.k.is_empty() { return d }
        format!("{d}( {} )", self.k.iter().map(|k| k.text::<T>()).collect::<Vec<_>>().join(" "))
    }
    fn cmp<T: Dat>(&self, o: &M) -> Option<Ordering> {
        match T::make(self.v).partial_cmp(&T::make(o.v)) { Some(Ordering::Equal) => {} x => return x }
        for (a, b) in self.k.iter().zip(&o.k) { match a.cmp::<T>(b) { Some(Ordering::Equal) => {} x => return x } }
        Some(self.k.len().cmp(&o.k.len()))
    }
    fn eq<T: Dat>(&self, o: &M) -> bool { T::make(self.v) == T::make(o.v) && self.k.len() == o.k.len() && self.k.iter().zip(&o.k).all(|(a, b)| a.eq::<T>(b)) }
    fn bfs<'a>(&'a self) -> Vec<&'a M> { let mut q = vec![self]; let mut i = 0; while i < q.len() { for k in &q[i].k { q.push(k) } i += 1 } q }
    fn pre(&self, v: &mut Vec<u32>) { v.push(self.v); for k in &self.k { k.pre(v) } }
}
fn canon<T: Dat>(v: u32) -> u32 { if std::mem::align_of::<T>() > 32 { let b = Box::new(T::make(v)); b.val() } else { T::make(v).val() } }
fn pm<T>(p: Pin<&mut Node<T>>) -> &mut Node<T> { unsafe { p.get_unchecked_mut() } }

/// Compares a node with the model.
fn same<T: Dat>(n: &Node<T>, m: &M, parent: Option<&Node<T>>, st: &[&'static str], cx: &mut Cx) {
    if !cx.fails.is_empty() || cx.soft.is_some() { return }
    cx.nodes_seen += 1;
    if n.data().val() != canon::<T>(m.v) { cx.fail(st, format!("a node holds {:?} ({}), expected {:?}", n.data(), n.data().val(), T::make(m.v))); return }
    let a = n.data() as *const T as usize;
    if a % std::mem::align_of::<T>() != 0 { cx.fail(&["C05", "C24", "C33", "C01", cx.id], format!("data at {a:x} are not aligned to {}", std::mem::align_of::<T>())) }
    if alloc::live() > 0 && std::mem::size_of::<T>() > 0 { match alloc::block_of(a) { Some((s, z)) if a + std::mem::size_of::<T>() <= s + z => {} _ => cx.fail(&["C05", "C24", "C33"], format!("data at {a:x} are not inside an allocated block")) } }
    if n.degree() != m.k.len() || n.node_count() != m.count() || n.has_no_child() != m.k.is_empty() { cx.fail(&["C02", st[0]], format!("degree() and node_count() are {} and {}, expected {} and {}", n.degree(), n.node_count(), m.k.len(), m.count())) }
    if n.parent().map(|p| p as *const _) != parent.map(|p| p as *const _) { cx.fail(&["C03", st[0]], "parent() is wrong".into()) }
    let mut i = 0;
    for c in n.iter() { if i >= m.k.len() { break } same(c, &m.k[i], Some(n), st, cx); i += 1 }
    if i != m.k.len() { cx.fail(st, format!("a node has {i} children, expected {}", m.k.len())) }
    if n.front().map(|x| x as *const _) != n.iter().next().map(|x| x as *const _) || n.back().map(|x| x as *const _) != n.iter().last().map(|x| x as *const _) { cx.fail(&["C03", st[0]], "front() or back() is not an end of the children".into()) }
}

struct D<T: Dat> { ts: Vec<(Tree<T>, M)>, fs: Vec<(Forest<T>, Vec<M>)>, next: u32, store: Store }
impl<T: Dat> D<T> {
    fn v(&mut self) -> u32 { self.next += 1; self.next }
    fn model(&mut self, par: &[usize]) -> M {
        let vs: Vec<u32> = par.iter().map(|_| self.v()).collect();
        let mut ms: Vec<Option<M>> = vs.iter().map(|v| Some(M { v: *v, k: vec![] })).collect();
        for i in (1..par.len()).rev() { let m = ms[i].take().unwrap(); ms[par[i]].as_mut().unwrap().k.insert(0, m) }
        ms[0].take().unwrap()
    }
    fn build(&mut self, n: usize, seed: u16, piled: bool, how: u16) -> (Tree<T>, M) {
        let piled = match self.store { Store::AsIs => piled, Store::Scattered => false, Store::Piled => true };
        let par = shape(n.max(1), seed);
        let first = self.next + 1;
        let m = self.model(&par);
        let ts: Vec<T> = (0..par.len()).map(|i| T::make(first + i as u32)).collect();
        (if piled { Tree::from(bfs_of(&par, ts)) } else { scattered(&par, ts, how) }, m)
    }
    fn forest(&mut self, a: u16, b: u16) -> (Forest<T>, Vec<M>) {
        let (mut t, m) = self.build(1 + a as usize % 7, b, b % 2 == 0, a);
        (t.abandon(), m.k)
    }
    fn take(&mut self, r: &mut Rng) -> (Tree<T>, M) {
        if self.ts.is_empty() || r.chance(1, 2) { self.build(1 + r.below(6), r.next() as u16, r.chance(1, 2), r.next() as u16) } else { let i = r.below(self.ts.len()); self.ts.swap_remove(i) }
    }
}
fn path(m: &M, r: &mut Rng) -> Vec<usize> { let mut p = vec![]; let mut m = m; while !m.k.is_empty() && r.chance(3, 4) { let i = r.below(m.k.len()); p.push(i); m = &m.k[i] } p }
fn node_at<'a, T: Dat>(t: &'a mut Tree<T>, p: &[usize]) -> &'a mut Node<T> {
    let mut n = pm(t.root_mut());
    for &i in p { n = pm(n.iter_mut().nth(i).unwrap()) }
    n
}
pub const OPS: &[&str] = &["k_new", "k_push", "k_pop", "k_insert", "k_detach", "k_forest", "k_abandon", "k_into_iter", "k_clone", "k_rebuild", "k_into_bfs", "k_walk", "k_shared", "k_drop", "k_set", "k_operator", "k_edit_iter", "k_compare", "k_tuple", "k_bfs"];
fn tags(code: usize) -> &'static [&'static str] {
    match code { 1..=5 | 16 => &["C01", "C02", "C03", "C34"], 6 | 7 => &["C04", "C01", "C34"], 8 => &["C14", "C34"], 9 | 10 => &["C13", "C34"], 11 => &["C17", "C15", "C34"], 12 => &["C21", "C22", "C26", "C34"], 15 => &["C11"], 17 => &["C19", "C18", "C20"], 18 => &["C09"], 19 => &["C12"], _ => &["C01", "C34"] }
}

fn go<T: Dat>(case: &Case, store: Store, cx: &mut Cx) -> R<()> {
    let mut w = std::mem::ManuallyDrop::new(D::<T> { ts: vec![], fs: vec![], next: 0, store });
    for (i, o) in case.ops.iter().enumerate() {
        cx.step = i;
        let code = o[0] as usize % OPS.len();
        let st = tags(code);
        cx.t(|| format!("{:<12} {:?}", OPS[code], &o[1..]));
        cx.l(code as u64);
        step(&mut w, code, o, st, cx)?;
        for (t, m) in &w.ts { same(t.root(), m, None, st, cx); if m.count() > 3 { cx.feat(F_KIND3) } }
        for (f, m) in &w.fs {
            let n: usize = m.iter().map(|x| x.count()).sum();
            if f.degree() != m.len() || f.node_count() != n { cx.fail(&["C02", st[0]], format!("a forest reports {} trees and {} nodes, expected {} and {n}", f.degree(), f.node_count(), m.len())) }
            if f.iter().count() != m.len() { cx.fail(st, "a forest has a wrong number of trees".into()) }
            for (x, m) in f.iter().zip(m) { same(x, m, None, st, cx) }
        }
        cx.t(|| w.ts.iter().map(|t| t.1.text::<u64>()).collect::<Vec<_>>().join("; "));
        for (t, _) in &w.ts { cx.l(t.node_count() as u64); for n in t.iter() { cx.l(n.data().val() as u64) } }
        let e = alloc::errors();
        if e != 0 { cx.fail(&["C05", "C24", "C33", cx.id], alloc::describe(e)) }
        if cx.soft.is_some() { return Err(Stop) }
        cx.bail()?;
    }
    drop(std::mem::ManuallyDrop::into_inner(w));
    Ok(())
}

fn step<T: Dat>(w: &mut D<T>, code: usize, o: &Op, st: &[&'static str], cx: &mut Cx) -> R<()> {
    let [_, a, b, c, d] = *o;
    let mut r = Rng::new((a as u64) << 48 | (b as u64) << 32 | (c as u64) << 16 | d as u64);
    let total: usize = w.ts.iter().map(|t| t.1.count()).sum::<usize>() + w.fs.iter().map(|f| f.1.iter().map(|m| m.count()).sum::<usize>()).sum::<usize>();
    let code = if total > 80 { 13 } else if w.ts.is_empty() && code != 18 { 0 } else { code };
    let big = cx.big;
    let nt = w.ts.len();
    let i = r.below(nt);
    match code {
        0 => { let x = w.build(1 + r.below(if big { 60 } else { 9 }), b, c % 2 == 0, d); w.ts.push(x) }
        1 => {
            let (mut t, mut m) = w.ts.swap_remove(i);
            let (k, km) = w.take(&mut r);
            let p = path(&m, &mut r);
            let q = m.at(&p);
            if c % 2 == 0 { node_at(&mut t, &p).push_front(k); q.k.insert(0, km) } else { node_at(&mut t, &p).push_back(k); q.k.push(km) }
            w.ts.push((t, m));
        }
        2 => {
            let (t, m) = &mut w.ts[i];
            let p = path(m, &mut r);
            let q = m.at(&p);
            let n = node_at(t, &p);
            let got = if c % 2 == 0 { n.pop_front() } else { n.pop_back() };
            let exp = if q.k.is_empty() { None } else if c % 2 == 0 { Some(q.k.remove(0)) } else { q.k.pop() };
            match (got, exp) { (Some(t), Some(m)) => w.ts.push((t, m)), (None, None) => {} (g, e) => { cx.fail(st, format!("pop gives {}, expected {e:?}", g.is_some())); std::mem::forget(g); return Err(Stop) } }
        }
        3 | 4 => {
            let (mut t, mut m) = w.ts.swap_remove(i);
            let p = path(&m, &mut r);
            if p.is_empty() { w.ts.push((t, m)); return Ok(()) }
            let (j, up) = (p[p.len() - 1], &p[..p.len() - 1]);
            if code == 3 {
                let (k, km) = w.take(&mut r);
                let n = node_at(&mut t, &p);
                if c % 2 == 0 { n.insert_prev_sib(k) } else { n.insert_next_sib(k) }
                m.at(up).k.insert(j + (c % 2) as usize, km);
            } else {
                let k = node_at(&mut t, &p).detach();
                let km = m.at(up).k.remove(j);
                w.ts.push((k, km));
            }
            w.ts.push((t, m));
        }
        5 => {
            let (f, ms) = if w.fs.is_empty() || r.chance(1, 2) { w.forest(b, c) } else { w.fs.pop().unwrap() };
            let (t, m) = &mut w.ts[i];
            let p = path(m, &mut r);
            let q = m.at(&p);
            if d % 2 == 0 { node_at(t, &p).append(f); q.k.extend(ms) } else { node_at(t, &p).prepend(f); let mut v = ms; v.append(&mut q.k); q.k = v }
        }
        6 => {
            let (t, m) = &mut w.ts[i];
            let f = t.abandon();
            let ms = std::mem::take(&mut m.k);
            w.fs.push((f, ms));
        }
        7 => {
            if c % 2 == 0 {
                let (t, m) = w.ts.swap_remove(i);
                let mut it = t.into_iter();
                if it.len() != 1 { cx.fail(&["C07"], "into_iter() of a tree is not of length 1".into()) }
                if let Some(t) = it.next() { w.ts.push((t, m)) } else { cx.fail(&["C07", "C04"], "into_iter() of a tree yields nothing".into()) }
                return Ok(());
            }
            if w.fs.is_empty() { let f = w.forest(b, c); w.fs.push(f) }
            let (f, ms) = w.fs.pop().unwrap();
            let n = ms.len();
            let mut it = f.into_iter();
            let stop = r.below(n + 2);
            for (j, m) in ms.into_iter().enumerate() {
                if it.len() != n - j { cx.fail(&["C07"], format!("into_iter().len() is {} with {} left", it.len(), n - j)) }
                if j >= stop { break }
                match it.next() { Some(t) => w.ts.push((t, m)), None => { cx.fail(&["C07", "C04"], "into_iter() ends early".into()); break } }
            }
        }
        8 => {
            let (t, m) = &mut w.ts[i];
            let p = path(m, &mut r);
            let q = m.at(&p).clone();
            match c % 3 {
                0 => { let k = node_at(t, &p).deep_clone(); w.ts.push((k, q)) }
                1 => { let k = node_at(t, &p).deep_clone_forest(); w.fs.push((k, q.k)) }
                _ => if let (Some((f, ms)), true) = (w.fs.last(), d % 2 == 0) { let x = (f.clone(), ms.clone()); w.fs.push(x) } else { let x = (t.clone(), m.clone()); w.ts.push(x) }
            }
        }
        9 => {
            if let (true, Some((f, ms))) = (c % 3 == 0, w.fs.pop()) { let k = Forest::from(f.bfs().map(|x| x.clone())); drop(f); w.fs.push((k, ms)); return Ok(()) }
            let (t, m) = w.ts.swap_remove(i);
            let k = Tree::from(t.bfs().map(|x| x.clone()));
            drop(t);
            w.ts.push((k, m));
        }
        10 => {
            if let (true, Some((f, ms))) = (c % 3 == 0, w.fs.pop()) {
                if d % 4 == 0 { let mut it = f.into_bfs().iter; for _ in 0..r.below(5) { drop(it.next()) } }
                else { w.fs.push((Forest::from(f.into_bfs()), ms)) }
                return Ok(());
            }
            let (t, m) = w.ts.swap_remove(i);
            if d % 4 == 0 {
                let exp: Vec<u32> = m.bfs().iter().map(|x| canon::<T>(x.v)).collect();
                let mut it = t.into_bfs().iter;
                for e in exp.iter().take(r.below(exp.len() + 2)) { match it.next() { Some(v) => { let v = Box::new(v.data); if v.val() != *e && std::mem::align_of::<T>() <= 32 { cx.fail(&["C13", "C12"], "into_bfs() yields a wrong value".into()) } } None => cx.fail(&["C13", "C12"], "into_bfs() ends early".into()) } }
            } else { w.ts.push((Tree::from(t.into_bfs()), m)) }
        }
        11 => {
            if let (true, Some((f, ms))) = (c % 3 == 0, w.fs.pop()) {
                let mut k = ForestWalk::from(f);
                let mut exp = vec![];
                for m in &ms { m.pre(&mut exp) }
                walk_check::<T>(&exp, r.below(exp.len() * 2 + 2), || { let v = match k.get() { Some(Visit::Begin(n)) | Some(Visit::Leaf(n)) => Some(Some(n.data().val())), Some(_) => Some(None), None => None }; k.forward(); v }, cx);
                w.fs.push((Forest::from(k), ms));
                return Ok(());
            }
            let (t, m) = w.ts.swap_remove(i);
            let mut k = TreeWalk::from(t);
            let mut exp = vec![];
            m.pre(&mut exp);
            walk_check::<T>(&exp, r.below(exp.len() * 2 + 2), || { let v = match k.get() { Some(Visit::Begin(n)) | Some(Visit::Leaf(n)) => Some(Some(n.data().val())), Some(_) => Some(None), None => None }; k.forward(); v }, cx);
            if d % 4 == 0 { drop(k) } else { w.ts.push((Tree::from(k), m)) }
        }
        12 => { let x = w.ts.swap_remove(i); if let Some(x) = shared(x.0, x.1, w, &mut r, cx)? { w.ts.push(x) } }
        13 => { if r.chance(1, 2) && !w.fs.is_empty() { drop(w.fs.swap_remove(0)) } else if !w.ts.is_empty() { drop(w.ts.swap_remove(i)) } }
        14 => {
            let v = w.v();
            let (t, m) = &mut w.ts[i];
            let p = path(m, &mut r);
            m.at(&p).v = v;
            let n = node_at(t, &p);
            match c % 3 { 0 => n.data_mut().set(v), 1 => { *n.data_mut() = T::make(v) } _ => { let mut x = T::make(v); std::mem::swap(n.data_mut(), &mut x) } }
        }
        15 => {
            let (x, mx) = w.ts.swap_remove(i);
            let (y, my) = w.take(&mut r);
            match c % 8 {
                0 => w.fs.push((x - y, vec![mx, my])),
                1 => { let mut m = mx; m.k.push(my); w.ts.push((x / y, m)) }
                2 => { w.fs.push((-x, vec![mx])); w.ts.push((y, my)) }
                3 => { let f = &x - &y; w.fs.push((f, vec![mx.clone(), my.clone()])); w.ts.push((x, mx)) }
                4 => { let (f, fm) = w.forest(a, b); let mut m = mx; m.k.extend(fm); w.ts.push((x / f, m)); w.ts.push((y, my)) }
                5 => { let (f, fm) = w.forest(a, b); let z = &x / &f; let mut m = mx.clone(); m.k.extend(fm); w.ts.push((z, m)); w.ts.push((x, mx)) }
                6 => { let (f, mut fm) = w.forest(a, b); fm.push(mx); w.fs.push((f - x, fm)) }
                _ => { let (f, mut fm) = w.forest(a, b); let (g, gm) = w.forest(c, d); fm.extend(gm); w.fs.push((f - g, fm)); w.ts.push((x, mx)) }
            }
        }
        16 => {
            // every child of a node is visited, whatever is done meanwhile
            let extra: Vec<(Tree<T>, M)> = (0..4).map(|_| w.build(1 + r.below(2), b, r.chance(1, 2), c)).collect();
            let (t, m) = &mut w.ts[i];
            let p = path(m, &mut r);
            let q = m.at(&p);
            let old = std::mem::take(&mut q.k);
            let mut extra = extra.into_iter();
            let mut out = vec![];
            let mut j = 0;
            for n in node_at(t, &p).iter_mut() {
                let n = pm(n);
                if j >= old.len() { cx.fail(&["C08", "C07"], "iter_mut() yields too many children".into()); break }
                if n.data().val() != canon::<T>(old[j].v) { cx.fail(&["C08", "C07"], "iter_mut() yields a wrong child".into()) }
                let mut km = old[j].clone();
                match r.below(6) {
                    0 => if let Some((k, m)) = extra.next() { n.insert_prev_sib(k); q.k.push(m); q.k.push(km) } else { q.k.push(km) },
                    1 => if let Some((k, m)) = extra.next() { n.insert_next_sib(k); q.k.push(km); q.k.push(m) } else { q.k.push(km) },
                    2 => { let k = n.detach(); out.push((k, km)) }
                    3 => if let Some((k, m)) = extra.next() { n.push_back(k); km.k.push(m); q.k.push(km) } else { q.k.push(km) },
                    _ => q.k.push(km),
                }
                j += 1;
            }
            if j != old.len() && cx.fails.is_empty() { cx.fail(&["C08", "C07"], format!("iter_mut() yields {j} of {} children", old.len())) }
            w.ts.extend(out);
        }
        17 => {
            let j = r.below(nt);
            let (x, y) = (&w.ts[i], &w.ts[j]);
            if (x.0 == y.0) != x.1.eq::<T>(&y.1) || (x.0 != y.0) == x.1.eq::<T>(&y.1) { cx.fail(&["C19"], "== or != is wrong".into()) }
            if x.0.partial_cmp(&y.0) != x.1.cmp::<T>(&y.1) { cx.fail(&["C19"], format!("partial_cmp() is {:?}, expected {:?}", x.0.partial_cmp(&y.0), x.1.cmp::<T>(&y.1))) }
            if x.0.to_string() != x.1.text::<T>() { cx.fail(&["C18"], format!("the text is {:?}, expected {:?}", x.0.to_string(), x.1.text::<T>())) }
            if format!("{:?}", x.0.deep_clone()).len() == 0 { cx.fail(&["C18"], "no text".into()) }
            let h = |t: &Tree<T>| { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() };
            let k = Tree::from(x.0.bfs().map(|v| v.clone()));
            if h(&x.0) != h(&k) { cx.fail(&["C20"], "a rebuilt tree hashes differently".into()) }
        }
        18 => {
            let mut f = || { let v = w.v(); (T::make(v), v) };
            let v: Vec<(T, u32)> = (0..9).map(|_| f()).collect();
            let ms: Vec<u32> = v.iter().map(|x| x.1).collect();
            let mut v = v.into_iter().map(|x| x.0);
            let mut n = || v.next().unwrap();
            let l = |i: usize| M { v: ms[i], k: vec![] };
            match c % 6 {
                0 => { let t = Tree::from_tuple((n(), (n(), n()), n())); w.ts.push((t, M { v: ms[0], k: vec![M { v: ms[1], k: vec![l(2)] }, l(3)] })) }
                1 => { let t = Tree::from_tuple((n(), (n(), n(), (n(), n(), n())), (n(), n()), n())); w.ts.push((t, M { v: ms[0], k: vec![M { v: ms[1], k: vec![l(2), M { v: ms[3], k: vec![l(4), l(5)] }] }, M { v: ms[6], k: vec![l(7)] }, l(8)] })) }
                2 => { let f = Forest::from_tuple(((n(), n(), n()), n(), (n(), n()))); w.fs.push((f, vec![M { v: ms[0], k: vec![l(1), l(2)] }, l(3), M { v: ms[4], k: vec![l(5)] }])) }
                3 => { let f = Forest::from_tuple((n(), (n(), (n(), (n(), n()))))); w.fs.push((f, vec![l(0), M { v: ms[1], k: vec![M { v: ms[2], k: vec![M { v: ms[3], k: vec![l(4)] }] }] }])) }
                4 => { let t = Tree::from_tuple((n(), n())); w.ts.push((t, M { v: ms[0], k: vec![l(1)] })) }
                _ => { let t = Tree::from_tuple((n(), (n(), (n(), n()), n()), ((n()), n(), n()))); let _ = &t; w.ts.push((t, M { v: ms[0], k: vec![M { v: ms[1], k: vec![M { v: ms[2], k: vec![l(3)] }, l(4)] }, M { v: ms[5], k: vec![l(6), l(7)] }] })) }
            }
        }
        _ => {
            let v0 = w.next + 1;
            let (t, m) = &mut w.ts[i];
            let e: Vec<(u32, usize, usize)> = m.bfs().iter().map(|x| (canon::<T>(x.v), x.k.len(), x.count() - 1)).collect();
            let g: Vec<(u32, usize, usize)> = t.bfs().iter.map(|v| (v.data.val(), v.size.degree, v.size.descendants)).collect();
            if e != g { cx.fail(&["C12"], "bfs() yields something else".into()); return Err(Stop) }
            if c % 2 == 0 {
                let mut v = v0;
                for x in t.bfs_mut().iter { x.data.set(v); v += 1 }
                // the model in the same order
                let mut q: Vec<Vec<usize>> = vec![vec![]];
                let mut j = 0;
                while j < q.len() { let p = q[j].clone(); let x = m.at(&p); x.v = v0 + j as u32; let n = x.k.len(); for k in 0..n { let mut z = p.clone(); z.push(k); q.push(z) } j += 1 }
                w.next = v;
            }
        }
    }
    Ok(())
}


fn walk_check<T: Dat>(exp: &[u32], n: usize, mut next: impl FnMut() -> Option<Option<u32>>, cx: &mut Cx) {
    let mut j = 0;
    for _ in 0..n {
        match next() {
            None => { if j != exp.len() { cx.fail(&["C15", "C17"], format!("a walk ends after {j} of {} nodes", exp.len())) } return }
            Some(None) => {}
            Some(Some(v)) => { if j >= exp.len() || v != canon::<T>(exp[j]) { cx.fail(&["C15", "C17"], format!("a walk visits a wrong node after {j}")); return } j += 1 }
        }
    }
}

struct S { v: u32, parent: Option<usize>, k: Vec<usize>, refs: usize, dead: bool }
fn flat(m: &M, parent: Option<usize>, a: &mut Vec<S>) -> usize {
    let i = a.len();
    a.push(S { v: m.v, parent, k: vec![], refs: 0, dead: false });
    for k in &m.k { let j = flat(k, Some(i), a); a[i].k.push(j) }
    i
}
fn back(a: &[S], i: usize) -> M { M { v: a[i].v, k: a[i].k.iter().map(|k| back(a, *k)).collect() } }
fn settle(a: &mut [S], cx: &mut Cx) {
    loop {
        let Some(i) = (0..a.len()).find(|i| !a[*i].dead && a[*i].refs == 0 && a[*i].parent.is_none()) else { return };
        a[i].dead = true;
        cx.feat(F_KSHARED);
        for k in std::mem::take(&mut a[i].k) { a[k].parent = None }
    }
}
fn same_rc<T: Dat>(h: &RcNode<T>, i: usize, a: &[S], cx: &mut Cx) {
    if !cx.fails.is_empty() || cx.soft.is_some() { return }
    cx.nodes_seen += 1;
    let st: &[&'static str] = &["C21", "C22", "C24", "C34"];
    if h.data().val() != canon::<T>(a[i].v) { cx.fail(st, format!("a handle shows {:?}, expected {:?}", h.data(), T::make(a[i].v))); return }
    let m = back(a, i);
    if h.degree() != m.k.len() || h.node_count() != m.count() || h.has_no_child() != m.k.is_empty() { cx.fail(&["C02", "C21"], format!("degree() and node_count() are {} and {}, expected {} and {}", h.degree(), h.node_count(), m.k.len(), m.count())) }
    if h.is_root() != a[i].parent.is_none() || h.parent().is_none() != a[i].parent.is_none() { cx.fail(&["C21", "C03", "C22"], "is_root() or parent() is wrong".into()) }
    if let (Some(p), Some(q)) = (h.parent(), a[i].parent) { if p.data().val() != canon::<T>(a[q].v) { cx.fail(&["C21", "C03"], "parent() is another node".into()) } }
    let mut j = 0;
    for c in h.iter_rc() { if j >= a[i].k.len() { break } same_rc(&c, a[i].k[j], a, cx); j += 1 }
    if j != a[i].k.len() { cx.fail(st, format!("a node has {j} children, expected {}", a[i].k.len())) }
}
/// The tree is shared for a while.
fn shared<T: Dat>(t: Tree<T>, m: M, w: &mut D<T>, r: &mut Rng, cx: &mut Cx) -> R<Option<(Tree<T>, M)>> {
    let mut a: Vec<S> = vec![];
    flat(&m, None, &mut a);
    let mut hs: std::mem::ManuallyDrop<Vec<(RcNode<T>, usize)>> = std::mem::ManuallyDrop::new(vec![(RcNode::from(t), 0)]);
    let mut ws: std::mem::ManuallyDrop<Vec<(WeakNode<T>, usize)>> = std::mem::ManuallyDrop::new(vec![]);
    a[0].refs = 1;
    let n = 2 + r.below(24);
    for step in 0.. {
        if hs.is_empty() && (ws.is_empty() || step > n) { break }
        let j = r.below(hs.len());
        let act = if step >= n { 1 } else { r.below(16) };
        if hs.is_empty() { drop(ws.swap_remove(0)); continue }
        let id = hs[j].1;
        cx.t(|| format!("    shared {act} at node {id}"));
        match act {
            0 => { let h = hs[j].0.clone(); a[id].refs += 1; hs.push((h, id)) }
            1 | 2 => if step >= n || hs.len() > 1 { let (h, _) = hs.swap_remove(j); drop(h); a[id].refs -= 1 },
            3 => { let (h, k) = if r.chance(1, 2) { (hs[j].0.front(), a[id].k.first()) } else { (hs[j].0.back(), a[id].k.last()) }; if let (Some(h), Some(&k)) = (h, k) { a[k].refs += 1; hs.push((h, k)) } }
            4 => { let h = hs[j].0.parent(); if let (Some(h), Some(p)) = (h, a[id].parent) { a[p].refs += 1; hs.push((h, p)) } }
            5 => { let k = r.below(a[id].k.len() + 1); let h = hs[j].0.iter_rc().nth(k); if let (Some(h), Some(&k)) = (h, a[id].k.get(k)) { a[k].refs += 1; hs.push((h, k)) } }
            6 | 7 => { let x = hs[j].0.downgrade(); ws.push((x, id)) }
            8 => if a.len() < 120 { let (t, m) = w.build(1 + r.below(3), r.next() as u16, r.chance(1, 2), 0); let k = flat(&m, Some(id), &mut a); if r.chance(1, 2) { hs[j].0.push_back(t); a[id].k.push(k) } else { hs[j].0.push_front(t); a[id].k.insert(0, k) } },
            9 => if a[id].parent.is_some() && a.len() < 120 { let (t, m) = w.build(1 + r.below(3), r.next() as u16, r.chance(1, 2), 0); let p = a[id].parent.unwrap(); let k = flat(&m, Some(p), &mut a); let q = a[p].k.iter().position(|x| *x == id).unwrap(); if r.chance(1, 2) { hs[j].0.insert_prev_sib(t); a[p].k.insert(q, k) } else { hs[j].0.insert_next_sib(t); a[p].k.insert(q + 1, k) } },
            10 => if let Some(p) = a[id].parent { hs[j].0.detach(); a[p].k.retain(|x| *x != id); a[id].parent = None },
            11 => { let f = r.chance(1, 2); let h = if f { hs[j].0.pop_front() } else { hs[j].0.pop_back() }; if !a[id].k.is_empty() { let k = if f { a[id].k.remove(0) } else { a[id].k.pop().unwrap() }; a[k].parent = None; if let Some(h) = h { if r.chance(1, 2) { a[k].refs += 1; hs.push((h, k)) } else { drop(h) } } } else if h.is_some() { std::mem::forget(h); cx.fail(&["C21"], "pop gives a node".into()) } }
            12 => { let v = w.v(); if r.chance(1, 2) { hs[j].0.data_mut().set(v) } else { *hs[j].0.data_mut() = T::make(v) } a[id].v = v }
            13 => { let s = hs[j].0.to_string(); if s != back(&a, id).text::<T>() { cx.fail(&["C18", "C21"], format!("the text is {s:?}")) } let k = r.below(hs.len()); let e = back(&a, id).eq::<T>(&back(&a, hs[k].1)); if (hs[j].0 == hs[k].0) != e { cx.fail(&["C19", "C21"], "== is wrong".into()) } }
            14 => { let t = hs[j].0.deep_clone(); same(t.root(), &back(&a, id), None, &["C14"], cx) }
            _ => if hs.len() == 1 && a[id].parent.is_none() {
                let (h, _) = hs.pop().unwrap();
                let t = unsafe { h.into_tree() };
                let m = back(&a, id);
                same(t.root(), &m, None, &["C26", "C34"], cx);
                if r.chance(1, 2) || !ws.is_empty() && r.chance(1, 2) { hs.push((RcNode::from(t), id)) }
                else {
                    let _ = (std::mem::ManuallyDrop::into_inner(hs), std::mem::ManuallyDrop::into_inner(ws));
                    return Ok(Some((t, m)));
                }
            },
        }
        settle(&mut a, cx);
        for (h, i) in hs.iter() { if a[*i].dead { cx.fail(&["C22"], "the model is wrong".into()) } same_rc(h, *i, &a, cx) }
        for (x, i) in ws.iter() {
            let u = x.upgrade();
            match (&u, a[*i].dead) {
                (None, false) => cx.fail(&["C23"], "a weak handle to a live node finds nothing".into()),
                (Some(_), true) => { std::mem::forget(u); cx.fail(&["C23", "C22"], "a weak handle finds a dead node".into()); return Err(Stop) }
                (Some(h), false) => if h.data().val() != canon::<T>(a[*i].v) { cx.fail(&["C23"], "a weak handle finds another node".into()) },
                _ => cx.feat(F_KWEAK_NONE),
            }
        }
        let e = alloc::errors();
        if e != 0 { cx.fail(&["C24", "C05", "C33", cx.id], alloc::describe(e)) }
        if cx.soft.is_some() { return Err(Stop) }
        cx.bail()?;
    }
    for (x, _) in ws.drain(..) { drop(x) }
    let _ = (std::mem::ManuallyDrop::into_inner(hs), std::mem::ManuallyDrop::into_inner(ws));
    Ok(None)
}
