//! World T: tuple notation. The shapes are compiled into the program (see tools/gen_tuples.py).
use crate::tok::{self, L0, L1, Lay, Tok};
use crate::util::*;
use crate::wa::{World, Store};
use std::sync::OnceLock;
use trees::tuple::Visit;
use trees::{Forest, Size, Tree, TupleForest, TupleTree};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode { Build, Pre, PreS, Post, PostS, Meta }
/// One use of a tuple expression.
pub struct Job<L: Lay> {
    pub vals: std::vec::IntoIter<Tok<L>>,
    pub mode: Mode,
    pub tree: Option<Tree<Tok<L>>>,
    pub forest: Option<Forest<Tok<L>>>,
    /// Visits: kind (0 leaf, 1 branch, 2 frame), uid, size.
    pub seen: Vec<(u8, u32, Option<Size>)>,
    pub size: Size,
    pub height: usize,
    pub levels: Vec<usize>,
}
impl<L: Lay> Job<L> {
    pub fn next(&mut self) -> Tok<L> { self.vals.next().unwrap() }
    pub fn new(vals: Vec<Tok<L>>, mode: Mode) -> Self { Job { vals: vals.into_iter(), mode, tree: None, forest: None, seen: vec![], size: Size::default(), height: 0, levels: vec![] } }
}
fn note<L: Lay>(v: Visit<Tok<L>>, s: Option<Size>, out: &mut Vec<(u8, u32, Option<Size>)>) {
    out.push(match v { Visit::Leaf(t) => (0, t.uid, s), Visit::Branch(t) => (1, t.uid, s), Visit::Frame => (2, u32::MAX, s) })
}
macro_rules! drive { ($name:ident, $tr:ident, $build:ident, $ty:ident) => {
    pub fn $name<L: Lay, S, Tu: $tr<Tok<L>, S>>(t: Tu, j: &mut Job<L>) {
        match j.mode {
            Mode::Build => j.$build = Some($ty::from_tuple(t)),
            Mode::Pre => { let o = &mut j.seen; t.preorder(&mut |v| note(v, None, o)) }
            Mode::PreS => { let o = &mut j.seen; t.preorder_with_size_hint(&mut |v, s| note(v, Some(s), o)) }
            Mode::Post => { let o = &mut j.seen; t.postorder(&mut |v| note(v, None, o)) }
            Mode::PostS => { let o = &mut j.seen; t.postorder_with_size_hint(&mut |v, s| note(v, Some(s), o)) }
            Mode::Meta => { j.size = Tu::SIZE; j.height = Tu::height(); j.levels = (0..j.height + 3).map(Tu::descendants).collect() }
        }
    }
} }
drive!(drive_tree, TupleTree, tree, Tree);
drive!(drive_forest, TupleForest, forest, Forest);

/// `spec`: the shape in brackets; a forest's outermost pair stands for the forest itself.
pub struct Entry<L: Lay> { pub forest: bool, pub spec: &'static str, pub expr: &'static str, pub run: fn(&mut Job<L>) }
impl<L: Lay> Entry<L> {
    pub fn par(&self) -> Vec<usize> {
        let (mut par, mut st) = (vec![], vec![]);
        for c in self.spec.bytes() { if c == b'(' { par.push(*st.last().unwrap_or(&0)); st.push(par.len() - 1) } else { st.pop(); } }
        par
    }
}
static T0: OnceLock<Vec<Entry<L0>>> = OnceLock::new();
static T1: OnceLock<Vec<Entry<L1>>> = OnceLock::new();
pub fn register(a: Vec<Entry<L0>>, b: Vec<Entry<L1>>) { let _ = T0.set(a); let _ = T1.set(b); }
pub fn table<L: Lay>() -> &'static [Entry<L>] {
    fn cast<A: 'static, B: 'static>(x: Option<&'static Vec<A>>) -> &'static [B] {
        if std::any::TypeId::of::<A>() != std::any::TypeId::of::<B>() { return &[] }
        x.map_or(&[], |v| unsafe { std::slice::from_raw_parts(v.as_ptr() as *const B, v.len()) })
    }
    if std::any::TypeId::of::<L>() == std::any::TypeId::of::<L0>() { cast(T0.get()) } else { cast(T1.get()) }
}
pub fn len() -> usize { T0.get().map_or(0, |t| t.len()) }
/// The entry of this kind at or after index `a`.
pub fn entry<L: Lay>(a: u16, forest: bool) -> Option<&'static Entry<L>> {
    let t = table::<L>();
    if t.is_empty() { return None }
    let k = a as usize % t.len();
    t[k..].iter().chain(t.iter()).find(|e| e.forest == forest)
}

pub const VISIT: u16 = 120;
pub const F_VISIT: usize = 260;

struct Want { leaf: Vec<bool>, desc: Vec<usize>, kids: Vec<Vec<usize>>, depth: Vec<usize> }
fn want(par: &[usize]) -> Want {
    let n = par.len();
    let mut kids = vec![vec![]; n];
    let mut depth = vec![0; n];
    for i in 1..n { kids[par[i]].push(i); depth[i] = depth[par[i]] + 1 }
    Want { leaf: kids.iter().map(|k| k.is_empty()).collect(), desc: crate::wa::descs(par), kids, depth }
}
fn order(w: &Want, uids: &[u32], i: usize, pre: bool, hint: bool, out: &mut Vec<(u8, u32, Option<Size>)>) {
    let s = if hint { Some(Size { degree: w.kids[i].len(), descendants: w.desc[i] }) } else { None };
    if w.leaf[i] { out.push((0, uids[i], s)); return }
    out.push(if pre { (1, uids[i], s) } else { (2, u32::MAX, s) });
    for &k in &w.kids[i] { order(w, uids, k, pre, hint, out) }
    out.push(if pre { (2, u32::MAX, s) } else { (1, uids[i], s) });
}
/// All the visitors of one tuple.
fn visit<L: Lay>(o: &Op, cx: &mut Cx) -> R<()> {
    let t = table::<L>();
    if t.is_empty() { return Ok(()) }
    let e = &t[o[1] as usize % t.len()];
    let mut r = Rng::new(o[2] as u64);
    let par = e.par();
    let w = want(&par);
    let skip = e.forest as usize;
    if par.len() > 3 { cx.feat(F_VISIT) }
    cx.feat(F_VISIT + 1 + e.forest as usize);
    cx.t(|| format!("visit {}{} = {}", if e.forest { "forest " } else { "tree " }, e.spec, e.expr));
    for (mode, pre, hint, name) in [(Mode::Pre, true, false, "preorder"), (Mode::PreS, true, true, "preorder_with_size_hint"), (Mode::Post, false, false, "postorder"), (Mode::PostS, false, true, "postorder_with_size_hint")] {
        let vals: Vec<Tok<L>> = (skip..par.len()).map(|_| Tok::new(r.below(8) as i32)).collect();
        let mut uids: Vec<u32> = vec![u32::MAX; skip];
        uids.extend(vals.iter().map(|t| t.uid));
        let mut j = Job::new(vals, mode);
        (e.run)(&mut j);
        let mut exp = vec![];
        if e.forest { for &k in &w.kids[0] { order(&w, &uids, k, pre, hint, &mut exp) } } else { order(&w, &uids, 0, pre, hint, &mut exp) }
        cx.nodes_seen += par.len() as u64;
        cx.check(j.seen == exp, &["C10"], || {
            let k = j.seen.iter().zip(&exp).take_while(|(a, b)| a == b).count();
            format!("{name} of {} `{}`: visit {k} is {:?}, expected {:?} (0 leaf, 1 branch, 2 frame; uid; size)", if e.forest { "forest" } else { "tree" }, e.expr, j.seen.get(k), exp.get(k))
        });
    }
    // A forest's levels start with its trees, a tree's with the children of its root.
    let mut j = Job::<L>::new((skip..par.len()).map(|_| Tok::new(0)).collect(), Mode::Meta);
    (e.run)(&mut j);
    let size = Size { degree: w.kids[0].len(), descendants: w.desc[0] };
    cx.check(j.size == size, &["C10", "C02"], || format!("SIZE of `{}` is {:?}, expected {size:?}", e.expr, j.size));
    let h = w.depth.iter().max().unwrap() + 1 - skip;
    cx.check(j.height == h, &["C10"], || format!("height of `{}` is {}, expected {h}", e.expr, j.height));
    let lv: Vec<usize> = (0..j.levels.len()).map(|k| w.depth.iter().filter(|d| **d == k + 1).count()).collect();
    cx.check(j.levels == lv, &["C10"], || format!("per-level counts of `{}` are {:?}, expected {lv:?}", e.expr, j.levels));
    drop(j);
    if let Some(e) = tok::take_error() { cx.fail(&["C10"], e) }
    cx.check(tok::alive_count() == 0, &["C10"], || "a datum of the tuple was not handed over".into());
    cx.bail()
}

pub fn run<L: Lay>(case: &Case, cx: &mut Cx) -> R<()> {
    cx.claim_all = cx.id == "C09";
    if case.ops.first().map_or(false, |o| o[0] == VISIT) {
        for (i, o) in case.ops.iter().enumerate() { cx.step = i; if o[0] == VISIT { visit::<L>(o, cx)? } }
        return Ok(())
    }
    let mut w = std::mem::ManuallyDrop::new(World::<L>::new(Store::AsIs));
    for (i, o) in case.ops.iter().enumerate() {
        cx.step = i;
        w.exec(o, cx)?;
    }
    cx.step = case.ops.len();
    crate::wa::finish(std::mem::ManuallyDrop::into_inner(w), case.params[2], cx)
}
