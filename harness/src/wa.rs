//! World A: exclusively owned trees and forests against an ordered-tree model.
use crate::alloc;
use crate::tok::{self, Lay, Tok};
use crate::util::*;
use std::pin::Pin;
use trees::bfs::{self, BfsForest, BfsTree};
use trees::{Forest, ForestWalk, Node, RcNode, Size, Tree, TreeWalk};

pub const NO: u32 = u32::MAX;

/// A node of the model.
#[derive(Clone, Debug)]
pub struct M { pub uid: u32, pub org: u32, pub val: i32, pub addr: usize, pub blk: u32, pub kids: Vec<M> }
impl M {
    pub fn count(&self) -> usize { 1 + self.kids.iter().map(|k| k.count()).sum::<usize>() }
    pub fn nth(&self, k: usize) -> Vec<usize> { let mut k = k; let mut p = vec![]; nth_in(self, &mut k, &mut p); p }
    pub fn at(&self, p: &[usize]) -> &M { let mut m = self; for &i in p { m = &m.kids[i] } m }
    pub fn at_mut(&mut self, p: &[usize]) -> &mut M { let mut m = self; for &i in p { m = &mut m.kids[i] } m }
    pub fn uids(&self, v: &mut Vec<u32>) { v.push(self.uid); for k in &self.kids { k.uids(v) } }
    pub fn refs_blk(&self, b: u32) -> bool { self.blk == b || self.kids.iter().any(|k| k.refs_blk(b)) }
    pub fn addrs_of(&self, b: u32, v: &mut Vec<usize>) { if self.blk == b { v.push(self.addr) } for k in &self.kids { k.addrs_of(b, v) } }
    /// The model of a clone stored in block `b`.
    pub fn cloned(&self, b: u32) -> M { M { uid: NO, org: self.uid, val: self.val, addr: 0, blk: b, kids: self.kids.iter().map(|k| k.cloned(b)).collect() } }
    pub fn each(&mut self, f: &mut dyn FnMut(&mut M)) { f(self); for k in &mut self.kids { k.each(f) } }
    pub fn show(&self) -> String {
        let mut s = format!("{}:v{}", self.uid as i32, self.val);
        if !self.kids.is_empty() { s += &format!("({})", self.kids.iter().map(|k| k.show()).collect::<Vec<_>>().join(" ")) }
        s
    }
}
fn nth_in(m: &M, k: &mut usize, p: &mut Vec<usize>) -> bool {
    if *k == 0 { return true }
    *k -= 1;
    for (i, c) in m.kids.iter().enumerate() {
        p.push(i);
        if nth_in(c, k, p) { return true }
        p.pop();
    }
    false
}
#[derive(Clone, Debug)]
pub struct FM { pub kids: Vec<M>, pub blk: u32 }
impl FM {
    pub fn count(&self) -> usize { self.kids.iter().map(|k| k.count()).sum() }
    /// A path into the forest: first the tree, then down.
    pub fn nth(&self, mut k: usize) -> Vec<usize> {
        for (i, t) in self.kids.iter().enumerate() {
            let c = t.count();
            if k < c { let mut p = vec![i]; p.extend(t.nth(k)); return p }
            k -= c;
        }
        vec![]
    }
}

pub enum S<L: Lay> { T(Tree<Tok<L>>, M), F(Forest<Tok<L>>, FM) }
impl<L: Lay> S<L> {
    fn count(&self) -> usize { match self { S::T(_, m) => m.count(), S::F(_, f) => f.count() } }
    pub fn show(&self) -> String { match self { S::T(_, m) => m.show(), S::F(_, f) => format!("-[{}]", f.kids.iter().map(|k| k.show()).collect::<Vec<_>>().join(" ")) } }
}

/// Which storage the initial builds use (for the storage metamorphic relation).
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Store { AsIs, Scattered, Piled }

pub struct World<L: Lay> {
    pub slots: Vec<S<L>>,
    pub vals: i32,
    pub store: Store,
    pub blocks: Vec<usize>, // start addresses; index = block id; 0 = not known (yet); id 0 is "no block"
    pub blk_n: Vec<usize>, // how many nodes were built in it (0: all that are there)
    pub pending: Vec<u32>,
    pub clones_before: u64,
    pub neg_vals: bool,
    /// Trees that are inside something else (a walker) just now.
    pub held: Vec<FM>,
}

pub const OPS: &[&str] = &[
    "new_tree", "new_forest", "scattered_tree", "piled_tree", "piled_forest", "tuple_tree", "tuple_forest",
    "push_front", "push_back", "prepend", "append", "insert_prev_sib", "insert_next_sib", "detach", "pop_front", "pop_back",
    "abandon", "clone", "deep_clone", "deep_clone_forest", "set_data", "drop", "into_iter", "into_bfs_rebuild", "into_bfs_partial",
    "bfs_map_collect", "bfs_check", "bfs_mut", "iter_mut_edit", "walker_roundtrip", "rc_roundtrip", "operator", "refused",
    "iter_check", "consume_ends", "swap_data", "wide", "deep", "text_and_cmp", "size_arith", "forest_to_node", "share_reads",
];
pub mod op {
    pub const NEW_TREE: u16 = 0; pub const NEW_FOREST: u16 = 1; pub const SCAT: u16 = 2; pub const PILE_T: u16 = 3; pub const PILE_F: u16 = 4;
    pub const TUP_T: u16 = 5; pub const TUP_F: u16 = 6; pub const PUSH_F: u16 = 7; pub const PUSH_B: u16 = 8; pub const PREP: u16 = 9;
    pub const APP: u16 = 10; pub const INS_P: u16 = 11; pub const INS_N: u16 = 12; pub const DETACH: u16 = 13; pub const POP_F: u16 = 14;
    pub const POP_B: u16 = 15; pub const ABANDON: u16 = 16; pub const CLONE: u16 = 17; pub const DCLONE: u16 = 18; pub const DCLONE_F: u16 = 19;
    pub const SET: u16 = 20; pub const DROP: u16 = 21; pub const INTO_ITER: u16 = 22; pub const BFS_RE: u16 = 23; pub const BFS_PART: u16 = 24;
    pub const BFS_MAP: u16 = 25; pub const BFS_CHK: u16 = 26; pub const BFS_MUT: u16 = 27; pub const EDIT_IT: u16 = 28; pub const WALK: u16 = 29;
    pub const RC: u16 = 30; pub const OPER: u16 = 31; pub const REFUSE: u16 = 32; pub const ITER: u16 = 33; pub const ENDS: u16 = 34;
    pub const SWAP: u16 = 35; pub const WIDE: u16 = 36; pub const DEEP: u16 = 37; pub const TEXT: u16 = 38; pub const SIZE: u16 = 39;
    pub const F2N: u16 = 40; pub const READS: u16 = 41;
}
/// The tags of a structural mismatch right after an operation.
fn tags_of(o: u16) -> &'static [&'static str] {
    use op::*;
    match o {
        TUP_T | TUP_F => &["C09"],
        CLONE | DCLONE | DCLONE_F => &["C14", "C01"],
        BFS_RE | BFS_PART | BFS_MAP | PILE_T | PILE_F => &["C13", "C01"],
        BFS_CHK | BFS_MUT => &["C12", "C01"],
        EDIT_IT => &["C08", "C01"],
        WALK => &["C17", "C01"],
        RC => &["C26", "C01"],
        OPER => &["C11", "C01"],
        REFUSE => &["C28", "C01"],
        ITER | INTO_ITER => &["C07", "C01"],
        ENDS => &["C03", "C01"],
        _ => &["C01"],
    }
}

pub fn pm<T>(p: Pin<&mut Node<T>>) -> &mut Node<T> { unsafe { p.get_unchecked_mut() } }
pub fn ad<T>(n: &Node<T>) -> usize { n as *const Node<T> as usize }

/// Walks down a path through the mutable interface.
pub fn nav<'a, T>(n: &'a mut Node<T>, path: &[usize], ends: bool) -> Option<&'a mut Node<T>> {
    let mut cur = n;
    for &i in path {
        let d = cur.degree();
        cur = if ends && i == 0 { pm(cur.front_mut()?) } else if ends && i + 1 == d { pm(cur.back_mut()?) } else { pm(cur.iter_mut().nth(i)?) };
    }
    Some(cur)
}
pub fn nav_forest<'a, T>(f: &'a mut Forest<T>, path: &[usize], ends: bool) -> Option<&'a mut Node<T>> {
    let i = *path.first()?;
    let d = f.degree();
    let n = if ends && i == 0 { pm(f.front_mut()?) } else if ends && i + 1 == d { pm(f.back_mut()?) } else { pm(f.iter_mut().nth(i)?) };
    nav(n, &path[1..], ends)
}
pub fn nav_ref<'a, T>(n: &'a Node<T>, path: &[usize]) -> Option<&'a Node<T>> {
    let mut cur = n;
    for &i in path { cur = cur.iter().nth(i)? }
    Some(cur)
}

/// Compares one node (and everything below) with its model; fills in what the model does not know yet.
pub fn obs_node<L: Lay>(n: &Node<Tok<L>>, m: &mut M, parent: Option<usize>, st: &[&'static str], cx: &mut Cx) {
    cx.nodes_seen += 1;
    let d = n.data();
    if m.uid == NO && m.org != NO { // a clone not seen before
        let (u, org) = (d.uid, tok::origin(d.uid));
        if !d.ok() || org != m.org { cx.fail(st, format!("expected a clone of value {}, found value {} (clone of {})", m.org, u, org as i32)); return }
        m.uid = u;
    }
    if d.uid != m.uid || d.val != m.val || !d.ok() {
        let msg = format!("node holds value {}:v{} (alive: {}), expected {}:v{}", d.uid, d.val, d.ok(), m.uid, m.val);
        cx.fail(st, msg.clone());
        if !d.ok() { cx.fail(&["C04", "C05"], msg) }
        return;
    }
    let a = ad(n);
    if m.addr == 0 { m.addr = a } else if m.addr != a {
        cx.fail(&["C06"], format!("the node of value {} moved from {:x} to {:x}", m.uid, m.addr, a));
    }
    let nk = m.kids.len();
    let total = m.count();
    if n.degree() != nk { cx.fail(&["C02"], format!("degree() is {} for a node with {} children", n.degree(), nk)) }
    if n.node_count() != total { cx.fail(&["C02"], format!("node_count() is {} for a subtree of {} nodes", n.node_count(), total)) }
    if n.has_no_child() != (nk == 0) { cx.fail(&["C02"], format!("has_no_child() is {} for a node with {} children", n.has_no_child(), nk)) }
    let p = n.parent().map(ad);
    if p != parent { cx.fail(&["C03", "C01"], format!("parent() of value {} is {:x?}, expected {:x?}", m.uid, p, parent)) }
    if n.front().map(ad) != n.iter().next().map(ad) { cx.fail(&["C03"], "front() is not the first child".into()) }
    let mut it = n.iter();
    let mut last = None;
    let mut i = 0;
    cx.l(d.val as u32 as u64); cx.l(n.degree() as u64 | (n.node_count() as u64) << 32); cx.l(p.is_some() as u64);
    loop {
        if it.len() != nk.saturating_sub(i) { cx.fail(&["C07"], format!("iter().len() is {} with {} children left", it.len(), nk.saturating_sub(i))) }
        match it.next() {
            None => break,
            Some(c) => {
                if i >= nk { cx.fail(st, format!("value {} has more than the expected {} children", m.uid, nk)); return }
                last = Some(ad(c));
                obs_node(c, &mut m.kids[i], Some(a), st, cx);
                if !cx.fails.is_empty() { return }
            }
        }
        i += 1;
    }
    if i != nk { cx.fail(st, format!("value {} has {} children, expected {}", m.uid, i, nk)); cx.fail(&["C07"], format!("iteration over {} children yielded {}", nk, i)) }
    if n.back().map(ad) != last { cx.fail(&["C03"], "back() is not the last child".into()) }
}
pub fn obs_forest<L: Lay>(f: &Forest<Tok<L>>, m: &mut FM, st: &[&'static str], cx: &mut Cx) {
    let nk = m.kids.len();
    let total = m.count();
    if f.degree() != nk { cx.fail(&["C02"], format!("degree() is {} for a forest of {} trees", f.degree(), nk)) }
    if f.node_count() != total { cx.fail(&["C02"], format!("node_count() is {} for a forest of {} nodes", f.node_count(), total)) }
    if f.has_no_child() != (nk == 0) { cx.fail(&["C02"], format!("has_no_child() is {} for a forest of {} trees", f.has_no_child(), nk)) }
    if f.front().map(ad) != f.iter().next().map(ad) { cx.fail(&["C03"], "front() of a forest is not its first tree".into()) }
    cx.l(f.degree() as u64 | (f.node_count() as u64) << 32);
    let mut it = f.iter();
    let mut i = 0;
    let mut last = None;
    loop {
        if it.len() != nk.saturating_sub(i) { cx.fail(&["C07"], format!("iter().len() of a forest is {} with {} left", it.len(), nk.saturating_sub(i))) }
        match it.next() {
            None => break,
            Some(c) => {
                if i >= nk { cx.fail(st, format!("forest has more than the expected {} trees", nk)); return }
                last = Some(ad(c));
                obs_node(c, &mut m.kids[i], None, st, cx);
                if !cx.fails.is_empty() { return }
            }
        }
        i += 1;
    }
    if i != nk { cx.fail(st, format!("forest has {} trees, expected {}", i, nk)); cx.fail(&["C07"], format!("iteration over {} trees yielded {}", nk, i)) }
    if f.back().map(ad) != last { cx.fail(&["C03"], "back() of a forest is not its last tree".into()) }
}

/// Children of each node of a shape.
pub fn kids_of(par: &[usize]) -> Vec<Vec<usize>> {
    let mut k = vec![vec![]; par.len()];
    for i in 1..par.len() { k[par[i]].push(i) }
    k
}

impl<L: Lay> World<L> {
    pub fn new(store: Store) -> Self { World { slots: vec![], vals: 0, store, blocks: vec![0], blk_n: vec![0], pending: vec![], clones_before: 0, neg_vals: false, held: vec![] } }
    pub fn val(&mut self) -> i32 { self.vals += 1; self.vals }
    pub fn total(&self) -> usize { self.slots.iter().map(|s| s.count()).sum() }
    pub fn new_blk(&mut self) -> u32 { self.blocks.push(0); self.blk_n.push(0); let b = self.blocks.len() as u32 - 1; self.pending.push(b); b }

    /// Creates the values of a shape in index order: (values, models without children).
    fn mk_vals(&mut self, n: usize, blk: u32) -> (Vec<Tok<L>>, Vec<M>) {
        if blk != 0 { self.blk_n[blk as usize] = n }
        let mut ts = Vec::with_capacity(n);
        let mut ms = Vec::with_capacity(n);
        for _ in 0..n {
            let t = Tok::new(self.val());
            ms.push(M { uid: t.uid, org: NO, val: t.val, addr: 0, blk, kids: vec![] });
            ts.push(t);
        }
        (ts, ms)
    }
    fn link(par: &[usize], ms: Vec<M>) -> M {
        let mut ms: Vec<Option<M>> = ms.into_iter().map(Some).collect();
        for i in (1..par.len()).rev() {
            let c = ms[i].take().unwrap();
            ms[par[i]].as_mut().unwrap().kids.insert(0, c);
        }
        ms[0].take().unwrap()
    }
    pub fn build_tree(&mut self, n: usize, seed: u16, piled: bool, how: u16) -> (Tree<Tok<L>>, M) {
        let piled = match self.store { Store::AsIs => piled, Store::Scattered => false, Store::Piled => true };
        let par = shape(n.max(1), seed);
        if piled {
            let b = self.new_blk();
            let (ts, ms) = self.mk_vals(par.len(), b);
            let m = Self::link(&par, ms);
            (Tree::from(bfs_of(&par, ts)), m)
        } else {
            let (ts, ms) = self.mk_vals(par.len(), 0);
            let m = Self::link(&par, ms);
            (scattered(&par, ts, how), m)
        }
    }
    pub fn build_forest(&mut self, n: usize, seed: u16, piled: bool) -> (Forest<Tok<L>>, FM) {
        let piled = match self.store { Store::AsIs => piled, Store::Scattered => false, Store::Piled => true };
        let par = shape(n + 1, seed); // node 0 is the forest itself
        let b = if piled { self.new_blk() } else { 0 };
        let (ts, ms) = self.mk_vals(n, b);
        let mut all = vec![M { uid: NO, org: NO, val: 0, addr: 0, blk: 0, kids: vec![] }];
        all.extend(ms);
        let m = Self::link(&par, all);
        if piled {
            let kids = kids_of(&par);
            let desc = descs(&par);
            let order = bfs_order(&kids);
            let mut slots: Vec<Option<Tok<L>>> = std::iter::once(None).chain(ts.into_iter().map(Some)).collect();
            let visits: Vec<bfs::Visit<Tok<L>>> = order[1..].iter().map(|&i| bfs::Visit { data: slots[i].take().unwrap(), size: Size { degree: kids[i].len(), descendants: desc[i] } }).collect();
            let f = Forest::from(BfsForest { iter: visits.into_iter(), size: Size { degree: kids[0].len(), descendants: n } });
            (f, FM { kids: m.kids, blk: b })
        } else {
            let kids = kids_of(&par);
            let mut trees: Vec<Option<Tree<Tok<L>>>> = std::iter::once(None).chain(ts.into_iter().map(|t| Some(Tree::new(t)))).collect();
            let mut f = Forest::new();
            for i in (1..par.len()).rev() {
                let t = trees[i].take().unwrap();
                if par[i] == 0 { f.push_front(t) } else { trees[par[i]].as_mut().unwrap().push_front(t) }
            }
            let _ = kids;
            (f, FM { kids: m.kids, blk: 0 })
        }
    }

    // ---- selection ----
    pub fn tree_slots(&self) -> Vec<usize> { (0..self.slots.len()).filter(|&i| matches!(self.slots[i], S::T(..))).collect() }
    pub fn forest_slots(&self) -> Vec<usize> { (0..self.slots.len()).filter(|&i| matches!(self.slots[i], S::F(..))).collect() }
    /// Removes and returns a tree (other than slot `not`), or a new one.
    pub fn take_tree(&mut self, sel: u16, not: Option<usize>) -> (Tree<Tok<L>>, M) {
        let c: Vec<usize> = self.tree_slots().into_iter().filter(|&i| Some(i) != not).collect();
        if c.is_empty() || sel % 7 == 6 { return self.build_tree(1 + sel as usize % 4, sel, sel % 2 == 0, sel) }
        let i = c[(sel / 7) as usize % c.len()];
        match std::mem::replace(&mut self.slots[i], S::F(Forest::new(), FM { kids: vec![], blk: 0 })) { S::T(t, m) => { self.dead(i); (t, m) } _ => unreachable!() }
    }
    pub fn take_forest(&mut self, sel: u16, not: Option<usize>) -> (Forest<Tok<L>>, FM) {
        let c: Vec<usize> = self.forest_slots().into_iter().filter(|&i| Some(i) != not).collect();
        if c.is_empty() || sel % 7 == 6 { return self.build_forest(sel as usize % 5, sel, sel % 2 == 0) }
        let i = c[(sel / 7) as usize % c.len()];
        match std::mem::replace(&mut self.slots[i], S::F(Forest::new(), FM { kids: vec![], blk: 0 })) { S::F(f, m) => { self.dead(i); (f, m) } _ => unreachable!() }
    }
    // An emptied slot keeps its index until the end of the operation (an empty forest marked by blk == NO).
    fn dead(&mut self, i: usize) { if let S::F(_, m) = &mut self.slots[i] { m.blk = NO } }
    pub fn sweep(&mut self) { self.slots.retain(|s| !matches!(s, S::F(_, m) if m.blk == NO)) }
    pub fn take_any(&mut self, sel: u16) -> Option<S<L>> { if self.slots.is_empty() { None } else { let i = sel as usize % self.slots.len(); Some(self.slots.remove(i)) } }
    pub fn ensure(&mut self, sel: u16) { if self.slots.is_empty() { let (t, m) = self.build_tree(1 + sel as usize % 8, sel, sel % 2 == 0, sel); self.slots.push(S::T(t, m)) } }
    /// A slot and a path to one of its nodes (trees: [] is the root; forests: [] is the forest itself).
    pub fn pick(&mut self, s: u16, n: u16) -> (usize, Vec<usize>) {
        self.ensure(s);
        let i = s as usize % self.slots.len();
        let p = match &self.slots[i] {
            S::T(_, m) => m.nth(n as usize % m.count()),
            S::F(_, f) => { let k = n as usize % (f.count() + 1); if k == 0 { vec![] } else { f.nth(k - 1) } }
        };
        (i, p)
    }
    /// A slot and a path to a node that has a parent or is a top-level tree of a forest.
    pub fn pick_inner(&mut self, s: u16, n: u16) -> (usize, Vec<usize>) {
        let c: Vec<usize> = (0..self.slots.len()).filter(|&i| match &self.slots[i] { S::T(_, m) => !m.kids.is_empty(), S::F(_, f) => !f.kids.is_empty() }).collect();
        let i = if c.is_empty() {
            let (t, m) = self.build_tree(3, s, s % 2 == 0, s);
            self.slots.push(S::T(t, m));
            self.slots.len() - 1
        } else { c[s as usize % c.len()] };
        let p = match &self.slots[i] {
            S::T(_, m) => m.nth(1 + n as usize % (m.count() - 1)),
            S::F(_, f) => f.nth(n as usize % f.count()),
        };
        (i, p)
    }
    pub fn kids_mut(s: &mut S<L>, p: &[usize]) -> (*mut Vec<M>, ()) {
        (match s { S::T(_, m) => &mut m.at_mut(p).kids, S::F(_, f) => if p.is_empty() { &mut f.kids } else { &mut f.kids[p[0]].at_mut(&p[1..]).kids } } as *mut Vec<M>, ())
    }
    /// The child list of the model of the parent of `p`, and the index in it.
    pub fn sibs_mut<'a>(s: &'a mut S<L>, p: &[usize]) -> (&'a mut Vec<M>, usize) {
        let (l, i) = (&p[..p.len() - 1], p[p.len() - 1]);
        (unsafe { &mut *Self::kids_mut(s, l).0 }, i)
    }
    pub fn node<'a>(s: &'a mut S<L>, p: &[usize], ends: bool) -> Option<&'a mut Node<Tok<L>>> {
        match s { S::T(t, _) => nav(pm(t.root_mut()), p, ends), S::F(f, _) => nav_forest(f, p, ends) }
    }

    /// Observes everything and compares with the model.
    pub fn observe(&mut self, st: &[&'static str], cx: &mut Cx) -> R<()> {
        for s in self.slots.iter_mut() {
            match s {
                S::T(t, m) => obs_node(t.root(), m, None, st, cx),
                S::F(f, m) => obs_forest(f, m, st, cx),
            }
            if !cx.fails.is_empty() { return Err(Stop) }
        }
        self.account(st, cx)
    }
    pub fn live_uids(&self) -> Vec<u32> {
        let mut v = vec![];
        for s in &self.slots { match s { S::T(_, m) => m.uids(&mut v), S::F(_, f) => for k in &f.kids { k.uids(&mut v) } } }
        for f in &self.held { for k in &f.kids { k.uids(&mut v) } }
        v
    }
    pub fn account(&mut self, st: &[&'static str], cx: &mut Cx) -> R<()> {
        let mut tags = vec!["C04"];
        tags.extend(st);
        let v = self.live_uids();
        if let Some(e) = tok::take_error() { cx.fail(&["C04", "C05", cx.id], e) }
        for &u in &v { if !tok::is_alive(u) { cx.fail(&tags, format!("value {u} was dropped although a tree still holds it")) } }
        if !cx.leak_ok {
            let mut seen = std::collections::HashSet::new();
            for &u in &v { if !seen.insert(u) { cx.fail(&tags, format!("value {u} is in two places")) } }
            let alive = tok::alive_count();
            if alive != v.len() { cx.fail(&tags, format!("{} values are alive, but the trees hold {}", alive, v.len())) }
        }
        cx.l(tok::drop_digest());
        let e = alloc::errors();
        if e != 0 { cx.fail(&["C05", cx.id], alloc::describe(e)) }
        self.blocks_check(cx);
        cx.bail()
    }
    fn blocks_check(&mut self, cx: &mut Cx) {
        if alloc::live() == 0 { self.pending.clear(); return } // no tracking allocator
        for b in std::mem::take(&mut self.pending) {
            let mut a = vec![];
            for s in &self.slots { match s { S::T(_, m) => m.addrs_of(b, &mut a), S::F(_, f) => for k in &f.kids { k.addrs_of(b, &mut a) } } }
            for f in &self.held { for k in &f.kids { k.addrs_of(b, &mut a) } }
            if a.is_empty() { continue }
            a.sort();
            let Some((start, size)) = alloc::block_of(a[0]) else { cx.fail(&["C33", "C05"], format!("node {:x} is in no allocated block", a[0])); continue };
            let all = self.blk_n[b as usize] == 0 || self.blk_n[b as usize] == a.len();
            if all && a.len() > 1 {
                let d = a[1] - a[0];
                if a.windows(2).any(|w| w[1] - w[0] != d) { cx.fail(&["C33"], format!("nodes built at once are not in consecutive equal slots: {a:x?}")) }
            }
            if a[a.len() - 1] >= start + size { cx.fail(&["C33"], "nodes built at once lie in different memory blocks".into()) }
            if a.len() > 2 { cx.feat(60) }
            self.blocks[b as usize] = start;
        }
        for b in 1..self.blocks.len() {
            let st = self.blocks[b];
            if st == 0 { continue }
            let used = self.slots.iter().any(|s| match s { S::T(_, m) => m.refs_blk(b as u32), S::F(_, f) => f.blk == b as u32 || f.kids.iter().any(|k| k.refs_blk(b as u32)) })
                || self.held.iter().any(|f| f.blk == b as u32 || f.kids.iter().any(|k| k.refs_blk(b as u32)));
            let live = alloc::is_live_block(st);
            if used && !live { cx.fail(&["C33", "C05"], "the block was released while it still holds nodes".into()); self.blocks[b] = 0 }
            if !used {
                if live && !cx.leak_ok { cx.fail(&["C33"], "the block was not released although its last node is gone".into()) }
                cx.feat(61);
                self.blocks[b] = 0;
            }
        }
    }

    /// Gives up following a block whose hidden root may have ended up in a structure that does not name it.
    pub fn untrack(&mut self, b: u32) { self.blocks[b as usize] = 0; self.pending.retain(|x| *x != b) }

    // ---- operations ----
    pub fn exec(&mut self, o: &Op, cx: &mut Cx) -> R<()> {
        use op::*;
        let [code, a, b, c, d] = *o;
        let cap = if cx.big { 1000 } else { 90 };
        let code = if self.total() > cap && matches!(code, 0..=6 | CLONE | DCLONE | DCLONE_F | BFS_MAP | OPER | WIDE | DEEP) { DROP } else { code };
        cx.feat(code as usize % OPS.len());
        cx.l(code as u64 + 1);
        let st = tags_of(code);
        self.clones_before = tok::with(|r| r.clones);
        let r = self.apply(code, a, b, c, d, cx);
        self.sweep();
        cx.t(|| format!("{:<16} {:?} => {}", OPS[code as usize % OPS.len()], [a, b, c, d], self.slots.iter().map(|s| s.show()).collect::<Vec<_>>().join(" | ")));
        r?;
        cx.bail()?;
        self.observe(st, cx)
    }

    fn expect_clones(&mut self, n: usize, tags: &[&'static str], cx: &mut Cx) {
        let c = tok::with(|r| r.clones) - self.clones_before;
        cx.check(c == n as u64, tags, || format!("{c} clones were made of {n} values"));
    }

    fn apply(&mut self, code: u16, a: u16, b: u16, c: u16, d: u16, cx: &mut Cx) -> R<()> {
        use op::*;
        let ends = d & 1 == 1;
        match code {
            NEW_TREE => { let v = self.val(); let t = if d & 1 == 0 { Tree::new(Tok::new(v)) } else { trees::tr(Tok::new(v)) }; let uid = t.data().uid; self.slots.push(S::T(t, M { uid, org: NO, val: v, addr: 0, blk: 0, kids: vec![] })) }
            NEW_FOREST => { let f = match d % 3 { 0 => Forest::new(), 1 => trees::fr(), _ => Forest::default() }; self.slots.push(S::F(f, FM { kids: vec![], blk: 0 })) }
            SCAT | PILE_T => { let n = size_arg(a); let (t, m) = self.build_tree(n, b, code == PILE_T, c); self.slots.push(S::T(t, m)) }
            PILE_F => { let n = size_arg(a) - 1; let (f, m) = self.build_forest(n, b, c % 4 != 0); self.slots.push(S::F(f, m)) }
            TUP_T => { let s = self.tuple_tree(a); self.slots.push(s) }
            TUP_F => { let s = self.tuple_forest(a); self.slots.push(s) }
            PUSH_F | PUSH_B => {
                let (i, p) = self.pick(a, b);
                let (t, m) = self.take_tree(c, Some(i));
                let i = i.min(self.slots.len() - 1);
                let front = code == PUSH_F;
                let s = &mut self.slots[i];
                if p.is_empty() && d & 2 == 0 {
                    match s { S::T(x, _) => if front { x.push_front(t) } else { x.push_back(t) }, S::F(x, _) => if front { x.push_front(t) } else { x.push_back(t) } }
                } else if p.is_empty() && matches!(s, S::F(..)) {
                    if let S::F(x, _) = s { if front { x.push_front(t) } else { x.push_back(t) } }
                } else {
                    match Self::node(s, &p, ends) { Some(n) => if front { n.push_front(t) } else { n.push_back(t) }, None => return lost(cx) }
                }
                let k = unsafe { &mut *Self::kids_mut(&mut self.slots[i], &p).0 };
                if front { k.insert(0, m) } else { k.push(m) }
            }
            PREP | APP => {
                let (i, p) = self.pick(a, b);
                let (f, fm) = self.take_forest(c, Some(i));
                let front = code == PREP;
                if fm.kids.len() > 1 { cx.feat(62) }
                let s = &mut self.slots[i];
                if p.is_empty() && (d & 2 == 0 || matches!(s, S::F(..))) {
                    match s { S::T(x, _) => if front { x.prepend(f) } else { x.append(f) }, S::F(x, _) => if front { x.prepend(f) } else { x.append(f) } }
                } else {
                    match Self::node(s, &p, ends) { Some(n) => if front { n.prepend(f) } else { n.append(f) }, None => return lost(cx) }
                }
                let k = unsafe { &mut *Self::kids_mut(&mut self.slots[i], &p).0 };
                if front { k.splice(0..0, fm.kids); } else { k.extend(fm.kids) }
            }
            INS_P | INS_N => {
                let (i, p) = self.pick_inner(a, b);
                let (t, m) = self.take_tree(c, Some(i));
                let s = &mut self.slots[i];
                match Self::node(s, &p, ends) { Some(n) => if code == INS_P { n.insert_prev_sib(t) } else { n.insert_next_sib(t) }, None => return lost(cx) }
                let (k, j) = Self::sibs_mut(s, &p);
                k.insert(if code == INS_P { j } else { j + 1 }, m);
            }
            DETACH => {
                let (i, p) = self.pick_inner(a, b);
                let s = &mut self.slots[i];
                let t = match Self::node(s, &p, ends) { Some(n) => n.detach(), None => return lost(cx) };
                let (k, j) = Self::sibs_mut(s, &p);
                let m = k.remove(j);
                self.slots.push(S::T(t, m));
            }
            POP_F | POP_B => {
                let (i, p) = self.pick(a, b);
                let s = &mut self.slots[i];
                let front = code == POP_F;
                let t = if p.is_empty() && (d & 2 == 0 || matches!(s, S::F(..))) {
                    match s { S::T(x, _) => if front { x.pop_front() } else { x.pop_back() }, S::F(x, _) => if front { x.pop_front() } else { x.pop_back() } }
                } else {
                    match Self::node(s, &p, ends) { Some(n) => if front { n.pop_front() } else { n.pop_back() }, None => return lost(cx) }
                };
                let k = unsafe { &mut *Self::kids_mut(s, &p).0 };
                match t {
                    None => { cx.check(k.is_empty(), &["C01"], || format!("pop returned nothing from {} children", k.len())); }
                    Some(t) => {
                        if k.is_empty() { cx.fail(&["C01"], "pop returned a tree from a node without children".into()); std::mem::forget(t); return Err(Stop) }
                        let m = if front { k.remove(0) } else { k.pop().unwrap() };
                        self.slots.push(S::T(t, m));
                    }
                }
            }
            ABANDON => {
                let ts = self.tree_slots();
                if ts.is_empty() { return Ok(()) }
                let i = ts[a as usize % ts.len()];
                let mut nf = None;
                if let S::T(t, m) = &mut self.slots[i] {
                    let f = t.abandon();
                    let kids = std::mem::take(&mut m.kids);
                    nf = Some(S::F(f, FM { kids, blk: m.blk }));
                    m.blk = 0;
                    m.addr = 0;
                }
                self.slots.extend(nf);
            }
            CLONE => {
                self.ensure(a);
                let i = a as usize % self.slots.len();
                let bk = self.new_blk();
                let n = self.slots[i].count();
                if c % 5 == 4 && self.slots.len() > 1 {
                    // over another one
                    let j = (i + 1 + b as usize % (self.slots.len() - 1)) % self.slots.len();
                    let mut u = vec![];
                    let mut dst = self.slots.remove(j);
                    let i = if j < i { i - 1 } else { i };
                    let done = match (&mut dst, &self.slots[i]) {
                        (S::T(x, k), S::T(t, m)) => { k.uids(&mut u); x.clone_from(t); *k = m.cloned(0); true }
                        (S::F(x, k), S::F(f, m)) => { for k in &k.kids { k.uids(&mut u) } x.clone_from(f); *k = FM { kids: m.kids.iter().map(|k| k.cloned(0)).collect(), blk: 0 }; true }
                        _ => false,
                    };
                    self.untrack(bk);
                    self.slots.push(dst);
                    if done {
                        for x in u { let k = tok::drops_of(x); cx.check(k == 1 && !tok::is_alive(x), &["C14", "C04"], || format!("value {x} was dropped {k} times when its tree was overwritten by a clone")); }
                        self.expect_clones(n, &["C14"], cx);
                        return Ok(())
                    }
                    return Ok(())
                }
                let s = match &self.slots[i] {
                    S::T(t, m) => { let m = m.cloned(bk); S::T(t.clone(), m) }
                    S::F(f, m) => S::F(f.clone(), FM { kids: m.kids.iter().map(|k| k.cloned(bk)).collect(), blk: bk }),
                };
                self.slots.push(s);
                self.expect_clones(n, &["C14"], cx);
            }
            DCLONE | DCLONE_F => {
                let (i, p) = self.pick(a, b);
                let bk = self.new_blk();
                let s = &mut self.slots[i];
                if p.is_empty() && matches!(s, S::F(..)) { return Ok(()) }
                let m = match s { S::T(_, m) => m.at(&p).cloned(bk), S::F(_, f) => f.kids[p[0]].at(&p[1..]).cloned(bk) };
                let n = m.count();
                let Some(node) = Self::node(s, &p, ends) else { return lost(cx) };
                if code == DCLONE {
                    let t = node.deep_clone();
                    cx.check(t.root().parent().is_none(), &["C14", "C03"], || "a clone has a parent".into());
                    self.slots.push(S::T(t, m));
                    self.expect_clones(n, &["C14"], cx);
                } else {
                    let f = node.deep_clone_forest();
                    self.slots.push(S::F(f, FM { kids: m.kids, blk: bk }));
                    self.expect_clones(n - 1, &["C14"], cx);
                }
            }
            SET => {
                let (i, p) = self.pick(a, b);
                let v = self.val();
                let s = &mut self.slots[i];
                if p.is_empty() && matches!(s, S::F(..)) { return Ok(()) }
                let Some(node) = Self::node(s, &p, ends).map(|n| s_ptr(n)) else { return lost(cx) };
                let m = match s_model(node, &mut self.slots[i], &p) { Some(m) => m, None => return lost(cx) };
                if d & 2 == 0 { node_mut(node).data_mut().val = v; m.val = v } else {
                    let t = Tok::new(v);
                    m.uid = t.uid; m.val = v; m.org = NO;
                    *node_mut(node).data_mut() = t;
                }
            }
            SWAP => {
                let (i, p) = self.pick(a, b);
                let (j, q) = self.pick(c, d);
                if (p.is_empty() && matches!(self.slots[i], S::F(..))) || (q.is_empty() && matches!(self.slots[j], S::F(..))) { return Ok(()) }
                if i == j && p == q { return Ok(()) }
                let Some(x) = Self::node(&mut self.slots[i], &p, false).map(|n| n.data_mut() as *mut Tok<L>) else { return lost(cx) };
                let Some(y) = Self::node(&mut self.slots[j], &q, false).map(|n| n.data_mut() as *mut Tok<L>) else { return lost(cx) };
                unsafe { std::ptr::swap(x, y) };
                let mx = mp(&mut self.slots[i], &p);
                let my = mp(&mut self.slots[j], &q);
                unsafe { std::mem::swap(&mut (*mx).uid, &mut (*my).uid); std::mem::swap(&mut (*mx).val, &mut (*my).val); std::mem::swap(&mut (*mx).org, &mut (*my).org) }
            }
            DROP => { if let Some(s) = self.take_any(a) { let mut u = vec![]; match &s { S::T(_, m) => m.uids(&mut u), S::F(_, f) => for k in &f.kids { k.uids(&mut u) } }
                drop(s);
                for x in u { cx.check(!tok::is_alive(x), &["C04"], || format!("value {x} survived the drop of its tree")); } } }
            INTO_ITER => self.into_iter(a, b, c, cx)?,
            BFS_RE => self.bfs_rebuild(a, cx)?,
            BFS_PART => self.bfs_partial(a, b, cx)?,
            BFS_MAP => self.bfs_map(a, b, c, cx)?,
            BFS_CHK => self.bfs_check(a, b, c, cx)?,
            BFS_MUT => self.bfs_mut(a, b, c, cx)?,
            EDIT_IT => self.edit_iter(a, b, c, d, cx)?,
            WALK => self.walk(a, b, c, cx)?,
            RC => self.rc_round(a, b, cx)?,
            OPER => self.operator(a, b, c, cx)?,
            REFUSE => self.refuse(a, b, c, cx)?,
            ITER => self.iter_check(a, b, cx)?,
            ENDS => self.consume_ends(a, b, c, cx)?,
            WIDE => {
                let (i, p) = self.pick(a, b);
                let n = 20 + c as usize % if cx.big { 280 } else { 40 };
                for _ in 0..n {
                    let v = self.val();
                    let t = Tree::new(Tok::new(v));
                    let m = M { uid: t.data().uid, org: NO, val: v, addr: 0, blk: 0, kids: vec![] };
                    let s = &mut self.slots[i];
                    let front = d & 4 == 4;
                    if p.is_empty() { match s { S::T(x, _) => if front { x.push_front(t) } else { x.push_back(t) }, S::F(x, _) => if front { x.push_front(t) } else { x.push_back(t) } } }
                    else { match Self::node(s, &p, ends) { Some(n) => if front { n.push_front(t) } else { n.push_back(t) }, None => return lost(cx) } }
                    let k = unsafe { &mut *Self::kids_mut(&mut self.slots[i], &p).0 };
                    if front { k.insert(0, m) } else { k.push(m) }
                }
            }
            DEEP => {
                // Wraps a tree into a chain of new roots.
                let (mut t, mut m) = self.take_tree(a, None);
                let n = 10 + c as usize % if cx.big { 280 } else { 25 };
                for _ in 0..n {
                    let v = self.val();
                    let mut r = Tree::new(Tok::new(v));
                    let uid = r.data().uid;
                    r.push_back(t);
                    t = r;
                    m = M { uid, org: NO, val: v, addr: 0, blk: 0, kids: vec![m] };
                }
                self.slots.push(S::T(t, m));
            }
            TEXT => {
                // Text, comparison and hash of everything go to the log; their oracles live in the pair world.
                for s in &self.slots { match s { S::T(t, _) => cx.ls(&format!("{}", t)), S::F(f, _) => cx.ls(&format!("{}", f)) } }
                let n = self.slots.len();
                if n > 1 {
                    match (&self.slots[a as usize % n], &self.slots[b as usize % n]) {
                        (S::T(x, _), S::T(y, _)) => { cx.l((x == y) as u64); cx.l(x.cmp(y) as i8 as u8 as u64); cx.l(x.partial_cmp(y).map_or(9, |o| o as i8 as u8) as u64) }
                        (S::F(x, _), S::F(y, _)) => { cx.l((x == y) as u64); cx.l(x.cmp(y) as i8 as u8 as u64); cx.l(x.partial_cmp(y).map_or(9, |o| o as i8 as u8) as u64) }
                        _ => {}
                    }
                }
            }
            SIZE => {
                let (x, y) = (Size { degree: a as usize, descendants: b as usize }, Size { degree: c as usize, descendants: d as usize });
                let s = x + y;
                cx.check(s.degree == x.degree + y.degree && s.descendants == x.descendants + y.descendants, &["C02"], || format!("{x:?} + {y:?} = {s:?}"));
                let e = s - y;
                cx.check(e == x, &["C02"], || format!("{s:?} - {y:?} = {e:?}"));
                let mut z = x;
                z += y;
                cx.check(z == s, &["C02"], || format!("{x:?} += {y:?} gives {z:?}"));
                z -= y;
                cx.check(z == x, &["C02"], || format!("{s:?} -= {y:?} gives {z:?}"));
                cx.check((x == y) == (a == c && b == d), &["C02"], || format!("{x:?} == {y:?} is {}", x == y));
            }
            F2N => {
                // Takes all trees of a forest one by one and hangs them below a node elsewhere.
                let (i, p) = self.pick(a, b);
                let (mut f, mut fm) = self.take_forest(c, Some(i));
                let mut n = 0;
                loop {
                    let back = d >> (n % 16) & 1 == 1;
                    let Some(t) = (if back { f.pop_back() } else { f.pop_front() }) else { break };
                    if fm.kids.is_empty() { cx.fail(&["C01"], "pop returned a tree from an empty forest".into()); return Err(Stop) }
                    let m = if back { fm.kids.pop().unwrap() } else { fm.kids.remove(0) };
                    let s = &mut self.slots[i];
                    if p.is_empty() { match s { S::T(x, _) => x.push_back(t), S::F(x, _) => x.push_back(t) } }
                    else { match Self::node(s, &p, false) { Some(x) => x.push_back(t), None => return lost(cx) } }
                    unsafe { &mut *Self::kids_mut(&mut self.slots[i], &p).0 }.push(m);
                    n += 1;
                }
                cx.check(fm.kids.is_empty(), &["C01"], || format!("{} trees were lost when popping a forest empty", fm.kids.len()));
                self.slots.push(S::F(f, fm));
            }
            _ => {
                // Read-only calls, none of which may change anything.
                let (i, p) = self.pick(a, b);
                let Some(n) = (match &self.slots[i] { S::T(t, _) => nav_ref(t.root(), &p), S::F(f, _) => if p.is_empty() { None } else { f.iter().nth(p[0]).and_then(|n| nav_ref(n, &p[1..])) } }) else { return Ok(()) };
                cx.l(n.degree() as u64); cx.l(n.iter().count() as u64); cx.l(n.bfs().iter.count() as u64); cx.ls(&format!("{n}"));
            }
        }
        Ok(())
    }

    fn into_iter(&mut self, a: u16, b: u16, c: u16, cx: &mut Cx) -> R<()> {
        let Some(s) = self.take_any(a) else { return Ok(()) };
        let (mut it, mut ms) = match s { S::T(t, m) => (t.into_iter(), vec![m]), S::F(f, m) => (f.into_iter(), m.kids) };
        if c % 4 > 1 {
            let exp: Vec<u32> = ms.iter().map(|m| m.uid).collect();
            let mut r = Rng::new((b as u64) << 16 | c as u64);
            let mut r2 = Rng::new(c as u64);
            let mut kept: Vec<Tree<Tok<L>>> = vec![];
            let res = script(it, &exp, true, &mut r, |t| { let u = t.data().uid; if r2.chance(1, 2) { kept.push(t) } u });
            cx.check(res.is_ok(), &["C07", "C04"], || format!("owning iterator: {}", res.unwrap_err()));
            for m in ms {
                if let Some(k) = kept.iter().position(|t| t.data().uid == m.uid) { self.slots.push(S::T(kept.swap_remove(k), m)); continue }
                let mut u = vec![];
                m.uids(&mut u);
                for x in u { cx.check(!tok::is_alive(x) && tok::drops_of(x) == 1, &["C04"], || format!("value {x} of a tree passed by was dropped {} times once its owning iterator was used up", tok::drops_of(x))); }
            }
            return Ok(())
        }
        let total = ms.len();
        let take = if b % 3 == 0 { total + 2 } else { (b / 3) as usize % (total + 1) };
        for _ in 0..take {
            let left = ms.len();
            cx.check(it.len() == left && it.size_hint() == (left, Some(left)), &["C07"], || format!("owning iterator reports {} left, expected {}", it.len(), left));
            match it.next() {
                None => { cx.check(left == 0, &["C07"], || format!("owning iterator ended {left} trees early")); if left > 0 { return Err(Stop) } }
                Some(t) => {
                    if ms.is_empty() { cx.fail(&["C07"], "owning iterator yielded too many trees".into()); std::mem::forget(t); return Err(Stop) }
                    let m = ms.remove(0);
                    if t.data().uid != m.uid { cx.fail(&["C07"], format!("owning iterator yielded value {}, expected {}", t.data().uid, m.uid)) }
                    if c % 2 == 0 { self.slots.push(S::T(t, m)) } else { drop(t); cx.check(!tok::is_alive(m.uid), &["C04"], || "a dropped tree's value is still alive".into()); }
                }
            }
        }
        if !ms.is_empty() { cx.feat(63) }
        for m in &ms { cx.check(tok::is_alive(m.uid), &["C04"], || format!("value {} was dropped while its owning iterator is alive", m.uid)); }
        drop(it);
        let mut u = vec![];
        for m in &ms { m.uids(&mut u) }
        for x in u { cx.check(!tok::is_alive(x) && tok::drops_of(x) == 1, &["C04"], || format!("value {x} was dropped {} times with its owning iterator", tok::drops_of(x))); }
        Ok(())
    }

    fn bfs_rebuild(&mut self, a: u16, cx: &mut Cx) -> R<()> {
        let Some(s) = self.take_any(a) else { return Ok(()) };
        let b = self.new_blk();
        let s = match s {
            S::T(t, mut m) => {
                let n = m.count();
                let x = t.into_bfs();
                cx.check(x.size == Size { degree: 1, descendants: n - 1 }, &["C12"], || format!("into_bfs of a tree of {n} nodes announces {:?}", x.size));
                let t = Tree::from(x);
                m.each(&mut |k| { k.addr = 0; k.blk = b });
                S::T(t, m)
            }
            S::F(f, mut m) => {
                let n = m.count();
                let x = f.into_bfs();
                cx.check(x.size == Size { degree: m.kids.len(), descendants: n }, &["C12"], || format!("into_bfs of a forest of {n} nodes announces {:?}", x.size));
                let f = Forest::from(x);
                for k in &mut m.kids { k.each(&mut |k| { k.addr = 0; k.blk = b }) }
                m.blk = b;
                S::F(f, m)
            }
        };
        self.slots.push(s);
        self.expect_clones(0, &["C13"], cx);
        Ok(())
    }

    fn bfs_partial(&mut self, a: u16, b: u16, cx: &mut Cx) -> R<()> {
        let Some(s) = self.take_any(a) else { return Ok(()) };
        let mut exp = vec![];
        match &s { S::T(_, m) => bfs_list(&[m], &mut exp), S::F(_, f) => bfs_list(&f.kids.iter().collect::<Vec<_>>(), &mut exp) }
        let n = exp.len();
        let take = if b % 4 == 0 { n + 2 } else { (b / 4) as usize % (n + 1) };
        let mut it = match s { S::T(t, _) => t.into_bfs().wrap().iter(), S::F(f, _) => f.into_bfs().iter };
        let mut kept = vec![];
        if b % 4 == 3 {
            let mut r = Rng::new(b as u64);
            let mut r2 = Rng::new(b as u64 + 1);
            let mut kept = vec![];
            let res = script(it, &exp, false, &mut r, |v| { let e = (v.data.uid, v.size.degree, v.size.descendants); if r2.chance(1, 2) { kept.push(v) } e });
            cx.check(res.is_ok(), &["C12", "C13"], || format!("owning breadth-first traversal: {}", res.unwrap_err()));
            for e in &exp { let alive = kept.iter().any(|v| v.data.uid == e.0 && v.data.ok()); let k = tok::drops_of(e.0); cx.check(k == !alive as u32, &["C13", "C04"], || format!("value {} was dropped {k} times by an owning traversal", e.0)); }
            drop(kept);
            for e in &exp { let k = tok::drops_of(e.0); cx.check(k == 1, &["C13", "C04"], || format!("value {} was dropped {k} times", e.0)); }
            return Ok(())
        }
        for i in 0..take {
            match it.next() {
                None => { cx.check(i >= n, &["C12", "C13"], || format!("owning breadth-first traversal ended after {i} of {n} nodes")); if i < n { return Err(Stop) } }
                Some(v) => {
                    if i >= n { cx.fail(&["C12", "C13"], "owning breadth-first traversal yields too many nodes".into()); return Err(Stop) }
                    let e = exp[i];
                    let got = (v.data.uid, v.size.degree, v.size.descendants);
                    cx.check(got == e && v.data.ok(), &["C12", "C13"], || format!("owning breadth-first traversal yields {got:?} (value, degree, descendants), expected {e:?}"));
                    if i % 2 == 0 { kept.push(v) } else { let u = v.data.uid; drop(v); cx.check(!tok::is_alive(u), &["C04", "C13"], || "value not dropped".into()); }
                }
            }
        }
        for (i, e) in exp.iter().enumerate().skip(take) { cx.check(tok::is_alive(e.0), &["C13", "C04"], || format!("value {} (no. {i}) was dropped while the traversal that owns it is alive", e.0)); }
        if take < n { cx.feat(64) }
        drop(it);
        for e in exp.iter().skip(take) { cx.check(!tok::is_alive(e.0), &["C13", "C04"], || format!("value {} was not dropped with the abandoned traversal", e.0)); }
        drop(kept);
        for e in &exp { let k = tok::drops_of(e.0); cx.check(k == 1, &["C13", "C04"], || format!("value {} was dropped {k} times", e.0)); }
        Ok(())
    }

    fn bfs_map(&mut self, a: u16, b: u16, c: u16, cx: &mut Cx) -> R<()> {
        let (i, p) = self.pick(a, b);
        let bk = self.new_blk();
        let s = &mut self.slots[i];
        let whole_forest = p.is_empty() && matches!(s, S::F(..));
        if whole_forest {
            let S::F(f, m) = s else { return Ok(()) };
            let n = m.count();
            match c % 3 {
                0 => {
                    let g = Forest::from(f.bfs().map(|t| t.clone()));
                    let m = FM { kids: m.kids.iter().map(|k| k.cloned(bk)).collect(), blk: bk };
                    self.slots.push(S::F(g, m));
                    self.expect_clones(n, &["C13"], cx);
                }
                1 => {
                    let g: Forest<&Tok<L>> = Forest::from(f.bfs());
                    let (x, y) = (g.iter().map(|t| ref_shape(t)).collect::<Vec<_>>(), m.kids.iter().map(m_shape).collect::<Vec<_>>());
                    cx.check(x == y && g.degree() == m.kids.len() && g.node_count() == n, &["C13"], || format!("collecting references gives {x:?}, expected {y:?}"));
                }
                _ => {
                    let g: Forest<u64> = Forest::from(f.bfs_mut().map(|t| t.uid as u64 * 3));
                    let (x, y) = (g.iter().map(|t| int_shape(t)).collect::<Vec<_>>(), m.kids.iter().map(m_int_shape).collect::<Vec<_>>());
                    cx.check(x == y && g.degree() == m.kids.len() && g.node_count() == n, &["C13"], || format!("collecting mapped data gives {x:?}, expected {y:?}"));
                }
            }
            return Ok(());
        }
        let m = match s { S::T(_, m) => m.at(&p).clone(), S::F(_, f) => f.kids[p[0]].at(&p[1..]).clone() };
        let Some(node) = Self::node(s, &p, false) else { return lost(cx) };
        let n = m.count();
        match c % 8 {
            0 => { let t = Tree::from(node.bfs().map(|t| t.clone())); self.slots.push(S::T(t, m.cloned(bk))); self.expect_clones(n, &["C13"], cx) }
            1 => { let f = Forest::from(node.bfs_children().map(|t| t.clone())); self.slots.push(S::F(f, FM { kids: m.cloned(bk).kids, blk: bk })); self.expect_clones(n - 1, &["C13"], cx) }
            2 => {
                let g: Tree<&Tok<L>> = Tree::from(node.bfs());
                let (x, y) = (ref_shape(g.root()), m_shape(&m));
                cx.check(x == y && g.node_count() == n, &["C13"], || format!("collecting references gives {x:?}, expected {y:?}"));
            }
            3 => {
                let g: Tree<u64> = Tree::from(node.bfs_mut().map(|t| t.uid as u64 * 3));
                let (x, y) = (int_shape(g.root()), m_int_shape(&m));
                cx.check(x == y && g.node_count() == n, &["C13"], || format!("collecting mapped data gives {x:?}, expected {y:?}"));
            }
            4 => {
                let g: Forest<u64> = Forest::from(node.bfs_children_mut().map(|t| t.uid as u64 * 3));
                let (x, y) = (g.iter().map(|t| int_shape(t)).collect::<Vec<_>>(), m.kids.iter().map(m_int_shape).collect::<Vec<_>>());
                cx.check(x == y && g.node_count() == n - 1, &["C13"], || format!("collecting mapped data gives {x:?}, expected {y:?}"));
            }
            6 => {
                // from a structure that is not of this library, by reference or by value
                let mine = Mine::of(&m);
                let size = Size { degree: 1, descendants: n - 1 };
                let (t, f): (Tree<u64>, Forest<u64>);
                if c & 8 == 0 {
                    let roots = [&mine];
                    t = Tree::from(BfsTree { iter: bfs::Splitted::from(roots.iter().copied().collect::<Vec<_>>()), size });
                    f = Forest::from(bfs::BfsForest { iter: bfs::Splitted::from(mine.k.iter().collect::<Vec<_>>()), size: Size { degree: mine.k.len(), descendants: n - 1 } });
                } else {
                    f = Forest::from(bfs::BfsForest::from(Mine::of(&m).k, Size { degree: mine.k.len(), descendants: n - 1 }));
                    t = Tree::from(BfsTree::from(vec![mine], size));
                }
                let (x, y) = (int_shape(t.root()), m_int_shape(&m));
                cx.check(x == y && t.node_count() == n, &["C13"], || format!("collecting a structure of one's own gives {x:?}, expected {y:?}"));
                let (x, y) = (f.iter().map(|t| int_shape(t)).collect::<Vec<_>>(), m.kids.iter().map(m_int_shape).collect::<Vec<_>>());
                cx.check(x == y && f.degree() == m.kids.len() && f.node_count() == n - 1, &["C13"], || format!("collecting the children of a structure of one's own gives {x:?}, expected {y:?}"));
            }
            _ => {
                // through a vector of visits, by iterators that know more or less about their length
                let v: Vec<_> = node.bfs().iter.map(|v| bfs::Visit { data: v.data.uid as u64 * 3, size: v.size }).collect();
                let size = Size { degree: 1, descendants: n - 1 };
                let g: Tree<u64> = match c >> 3 & 3 {
                    0 => Tree::from(BfsTree { iter: v.into_iter(), size }),
                    1 => Tree::from(BfsTree { iter: v.into_iter().filter(|_| true), size }),
                    2 => { let mut i = v.into_iter(); Tree::from(BfsTree { iter: std::iter::from_fn(move || i.next()), size }) }
                    _ => { let mut v = v; let w = v.split_off(n / 2); Tree::from(BfsTree { iter: v.into_iter().chain(w), size }) }
                };
                let (x, y) = (int_shape(g.root()), m_int_shape(&m));
                cx.check(x == y && g.node_count() == n, &["C13"], || format!("collecting visits gives {x:?}, expected {y:?}"));
                let t2: Tree<u64> = Tree::from(g.into_bfs());
                let x = int_shape(t2.root());
                cx.check(x == y, &["C13"], || format!("collecting again gives {x:?}, expected {y:?}"));
            }
        }
        Ok(())
    }

    fn bfs_check(&mut self, a: u16, b: u16, c: u16, cx: &mut Cx) -> R<()> {
        let (i, p) = self.pick(a, b);
        let s = &mut self.slots[i];
        let mut got: Vec<(u32, usize, usize)> = vec![];
        let mut exp = vec![];
        let (size, esize);
        let mut r = Rng::new((a as u64) << 16 | c as u64);
        macro_rules! drain { ($b:expr) => {{ let x = $b; let sz = x.size; let mut it = if c & 1 == 0 { x.iter } else { let (it, s2) = x.wrap().iter_and_size(); if s2 != sz { cx.fail(&["C12"], "iter_and_size() disagrees with the traversal's size".into()) } it };
            while let Some(v) = it.next() { got.push((v.data.uid, v.size.degree, v.size.descendants)); if got.len() > 2000 { break } }
            if it.next().is_some() { cx.fail(&["C12"], "breadth-first traversal goes on after its end".into()) }
            sz }} }
        macro_rules! scr { ($it:expr, $w:expr) => { if let Err(e) = script($it, &exp, false, &mut r, |v| (v.data.uid, v.size.degree, v.size.descendants)) { cx.fail(&["C12"], format!("{}: {e}", $w)) } } }
        if p.is_empty() && matches!(s, S::F(..)) {
            let S::F(f, m) = s else { return Ok(()) };
            bfs_list(&m.kids.iter().collect::<Vec<_>>(), &mut exp);
            esize = Size { degree: m.kids.len(), descendants: m.count() };
            size = if c & 2 == 0 { drain!(f.bfs()) } else { drain!(f.bfs_mut()) };
            if c & 8 == 0 { scr!(f.bfs().iter, "Forest::bfs()") } else { scr!(f.bfs_mut().iter, "Forest::bfs_mut()") }
            cx.check(f.bfs().wrap().tree_iter().is_none() && f.bfs().wrap().forest_iter().is_some(), &["C12"], || "a forest traversal is not recognised as one".into());
        } else {
            let m = match s { S::T(_, m) => m.at(&p).clone(), S::F(_, f) => f.kids[p[0]].at(&p[1..]).clone() };
            let Some(n) = Self::node(s, &p, false) else { return lost(cx) };
            if c & 4 == 0 {
                bfs_list(&[&m], &mut exp);
                esize = Size { degree: 1, descendants: m.count() - 1 };
                size = if c & 2 == 0 { drain!(n.bfs()) } else { drain!(n.bfs_mut()) };
                if c & 8 == 0 { scr!(n.bfs().iter, "bfs()"); scr!(bfs::Splitted::from(&*n), "Splitted::from(&Node)") } else { scr!(n.bfs_mut().iter, "bfs_mut()"); let n = n as *mut Node<Tok<L>>; scr!(bfs::Splitted::from(unsafe { Pin::new_unchecked(&mut *n) }), "Splitted::from(Pin<&mut Node>)") }
                cx.check(n.bfs().wrap().tree_iter().is_some() && n.bfs().wrap().forest_iter().is_none(), &["C12"], || "a tree traversal is not recognised as one".into());
            } else {
                bfs_list(&m.kids.iter().collect::<Vec<_>>(), &mut exp);
                esize = Size { degree: m.kids.len(), descendants: m.count() - 1 };
                size = if c & 2 == 0 { drain!(n.bfs_children()) } else { drain!(n.bfs_children_mut()) };
                if c & 8 == 0 { scr!(n.bfs_children().iter, "bfs_children()") } else { scr!(n.bfs_children_mut().iter, "bfs_children_mut()") }
            }
        }
        if exp.len() > 3 { cx.feat(65) }
        cx.check(size == esize, &["C12"], || format!("the traversal announces {size:?}, expected {esize:?}"));
        cx.check(got == exp, &["C12"], || format!("breadth-first traversal yields {got:?} (value, degree, descendants), expected {exp:?}"));
        Ok(())
    }

    fn bfs_mut(&mut self, a: u16, b: u16, c: u16, cx: &mut Cx) -> R<()> {
        let (i, p) = self.pick(a, b);
        let base = self.vals;
        let s = &mut self.slots[i];
        let mut k = 0;
        let forest = p.is_empty() && matches!(s, S::F(..));
        let lim = 2000;
        if forest {
            if let S::F(f, m) = s {
                f.bfs_mut().iter.take(lim).for_each(|v| { k += 1; v.data.val = base + k });
                let mut q: std::collections::VecDeque<&mut M> = m.kids.iter_mut().collect();
                let mut j = 0;
                while let Some(x) = q.pop_front() { j += 1; x.val = base + j; q.extend(x.kids.iter_mut()) }
            }
        } else if p.is_empty() && c & 1 == 1 {
            if let S::T(t, m) = s {
                let mut j = 0;
                if c & 2 == 0 {
                    t.bfs_mut().iter.take(lim).for_each(|v| { k += 1; v.data.val = base + k });
                    let mut q: std::collections::VecDeque<&mut M> = [m].into_iter().collect();
                    while let Some(x) = q.pop_front() { j += 1; x.val = base + j; q.extend(x.kids.iter_mut()) }
                } else {
                    t.bfs_children_mut().iter.take(lim).for_each(|v| { k += 1; v.data.val = base + k });
                    let mut q: std::collections::VecDeque<&mut M> = m.kids.iter_mut().collect();
                    while let Some(x) = q.pop_front() { j += 1; x.val = base + j; q.extend(x.kids.iter_mut()) }
                }
            }
        } else {
            let Some(n) = Self::node(s, &p, false) else { return lost(cx) };
            if c & 2 == 0 { n.bfs_mut().iter.take(lim).for_each(|v| { k += 1; v.data.val = base + k }) }
            else { n.bfs_children_mut().iter.take(lim).for_each(|v| { k += 1; v.data.val = base + k }) }
            let m = mp(s, &p);
            let m = unsafe { &mut *m };
            let mut j = 0;
            let mut q: std::collections::VecDeque<&mut M> = if c & 2 == 0 { [m].into_iter().collect() } else { m.kids.iter_mut().collect() };
            while let Some(x) = q.pop_front() { j += 1; x.val = base + j; q.extend(x.kids.iter_mut()) }
        }
        self.vals += 2000;
        Ok(())
    }

    /// Edits around and below the children of a node while iterating over them.
    fn edit_iter(&mut self, a: u16, b: u16, c: u16, d: u16, cx: &mut Cx) -> R<()> {
        let (i, p) = self.pick(a, b);
        let mut r = Rng::new((c as u64) << 16 | d as u64);
        let orig: Vec<M> = unsafe { &*Self::kids_mut(&mut self.slots[i], &p).0 }.clone();
        if r.chance(1, 5) { return self.edit_held(i, p, orig, r, d, cx) }
        let stop_at = if r.chance(1, 4) { r.below(orig.len() + 1) } else { usize::MAX };
        // prepare the script: new trees are built first
        let mut script: Vec<(u32, Vec<(Tree<Tok<L>>, M)>)> = vec![];
        for _ in 0..orig.len() + 1 {
            let act = *r.pick(&[0u32, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
            let news = (0..2).map(|_| { let (n, sd, pl) = (1 + r.below(3), r.below(1000) as u16, r.chance(1, 2)); self.build_tree(n, sd, pl, sd) }).collect();
            script.push((act, news));
        }
        let mut out: Vec<M> = vec![];
        let mut kept: Vec<S<L>> = vec![];
        let mut visited = 0;
        let vbase = self.vals;
        self.vals += 500;
        {
            let s = &mut self.slots[i];
            let it = if p.is_empty() { match s { S::T(t, _) => if d & 8 == 0 { t.iter_mut() } else { pm(t.root_mut()).iter_mut() }, S::F(f, _) => f.iter_mut() } } else {
                match Self::node(s, &p, false) { Some(n) => n.iter_mut(), None => return lost(cx) } };
            let nk = orig.len();
            let mut body = |ch: &mut Node<Tok<L>>, visited: usize, out: &mut Vec<M>, cx: &mut Cx| -> R<()> {
                if visited >= nk { cx.fail(&["C08"], format!("more children were visited than the {nk} present at the start")); return Err(Stop) }
                let mut m = orig[visited].clone();
                if ch.data().uid != m.uid { cx.fail(&["C08"], format!("visited value {}, expected {}", ch.data().uid, m.uid)); return Err(Stop) }
                let (act, news) = &mut script[visited];
                let mut take = || news.pop();
                match *act {
                    1 => { if let Some((t, k)) = take() { ch.insert_prev_sib(t); out.push(k) } out.push(m) }
                    2 => { out.push(m); if let Some((t, k)) = take() { ch.insert_next_sib(t); out.push(k) } }
                    3 => { if let (Some((t, k)), Some((u, l))) = (take(), take()) { ch.insert_prev_sib(t); ch.insert_next_sib(u); out.push(k); out.push(m); out.push(l) } }
                    4 => { let t = ch.detach(); drop(t); cx.check(!tok::is_alive(m.uid), &["C08", "C04"], || "detached and dropped, but alive".into()); }
                    5 => { let t = ch.detach(); kept.push(S::T(t, m)) }
                    6 => { if let Some((t, k)) = take() { ch.push_back(t); m.kids.push(k) } out.push(m) }
                    7 => { ch.data_mut().val = vbase + visited as i32; m.val = vbase + visited as i32; out.push(m) }
                    8 => { if let Some((t, k)) = take() { ch.insert_prev_sib(t); out.push(k) } let t = ch.detach(); kept.push(S::T(t, m)) }
                    9 => { let l = if let Some((t, k)) = take() { ch.insert_next_sib(t); Some(k) } else { None }; let t = ch.detach(); kept.push(S::T(t, m)); out.extend(l) }
                    10 => { if let Some(t) = ch.pop_front() { if m.kids.is_empty() { return lost(cx) } let k = m.kids.remove(0); kept.push(S::T(t, k)) } out.push(m) }
                    11 => { if let (Some((t, k)), Some((u, l))) = (take(), take()) { ch.insert_next_sib(t); ch.insert_next_sib(u); out.push(m); out.push(l); out.push(k) } }
                    12 => { if let (Some((t, k)), Some((u, l))) = (take(), take()) { ch.insert_prev_sib(t); ch.insert_prev_sib(u); out.push(k); out.push(l); out.push(m) } }
                    _ => out.push(m),
                }
                if *act > 0 { cx.feat(66) }
                Ok(())
            };
            if d % 7 == 5 {
                // the iterator's own loop
                let mut r: R<()> = Ok(());
                it.for_each(|ch| { if r.is_ok() { r = body(pm(ch), visited, &mut out, cx); visited += 1 } });
                if r.is_err() { std::mem::forget(script); return r }
                cx.check(visited == nk, &["C08", "C07"], || format!("{visited} of {nk} children were visited"));
                if visited != nk { std::mem::forget(script); return Err(Stop) }
            } else {
            let mut it = it;
            loop {
                cx.check(it.len() == nk - visited.min(nk), &["C07", "C08"], || format!("iter_mut().len() is {} with {} left", it.len(), nk - visited.min(nk)));
                if visited == stop_at { break }
                let ch = if r.chance(1, 6) {
                    // pass some by
                    let k = if r.chance(1, 4) { nk + 1 } else { 1 + r.below(3) };
                    let got = it.nth(k);
                    if visited + k >= nk { cx.check(got.is_none(), &["C08", "C07"], || format!("nth({k}) yields a child with {} left", nk - visited.min(nk))); if got.is_some() { std::mem::forget(script); return Err(Stop) } }
                    let to = nk.min(visited + k);
                    out.extend(orig[visited.min(nk)..to].iter().cloned());
                    visited = to;
                    got
                } else { it.next() };
                let Some(ch) = ch else { break };
                let r = body(pm(ch), visited, &mut out, cx);
                if r.is_err() { std::mem::forget(script); return r }
                visited += 1;
            }
            if stop_at > nk { cx.check(visited == nk, &["C08", "C07"], || format!("{visited} of {nk} children were visited")); if visited != nk { return Err(Stop) }
                for k in [0, 0, 1, 2, nk, 0] { cx.check(it.nth(k).is_none() && it.len() == 0, &["C08", "C07"], || format!("the iterator yields something after its end (nth({k})), or has a length of {}", it.len())); } }
            }
        }
        out.extend(orig.into_iter().skip(visited));
        *unsafe { &mut *Self::kids_mut(&mut self.slots[i], &p).0 } = out;
        self.slots.extend(kept);
        Ok(())
    }

    /// All children are held at once and edited around in any order.
    fn edit_held(&mut self, i: usize, p: Vec<usize>, orig: Vec<M>, mut r: Rng, d: u16, cx: &mut Cx) -> R<()> {
        let nk = orig.len();
        let acts = if nk == 0 { 0 } else { 1 + r.below(2 * nk.min(12)) };
        let mut news: Vec<(Tree<Tok<L>>, M)> = (0..acts).map(|_| { let (n, sd, pl) = (1 + r.below(3), r.below(1000) as u16, r.chance(1, 2)); self.build_tree(n, sd, pl, sd) }).collect();
        let uids: Vec<u32> = orig.iter().map(|m| m.uid).collect();
        let mut list = orig;
        let mut kept: Vec<S<L>> = vec![];
        let vbase = self.vals;
        self.vals += 500;
        {
            let s = &mut self.slots[i];
            let it = if p.is_empty() { match s { S::T(t, _) => t.iter_mut(), S::F(f, _) => f.iter_mut() } } else { match Self::node(s, &p, d & 1 == 0) { Some(n) => n.iter_mut(), None => return lost(cx) } };
            let held: Vec<_> = it.collect();
            let mut held: Vec<Option<&mut Node<Tok<L>>>> = held.into_iter().map(|n| Some(pm(n))).collect();
            cx.check(held.len() == nk, &["C07", "C08"], || format!("iter_mut() yields {} of {nk} children", held.len()));
            if held.len() != nk { std::mem::forget(news); return Err(Stop) }
            for j in 0..acts {
                let k = r.below(nk);
                let u = uids[k];
                let Some(n) = held[k].as_mut() else { continue };
                let at = list.iter().position(|m| m.uid == u).unwrap_or(0);
                if n.data().uid != u { cx.fail(&["C08", "C01"], format!("a held child shows value {}, expected {u}", n.data().uid)); std::mem::forget(news); return Err(Stop) }
                cx.feat(66);
                match r.below(8) {
                    0 | 1 => if let Some((t, m)) = news.pop() { n.insert_prev_sib(t); list.insert(at, m) },
                    2 | 3 => if let Some((t, m)) = news.pop() { n.insert_next_sib(t); list.insert(at + 1, m) },
                    4 => { let t = n.detach(); held[k] = None; kept.push(S::T(t, list.remove(at))) }
                    5 => if let Some((t, m)) = news.pop() { n.push_back(t); list[at].kids.push(m) },
                    6 => if let Some(t) = n.pop_back() { match list[at].kids.pop() { Some(m) => kept.push(S::T(t, m)), None => return lost(cx) } },
                    _ => { n.data_mut().val = vbase + j as i32; list[at].val = vbase + j as i32 }
                }
            }
        }
        drop(news);
        *unsafe { &mut *Self::kids_mut(&mut self.slots[i], &p).0 } = list;
        self.slots.extend(kept);
        Ok(())
    }

    fn walk(&mut self, a: u16, b: u16, c: u16, cx: &mut Cx) -> R<()> {
        let Some(s) = self.take_any(a) else { return Ok(()) };
        let mut r = Rng::new((b as u64) << 8 | 5);
        let n = r.below(2 * s.count() + 3);
        macro_rules! steps { ($w:expr) => { for _ in 0..n { match r.below(8) {
            0 => { $w.to_parent(); } 1 => { $w.to_child(r.below(3)); } 2 => { $w.to_sib(r.below(3)); } 3 => { $w.revisit(); }
            4 => { if let Some(v) = $w.get() { if !v.node().data().ok() { cx.fail(&["C17", "C16"], "the cursor shows a value that is not alive".into()) } } }
            _ => { $w.forward(); } } } } }
        let keep = c % 4 != 0;
        let s = match s {
            S::T(t, m) => { let mut w = TreeWalk::from(t); steps!(w); if keep { Some(S::T(Tree::from(w), m)) } else { let mut u = vec![]; m.uids(&mut u); for x in &u { cx.check(tok::is_alive(*x), &["C17", "C04"], || format!("value {x} was dropped inside a walker")); } drop(w); for x in u { let k = tok::drops_of(x); cx.check(k == 1 && !tok::is_alive(x), &["C17", "C04"], || format!("value {x} was dropped {k} times with its walker")); } None } }
            S::F(f, m) => { let mut w = ForestWalk::from(f); steps!(w); if keep { Some(S::F(Forest::from(w), m)) } else { let mut u = vec![]; for k in &m.kids { k.uids(&mut u) } drop(w); for x in u { let k = tok::drops_of(x); cx.check(k == 1 && !tok::is_alive(x), &["C17", "C04"], || format!("value {x} was dropped {k} times with its walker")); } None } }
        };
        self.slots.extend(s);
        Ok(())
    }

    fn rc_round(&mut self, a: u16, b: u16, cx: &mut Cx) -> R<()> {
        let ts = self.tree_slots();
        if ts.is_empty() { return Ok(()) }
        let S::T(t, m) = self.slots.remove(ts[a as usize % ts.len()]) else { return Ok(()) };
        let rc = RcNode::from(t);
        cx.check(rc.is_root() && rc.data().uid == m.uid && rc.degree() == m.kids.len(), &["C26"], || "the shared root differs from the tree's root".into());
        if b & 1 == 1 { drop(rc.front()); drop(rc.back()); drop(rc.clone()); let _ = rc.iter_rc().count(); }
        let t = unsafe { rc.into_tree() };
        self.slots.push(S::T(t, m));
        Ok(())
    }

    fn operator(&mut self, a: u16, b: u16, c: u16, cx: &mut Cx) -> R<()> {
        use std::collections::VecDeque;
        let _: VecDeque<u8> = VecDeque::new();
        let form = a % 24;
        // operands: kind of the left and right side, owned or borrowed
        let (lt, rk, lo, ro) = match form { // (left is tree, right: 0 none, 1 tree, 2 forest, 3 unit)
            0 => (true, 0, true, true), 1 => (true, 0, false, true),
            2..=5 => (true, 1, form & 1 == 0, (form - 2) & 2 == 0),         // tree - tree
            6..=9 => (true, 2, form & 1 == 0, (form - 6) & 2 == 0),         // tree / forest
            10..=13 => (true, 1, form & 1 == 0, (form - 10) & 2 == 0),      // tree / tree
            14 => (true, 3, true, true), 15 => (true, 3, false, true),
            16..=19 => (false, 1, form & 1 == 0, (form - 16) & 2 == 0),     // forest - tree
            _ => (false, 2, form & 1 == 0, (form - 20) & 2 == 0),           // forest - forest
        };
        let l: S<L> = if lt { let (t, m) = self.take_tree(b, None); S::T(t, m) } else { let (f, m) = self.take_forest(b, None); S::F(f, m) };
        self.sweep();
        // with both sides borrowed, the right one may be the same object
        let same = !lo && !ro && c % 3 == 0 && rk == if lt { 1 } else { 2 };
        let r: Option<S<L>> = if same { None } else { match rk { 1 => { let (t, m) = self.take_tree(c, None); Some(S::T(t, m)) } 2 => { let (f, m) = self.take_forest(c, None); Some(S::F(f, m)) } _ => None } };
        self.sweep();
        self.clones_before = tok::with(|r| r.clones);
        let mut clones = 0;
        let mut cl_t = |w: &mut Self, m: &M| -> M { clones += m.count(); let b = w.new_blk(); m.cloned(b) };
        let mut clones_f = 0;
        let mut cl_f = |w: &mut Self, m: &FM| -> FM { clones_f += m.count(); let b = w.new_blk(); FM { kids: m.kids.iter().map(|k| k.cloned(b)).collect(), blk: b } };
        let mut back: Vec<S<L>> = vec![];
        let res: S<L>;
        macro_rules! mods { // the models of both sides as they enter the result
            (tt) => {{ let S::T(_, lm) = &l else { unreachable!() }; let rm0 = match &r { Some(S::T(_, m)) => m, _ => lm }; (if lo { lm.clone() } else { cl_t(self, lm) }, if ro { rm0.clone() } else { cl_t(self, rm0) }) }};
            (tf) => {{ let S::T(_, lm) = &l else { unreachable!() }; let Some(S::F(_, rm0)) = &r else { unreachable!() }; (if lo { lm.clone() } else { cl_t(self, lm) }, if ro { rm0.clone() } else { cl_f(self, rm0) }) }};
            (ft) => {{ let S::F(_, lm) = &l else { unreachable!() }; let Some(S::T(_, rm0)) = &r else { unreachable!() }; (if lo { lm.clone() } else { cl_f(self, lm) }, if ro { rm0.clone() } else { cl_t(self, rm0) }) }};
            (ff) => {{ let S::F(_, lm) = &l else { unreachable!() }; let rm0 = match &r { Some(S::F(_, m)) => m, _ => lm }; (if lo { lm.clone() } else { cl_f(self, lm) }, if ro { rm0.clone() } else { cl_f(self, rm0) }) }};
        }
        macro_rules! un { (t $s:expr) => { match $s { S::T(t, _) => t, _ => unreachable!() } }; (f $s:expr) => { match $s { S::F(f, _) => f, _ => unreachable!() } } }
        macro_rules! bin { ($op:tt, $lk:tt, $rkk:tt) => {{
            match (lo, ro) {
                (true, true) => un!($lk l) $op un!($rkk r.unwrap()),
                (true, false) => { let rr = r.unwrap(); let x = un!($lk l) $op un!($rkk &rr); back.push(rr); x }
                (false, true) => { let x = un!($lk &l) $op un!($rkk r.unwrap()); back.push(l); x }
                (false, false) => { let x = match &r { Some(r) => un!($lk &l) $op un!($rkk r), None => bin!(@same $op, $lk, $rkk) }; back.push(l); back.extend(r); x }
            } }};
            (@same $op:tt, t, t) => { un!(t &l) $op un!(t &l) }; (@same $op:tt, f, f) => { un!(f &l) $op un!(f &l) }; (@same $op:tt, $a:tt, $b:tt) => { unreachable!() } }
        match form {
            0 => { let S::T(t, m) = l else { unreachable!() }; res = S::F(-t, FM { kids: vec![m], blk: 0 }) }
            1 => { let S::T(t, m) = &l else { unreachable!() }; let k = cl_t(self, m); res = S::F(-t, FM { kids: vec![k], blk: 0 }); back.push(l) }
            2..=5 => { let (x, y) = mods!(tt); let f = bin!(-, t, t); res = S::F(f, FM { kids: vec![x, y], blk: 0 }) }
            6..=9 => { let (mut x, y) = mods!(tf); let t = bin!(/, t, f); x.kids.extend(y.kids); res = S::T(t, x) }
            10..=13 => { let (mut x, y) = mods!(tt); let t = bin!(/, t, t); x.kids.push(y); res = S::T(t, x) }
            14 => { let S::T(t, m) = l else { unreachable!() }; res = S::T(t / (), m) }
            15 => { let S::T(t, m) = &l else { unreachable!() }; let k = cl_t(self, m); res = S::T(t / (), k); back.push(l) }
            16..=19 => { let (mut x, y) = mods!(ft); let f = bin!(-, f, t); x.kids.push(y); res = S::F(f, x) }
            _ => {
                let (mut x, mut y) = mods!(ff);
                let f = bin!(-, f, f);
                // either operand's forest may become the result: which block its hidden root lives in is not fixed
                if x.blk != y.blk { if x.blk != 0 { self.blocks[x.blk as usize] = 0; self.pending.retain(|b| *b != x.blk) } if y.blk != 0 { self.blocks[y.blk as usize] = 0; self.pending.retain(|b| *b != y.blk) } }
                x.kids.append(&mut y.kids);
                res = S::F(f, x);
            }
        }
        if form >= 2 { cx.feat(67) }
        let expected = clones + clones_f;
        self.slots.extend(back);
        self.slots.push(res);
        self.expect_clones(expected, &["C11", "C14"], cx);
        Ok(())
    }

    fn refuse(&mut self, a: u16, b: u16, c: u16, cx: &mut Cx) -> R<()> {
        let ts = self.tree_slots();
        if ts.is_empty() { return Ok(()) }
        let i = ts[a as usize % ts.len()];
        let (x, xm) = self.build_tree(1 + c as usize % 5, c, c % 2 == 0, c);
        let S::T(t, _) = &mut self.slots[i] else { return Ok(()) };
        let what = b % 6;
        let refused = match what {
            0 => { drop(x); catch(|| std::mem::forget(t.root_mut().detach())).is_err() }
            1 => catch(|| t.root_mut().insert_prev_sib(x)).is_err(),
            2 => catch(|| t.root_mut().insert_next_sib(x)).is_err(),
            3 | 4 => {
                // a freshly taken out tree is a root, too
                let (mut y, ym) = self.build_tree(2 + c as usize % 3, c + 1, c % 3 == 0, c);
                let taken = if c % 2 == 0 { y.pop_front() } else { y.front_mut().map(|mut n| n.detach()) };
                let Some(mut taken) = taken else { return lost(cx) };
                let m = ym.kids[0].clone();
                let r = if what == 3 { drop(x); catch(|| std::mem::forget(taken.root_mut().detach())).is_err() } else { catch(|| taken.root_mut().insert_next_sib(x)).is_err() };
                let mut ym = ym;
                ym.kids.remove(0);
                self.slots.push(S::T(y, ym));
                self.slots.push(S::T(taken, m));
                r
            }
            _ => {
                // one that went through a forest
                let (y, ym) = self.build_tree(1 + c as usize % 3, c + 1, c % 3 == 0, c);
                let mut f = Forest::new();
                f.push_back(y);
                let Some(mut y) = f.pop_back() else { return lost(cx) };
                let r = catch(|| y.root_mut().insert_prev_sib(x)).is_err();
                self.slots.push(S::T(y, ym));
                r
            }
        };
        if !refused { cx.fail(&["C28"], ["detaching a root was not refused", "inserting a tree before a root was not refused", "inserting a tree after a root was not refused", "detaching a root was not refused", "inserting a tree after a root was not refused", "inserting a tree before a root was not refused"][what as usize].into()); return Err(Stop) }
        let mut u = vec![];
        xm.uids(&mut u);
        for k in u { let n = tok::drops_of(k); cx.check(n == 1, &["C28", "C04"], || format!("value {k} of the refused tree was dropped {n} times")); }
        Ok(())
    }

    fn iter_check(&mut self, a: u16, b: u16, cx: &mut Cx) -> R<()> {
        let (i, p) = self.pick(a, b);
        let exp: Vec<u32> = unsafe { &*Self::kids_mut(&mut self.slots[i], &p).0 }.iter().map(|m| m.uid).collect();
        let n = exp.len();
        if n > 1 { cx.feat(68) }
        let s = &mut self.slots[i];
        let mut r = Rng::new((b as u64) << 16 | a as u64);
        macro_rules! run { ($what:expr, $it:expr, $get:expr) => {{
            let mut it = $it;
            let mut got: Vec<u32> = vec![];
            loop {
                let left = n.saturating_sub(got.len());
                let (l, h) = (it.len(), it.size_hint());
                if l != left || h != (left, Some(left)) { cx.fail(&["C07"], format!("{}: reports {l} / {h:?} left, expected {left}", $what)) }
                match it.next() { None => break, Some(x) => got.push($get(&*x)) }
                if got.len() > n + 2 { break }
            }
            for _ in 0..3 { if it.next().is_some() { cx.fail(&["C07"], format!("{}: yields something after its end", $what)) } }
            if it.len() != 0 { cx.fail(&["C07"], format!("{}: length after the end is {}", $what, it.len())) }
            if got != exp { cx.fail(&["C07"], format!("{}: yields {got:?}, expected {exp:?}", $what)) }
            for _ in 0..2 { if let Err(e) = script($it, &exp, true, &mut r, |x| $get(&*x)) { cx.fail(&["C07"], format!("{}: {e}", $what)) } }
        }} }
        let f = |x: &Node<Tok<L>>| x.data().uid;
        if p.is_empty() {
            match s {
                S::T(t, _) => { run!("Tree::iter", t.iter(), f); run!("Tree::iter_mut", t.iter_mut(), f) }
                S::F(x, _) => { run!("Forest::iter", x.iter(), f); run!("Forest::iter_mut", x.iter_mut(), f) }
            }
        }
        if !(p.is_empty() && matches!(s, S::F(..))) {
            let Some(nd) = Self::node(s, &p, false) else { return lost(cx) };
            run!("Node::iter", nd.iter(), f);
            run!("Node::iter_mut", nd.iter_mut(), f);
            let a = ad(nd);
            let one = (&*nd).into_iter();
            if one.len() != 1 { cx.fail(&["C07"], format!("a node as an iterable has length {}", one.len())) }
            let v: Vec<usize> = one.take(3).map(ad).collect();
            if v != [a] { cx.fail(&["C07"], format!("a node as an iterable yields {} items, expected exactly itself", v.len())) }
            if let Err(e) = script((&*nd).into_iter(), &[a], true, &mut r, ad) { cx.fail(&["C07"], format!("a node as an iterable: {e}")) }
            let np = nd as *mut Node<Tok<L>>;
            if let Err(e) = script(unsafe { Pin::new_unchecked(&mut *np) }.into_iter(), &[a], true, &mut r, |x| ad(&*x)) { cx.fail(&["C07", "C08"], format!("a mutable node as an iterable: {e}")) }
            let pin = unsafe { Pin::new_unchecked(nd) };
            let mut one = pin.into_iter();
            let l = one.len();
            let x = one.next().map(|x| ad(&*x));
            if l != 1 || x != Some(a) || one.len() != 0 || one.next().is_some() { cx.fail(&["C07"], "a mutable node as an iterable does not yield exactly itself".into()) }
        }
        Ok(())
    }

    /// Takes the children of a node off one end and puts them back in their order.
    fn consume_ends(&mut self, a: u16, b: u16, c: u16, cx: &mut Cx) -> R<()> {
        let (i, p) = self.pick(a, b);
        let exp: Vec<u32> = unsafe { &*Self::kids_mut(&mut self.slots[i], &p).0 }.iter().map(|m| m.uid).collect();
        let back = c & 1 == 0;
        let s = &mut self.slots[i];
        let mut got = vec![];
        macro_rules! run { ($x:expr) => {{
            let mut v = vec![];
            while let Some(t) = if back { $x.pop_back() } else { $x.pop_front() } { got.push(t.data().uid); v.push(t); if v.len() > exp.len() + 2 { break } }
            if c & 2 == 0 { for t in v.into_iter().rev() { if back { $x.push_back(t) } else { $x.push_front(t) } } }
            else { for t in v { if back { $x.push_front(t) } else { $x.push_back(t) } } }
        }} }
        if p.is_empty() { match s { S::T(t, _) => run!(t), S::F(f, _) => run!(f) } }
        else { match Self::node(s, &p, false) { Some(n) => run!(n), None => return lost(cx) } }
        let e: Vec<u32> = if back { exp.iter().rev().cloned().collect() } else { exp };
        cx.check(got == e, &["C03"], || format!("popping the children from the {} gives {got:?}, expected {e:?}", if back { "back" } else { "front" }));
        Ok(())
    }

    fn tuple_tree(&mut self, a: u16) -> S<L> {
        let b = self.new_blk();
        let mut v = |w: &mut Self, par: &[usize]| { let (ts, ms) = w.mk_vals(par.len(), b); (ts.into_iter(), Self::link(par, ms)) };
        macro_rules! t { ($par:expr, $i:ident => $e:expr) => {{
            let par: &[usize] = &$par;
            if self.store == Store::Scattered { let (ts, mut m) = v(self, par); m.each(&mut |k| k.blk = 0); return S::T(scattered(par, ts.collect(), 0), m) }
            let (mut it, m) = v(self, par); let mut $i = || it.next().unwrap(); S::T(Tree::from_tuple($e), m) }} }
        if let Some(e) = crate::wt::entry::<L>(a, false) {
            let par = e.par();
            let (it, m) = v(self, &par);
            let mut j = crate::wt::Job::new(it.collect(), crate::wt::Mode::Build);
            (e.run)(&mut j);
            return S::T(j.tree.unwrap(), m)
        }
        match a % 8 {
            0 => t!([0], n => (n(),)),
            1 => t!([0, 0], n => (n(), n())),
            2 => t!([0, 0, 0, 0], n => (n(), n(), n(), n())),
            3 => t!([0, 0, 1, 2, 0], n => (n(), (n(), (n(), n())), n())),
            4 => t!([0, 0, 1, 1, 0, 4, 4], n => (n(), (n(), n(), n()), (n(), n(), n()))),
            5 => t!([0, 0, 1, 2, 3, 4], n => (n(), (n(), (n(), (n(), (n(), n())))))),
            6 => t!([0, 0, 0, 2, 2, 4, 0, 6, 7, 6], n => (n(), n(), (n(), n(), (n(), n())), (n(), (n(), n()), n()))),
            _ => t!([0, 0, 1, 2, 1, 4, 0, 6], n => (n(), (n(), (n(), n()), (n(), n())), (n(), n()))),
        }
    }
    fn tuple_forest(&mut self, a: u16) -> S<L> {
        let b = self.new_blk();
        macro_rules! t { ($par:expr, $i:ident => $e:expr) => {{
            let par: &[usize] = &$par;
            let scat = self.store == Store::Scattered;
            let (ts, ms) = self.mk_vals(par.len() - 1, if scat { 0 } else { b });
            let mut all = vec![M { uid: NO, org: NO, val: 0, addr: 0, blk: 0, kids: vec![] }];
            all.extend(ms);
            let m = Self::link(par, all);
            if scat {
                let mut trees: Vec<Option<Tree<Tok<L>>>> = std::iter::once(None).chain(ts.into_iter().map(|t| Some(Tree::new(t)))).collect();
                let mut f = Forest::new();
                for i in (1..par.len()).rev() { let t = trees[i].take().unwrap(); if par[i] == 0 { f.push_front(t) } else { trees[par[i]].as_mut().unwrap().push_front(t) } }
                return S::F(f, FM { kids: m.kids, blk: 0 })
            }
            let mut it = ts.into_iter(); #[allow(unused_mut, unused_variables)] let mut $i = || it.next().unwrap();
            S::F(Forest::from_tuple($e), FM { kids: m.kids, blk: b }) }} }
        if let Some(e) = crate::wt::entry::<L>(a, true) {
            let par = e.par();
            let (ts, ms) = self.mk_vals(par.len() - 1, b);
            let mut all = vec![M { uid: NO, org: NO, val: 0, addr: 0, blk: 0, kids: vec![] }];
            all.extend(ms);
            let m = Self::link(&par, all);
            let mut j = crate::wt::Job::new(ts, crate::wt::Mode::Build);
            (e.run)(&mut j);
            return S::F(j.forest.unwrap(), FM { kids: m.kids, blk: b })
        }
        match a % 5 {
            0 => t!([0], n => ()),
            1 => t!([0, 0], n => (n(),)),
            2 => t!([0, 0, 1, 0, 3, 3], n => ((n(), n()), (n(), n(), n()))),
            3 => t!([0, 0, 1, 2, 0, 0, 5], n => ((n(), (n(), n())), n(), (n(), n()))),
            _ => t!([0, 0, 0, 2, 3, 2], n => (n(), (n(), (n(), n()), n()))),
        }
    }
}

fn s_ptr<L: Lay>(n: &mut Node<Tok<L>>) -> *mut Node<Tok<L>> { n }
fn node_mut<'a, L: Lay>(n: *mut Node<Tok<L>>) -> &'a mut Node<Tok<L>> { unsafe { &mut *n } }
fn s_model<'a, L: Lay>(_: *mut Node<Tok<L>>, s: &'a mut S<L>, p: &[usize]) -> Option<&'a mut M> { Some(unsafe { &mut *mp(s, p) }) }
pub fn mp<L: Lay>(s: &mut S<L>, p: &[usize]) -> *mut M { match s { S::T(_, m) => m.at_mut(p), S::F(_, f) => f.kids[p[0]].at_mut(&p[1..]) } }

pub fn lost<T>(cx: &mut Cx) -> R<T> { cx.fail(&["C01", "C03", cx.id], "a node the model knows cannot be reached".into()); Err(Stop) }
pub fn size_arg(a: u16) -> usize { let x = a as usize; match x % 8 { 0 => 1, 1 => 2, 2..=5 => 2 + (x / 8) % 7, 6 => 1 + (x / 8) % 20, _ => 1 + (x / 8) % 40 } }

pub fn descs(par: &[usize]) -> Vec<usize> { let mut d = vec![0; par.len()]; for i in (1..par.len()).rev() { d[par[i]] += d[i] + 1 } d }
pub fn bfs_order(kids: &[Vec<usize>]) -> Vec<usize> { let mut o = vec![0]; let mut i = 0; while i < o.len() { o.extend(&kids[o[i]]); i += 1 } o }
pub fn bfs_of<T>(par: &[usize], ts: Vec<T>) -> BfsTree<std::vec::IntoIter<bfs::Visit<T>>> {
    let kids = kids_of(par);
    let desc = descs(par);
    let mut ts: Vec<Option<T>> = ts.into_iter().map(Some).collect();
    let v: Vec<bfs::Visit<T>> = bfs_order(&kids).iter().map(|&i| bfs::Visit { data: ts[i].take().unwrap(), size: Size { degree: kids[i].len(), descendants: desc[i] } }).collect();
    BfsTree { iter: v.into_iter(), size: Size { degree: 1, descendants: par.len() - 1 } }
}
/// Builds a tree node by node, in one of several ways.
pub fn scattered<T>(par: &[usize], ts: Vec<T>, how: u16) -> Tree<T> {
    let mut v: Vec<Option<Tree<T>>> = ts.into_iter().map(|t| Some(Tree::new(t))).collect();
    match how % 4 {
        0 => { // bottom up, children in front
            for i in (1..par.len()).rev() { let t = v[i].take().unwrap(); v[par[i]].as_mut().unwrap().push_front(t) }
            v[0].take().unwrap()
        }
        1 => { // bottom up, forests of siblings
            let kids = kids_of(par);
            for i in (0..par.len()).rev() {
                let mut f = Forest::new();
                for &k in &kids[i] { f.push_back(v[k].take().unwrap()) }
                v[i].as_mut().unwrap().append(f);
            }
            v[0].take().unwrap()
        }
        2 => { // the last child first, the others as siblings before it
            for i in (1..par.len()).rev() {
                let t = v[i].take().unwrap();
                let p = v[par[i]].as_mut().unwrap();
                if p.has_no_child() { p.push_back(t) } else { pm(p.front_mut().unwrap()).insert_prev_sib(t) }
            }
            v[0].take().unwrap()
        }
        _ => { // top down, through paths
            let mut root = v[0].take().unwrap();
            let mut path: Vec<Vec<usize>> = vec![vec![]; par.len()];
            let mut cnt = vec![0; par.len()];
            for i in 1..par.len() {
                let mut p = path[par[i]].clone();
                let t = v[i].take().unwrap();
                let at = nav(pm(root.root_mut()), &p, true).unwrap();
                if cnt[par[i]] > 0 { pm(at.back_mut().unwrap()).insert_next_sib(t) } else { at.push_back(t) }
                p.push(cnt[par[i]]);
                cnt[par[i]] += 1;
                path[i] = p;
            }
            root
        }
    }
}
fn bfs_list(roots: &[&M], out: &mut Vec<(u32, usize, usize)>) {
    let mut q: std::collections::VecDeque<&M> = roots.iter().cloned().collect();
    while let Some(m) = q.pop_front() { out.push((m.uid, m.kids.len(), m.count() - 1)); q.extend(m.kids.iter()) }
}
/// A tree of the user's own, which can be split, too.
struct Mine { v: u64, n: usize, k: Vec<Mine> }
impl Mine { fn of(m: &M) -> Mine { Mine { v: m.uid as u64 * 3, n: m.count() - 1, k: m.kids.iter().map(Mine::of).collect() } } }
impl bfs::Split for Mine {
    type Item = u64;
    type Iter = std::vec::IntoIter<Mine>;
    fn split(self) -> (u64, Self::Iter, usize) { (self.v, self.k.into_iter(), self.n) }
}
impl<'a> bfs::Split for &'a Mine {
    type Item = u64;
    type Iter = std::vec::IntoIter<&'a Mine>;
    fn split(self) -> (u64, Self::Iter, usize) { (self.v, self.k.iter().collect::<Vec<_>>().into_iter(), self.n) }
}
#[derive(PartialEq, Debug)]
pub struct Sh(u64, Vec<Sh>);
fn ref_shape<L: Lay>(n: &Node<&Tok<L>>) -> Sh { Sh(n.data().uid as u64, n.iter().map(ref_shape).collect()) }
fn int_shape(n: &Node<u64>) -> Sh { Sh(*n.data(), n.iter().map(int_shape).collect()) }
fn m_shape(m: &M) -> Sh { Sh(m.uid as u64, m.kids.iter().map(m_shape).collect()) }
fn m_int_shape(m: &M) -> Sh { Sh(m.uid as u64 * 3, m.kids.iter().map(m_int_shape).collect()) }

/// Drops everything at the end of a case, in an order the case chooses.
pub fn finish<L: Lay>(mut w: World<L>, order: u16, cx: &mut Cx) -> R<()> {
    let mut k = order as usize;
    while !w.slots.is_empty() {
        let i = k % w.slots.len();
        k = k / 3 + 7;
        let s = w.slots.remove(i);
        drop(s);
        w.account(&["C04"], cx)?;
    }
    if let Some(e) = tok::take_error() { cx.fail(&["C04", "C05", cx.id], e) }
    cx.bail()
}

pub fn run<L: Lay>(case: &Case, store: Store, cx: &mut Cx) -> R<()> {
    let mut w = std::mem::ManuallyDrop::new(World::<L>::new(store));
    cx.big = case.params[1] % 16 == 15;
    for (i, o) in case.ops.iter().enumerate() {
        cx.step = i;
        w.exec(o, cx)?;
    }
    let w = std::mem::ManuallyDrop::into_inner(w);
    cx.step = case.ops.len();
    finish(w, case.params[2], cx)
}
