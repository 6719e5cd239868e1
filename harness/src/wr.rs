//! World R: shared ownership (RcNode, WeakNode, IterRc) together with exclusive trees, against an arena model.
use crate::alloc;
use crate::tok::{self, Lay, Tok};
use crate::util::*;
use crate::wf::shoot;
use crate::tok::{K_CLONE, K_CMP, K_DROP, K_FMT, K_USER};
use crate::wa::{ad, bfs_of, descs, kids_of, bfs_order, scattered, Store, NO};
use std::collections::HashSet;
use std::mem::ManuallyDrop;
use trees::bfs::{self, BfsForest};
use trees::iter_rc::IterRc;
use trees::rc::WeakNode;
use trees::{Forest, Node, RcNode, Size, Tree};

pub type Id = usize;
#[derive(Clone)]
pub struct N {
    pub uid: u32, pub org: u32, pub val: i32, pub addr: usize, pub blk: u32,
    pub parent: Option<Id>, pub kids: Vec<Id>, pub alive: bool,
    pub refs: usize,      // handles and trees that own this node
    pub moved: bool,      // its value went elsewhere
    pub ever: Vec<Id>,    // all nodes that were ever its children
    pub limbo: bool,      // only a running iterator may hold it
    pub tree: bool,       // it was turned back into a tree
}
/// A running child iterator: the remaining original children, and whether nothing disturbed them so far.
pub struct It<L: Lay> { pub it: IterRc<Tok<L>>, pub of: Id, pub rem: Vec<Id>, pub exact: bool, pub left: usize, pub may: Vec<Id> }

pub struct World<L: Lay> {
    pub ns: Vec<N>,
    pub hs: Vec<(RcNode<Tok<L>>, Id)>,
    pub ws: Vec<(WeakNode<Tok<L>>, Id)>,
    pub ts: Vec<(Tree<Tok<L>>, Id)>,
    pub its: Vec<It<L>>,
    pub vals: i32,
    pub store: Store,
    pub blocks: Vec<usize>,
    pub pending: Vec<u32>,
    pub clones: u64,
    pub sparse: bool,
    pub looks: u32,
    pub looked: usize,
    pub since: Vec<&'static str>,
}

pub const OPS: &[&str] = &[
    "rc_new", "rc_clone", "rc_drop", "rc_front", "rc_back", "rc_parent", "rc_child", "rc_push_front", "rc_push_back", "rc_prepend",
    "rc_append", "rc_insert_prev", "rc_insert_next", "rc_detach", "rc_pop_front", "rc_pop_back", "rc_set", "downgrade", "upgrade", "weak_drop",
    "iter_start", "iter_step", "iter_drop", "iter_clone", "loop_edit", "into_tree", "tree_to_rc", "into_tree_refused", "rc_deep_clone", "rc_extend",
    "tree_drop", "tree_move", "tree_pop", "tree_rebuild", "tree_abandon", "refused", "text", "drop_many", "borrow", "chain", "reenter",
];
pub mod op {
    pub const NEW: u16 = 0; pub const CLONE: u16 = 1; pub const DROP: u16 = 2; pub const FRONT: u16 = 3; pub const BACK: u16 = 4;
    pub const PARENT: u16 = 5; pub const CHILD: u16 = 6; pub const PUSH_F: u16 = 7; pub const PUSH_B: u16 = 8; pub const PREP: u16 = 9;
    pub const APP: u16 = 10; pub const INS_P: u16 = 11; pub const INS_N: u16 = 12; pub const DETACH: u16 = 13; pub const POP_F: u16 = 14;
    pub const POP_B: u16 = 15; pub const SET: u16 = 16; pub const DOWN: u16 = 17; pub const UP: u16 = 18; pub const WDROP: u16 = 19;
    pub const IT_NEW: u16 = 20; pub const IT_STEP: u16 = 21; pub const IT_DROP: u16 = 22; pub const IT_CLONE: u16 = 23; pub const LOOP: u16 = 24;
    pub const INTO: u16 = 25; pub const T2RC: u16 = 26; pub const INTO_REF: u16 = 27; pub const DCLONE: u16 = 28; pub const EXTEND: u16 = 29;
    pub const TDROP: u16 = 30; pub const TMOVE: u16 = 31; pub const TPOP: u16 = 32; pub const TBFS: u16 = 33; pub const TABAN: u16 = 34;
    pub const REFUSE: u16 = 35; pub const TEXT: u16 = 36; pub const DMANY: u16 = 37; pub const BORROW: u16 = 38; pub const CHAIN: u16 = 39; pub const REENTER: u16 = 40;
}
pub const F0: usize = 100; // feature numbers of this world start here; specials:
pub const F_SPARSE: usize = 149; // a step after which no handle was used to look
pub const F_SURV: usize = 150;   // a child survived its parent as a root
pub const F_WEAK_NONE: usize = 151;
pub const F_WEAK_SOME: usize = 152;
pub const F_IT_DIST: usize = 153; // an iterator advanced after its children were disturbed
pub const F_IT_EXACT: usize = 154;
pub const F_CONFLICT: usize = 155;
pub const F_NOCONFLICT: usize = 156;
pub const F_LIMBO: usize = 157;
pub const F_ROUND: usize = 158;
pub const F_EXT: usize = 159; // an extension whose iterator used the node

fn tags_of(o: u16) -> &'static [&'static str] {
    use op::*;
    match o {
        IT_NEW | IT_STEP | IT_DROP | IT_CLONE => &["C27", "C21"],
        LOOP => &["C08", "C27", "C21"],
        INTO | T2RC | INTO_REF => &["C26", "C21"],
        TDROP | TMOVE | TPOP | TBFS | TABAN => &["C26", "C01"],
        DCLONE => &["C14", "C21"],
        REFUSE => &["C28", "C21"],
        BORROW => &["C25", "C21"],
        DOWN | UP | WDROP => &["C23", "C21"],
        _ => &["C21"],
    }
}

impl<L: Lay> World<L> {
    pub fn new(store: Store) -> Self {
        World { ns: vec![], hs: vec![], ws: vec![], ts: vec![], its: vec![], vals: 0, store, blocks: vec![0], pending: vec![], clones: 0, sparse: false, looks: 0, looked: 0, since: vec![] }
    }
    fn val(&mut self) -> i32 { self.vals += 1; self.vals }
    fn new_blk(&mut self) -> u32 { self.blocks.push(0); let b = self.blocks.len() as u32 - 1; self.pending.push(b); b }
    fn node(&mut self, uid: u32, org: u32, val: i32, blk: u32) -> Id {
        self.ns.push(N { uid, org, val, addr: 0, blk, parent: None, kids: vec![], alive: true, refs: 0, moved: false, ever: vec![], limbo: false, tree: false });
        self.ns.len() - 1
    }
    fn link(&mut self, p: Id, at: usize, c: Id) { self.ns[p].kids.insert(at, c); self.ns[p].ever.push(c); self.ns[c].parent = Some(p) }
    fn unlink(&mut self, c: Id) { if let Some(p) = self.ns[c].parent.take() { self.ns[p].kids.retain(|k| *k != c) } }
    fn sub(&self, n: Id, v: &mut Vec<Id>) { v.push(n); for &k in &self.ns[n].kids { self.sub(k, v) } }
    pub fn subtree(&self, n: Id) -> Vec<Id> { let mut v = vec![]; self.sub(n, &mut v); v }
    fn count(&self, n: Id) -> usize { 1 + self.ns[n].kids.iter().map(|&k| self.count(k)).sum::<usize>() }
    pub fn root_of(&self, mut n: Id) -> Id { while let Some(p) = self.ns[n].parent { n = p } n }
    pub fn in_tree(&self, n: Id) -> bool { let r = self.root_of(n); self.ts.iter().any(|t| t.1 == r) }
    fn total(&self) -> usize { self.ns.iter().filter(|n| n.alive).count() }
    fn show(&self, n: Id) -> String {
        let x = &self.ns[n];
        let mut s = format!("{}#{}:v{}", n, x.uid as i32, x.val);
        if !x.kids.is_empty() { s += &format!("({})", x.kids.iter().map(|&k| self.show(k)).collect::<Vec<_>>().join(" ")) }
        s
    }
    fn show_all(&self) -> String {
        let mut s = String::new();
        for i in 0..self.ns.len() { if self.ns[i].alive && self.ns[i].parent.is_none() { s += &self.show(i); s += "  " } }
        s += &format!("| handles {:?} trees {:?} weak {:?} iters {:?}", self.hs.iter().map(|h| h.1).collect::<Vec<_>>(), self.ts.iter().map(|h| h.1).collect::<Vec<_>>(), self.ws.iter().map(|h| h.1).collect::<Vec<_>>(), self.its.iter().map(|i| (i.of, &i.rem, i.exact)).collect::<Vec<_>>());
        s
    }

    // ---- building ----
    fn build(&mut self, n: usize, seed: u16, piled: bool, how: u16) -> (Tree<Tok<L>>, Id) {
        let piled = match self.store { Store::AsIs => piled, Store::Scattered => false, Store::Piled => true };
        let par = shape(n.max(1), seed);
        let b = if piled { self.new_blk() } else { 0 };
        let (ts, ids) = self.vals_of(&par, b);
        (if piled { Tree::from(bfs_of(&par, ts)) } else { scattered(&par, ts, how) }, ids[0])
    }
    fn vals_of(&mut self, par: &[usize], b: u32) -> (Vec<Tok<L>>, Vec<Id>) {
        let mut ts = vec![];
        let mut ids: Vec<Id> = vec![];
        for i in 0..par.len() {
            let t = Tok::new(self.val());
            let id = self.node(t.uid, NO, t.val, b);
            if i > 0 { let p = ids[par[i]]; let at = self.ns[p].kids.len(); self.link(p, at, id) }
            ts.push(t);
            ids.push(id);
        }
        (ts, ids)
    }
    /// A forest of `n` nodes, as trees.
    fn build_forest(&mut self, n: usize, seed: u16, piled: bool) -> (Forest<Tok<L>>, Vec<Id>) {
        let piled = match self.store { Store::AsIs => piled, Store::Scattered => false, Store::Piled => true };
        let par = shape(n + 1, seed);
        let kids = kids_of(&par);
        if piled {
            let b = self.new_blk();
            let desc = descs(&par);
            let mut ids = vec![usize::MAX];
            let mut ts = vec![None];
            for i in 1..par.len() {
                let t = Tok::new(self.val());
                let id = self.node(t.uid, NO, t.val, b);
                if par[i] > 0 { let p = ids[par[i]]; let at = self.ns[p].kids.len(); self.link(p, at, id) }
                ids.push(id);
                ts.push(Some(t));
            }
            let visits: Vec<bfs::Visit<Tok<L>>> = bfs_order(&kids)[1..].iter().map(|&i| bfs::Visit { data: ts[i].take().unwrap(), size: Size { degree: kids[i].len(), descendants: desc[i] } }).collect();
            let f = Forest::from(BfsForest { iter: visits.into_iter(), size: Size { degree: kids[0].len(), descendants: n } });
            (f, kids[0].iter().map(|&k| ids[k]).collect())
        } else {
            let mut ids = vec![usize::MAX];
            let mut trees = vec![None];
            for i in 1..par.len() {
                let t = Tok::new(self.val());
                let id = self.node(t.uid, NO, t.val, 0);
                if par[i] > 0 { let p = ids[par[i]]; let at = self.ns[p].kids.len(); self.link(p, at, id) }
                ids.push(id);
                trees.push(Some(Tree::new(t)));
            }
            let mut f = Forest::new();
            for i in (1..par.len()).rev() {
                let t = trees[i].take().unwrap();
                if par[i] == 0 { f.push_front(t) } else { trees[par[i]].as_mut().unwrap().push_front(t) }
            }
            (f, kids[0].iter().map(|&k| ids[k]).collect())
        }
    }
    /// A tree from the list, or a new one.
    fn take_tree(&mut self, sel: u16, not_root: Id) -> (Tree<Tok<L>>, Id) {
        let c: Vec<usize> = (0..self.ts.len()).filter(|&i| self.ts[i].1 != not_root).collect();
        if c.is_empty() || sel % 3 != 0 { return self.build(1 + (sel / 3) as usize % 4, sel, sel % 2 == 0, sel) }
        let (t, id) = self.ts.remove(c[(sel / 3) as usize % c.len()]);
        self.ns[id].refs -= 1;
        (t, id)
    }
    fn ensure(&mut self, sel: u16) {
        if self.hs.is_empty() {
            let (t, id) = self.build(2 + sel as usize % 7, sel, sel % 2 == 0, sel);
            self.ns[id].refs += 1;
            self.hs.push((RcNode::from(t), id));
        }
    }
    fn pick(&mut self, sel: u16) -> usize { self.ensure(sel); sel as usize % self.hs.len() }
    fn add(&mut self, h: RcNode<Tok<L>>, id: Id) { self.ns[id].refs += 1; self.hs.push((h, id)) }

    // ---- what dies ----
    fn held_by_iter(&self, n: Id) -> bool { self.its.iter().any(|i| i.of == n || i.may.contains(&n)) }
    fn kill(&mut self, n: Id, cx: &mut Cx) {
        self.ns[n].alive = false;
        self.ns[n].limbo = false;
        for k in std::mem::take(&mut self.ns[n].kids) {
            self.ns[k].parent = None;
            if self.ns[k].refs > 0 { cx.feat(F_SURV) }
        }
    }
    pub fn settle(&mut self, cx: &mut Cx) {
        loop {
            let mut again = false;
            for n in 0..self.ns.len() {
                let x = &self.ns[n];
                if x.alive && x.refs == 0 && x.parent.is_none() {
                    if self.held_by_iter(n) && tok::is_alive(x.uid) { if !x.limbo { self.ns[n].limbo = true; cx.feat(F_LIMBO) } continue }
                    self.kill(n, cx);
                    again = true;
                }
            }
            if !again { break }
        }
    }

    // ---- observation ----
    fn obs(&mut self, h: &RcNode<Tok<L>>, id: Id, st: &[&'static str], seen: &mut HashSet<Id>, cx: &mut Cx) {
        if !cx.fails.is_empty() { return }
        cx.nodes_seen += 1;
        let first = seen.insert(id);
        {
            let d = h.data();
            let n = &mut self.ns[id];
            if n.uid == NO && n.org != NO { if tok::origin(d.uid) == n.org && d.ok() { n.uid = d.uid } }
            if d.uid != n.uid || d.val != n.val || !d.ok() {
                let m = format!("a handle to node {id} shows value {}:v{} (alive: {}), expected {}:v{}", d.uid, d.val, d.ok(), n.uid, n.val);
                cx.fail(st, m.clone());
                if !d.ok() { cx.fail(&["C22", "C24"], m) }
                return;
            }
            cx.l(d.val as u32 as u64);
        }
        let a = ad(&*unsafe { h.node() });
        let n = &mut self.ns[id];
        if n.addr == 0 { n.addr = a } else if n.addr != a { let m = format!("node {id} is at {a:x}, was at {:x}", n.addr); cx.fail(&["C06", "C21"], m) }
        if !first { return }
        let kids = self.ns[id].kids.clone();
        let cnt = self.count(id);
        let nk = kids.len();
        let parent = self.ns[id].parent;
        if h.degree() != nk { cx.fail(&["C02", "C21"], format!("degree() of node {id} is {}, it has {nk} children", h.degree())) }
        if h.node_count() != cnt { cx.fail(&["C02", "C21"], format!("node_count() of node {id} is {}, its subtree has {cnt} nodes", h.node_count())) }
        if h.has_no_child() != (nk == 0) { cx.fail(&["C02", "C21"], format!("has_no_child() of node {id} is {} with {nk} children", h.has_no_child())) }
        if h.is_root() != parent.is_none() { cx.fail(&["C21", "C03", "C22"], format!("is_root() of node {id} is {}, its parent is {parent:?}", h.is_root())); return }
        let pu = h.parent().map(|p| p.data().uid);
        let pe = parent.map(|p| self.ns[p].uid);
        if pu != pe { cx.fail(&["C21", "C03", "C22"], format!("parent() of node {id} holds value {pu:?}, expected {pe:?}")) }
        cx.l(nk as u64 | (cnt as u64) << 32);
        let mut it = h.iter_rc();
        let mut i = 0;
        let mut ends = (None, None);
        loop {
            let left = nk.saturating_sub(i);
            if it.size_hint() != (left, Some(left)) { cx.fail(&["C07"], format!("iter_rc().size_hint() is {:?} with {left} children left", it.size_hint())) }
            match it.next() {
                None => break,
                Some(c) => {
                    if i >= nk { cx.fail(st, format!("node {id} has more than the expected {nk} children")); cx.fail(&["C07"], "iter_rc() yields too many".into()); return }
                    let u = c.data().uid;
                    if i == 0 { ends.0 = Some(u) }
                    ends.1 = Some(u);
                    self.obs(&c, kids[i], st, seen, cx);
                    if !cx.fails.is_empty() { return }
                }
            }
            i += 1;
        }
        if i != nk { cx.fail(st, format!("node {id} has {i} children, expected {nk}")); cx.fail(&["C07"], format!("iter_rc() yields {i} of {nk} children")) }
        let f = (h.front().map(|c| c.data().uid), h.back().map(|c| c.data().uid));
        if f != ends { cx.fail(&["C03", "C21"], format!("front() and back() of node {id} are {f:?}, its children begin and end with {ends:?}")) }
    }
    fn obs_x(&mut self, n: &Node<Tok<L>>, id: Id, parent: Option<usize>, st: &[&'static str], cx: &mut Cx) {
        if !cx.fails.is_empty() { return }
        cx.nodes_seen += 1;
        let d = n.data();
        let a = ad(n);
        {
            let m = &mut self.ns[id];
            if m.uid == NO && m.org != NO { if tok::origin(d.uid) == m.org && d.ok() { m.uid = d.uid } }
            if d.uid != m.uid || d.val != m.val || !d.ok() { let t = format!("node {id} of a tree holds value {}:v{} (alive: {}), expected {}:v{}", d.uid, d.val, d.ok(), m.uid, m.val); cx.fail(st, t.clone()); if !d.ok() { cx.fail(&["C22", "C24", "C26"], t) } return }
            if m.addr == 0 { m.addr = a } else if m.addr != a { let t = format!("node {id} is at {a:x}, was at {:x}", m.addr); cx.fail(&["C06", "C26"], t) }
        }
        let kids = self.ns[id].kids.clone();
        let cnt = self.count(id);
        if n.degree() != kids.len() || n.node_count() != cnt { cx.fail(&["C02", "C26"], format!("degree() and node_count() of node {id} are {} and {}, expected {} and {cnt}", n.degree(), n.node_count(), kids.len())) }
        if n.parent().map(ad) != parent { cx.fail(&["C03", "C26"], format!("node {id} has a wrong parent")) }
        if n.iter().count() != kids.len() { cx.fail(st, format!("node {id} of a tree has {} children, expected {}", n.iter().count(), kids.len())); return }
        cx.l(d.val as u32 as u64); cx.l(cnt as u64);
        for (c, &k) in n.iter().zip(&kids) { self.obs_x(c, k, Some(a), st, cx) }
        if n.front().map(ad) != n.iter().next().map(ad) || n.back().map(ad) != n.iter().last().map(ad) { cx.fail(&["C03", "C26"], format!("front() or back() of node {id} is not an end of its children")) }
    }
    /// Looks at everything; in a sparse case only now and then, since looking makes and drops handles,
    /// which a fault may need not to have happened. Which values live is looked at every time.
    pub fn observe(&mut self, st: &[&'static str], cx: &mut Cx) -> R<()> {
        self.looks = self.looks.wrapping_mul(25).wrapping_add(7);
        let full = !self.sparse || self.looks >> 4 & 7 == 0 || if self.store == Store::AsIs { !self.pending.is_empty() } else { self.ns.len() != self.looked } || self.ns.iter().any(|n| n.uid == NO && n.org != NO);
        if !full {
            for t in st { if !self.since.contains(t) { self.since.push(t) } }
            cx.feat(F_SPARSE);
            return self.alive_check(st, cx);
        }
        self.looked = self.ns.len();
        let mut since = std::mem::take(&mut self.since);
        if since.is_empty() { return self.look(st, cx) }
        for t in st { if !since.contains(t) { since.push(t) } }
        self.look(&since, cx)
    }
    fn look(&mut self, st: &[&'static str], cx: &mut Cx) -> R<()> {
        let hs = std::mem::take(&mut self.hs);
        let mut seen = HashSet::new();
        for (h, id) in &hs { self.obs(h, *id, st, &mut seen, cx) }
        self.hs = hs;
        cx.bail()?;
        let ts = std::mem::take(&mut self.ts);
        for (t, id) in &ts { self.obs_x(t.root(), *id, None, st, cx) }
        self.ts = ts;
        cx.bail()?;
        for (w, n) in &self.ws {
            if self.in_tree(*n) && self.ns[*n].alive { continue } // unspecified while the tree is exclusively owned
            if let Err(m) = self.weak_ok(w, *n, cx) { cx.fail(if self.ns[*n].tree { &["C23", "C26"] } else { &["C23"] }, m) }
        }
        self.alive_check(st, cx)
    }
    fn alive_check(&mut self, st: &[&'static str], cx: &mut Cx) -> R<()> {
        if let Some(e) = tok::take_error() { cx.fail(&["C22", "C24", "C04", cx.id], e) }
        let mut alive = 0;
        for (i, n) in self.ns.iter().enumerate() {
            if n.uid == NO { continue }
            if n.alive {
                alive += 1;
                if !tok::is_alive(n.uid) { cx.fail(&["C22", "C04", st[0]], format!("the value of node {i} was dropped although the node is held")) }
            } else if !n.moved {
                let k = tok::drops_of(n.uid);
                if tok::is_alive(n.uid) { if !cx.leak_ok { cx.fail(&["C22", st[0]], format!("the value of node {i} is alive although nothing holds the node")) } }
                else if k != 1 { cx.fail(&["C22", "C24"], format!("the value of node {i} was dropped {k} times")) }
            }
        }
        if !cx.leak_ok && cx.fails.is_empty() && alive != tok::alive_count() { cx.fail(&["C22", "C24"], format!("{} values are alive, expected {alive}", tok::alive_count())) }
        cx.l(tok::drop_digest());
        let e = alloc::errors();
        if e != 0 { cx.fail(&["C24", "C05", cx.id], alloc::describe(e)) }
        self.blocks_check(cx);
        cx.bail()
    }
    fn weak_ok(&self, w: &WeakNode<Tok<L>>, n: Id, cx: &mut Cx) -> Result<(), String> {
        let x = &self.ns[n];
        if cx.leak_ok && x.moved { return Ok(()) } // the empty shell may have leaked
        match w.upgrade() {
            None => { cx.feat(F_WEAK_NONE); if x.alive { return Err(format!("a weak handle to the live node {n} finds nothing")) } }
            Some(h) => {
                cx.feat(F_WEAK_SOME);
                if !x.alive && cx.leak_ok { // leaked when a destructor panicked
                    if !h.data().ok() { std::mem::forget(h); return Err(format!("a weak handle finds node {n}, whose value was dropped")) }
                    drop(h);
                    return Ok(());
                }
                if !x.alive { std::mem::forget(h); return Err(format!("a weak handle finds node {n}, which is dead")) }
                if h.data().uid != x.uid { return Err(format!("a weak handle to node {n} finds another node")) }
                if x.addr != 0 && ad(&*unsafe { h.node() }) != x.addr { return Err(format!("a weak handle to node {n} finds another place")) }
            }
        }
        Ok(())
    }
    fn blocks_check(&mut self, cx: &mut Cx) {
        if alloc::live() == 0 { self.pending.clear(); return }
        for b in std::mem::take(&mut self.pending) {
            let mut a: Vec<usize> = self.ns.iter().filter(|n| n.alive && n.blk == b && n.addr != 0).map(|n| n.addr).collect();
            if a.is_empty() { continue }
            a.sort();
            let Some((start, size)) = alloc::block_of(a[0]) else { cx.fail(&["C33", "C24"], format!("node {:x} is in no allocated block", a[0])); continue };
            if a[a.len() - 1] >= start + size { cx.fail(&["C33"], "nodes built at once lie in different memory blocks".into()) }
            if a.len() > 2 { cx.feat(60) }
            self.blocks[b as usize] = start;
        }
        for b in 1..self.blocks.len() {
            let st = self.blocks[b];
            if st == 0 { continue }
            let used = self.ns.iter().any(|n| n.alive && n.blk == b as u32) || self.ws.iter().any(|w| self.ns[w.1].blk == b as u32);
            let live = alloc::is_live_block(st);
            if used && !live { cx.fail(&["C33", "C24"], "the block was released while it still holds nodes or is referred to by weak handles".into()); self.blocks[b] = 0 }
            if !used {
                // a running iterator may hold a dead-looking node only while it is in limbo, which counts as alive
                if live && !cx.leak_ok { cx.fail(&["C33", "C24"], "the block was not released although its last node and weak handle are gone".into()) }
                cx.feat(61);
                self.blocks[b] = 0;
            }
        }
    }

    // ---- operations ----
    pub fn exec(&mut self, o: &Op, cx: &mut Cx) -> R<()> {
        use op::*;
        let [code, a, b, c, d] = *o;
        let mut code = code % OPS.len() as u16;
        let cap = if cx.big { 600 } else { 60 };
        if self.total() > cap && matches!(code, NEW | PUSH_F | PUSH_B | PREP | APP | INS_P | INS_N | DCLONE | EXTEND | CHAIN) { code = DMANY }
        if self.hs.len() > 24 && matches!(code, CLONE | FRONT | BACK | PARENT | CHILD | UP) { code = DROP }
        if self.ws.len() > 16 && code == DOWN { code = WDROP }
        // which node an iterator holds is told by its value being alive, which a leak confuses
        if cx.frng.is_some() && matches!(code, IT_NEW | IT_CLONE | LOOP) { code = if a % 2 == 0 { DROP } else { EXTEND } }
        cx.feat(F0 + code as usize);
        cx.l(code as u64 + 1000);
        self.clones = tok::with(|r| r.clones);
        let st = tags_of(code);
        cx.t(|| format!("{:<16} {:?}", OPS[code as usize], [a, b, c, d]));
        let r = self.apply(code, a, b, c, d, cx);
        if r.is_ok() { self.settle(cx) }
        cx.t(|| format!("    => {}", self.show_all()));
        r?;
        cx.bail()?;
        self.observe(st, cx)
    }

    fn apply(&mut self, code: u16, a: u16, b: u16, c: u16, d: u16, cx: &mut Cx) -> R<()> {
        use op::*;
        match code {
            NEW => { let n = if cx.big && c % 5 == 0 { 200 + a as usize % 200 } else { 1 + a as usize % if cx.big { 30 } else { 9 } }; let (t, id) = self.build(n, b, c % 2 == 0, d); self.add(RcNode::from(t), id) }
            CHAIN => {
                let n = 5 + a as usize % if cx.big { 290 } else { 20 };
                let par: Vec<usize> = (0..n).map(|i: usize| i.saturating_sub(1)).collect();
                let piled = match self.store { Store::AsIs => b % 2 == 0, Store::Scattered => false, Store::Piled => true };
                let bk = if piled { self.new_blk() } else { 0 };
                let (ts, ids) = self.vals_of(&par, bk);
                let t = if piled { Tree::from(bfs_of(&par, ts)) } else { scattered(&par, ts, 0) };
                self.add(RcNode::from(t), ids[0]);
            }
            CLONE => {
                let i = self.pick(a);
                let (h, id) = (self.hs[i].0.clone(), self.hs[i].1);
                if b % if cx.big { 4 } else { 400 } == 0 {
                    // very many handles of both kinds for a while
                    let mut v: Vec<RcNode<Tok<L>>> = vec![];
                    let mut w: Vec<WeakNode<Tok<L>>> = vec![];
                    let mut r = Rng::new(c as u64);
                    for k in 0..260 + c % 100 { if k == 0 || r.chance([2, 2, 1, 0][b as usize / 4 % 4], 2) { v.push(h.clone()) } else { w.push(h.downgrade()) } if k % 8 == 7 { v.extend(w[r.below(w.len().max(1)) % w.len().max(1)..].first().and_then(|x| x.upgrade())) } }
                    for x in w.iter().take(3) { if x.upgrade().map(|h| h.data().uid) != Some(self.ns[id].uid) { cx.fail(&["C23"], "a weak handle loses its node".into()) } }
                    if v.iter().any(|x| x.data().uid != self.ns[id].uid) { cx.fail(&["C21"], "a cloned handle shows another value".into()) }
                    if d % 2 == 0 { drop(v); drop(w) } else { drop(w); drop(v) }
                }
                self.add(h, id)
            }
            DROP => { if !self.hs.is_empty() { let i = a as usize % self.hs.len(); let (h, id) = self.hs.swap_remove(i); shoot(cx, K_DROP, || drop(h)); self.ns[id].refs -= 1 } }
            DMANY => {
                let n = 1 + a as usize % (self.hs.len() + 1);
                for k in 0..n { if self.hs.is_empty() { break } let i = (b as usize).wrapping_add(k * 7) % self.hs.len(); let (h, id) = self.hs.swap_remove(i); shoot(cx, K_DROP, || drop(h)); self.ns[id].refs -= 1; self.settle(cx) }
                if c % 4 == 0 { for (t, id) in std::mem::take(&mut self.ts) { shoot(cx, K_DROP, || drop(t)); self.ns[id].refs -= 1 } }
            }
            FRONT | BACK | PARENT | CHILD => {
                let i = self.pick(a);
                let id = self.hs[i].1;
                let h = &self.hs[i].0;
                let n = &self.ns[id];
                let (got, exp) = match code {
                    FRONT => (h.front(), n.kids.first().cloned()),
                    BACK => (h.back(), n.kids.last().cloned()),
                    PARENT => (h.parent(), n.parent),
                    _ => { let k = b as usize % (n.kids.len() + 1); (h.iter_rc().nth(k), n.kids.get(k).cloned()) }
                };
                match (got, exp) {
                    (None, None) => {}
                    (Some(x), Some(id)) => self.add(x, id),
                    (g, e) => { cx.fail(&["C21", "C03"], format!("a relative of node {id} is {}, expected {e:?}", g.is_some())); return Err(Stop) }
                }
            }
            PUSH_F | PUSH_B => {
                let i = self.pick(a);
                let id = self.hs[i].1;
                let (t, k) = self.take_tree(b, NO as usize);
                let h = &self.hs[i].0;
                if code == PUSH_F { h.push_front(t); self.link(id, 0, k) } else { h.push_back(t); let at = self.ns[id].kids.len(); self.link(id, at, k) }
            }
            PREP | APP => {
                let i = self.pick(a);
                let id = self.hs[i].1;
                let (f, ks) = self.build_forest(b as usize % 6, c, d % 2 == 0);
                if ks.len() > 1 { cx.feat(62) }
                let h = &self.hs[i].0;
                if code == PREP { h.prepend(f); for (j, k) in ks.into_iter().enumerate() { self.link(id, j, k) } }
                else { h.append(f); for k in ks { let at = self.ns[id].kids.len(); self.link(id, at, k) } }
            }
            EXTEND => {
                let i = self.pick(a);
                let id = self.hs[i].1;
                let v: Vec<(Tree<Tok<L>>, Id)> = (0..b % 4).map(|j| self.build(1 + (c + j) as usize % 3, c + j, (d + j) % 2 == 0, j)).collect();
                let (ts, ks): (Vec<_>, Vec<_>) = v.into_iter().unzip();
                let n = ks.len();
                if cx.frng.is_none() && d % 3 == 0 {
                    // the caller's iterator looks at the node and edits its other end by another handle
                    let new = self.build(1 + b as usize % 3, b, c % 2 == 0, d);
                    let h2 = self.hs[i].0.clone();
                    let (old, at) = (self.ns[id].kids.clone(), c as usize % (n + 1));
                    let (uid, val) = (self.ns[id].uid, self.val());
                    let olds: Vec<u32> = old.iter().map(|k| self.ns[*k].uid).collect();
                    let mut new = Some(new);
                    let (mut pushed, mut popped, mut bad) = (None, None, None);
                    let mut given = 0;
                    let mut ts = ts.into_iter();
                    let h = &mut self.hs[i].0;
                    let it = std::iter::from_fn(|| {
                        let g = h2.degree();
                        if h2.data().uid != uid || g < olds.len() || g > olds.len() + given || h2.front().map(|x| x.data().uid) != olds.first().cloned().or(if g > 0 { h2.front().map(|x| x.data().uid) } else { None }) { if pushed.is_none() && popped.is_none() { bad = Some(g) } }
                        if given == at { match d / 3 % 4 {
                            0 => if let Some((t, k)) = new.take() { h2.push_front(t); pushed = Some(k) },
                            1 => if !olds.is_empty() { popped = h2.pop_front() },
                            2 => h2.data_mut().val = val,
                            _ => { let _ = h2.to_string(); let _ = h2 == h2.clone(); }
                        } }
                        given += 1;
                        ts.next()
                    });
                    // (the iterator is asked once more than it yields)
                    h.extend(it);
                    if let Some(g) = bad { cx.fail(&["C21", "C25"], format!("while node {id} with {} children is extended it shows a degree of {g} or other children or data", olds.len())) }
                    if given < n { cx.fail(&["C21"], format!("extend() took {given} of {n} trees")); return Err(Stop) }
                    if given > at && d / 3 % 4 == 2 { self.ns[id].val = val }
                    if let Some(k) = pushed { self.link(id, 0, k) }
                    if let Some(h) = popped { let k = old[0]; if h.data().uid != self.ns[k].uid { cx.fail(&["C21"], format!("pop_front() at node {id} gives another node")) ; return Err(Stop) } self.unlink(k); self.add(h, k) }
                    drop(h2);
                    if let Some((t, k)) = new { drop(t); for x in self.subtree(k) { let n = tok::drops_of(self.ns[x].uid); cx.check(n == 1, &["C24"], || format!("a value that was never inserted was dropped {n} times")); } }
                    for &k in &ks { let at = self.ns[id].kids.len(); self.link(id, at, k) }
                    cx.feat(F_EXT);
                    return Ok(())
                }
                let mut given = 0;
                let h = &mut self.hs[i].0;
                shoot(cx, K_USER, || h.extend(ts.into_iter().map(|t| { tok::tick(K_USER); given += 1; t })));
                // the trees given before a panic are in, the others are dropped
                let rest: Vec<Id> = ks[given..].to_vec();
                if given < n && !cx.leak_ok { cx.fail(&["C21"], format!("extend() took {given} of {n} trees")); return Err(Stop) }
                let ks = &ks[..given];
                for k in rest { for x in self.subtree(k) { let n = tok::drops_of(self.ns[x].uid); cx.check(n == 1, &["C29"], || format!("a value that was never inserted was dropped {n} times")); } }
                for &k in ks { let at = self.ns[id].kids.len(); self.link(id, at, k) }
            }
            INS_P | INS_N => {
                let Some(i) = self.pick_by(a, |w, id| w.ns[id].parent.is_some()) else { return Ok(()) };
                let id = self.hs[i].1;
                let (t, k) = self.take_tree(b, NO as usize);
                let h = &self.hs[i].0;
                if code == INS_P { h.insert_prev_sib(t) } else { h.insert_next_sib(t) }
                let p = self.ns[id].parent.unwrap();
                let j = self.ns[p].kids.iter().position(|x| *x == id).unwrap();
                self.link(p, if code == INS_P { j } else { j + 1 }, k);
            }
            DETACH => {
                let Some(i) = self.pick_by(a, |w, id| w.ns[id].parent.is_some()) else { return Ok(()) };
                let id = self.hs[i].1;
                self.hs[i].0.detach();
                self.unlink(id);
            }
            POP_F | POP_B => {
                let i = self.pick(a);
                let id = self.hs[i].1;
                let got = if code == POP_F { self.hs[i].0.pop_front() } else { self.hs[i].0.pop_back() };
                let exp = if code == POP_F { self.ns[id].kids.first() } else { self.ns[id].kids.last() }.cloned();
                match (got, exp) {
                    (None, None) => {}
                    (Some(h), Some(k)) => { self.unlink(k); if b % 4 == 0 { shoot(cx, K_DROP, || drop(h)); } else { self.add(h, k) } }
                    (g, e) => { cx.fail(&["C21"], format!("pop at node {id} gives {}, expected {e:?}", g.is_some())); return Err(Stop) }
                }
            }
            SET => {
                let i = self.pick(a);
                let id = self.hs[i].1;
                let v = self.val();
                if b % 2 == 0 { self.hs[i].0.data_mut().val = v; self.ns[id].val = v }
                else {
                    let t = Tok::new(v);
                    let old = self.ns[id].uid;
                    self.ns[id].uid = t.uid; self.ns[id].val = v; self.ns[id].org = NO;
                    let h = &self.hs[i].0;
                    shoot(cx, K_DROP, || *h.data_mut() = t);
                    cx.check(!tok::is_alive(old), &["C22", "C04"], || "the replaced value was not dropped".into());
                }
            }
            DOWN => { let i = self.pick(a); let id = self.hs[i].1; let w = self.hs[i].0.downgrade(); self.ws.push((w, id)) }
            UP => {
                if self.ws.is_empty() { return Ok(()) }
                let i = a as usize % self.ws.len();
                let id = self.ws[i].1;
                if self.ns[id].alive && self.in_tree(id) || cx.leak_ok && self.ns[id].moved { return Ok(()) }
                match self.ws[i].0.upgrade() {
                    Some(h) => { if !self.ns[id].alive && cx.leak_ok { drop(h); return Ok(()) } if !self.ns[id].alive { std::mem::forget(h); cx.fail(&["C23"], format!("a weak handle finds node {id}, which is dead")); return Err(Stop) } self.add(h, id) }
                    None => { cx.check(!self.ns[id].alive, &["C23"], || format!("a weak handle to the live node {id} finds nothing")); }
                }
            }
            WDROP => { if !self.ws.is_empty() { let i = a as usize % self.ws.len(); drop(self.ws.swap_remove(i)) } }
            IT_NEW => {
                if self.its.len() > 5 { return Ok(()) }
                let i = self.pick(a);
                let id = self.hs[i].1;
                if b % 3 == 0 {
                    let exp: Vec<u32> = self.ns[id].kids.iter().map(|k| self.ns[*k].uid).collect();
                    let mut r = Rng::new((c as u64) << 16 | d as u64);
                    if let Err(e) = script(self.hs[i].0.iter_rc(), &exp, true, &mut r, |h| h.data().uid) { cx.fail(&["C27", "C07"], format!("iter_rc: {e}")) }
                }
                let it = self.hs[i].0.iter_rc();
                let rem = self.ns[id].kids.clone();
                self.its.push(It { it, of: id, left: rem.len(), may: rem.clone(), rem, exact: true });
            }
            IT_STEP => { if !self.its.is_empty() { let i = a as usize % self.its.len(); for _ in 0..1 + b % 3 { self.it_step(i, c % 3 != 0, [0, 0, 0, 0, 0, 1, 1, 2, 3, 7][d as usize % 10], cx)?; self.settle(cx) } } }
            IT_DROP => { if !self.its.is_empty() { let i = a as usize % self.its.len(); let x = self.its.swap_remove(i); shoot(cx, K_DROP, || drop(x.it)); } }
            IT_CLONE => {
                if self.its.is_empty() || self.its.len() > 5 { return Ok(()) }
                let x = &self.its[a as usize % self.its.len()];
                let mut c = x.it.clone();
                if b % 3 == 0 { c = self.its[b as usize / 3 % self.its.len()].it.clone(); c.clone_from(&x.it) }
                let y = It { it: c, of: x.of, rem: x.rem.clone(), exact: x.exact, left: x.left, may: x.may.clone() };
                self.its.push(y);
            }
            LOOP => self.loop_edit(a, b, c, d, cx)?,
            INTO => {
                // allowed where no other handle or iterator refers to any node of the tree
                let Some(i) = self.pick_by(a, |w, id| w.sole(id)) else { return Ok(()) };
                let (h, id) = self.hs.swap_remove(i);
                let t = unsafe { h.into_tree() };
                cx.feat(F_ROUND);
                let mut todo = vec![id];
                while let Some(n) = todo.pop() { self.ns[n].tree = true; todo.extend(&self.ns[n].kids) }
                self.ts.push((t, id));
            }
            INTO_REF => {
                let Some(i) = self.pick_by(a, |w, id| w.ns[id].parent.is_some()) else { return Ok(()) };
                let h = if b % 2 == 0 { self.hs[i].0.clone() } else { let (h, id) = self.hs.swap_remove(i); self.ns[id].refs -= 1; h };
                let r = catch(move || unsafe { std::mem::forget(h.into_tree()) });
                cx.check(r.is_err(), &["C26"], || "a non-root handle was turned into a tree".into());
            }
            T2RC => { if !self.ts.is_empty() { let i = a as usize % self.ts.len(); let (t, id) = self.ts.swap_remove(i); self.hs.push((RcNode::from(t), id)); cx.feat(F_ROUND) } }
            REENTER => self.reenter(a, b, c, d, cx)?,
            DCLONE => {
                let i = self.pick(a);
                let id = self.hs[i].1;
                let bk = self.new_blk();
                let n = self.count(id) as u64;
                let Some(t) = shoot(cx, K_CLONE, || self.hs[i].0.deep_clone()) else { return Ok(()) };
                let k = tok::with(|r| r.clones) - self.clones;
                cx.check(k == n, &["C14"], || format!("{k} clones were made of {n} values"));
                let nid = self.clone_model(id, bk);
                self.ns[nid].refs += 1;
                self.ts.push((t, nid));
            }
            TDROP => { if !self.ts.is_empty() { let i = a as usize % self.ts.len(); let (t, id) = self.ts.swap_remove(i); shoot(cx, K_DROP, || drop(t)); self.ns[id].refs -= 1 } }
            TMOVE => {
                if self.ts.is_empty() { return Ok(()) }
                let i = a as usize % self.ts.len();
                let root = self.ts[i].1;
                let (k, kid) = self.take_tree(b, root);
                let i = self.ts.iter().position(|t| t.1 == root).unwrap();
                let t = &mut self.ts[i].0;
                match c % 3 {
                    0 => { t.push_back(k); let at = self.ns[root].kids.len(); self.link(root, at, kid) }
                    1 => { t.push_front(k); self.link(root, 0, kid) }
                    _ => {
                        // below the first child, if any
                        match t.front_mut() { Some(mut n) => { n.push_back(k); let p = self.ns[root].kids[0]; let at = self.ns[p].kids.len(); self.link(p, at, kid) }
                            None => { t.push_back(k); self.link(root, 0, kid) } }
                    }
                }
            }
            TPOP => {
                if self.ts.is_empty() { return Ok(()) }
                let i = a as usize % self.ts.len();
                let root = self.ts[i].1;
                if self.ns[root].kids.is_empty() { return Ok(()) }
                let t = &mut self.ts[i].0;
                let nk = self.ns[root].kids.len();
                let (got, k) = match b % 3 {
                    0 => (t.pop_front(), self.ns[root].kids[0]),
                    1 => (t.pop_back(), self.ns[root].kids[nk - 1]),
                    _ => { let j = c as usize % nk; (t.iter_mut().nth(j).map(|mut n| n.detach()), self.ns[root].kids[j]) }
                };
                let Some(got) = got else { cx.fail(&["C26", "C01"], "nothing popped".into()); return Err(Stop) };
                self.unlink(k);
                match d % 4 {
                    0 => { shoot(cx, K_DROP, || drop(got)); }
                    1 => self.add(RcNode::from(got), k),
                    _ => { self.ns[k].refs += 1; self.ts.push((got, k)) }
                }
            }
            TBFS => {
                if self.ts.is_empty() { return Ok(()) }
                let i = a as usize % self.ts.len();
                let (t, root) = self.ts.swap_remove(i);
                let bk = self.new_blk();
                let t = Tree::from(t.into_bfs());
                let nid = self.move_model(root, bk);
                self.ns[root].refs -= 1;
                self.ns[nid].refs += 1;
                self.ts.push((t, nid));
            }
            TABAN => {
                if self.ts.is_empty() { return Ok(()) }
                let i = a as usize % self.ts.len();
                let root = self.ts[i].1;
                let t = &mut self.ts[i].0;
                let f = t.abandon();
                // the root's value moves to a new node; the old one is gone once the forest is used up
                let x = self.ns[root].clone();
                let nid = self.node(x.uid, x.org, x.val, 0);
                self.ns[root].alive = false;
                self.ns[root].moved = true;
                self.ns[root].refs = 0;
                self.ns[nid].refs = 1;
                for k in std::mem::take(&mut self.ns[root].kids) { self.ns[k].parent = None; if b % 3 != 0 { let at = self.ns[nid].kids.len(); self.link(nid, at, k) } }
                self.ts[i].1 = nid;
                if b % 3 == 0 { shoot(cx, K_DROP, || drop(f)); } else { self.ts[i].0.append(f) }
            }
            REFUSE => {
                let Some(i) = self.pick_by(a, |w, id| w.ns[id].parent.is_none()) else { return Ok(()) };
                let (t, k) = self.build(1 + c as usize % 4, c, c % 2 == 0, d);
                let h = &self.hs[i].0;
                let refused = match b % 3 {
                    0 => { drop(t); catch(|| h.detach()).is_err() }
                    1 => catch(|| h.insert_prev_sib(t)).is_err(),
                    _ => catch(|| h.insert_next_sib(t)).is_err(),
                };
                if !refused { cx.fail(&["C28"], "a sibling operation on a root was not refused".into()); return Err(Stop) }
                for x in self.subtree(k) { let n = tok::drops_of(self.ns[x].uid); cx.check(n == 1, &["C28"], || format!("a value of the refused tree was dropped {n} times")); }
            }
            TEXT => {
                let i = self.pick(a);
                let id = self.hs[i].1;
                let Some(s) = shoot(cx, K_FMT, || format!("{}", self.hs[i].0)) else { return Ok(()) };
                let e = self.text(id);
                cx.check(s == e, &["C18", "C21"], || format!("the text of node {id} is {s:?}, expected {e:?}"));
                let j = self.pick(b);
                let jd = self.hs[j].1;
                let same = id == jd || self.same(id, jd);
                let Some(eq) = shoot(cx, K_CMP, || self.hs[i].0 == self.hs[j].0) else { return Ok(()) };
                cx.check(eq == same, &["C19", "C21"], || format!("nodes {id} and {jd} compare as {}", !same));
                cx.ls(&s);
            }
            BORROW => self.borrow(a, b, c, d, cx)?,
            _ => {}
        }
        Ok(())
    }

    fn pick_by(&mut self, sel: u16, f: impl Fn(&Self, Id) -> bool) -> Option<usize> {
        self.ensure(sel);
        let c: Vec<usize> = (0..self.hs.len()).filter(|&i| f(self, self.hs[i].1)).collect();
        if c.is_empty() { None } else { Some(c[sel as usize % c.len()]) }
    }
    /// May the (root) node be turned into a tree?
    fn sole(&self, id: Id) -> bool {
        if self.ns[id].parent.is_some() { return false }
        let sub = self.subtree(id);
        let refs: usize = sub.iter().map(|n| self.ns[*n].refs).sum();
        refs == 1 && sub.iter().all(|n| !self.held_by_iter(*n))
    }
    fn clone_model(&mut self, id: Id, bk: u32) -> Id {
        let x = self.ns[id].clone();
        let n = self.node(NO, x.uid, x.val, bk);
        for k in x.kids { let c = self.clone_model(k, bk); let at = self.ns[n].kids.len(); self.link(n, at, c) }
        n
    }
    /// The values move into new nodes; the old nodes are gone.
    fn move_model(&mut self, id: Id, bk: u32) -> Id {
        let x = self.ns[id].clone();
        let n = self.node(x.uid, x.org, x.val, bk);
        self.ns[id].alive = false;
        self.ns[id].moved = true;
        self.ns[id].kids.clear();
        self.ns[id].parent = None;
        for k in x.kids { let c = self.move_model(k, bk); let at = self.ns[n].kids.len(); self.link(n, at, c) }
        n
    }
    fn text(&self, id: Id) -> String {
        let x = &self.ns[id];
        if x.kids.is_empty() { format!("v{}", x.val) } else { format!("v{}( {} )", x.val, x.kids.iter().map(|&k| self.text(k)).collect::<Vec<_>>().join(" ")) }
    }
    fn same(&self, a: Id, b: Id) -> bool {
        let (x, y) = (&self.ns[a], &self.ns[b]);
        x.val == y.val && x.kids.len() == y.kids.len() && x.kids.iter().zip(&y.kids).all(|(a, b)| self.same(*a, *b))
    }

    fn it_step(&mut self, i: usize, keep: bool, skip: usize, cx: &mut Cx) -> R<()> {
        let of = self.its[i].of;
        // what the rest must look like for the exact guarantee
        let kids = self.ns[of].kids.clone();
        let rem = self.its[i].rem.clone();
        if self.its[i].exact && !rem.is_empty() {
            let p = kids.iter().position(|k| *k == rem[0]);
            let run = p.map_or(false, |p| kids.len() >= p + rem.len() && kids[p..p + rem.len()] == rem[..]);
            if !run || !self.ns[of].alive { self.its[i].exact = false }
        }
        let x = &mut self.its[i];
        let exact = x.exact;
        if exact { let h = x.it.size_hint(); if h != (rem.len(), Some(rem.len())) { cx.fail(&["C07", "C27"], format!("iter_rc: size_hint() is {h:?} with {} children left", rem.len())) } }
        let skip = if exact { skip } else { 0 };
        let got = if skip > 0 { x.it.nth(skip) } else { x.it.next() };
        let mut rem = rem;
        rem.drain(..skip.min(rem.len()));
        x.rem.drain(..skip.min(x.rem.len()));
        x.left -= skip.min(x.left);
        match got {
            None => {
                if exact { cx.feat(F_IT_EXACT); cx.check(rem.is_empty(), &["C27", "C08", "C07"], || format!("iter_rc ended with {} undisturbed children left", rem.len())); }
                else { cx.feat(F_IT_DIST) }
                x.rem.clear();
            }
            Some(h) => {
                if x.left == 0 { cx.fail(&["C27", "C07"], "iter_rc yields more nodes than there were children at the start".into()); return Err(Stop) }
                x.left -= 1;
                let u = h.data().uid;
                let ok = h.data().ok();
                if !ok { cx.fail(&["C27", "C22", "C24"], "iter_rc yields a dead node".into()); std::mem::forget(h); return Err(Stop) }
                let Some(n) = (0..self.ns.len()).find(|n| self.ns[*n].uid == u && !self.ns[*n].moved) else { cx.fail(&["C27"], "iter_rc yields an unknown node".into()); return Err(Stop) };
                let x = &mut self.its[i];
                if exact {
                    cx.feat(F_IT_EXACT);
                    if rem.first() != Some(&n) { cx.fail(&["C27", "C08", "C07"], format!("iter_rc yields node {n}, expected {:?}", rem.first())); return Err(Stop) }
                    x.rem.remove(0);
                } else { cx.feat(F_IT_DIST); x.rem.retain(|r| *r != n) }
                if !self.ns[n].alive { cx.fail(&["C27", "C22"], format!("iter_rc yields node {n}, which is dead")); return Err(Stop) }
                if !self.ns[of].ever.contains(&n) { cx.fail(&["C27"], format!("iter_rc over the children of node {of} yields node {n}, which never was one")); return Err(Stop) }
                cx.l(u as u64);
                if keep { self.add(h, n) } else { drop(h) }
                let all = self.ns[of].ever.clone();
                self.its[i].may = all; // what it may hold next
            }
        }
        Ok(())
    }

    /// `for child in handle.iter_rc() { edit around the child }`
    fn loop_edit(&mut self, a: u16, b: u16, c: u16, d: u16, cx: &mut Cx) -> R<()> {
        let i = self.pick(a);
        let of = self.hs[i].1;
        let orig = self.ns[of].kids.clone();
        let mut r = Rng::new((b as u64) << 20 | c as u64);
        // another handle, or the only one
        let hp = if r.chance(1, 3) { self.hs.swap_remove(i).0 } else { self.ns[of].refs += 1; self.hs[i].0.clone() };
        let it = hp.iter_rc();
        let mut seen = vec![];
        let dropped_parent = d % 5 == 0;
        let mut hp = Some(hp);
        let mut body = |w: &mut Self, cx: &mut Cx, ch: RcNode<Tok<L>>| -> bool {
            let u = ch.data().uid;
            seen.push(u);
            if seen.len() > orig.len() { return false }
            let id = orig[seen.len() - 1];
            if w.ns[id].uid != u { return false }
            let pos = |w: &Self| w.ns[of].kids.iter().position(|k| *k == id).unwrap();
            match r.below(9) {
                0 => { let (t, k) = w.build(1 + r.below(3), b, r.chance(1, 2), c); ch.insert_prev_sib(t); let p = pos(w); w.link(of, p, k); cx.feat(66) }
                1 => { let (t, k) = w.build(1 + r.below(3), b, r.chance(1, 2), c); ch.insert_next_sib(t); let p = pos(w); w.link(of, p + 1, k); cx.feat(66) }
                2 => { ch.detach(); w.unlink(id); cx.feat(66) }
                3 => { ch.detach(); w.unlink(id); w.add(ch, id); cx.feat(66); return true }
                4 => { let (t, k) = w.build(1 + r.below(3), b, r.chance(1, 2), c); ch.push_back(t); let at = w.ns[id].kids.len(); w.link(id, at, k); cx.feat(66) }
                5 => { let v = w.val(); ch.data_mut().val = v; w.ns[id].val = v }
                6 => { w.add(ch, id); return true }
                7 => { let (t, k) = w.build(1, b, r.chance(1, 2), c); ch.insert_prev_sib(t); let p = pos(w); w.link(of, p, k); ch.detach(); w.unlink(id); cx.feat(66) }
                _ => {}
            }
            drop(ch);
            if dropped_parent && seen.len() == 1 { if let Some(h) = hp.take() { if r.chance(1, 2) { drop(h); w.ns[of].refs -= 1 } else { hp = Some(h) } } }
            w.settle_keep(of, cx);
            w.ns[of].alive
        };
        // a loop, or the iterator's own one
        if d % 7 == 3 { let mut on = true; it.for_each(|ch| if on { on = body(self, cx, ch) }) }
        else { let mut it = it; while let Some(ch) = it.next() { if !body(self, cx, ch) { break } } }
        let alive = self.ns[of].alive;
        if alive {
            let exp: Vec<u32> = orig.iter().map(|k| self.ns[*k].uid).collect();
            cx.check(seen == exp, &["C08", "C27", "C07"], || format!("the loop over the children of node {of} visited values {seen:?}, expected {exp:?}"));
        }
        if let Some(h) = hp { drop(h); self.ns[of].refs -= 1 }
        Ok(())
    }
    /// As `settle`, but what the loop's iterator may hold stays.
    fn settle_keep(&mut self, of: Id, cx: &mut Cx) {
        for &k in &self.ns[of].ever.clone() { if self.ns[k].parent.is_none() && self.ns[k].refs == 0 && self.ns[k].alive && tok::is_alive(self.ns[k].uid) { self.ns[k].limbo = true } }
        loop {
            let mut again = false;
            for n in 0..self.ns.len() {
                let x = &self.ns[n];
                if x.alive && x.refs == 0 && x.parent.is_none() && !(self.held_by_iter(n) && tok::is_alive(x.uid)) && !((self.ns[of].ever.contains(&n) || n == of) && tok::is_alive(x.uid)) { self.kill(n, cx); again = true }
            }
            if !again { break }
        }
    }

    /// Holds a borrow of a node's data and tries accesses through other handles.
    /// Takes and releases data borrows of several nodes, with accesses and edits through all handles in between.
    fn borrow(&mut self, a: u16, b: u16, c: u16, d: u16, cx: &mut Cx) -> R<()> {
        self.pick(a);
        let mut held: Vec<Held<L>> = vec![];
        let res = self.borrow_steps(&mut held, a, b, c, d, cx);
        if res.is_err() { return res } // what is held leaks
        let mut seen: Vec<Id> = held.iter().map(|h| h.id).collect();
        seen.sort(); seen.dedup();
        while let Some(h) = held.pop() { self.release(h, cx) }
        // and now all works again
        for x in seen {
            let Some(j) = (0..self.hs.len()).find(|j| self.hs[*j].1 == x) else { continue };
            let v = self.val();
            self.hs[j].0.data_mut().val = v;
            self.ns[x].val = v;
        }
        Ok(())
    }
    fn release(&mut self, h: Held<L>, cx: &mut Cx) {
        let Held { id, g, h, own, .. } = h;
        drop(ManuallyDrop::into_inner(g));
        let h = ManuallyDrop::into_inner(h);
        if own { self.hs.push((*h, id)); return }
        drop(h);
        self.ns[id].refs -= 1;
        self.settle(cx);
    }
    /// Borrows the data of node `hs[j]`, if the library lets it.
    /// With `own` by that very handle, which may be the only one; else by another.
    fn hold(&mut self, held: &mut Vec<Held<L>>, j: usize, excl: bool, own: bool, cx: &mut Cx) -> R<()> {
        let y = self.hs[j].1;
        let conflict = held.iter().any(|h| h.id == y && (excl || h.excl));
        let h = Box::new(if own { self.hs.swap_remove(j).0 } else { self.hs[j].0.clone() });
        let s: &'static RcNode<Tok<L>> = unsafe { &*(&*h as *const _) };
        match catch(|| if excl { G::M(s.data_mut()) } else { G::S(s.data()) }) {
            Ok(g) => {
                if conflict { std::mem::forget((g, h)); cx.fail(&["C25"], format!("data{}() at node {y} succeeds while it is borrowed", if excl { "_mut" } else { "" })); return Err(Stop) }
                if g.uid() != self.ns[y].uid { std::mem::forget((g, h)); cx.fail(&["C25", "C21"], format!("a borrow of node {y} shows another value")); return Err(Stop) }
                if !own { self.ns[y].refs += 1 }
                held.push(Held { id: y, excl, own, g: ManuallyDrop::new(g), h: ManuallyDrop::new(h) });
                if held.len() > 1 { cx.feat(F_NOCONFLICT) }
            }
            Err(_) => {
                if !conflict { cx.fail(&["C25"], format!("data{}() at node {y} panics although no conflicting borrow of it is held", if excl { "_mut" } else { "" })); return Err(Stop) }
                cx.feat(F_CONFLICT);
                if own { self.hs.push((*h, y)) }
            }
        }
        cx.l(conflict as u64);
        Ok(())
    }
    fn borrow_steps(&mut self, held: &mut Vec<Held<L>>, a: u16, b: u16, c: u16, d: u16, cx: &mut Cx) -> R<()> {
        let mut r = Rng::new((c as u64) << 16 | d as u64);
        let own = r.chance(1, 2);
        self.hold(held, a as usize % self.hs.len(), b % 2 == 0, own, cx)?;
        let most = [1, 2, 4, 8, 16][b as usize / 8 % 5];
        for _ in 0..1 + r.below(most) {
            if held.is_empty() { break }
            let act = r.below(34);
            // the handle to use: one of those in store, or one whose borrow is held
            let via = if self.hs.is_empty() || !matches!(act, 26..=29) && r.chance(1, 3) { Some(r.below(held.len())) } else { None };
            if via.is_some() && matches!(act, 26 | 27 | 29) { continue }
            let i = (0..self.hs.len()).find(|i| self.hs[*i].1 == held[0].id);
            let j = if r.chance(1, 2) || self.hs.is_empty() { i.unwrap_or(0) } else { r.below(self.hs.len()) };
            let y = match via { Some(k) => held[k].id, None => self.hs[j].1 };
            match act {
                26 | 27 => { let e = r.chance(1, 2); let own = r.chance(1, 3); self.hold(held, j, e, own, cx)?; continue }
                28 => { let k = r.below(held.len()); let h = held.swap_remove(k); self.release(h, cx); continue }
                29 => { // a handle goes, and perhaps parents of borrowed nodes with it
                    let (h, id) = self.hs.swap_remove(j);
                    let k = r.below(4);
                    let ok = if k == 0 { let w = h.downgrade(); self.ws.push((w, id)); catch(|| drop(h)).is_ok() } else { catch(|| drop(h)).is_ok() };
                    self.ns[id].refs -= 1;
                    self.settle(cx);
                    if !ok { cx.fail(&["C25", "C22"], format!("dropping a handle to node {id} panics while other nodes are borrowed")); return Err(Stop) }
                    continue;
                }
                _ => {}
            }
            let any = held.iter().any(|h| h.id == y);
            let excl = held.iter().any(|h| h.id == y && h.excl);
            // does the attempt conflict?
            let writes = matches!(act, 0..=8 | 20..=22);
            let sub = self.subtree(y);
            let deep = held.iter().any(|h| h.excl && sub.contains(&h.id));
            let root = self.ns[y].parent.is_none();
            let sib = matches!(act, 5..=7);
            let conflict = match act { 18 => false, 19 | 25 | 30..=33 => deep, _ => excl || writes && any };
            let (t, k) = self.build(1 + r.below(2), c, r.chance(1, 2), d);
            let kids = self.subtree(k);
            let (f, fk) = self.build_forest(if matches!(act, 4 | 20) && r.chance(3, 4) { 1 + r.below(4) } else { 0 }, r.next() as u16, r.chance(1, 2));
            let fkids: Vec<Id> = fk.iter().flat_map(|k| self.subtree(*k)).collect();
            let (t2, k2) = self.build(1, c, r.chance(1, 2), d);
            let mut f = Some(f);
            let mut t = Some(t);
            let mut t2 = Some(t2);
            let h2: *mut RcNode<Tok<L>> = match via { Some(k) => &mut **held[k].h, None => &mut self.hs[j].0 };
            let mut other = if r.chance(1, 3) { Some(unsafe { (*h2).clone() }) } else { None };
            let h2 = match &mut other { Some(h) => h, None => unsafe { &mut *h2 } };
            let mut got = None;
            let mut many = vec![];
            let mut text = String::new();
            let mut num = 0;
            let nv = self.vals + 1;
            // edits that have nothing to do may or may not look at the node first
            let idle = match act { 2 | 3 => self.ns[y].kids.is_empty(), 4 | 20 => fk.is_empty(), _ => false } && !excl;
            let what = ["push_front", "push_back", "pop_front", "pop_back", "append", "insert_prev_sib", "insert_next_sib", "detach", "data_mut", "data", "degree", "node_count", "is_root", "has_no_child", "front", "back", "parent", "iter_rc", "upgrade", "to_string", "prepend", "extend", "node_mut", "node", "iter_rc", "==", "", "", "", "", "deep_clone", "hash", "format!({:?})", "partial_cmp"][act];
            let ok = catch(|| match act {
                0 => h2.push_front(t.take().unwrap()),
                1 => h2.push_back(t.take().unwrap()),
                2 => got = h2.pop_front(),
                3 => got = h2.pop_back(),
                4 => h2.append(f.take().unwrap()),
                5 => h2.insert_prev_sib(t.take().unwrap()),
                6 => h2.insert_next_sib(t.take().unwrap()),
                7 => h2.detach(),
                8 => h2.data_mut().val = nv,
                9 => num = h2.data().uid as usize,
                10 => num = h2.degree(),
                11 => num = h2.node_count(),
                12 => num = h2.is_root() as usize,
                13 => num = h2.has_no_child() as usize,
                14 => got = h2.front(),
                15 => got = h2.back(),
                16 => got = h2.parent(),
                17 => got = h2.iter_rc().next(),
                18 => { let w = h2.downgrade(); got = w.upgrade() }
                19 => text = h2.to_string(),
                20 => h2.prepend(f.take().unwrap()),
                21 => h2.extend([t.take().unwrap(), t2.take().unwrap()]),
                22 => unsafe { h2.node_mut().data_mut().val = nv },
                23 => unsafe { num = h2.node().degree() },
                24 => many.extend(h2.iter_rc()),
                30 => text = h2.deep_clone().to_string(),
                31 => { use std::hash::{Hash, Hasher}; let mut z = std::collections::hash_map::DefaultHasher::new(); h2.hash(&mut z); num = z.finish() as usize | 1 }
                32 => num = format!("{h2:?}").len(),
                33 => num = ((*h2).partial_cmp(&h2.clone()) == Some(std::cmp::Ordering::Equal)) as usize,
                _ => num = (*h2 == h2.clone()) as usize,
            }).is_ok();
            drop(other);
            cx.l(ok as u64);
            let expect = !(conflict || sib && root); // sibling operations on a root are refused anyway
            if ok != expect && !(idle && conflict) {
                std::mem::forget((got, many));
                let held: Vec<String> = held.iter().map(|h| format!("{}{}", h.id, if h.excl { " mutably" } else { "" })).collect();
                cx.fail(&["C25"], format!("{what} at node {y} {} while these nodes are borrowed: {}", if ok { "succeeds" } else { "panics" }, held.join(", ")));
                return Err(Stop);
            }
            if conflict { cx.feat(F_CONFLICT) } else { cx.feat(F_NOCONFLICT) }
            if ok {
                let n = self.ns[y].clone();
                match act {
                    0 => self.link(y, 0, k),
                    1 => self.link(y, n.kids.len(), k),
                    2 | 3 => { let e = if act == 2 { n.kids.first() } else { n.kids.last() }; match (got.take(), e) { (Some(h), Some(&e)) => { self.unlink(e); self.add(h, e) } (None, None) => {} _ => { cx.fail(&["C25", "C21"], "a wrong pop".into()); return Err(Stop) } } }
                    4 => for (j, z) in fk.iter().enumerate() { self.link(y, n.kids.len() + j, *z) },
                    20 => for (j, z) in fk.iter().enumerate() { self.link(y, j, *z) },
                    21 => { self.link(y, n.kids.len(), k); self.link(y, n.kids.len() + 1, k2) }
                    5 | 6 => { let p = n.parent.unwrap(); let q = self.ns[p].kids.iter().position(|z| *z == y).unwrap(); self.link(p, q + (act - 5), k) }
                    7 => self.unlink(y),
                    8 | 22 => { self.vals += 1; self.ns[y].val = nv }
                    9 => { cx.check(num == n.uid as usize, &["C25", "C21"], || "wrong data".into()); }
                    10 | 23 => { cx.check(num == n.kids.len(), &["C25", "C21"], || "wrong degree".into()); }
                    11 => { let e = self.count(y); cx.check(num == e, &["C25", "C21"], || "wrong node count".into()); }
                    12 => { cx.check((num == 1) == n.parent.is_none(), &["C25", "C21"], || "wrong is_root".into()); }
                    13 => { cx.check((num == 1) == n.kids.is_empty(), &["C25", "C21"], || "wrong has_no_child".into()); }
                    14..=18 => {
                        let e = match act { 14 | 17 => n.kids.first().cloned(), 15 => n.kids.last().cloned(), 16 => n.parent, _ => Some(y) };
                        match (got.take(), e) { (Some(h), Some(e)) => self.add(h, e), (None, None) => {} _ => { cx.fail(if act == 18 { &["C23", "C25"] } else { &["C25", "C21"] }, format!("{what} at node {y} gives a wrong result while nodes are borrowed")); return Err(Stop) } }
                    }
                    19 | 30 => { let e = self.text(y); cx.check(text == e, &["C25", "C18"], || format!("wrong text {text:?}")); }
                    24 => {
                        if many.len() != n.kids.len() { std::mem::forget(many); cx.fail(&["C25", "C07"], "wrong children".into()); return Err(Stop) }
                        for (h, k) in many.drain(..).zip(n.kids) { if self.hs.len() < 20 && r.chance(1, 2) { self.add(h, k) } }
                    }
                    25 | 33 => { cx.check(num == 1, &["C25", "C19"], || "a node differs from itself".into()); }
                    _ => {}
                }
            } else {
                drop(got);
                // a refused edit drops what it was offered
                let gone: &[Id] = match act { 0 | 1 | 5 | 6 | 21 => &kids, 4 | 20 => &fkids, _ => &[] };
                for z in gone { let n = tok::drops_of(self.ns[*z].uid); cx.check(n == 1, &["C25"], || format!("a value offered to a refused edit was dropped {n} times")); }
            }
            drop(many);
            drop(t);
            drop(t2);
            drop(f);
            self.settle(cx);
            for (w, n) in &self.ws {
                if self.in_tree(*n) && self.ns[*n].alive || cx.leak_ok { continue }
                let h = w.upgrade();
                let ok = h.is_some() == self.ns[*n].alive;
                if ok { drop(h) } else { std::mem::forget(h); cx.fail(&["C23"], format!("a weak handle to node {n} (alive: {}) finds {} while data is borrowed", self.ns[*n].alive, if self.ns[*n].alive { "nothing" } else { "it" })); return Err(Stop) }
            }
            cx.bail()?;
        }
        Ok(())
    }
}
enum G<L: Lay> { S(std::cell::Ref<'static, Tok<L>>), M(std::cell::RefMut<'static, Tok<L>>) }
impl<L: Lay> G<L> { fn uid(&self) -> u32 { match self { G::S(x) => x.uid, G::M(x) => x.uid } } }
/// A data borrow; it refers into the handle, which must go last.
struct Held<L: Lay> { id: Id, excl: bool, own: bool, g: ManuallyDrop<G<L>>, h: ManuallyDrop<Box<RcNode<Tok<L>>>> }

/// Drops all that is left, in an order the case chooses.
pub fn finish<L: Lay>(w: &mut World<L>, order: u16, cx: &mut Cx) -> R<()> {
    let mut k = order as usize;
    loop {
        let n = [w.hs.len(), w.ts.len(), w.its.len(), w.ws.len()];
        let total: usize = n.iter().sum();
        if total == 0 { break }
        let mut j = k % total;
        k = k / 3 + 11;
        if j < n[0] { let (h, id) = w.hs.swap_remove(j); shoot(cx, K_DROP, || drop(h)); w.ns[id].refs -= 1 }
        else { j -= n[0]; if j < n[1] { let (t, id) = w.ts.swap_remove(j); shoot(cx, K_DROP, || drop(t)); w.ns[id].refs -= 1 }
        else { j -= n[1]; if j < n[2] { let x = w.its.swap_remove(j); shoot(cx, K_DROP, || drop(x)); } else { drop(w.ws.swap_remove(j - n[2])) } } }
        w.settle(cx);
        w.observe(&["C22", "C24"], cx)?;
    }
    cx.bail()
}

pub fn run<L: Lay>(case: &Case, store: Store, cx: &mut Cx) -> R<()> {
    let mut w = std::mem::ManuallyDrop::new(World::<L>::new(store));
    cx.big = case.params[1] % 16 == 15;
    w.sparse = case.params[2] & 0x30 == 0x30;
    w.looks = case.params[2] as u32;
    for (i, o) in case.ops.iter().enumerate() {
        cx.step = i;
        w.exec(o, cx)?;
    }
    cx.step = case.ops.len();
    finish(&mut w, case.params[2], cx)?;
    drop(std::mem::ManuallyDrop::into_inner(w));
    Ok(())
}
