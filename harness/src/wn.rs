//! Reentrancy: user code (destructors, clone, comparison, formatting, hashing, a caller's iterator) that is run by an
//! operation and itself uses handles to the trees the operation is working on.
//! Oracle: the structure stays consistent, values live exactly as long as a handle or a live parent holds their nodes,
//! memory is not misused (allocator), nothing but a refused borrow panics, and both storage kinds behave alike.
use crate::alloc;
use crate::tok::{self, Lay, Tok, K_CLONE, K_CMP, K_DROP, K_FMT, K_HASH, K_USER};
use crate::util::*;
use crate::wa::Store;
use crate::wr::World;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use trees::iter_rc::IterRc;
use trees::rc::WeakNode;
use trees::{RcNode, Tree};

pub const F_FIRED: usize = 160;  // user code ran and used the trees
pub const F_EDITED: usize = 161; // and changed them
pub const F_KEPT: usize = 162;   // and kept a handle it obtained

pub const F_LEAKED: usize = 163; // a data borrow was never given back

struct Bag<L: Lay> {
    hs: Vec<RcNode<Tok<L>>>,
    ws: Vec<WeakNode<Tok<L>>>,
    its: Vec<IterRc<Tok<L>>>,
    r: Rng,
    left: u32,
    log: Vec<u64>,
    errs: Vec<String>,
    feats: [u32; 3],
    piled: Option<bool>,
    trace: Vec<String>,
    traced: bool,
}
const NAMES: &[&str] = &["upgrade", "upgrade_drop", "clone", "drop", "detach", "pop", "push", "insert_sib", "parent", "child", "iter", "read", "text", "deep_clone", "set", "compare", "sizes", "downgrade", "up_detach", "up_parent_drop"];

impl<L: Lay> Bag<L> {
    fn tree(&mut self) -> Tree<Tok<L>> {
        let v = 7000 + self.log.len() as i32;
        let (a, b) = (self.r.chance(1, 2), self.r.chance(1, 2));
        let mut t = Tree::new(Tok::new(v));
        if b { t.push_back(Tree::new(Tok::new(v + 1))); t.push_back(Tree::new(Tok::new(v + 2))) }
        if self.piled.unwrap_or(a) { Tree::from(t.into_bfs()) } else { t }
    }
    fn act(&mut self) {
        let k = self.r.below(NAMES.len());
        let (nh, nw) = (self.hs.len(), self.ws.len());
        let i = self.r.below(nh);
        let j = self.r.below(nw);
        if self.traced { self.trace.push(NAMES[k].to_string()) }
        let res = catch(|| -> u64 {
            let keep = self.r.chance(1, 2);
            match k {
                0 | 1 | 18 | 19 if nw > 0 => match self.ws[j].upgrade() {
                    None => 1,
                    Some(h) => {
                        let v = h.data().val as u64;
                        if !h.data().ok() { self.errs.push("an upgraded handle shows a dead value".into()) }
                        match k {
                            0 => { self.hs.push(h); self.feats[2] += 1 }
                            18 => if !h.is_root() { h.detach(); self.feats[1] += 1 },
                            19 => { let p = h.parent(); drop(h); drop(p) }
                            _ => drop(h),
                        }
                        v
                    }
                },
                _ if nh == 0 => 2,
                2 => { let h = self.hs[i].clone(); self.hs.push(h); 3 }
                3 => { let h = self.hs.swap_remove(i); self.feats[1] += 1; drop(h); 4 }
                4 => { if self.hs[i].is_root() { return 5 } self.hs[i].detach(); self.feats[1] += 1; 6 }
                5 => {
                    let h = if keep { self.hs[i].pop_front() } else { self.hs[i].pop_back() };
                    self.feats[1] += 1;
                    match h { None => 7, Some(h) => { let v = h.data().val as u64; if self.r.chance(1, 2) { self.hs.push(h) } else { drop(h) } v } }
                }
                6 => { let t = self.tree(); self.feats[1] += 1; if keep { self.hs[i].push_front(t) } else { self.hs[i].push_back(t) } 8 }
                7 => { if self.hs[i].is_root() { return 9 } let t = self.tree(); self.feats[1] += 1; if keep { self.hs[i].insert_prev_sib(t) } else { self.hs[i].insert_next_sib(t) } 10 }
                8 => match self.hs[i].parent() { None => 11, Some(p) => { let v = p.data().val as u64; if keep { self.hs.push(p); self.feats[2] += 1 } v } },
                9 => match if keep { self.hs[i].front() } else { self.hs[i].back() } { None => 12, Some(p) => { let v = p.data().val as u64; if self.r.chance(1, 2) { self.hs.push(p); self.feats[2] += 1 } v } },
                10 => { let mut it = self.hs[i].iter_rc(); if keep { drop(it.next()) } if self.r.chance(1, 2) { self.its.push(it) } 13 }
                11 => { let d = self.hs[i].data(); if !d.ok() { self.errs.push("a handle shows a dead value".into()) } d.val as u64 }
                12 => { let s = self.hs[i].to_string(); s.len() as u64 }
                13 => { let t = self.hs[i].deep_clone(); t.node_count() as u64 }
                14 => { let v = 9000 + self.log.len() as i32; if keep { self.hs[i].data_mut().val = v } else { *self.hs[i].data_mut() = Tok::new(v) } 14 }
                15 => { let h = self.r.below(nh); (self.hs[i] == self.hs[h]) as u64 }
                16 => self.hs[i].degree() as u64 | (self.hs[i].node_count() as u64) << 16 | (self.hs[i].is_root() as u64) << 40,
                17 => { let w = self.hs[i].downgrade(); self.ws.push(w); 15 }
                _ => 16,
            }
        });
        let v = match res {
            Ok(v) => v,
            Err(_) => {
                let m = last_panic();
                if !m.contains("borrowed") { self.errs.push(format!("{} panicked when called from user code: {m}", NAMES[k])) }
                77
            }
        };
        self.log.push(v << 8 | k as u64);
        if self.traced { self.trace.push(format!("    -> {v}")) }
    }
}

/// The nodes below `h` (their values), after checking that all links and counts agree.
fn walk<L: Lay>(h: &RcNode<Tok<L>>, depth: usize, vals: &mut HashMap<u32, usize>, errs: &mut Vec<String>) -> usize {
    if depth > 2000 || !errs.is_empty() { return 0 }
    let uid;
    {
        let d = h.data();
        if !d.ok() { errs.push(format!("a handle shows a dead value (uid {})", d.uid)); return 0 }
        uid = d.uid;
    }
    if vals.insert(uid, 1).is_some() { errs.push(format!("value {uid} is reached twice")); return 0 }
    let mut n = 1;
    let mut deg = 0;
    let (mut f, mut b) = (None, None);
    for c in h.iter_rc() {
        let u = c.data().uid;
        if deg == 0 { f = Some(u) }
        b = Some(u);
        deg += 1;
        if deg > 5000 { errs.push("endless children".into()); return 0 }
        match c.parent() { Some(p) => if p.data().uid != uid { errs.push(format!("the parent of {u} is {}, which is not the node it is a child of ({uid})", p.data().uid)) }, None => errs.push(format!("child {u} of {uid} reports no parent")) }
        n += walk(&c, depth + 1, vals, errs);
    }
    if h.degree() != deg || h.node_count() != n { if errs.is_empty() { errs.push(format!("degree() and node_count() of {uid} are {} and {}, it has {deg} children and {n} nodes", h.degree(), h.node_count())) } }
    if h.front().map(|x| x.data().uid) != f || h.back().map(|x| x.data().uid) != b { errs.push(format!("front() or back() of {uid} is not an end of its children")) }
    n
}

impl<L: Lay> World<L> {
    pub fn reenter(&mut self, a: u16, b: u16, c: u16, d: u16, cx: &mut Cx) -> R<()> {
        if self.hs.is_empty() { return Ok(()) }
        if cx.frng.is_some() || cx.leak_ok { return Ok(()) }
        let mut r = Rng::new((a as u64) << 48 | (b as u64) << 32 | (c as u64) << 16 | d as u64);
        let outer = a as usize % 15;
        if outer != 10 { self.its.clear(); self.settle(cx) }
        let mut bag = Bag { hs: vec![], ws: vec![], its: vec![], r: Rng::new(d as u64 * 77 + b as u64), left: 1 + r.below(3) as u32, log: vec![], errs: vec![], feats: [0; 3], piled: match self.store { Store::AsIs => None, Store::Scattered => Some(false), Store::Piled => Some(true) }, trace: vec![], traced: cx.trace };
        // what user code can get at: weak handles to nodes in shared hands, and some handles
        let live: Vec<usize> = (0..self.hs.len()).collect();
        let ntot = self.hs.len();
        let strong = r.below(4);
        // handles to many nodes of the tree at hand, for weak handles and for some strong ones
        let t = r.below(ntot);
        let mut all: Vec<RcNode<Tok<L>>> = vec![];
        {
            let mut root = self.hs[t].0.clone();
            while let Some(p) = root.parent() { root = p }
            let mut q = vec![root];
            while let Some(x) = q.pop() { if all.len() > 80 { break } for k in x.iter_rc() { q.push(k) } all.push(x) }
        }
        for x in &all { if r.chance(1, 2) { bag.ws.push(x.downgrade()) } }
        for _ in 0..strong { let x = r.pick(&all).clone(); bag.hs.push(x) }
        for i in live { if r.chance(1, 6) { bag.ws.push(self.hs[i].0.downgrade()) } }
        let picked = r.pick(&all).clone();
        let picked2 = r.pick(&all).clone();
        drop(all);
        let excl: usize = self.ts.iter().map(|t| t.0.node_count()).sum();
        let kinds = match outer { 0..=2 | 5 | 7 | 8 | 10 | 13 => K_DROP, 3 => K_FMT, 4 => K_CLONE, 6 => K_CMP, 9 => K_HASH, 11 => K_USER, _ => K_CMP | K_FMT | K_HASH };
        let n = 1 + if r.chance(2, 3) { r.below(3) } else { r.below(12) };
        let shared = Rc::new(RefCell::new(bag));
        let s2 = shared.clone();
        tok::hook(n as u32, kinds, Box::new(move || {
            let mut bag = s2.borrow_mut();
            bag.feats[0] += 1;
            let k = 1 + bag.r.below(3);
            if bag.traced { bag.trace.push("user code runs:".into()) }
            for _ in 0..k { bag.act() }
            bag.left -= 1;
            if bag.left == 0 { 0 } else { 1 + bag.r.below(3) as u32 }
        }));
        if outer == 14 {
            // a borrow that is never given back must not keep the node from being released
            tok::unhook();
            drop(picked2);
            cx.feat(F_LEAKED);
            if r.chance(1, 2) { std::mem::forget(picked.data()) } else { std::mem::forget(picked.data_mut()) }
            let mut hs: Vec<RcNode<Tok<L>>> = std::mem::take(&mut self.hs).into_iter().map(|x| x.0).collect();
            hs.push(picked);
            for id in std::mem::take(&mut self.ws) { drop(id) }
            drop(shared);
            let res = catch(|| while !hs.is_empty() { let k = r.below(hs.len()); drop(hs.swap_remove(k)) });
            if res.is_err() { let m = last_panic(); cx.fail(&["C22", "C24", "C25"], format!("dropping handles panicked after a borrow was leaked: {m}")); return Err(Stop) }
            if tok::alive_count() != excl { cx.fail(&["C22", "C24"], format!("{} values are alive after a borrow was leaked and all handles were dropped, {excl} are held", tok::alive_count())) }
            self.clear();
            return cx.bail();
        }
        let names = ["drop", "drop_many", "drop_tree", "text", "deep_clone", "pop", "eq", "detach_drop", "set", "hash", "iter_drop", "extend", "cmp", "refused"];
        cx.t(|| format!("    outer operation {} on {}", names[outer], picked.data().uid));
        let mut dropping: Vec<RcNode<Tok<L>>> = vec![];
        let mut refused = false;
        match outer {
            0 => { drop(picked2); let (x, _) = self.hs.swap_remove(t); drop(picked); dropping.push(x) }
            1 | 2 => { drop(picked); drop(picked2); for k in (0..self.hs.len()).rev() { if outer == 2 || r.chance(2, 3) { dropping.push(self.hs.swap_remove(k).0) } } if r.chance(1, 2) { dropping.reverse() } }
            7 => { drop(picked2); if picked.is_root() { dropping.push(picked) } else { picked.detach(); dropping.push(picked) } }
            _ => { dropping.push(picked); if kinds & K_CMP != 0 { dropping.push(picked2) } else { drop(picked2) } }
        }
        let mut out = 0u64;
        let its = if outer == 10 { std::mem::take(&mut self.its) } else { vec![] };
        let excl_t = if outer == 13 { Some(Tree::new(Tok::<L>::new(6000))) } else { None };
        let res = catch(|| match outer {
            0 | 1 | 2 | 7 => for x in dropping.drain(..) { drop(x) },
            3 => { out = dropping[0].to_string().len() as u64; out += (format!("{:?}", dropping[0]).len() > 0) as u64 }
            4 => { let t = dropping[0].deep_clone(); out = t.node_count() as u64; }
            5 => { while let Some(x) = if out % 2 == 0 { dropping[0].pop_front() } else { dropping[0].pop_back() } { out += 1; drop(x); if out > 3000 { break } } }
            6 => out = (dropping[0] == dropping[1]) as u64 | ((dropping[0] != dropping[1]) as u64) << 1,
            8 => *dropping[0].data_mut() = Tok::new(6001),
            9 => { let mut h = DefaultHasher::new(); dropping[0].hash(&mut h); let _ = h.finish(); }
            10 => { drop(its); drop(dropping.pop()) }
            11 => { let v: Vec<Tree<Tok<L>>> = (0..3).map(|i| Tree::new(Tok::new(6100 + i))).collect(); dropping[0].extend(v.into_iter().map(|t| { tok::tick(K_USER); t })) }
            12 => out = dropping[0].partial_cmp(&dropping[1]).map_or(3, |o| o as i32 as u64),
            _ => { let t = excl_t.unwrap(); if dropping[0].is_root() { refused = true; dropping[0].insert_next_sib(t) } else { dropping[0].insert_next_sib(t); let x = dropping[0].parent().unwrap(); drop(x.pop_back()) } }
        });
        tok::unhook();
        if res.is_err() && !refused {
            let m = last_panic();
            cx.fail(&["C21", "C24", "C22"], format!("{} panicked after user code used the tree meanwhile: {m}", names[outer]));
            std::mem::forget(dropping);
            std::mem::forget(shared);
            return Err(Stop);
        }
        cx.l(out);
        let bag = match Rc::try_unwrap(shared) { Ok(b) => b.into_inner(), Err(_) => return Err(Stop) };
        for (k, f) in [F_FIRED, F_EDITED, F_KEPT].iter().enumerate() { if bag.feats[k] > 0 { cx.feat(*f) } }
        for x in &bag.trace { cx.t(|| format!("      {x}")) }
        for v in &bag.log { cx.l(*v) }
        let mut hs: Vec<RcNode<Tok<L>>> = std::mem::take(&mut self.hs).into_iter().map(|x| x.0).collect();
        hs.extend(dropping);
        hs.extend(bag.hs);
        let mut ws: Vec<(WeakNode<Tok<L>>, u32)> = bag.ws.into_iter().map(|w| (w, u32::MAX)).collect();
        for (w, id) in std::mem::take(&mut self.ws) { if !(self.ns[id].alive && self.in_tree(id)) { ws.push((w, if self.ns[id].alive { self.ns[id].uid } else { u32::MAX })) } }
        let mut its = bag.its;
        let mut errs = bag.errs;
        // check, then let go of everything, a little at a time
        loop {
            let mut roots: Vec<RcNode<Tok<L>>> = vec![];
            let mut seen: HashSet<u32> = HashSet::new();
            for h in &hs {
                if !errs.is_empty() { break }
                let mut x = h.clone();
                let mut k = 0;
                while let Some(p) = x.parent() { x = p; k += 1; if k > 5000 { errs.push("endless parents".into()); break } }
                if !x.is_root() { errs.push("a node without a parent is not a root".into()) }
                if seen.insert(x.data().uid) { roots.push(x) }
            }
            let mut vals = HashMap::new();
            for x in &roots { walk(x, 0, &mut vals, &mut errs); }
            drop(roots);
            if errs.is_empty() {
                for h in &hs { if !vals.contains_key(&h.data().uid) { errs.push(format!("value {} is not below its root", h.data().uid)) } }
                let mut logv: Vec<i32> = vec![];
                for h in &hs { logv.push(h.data().val) }
                for v in logv { cx.l(v as u64) }
                if its.is_empty() && tok::alive_count() != vals.len() + excl { errs.push(format!("{} values are alive, {} are held by handles and their trees", tok::alive_count(), vals.len() + excl)) }
            }
            let mut werr = vec![];
            if errs.is_empty() && its.is_empty() {
                for (w, u) in &ws {
                    match w.upgrade() {
                        Some(h) => { cx.l(h.data().val as u64); if !vals.contains_key(&h.data().uid) { werr.push(format!("a weak handle finds value {}, which nothing holds", h.data().uid)); std::mem::forget(h) } }
                        None => { cx.l(1); if vals.contains_key(u) { werr.push(format!("a weak handle to live node {u} finds nothing")) } }
                    }
                }
            }
            for m in werr { cx.fail(&["C23", "C24"], m) }
            let e = alloc::errors();
            if e != 0 { cx.fail(&["C24", "C05", cx.id], alloc::describe(e)) }
            if let Some(m) = tok::take_error() { cx.fail(&["C22", "C24", "C04", cx.id], m) }
            for m in errs.drain(..) { cx.fail(&["C21", "C22", "C24"], format!("after user code used the tree during {}: {m}", names[outer])) }
            if !cx.fails.is_empty() || cx.soft.is_some() {
                std::mem::forget(hs); std::mem::forget(ws); std::mem::forget(its);
                return Err(Stop);
            }
            let tot = hs.len() + its.len() + ws.len();
            if tot == 0 { break }
            for _ in 0..1 + tot / 3 {
                let k = r.below(3);
                if k == 0 && !hs.is_empty() { let i = r.below(hs.len()); drop(hs.swap_remove(i)) }
                if k == 1 { if !its.is_empty() { let i = r.below(its.len()); if let Some(h) = its[i].next() { if !h.data().ok() { errs.push("an iterator yields a dead node".into()) } hs.push(h) } else { drop(its.swap_remove(i)) } } }
                if k == 2 && !ws.is_empty() { let i = r.below(ws.len()); drop(ws.swap_remove(i)) }
            }
        }
        self.clear();
        Ok(())
    }
    /// What is left is exclusively owned.
    fn clear(&mut self) {
        for (t, _) in std::mem::take(&mut self.ts) { drop(t) }
        let (store, vals) = (self.store, self.vals);
        *self = World::new(store);
        self.vals = vals;
    }
}
