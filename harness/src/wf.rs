//! World F: world A with faults (panicking user code) and ill-sized breadth-first input.
use crate::tok::{self, Injected, Lay, Tok, K_CLONE, K_CMP, K_DROP, K_FMT, K_HASH, K_USER};
use crate::util::*;
use crate::wa::{self, bfs_of, nav_ref, Store, FM, M, NO, S};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::resume_unwind;
use trees::bfs::{BfsForest, BfsTree, Visit};
use trees::{Forest, ForestWalk, Node, Size, Tree, TreeWalk};

pub const OPS: &[&str] = &[
    "fault_clone", "fault_compare", "fault_hash", "fault_text", "fault_drop", "fault_take_and_drop", "fault_into_iter", "fault_into_bfs", "fault_collect", "fault_bfs_mut", "fault_iter_mut",
    "fault_operator", "fault_assign", "fault_walker", "fault_fold", "fault_abandon",
    "ill_hand_made_tree", "ill_hand_made_forest", "ill_partial_borrowed", "ill_partial_owned", "ill_wrong_announcement", "ill_tree_as_forest",
];
pub const F0: usize = 220;
pub const F_INJ: usize = 250;   // a fault struck
pub const F_INJ_D: usize = 251; // in a destructor
pub const F_ILL: usize = 252;   // sizes did not match the items
pub const F_ILL_P: usize = 253; // and building panicked
pub const F_ILL_Y: usize = 254; // and a tree came out
pub mod op {
    pub const B: u16 = 80;
    pub const NFAULT: u16 = 16;
    pub const CLONE: u16 = 80; pub const CMP: u16 = 81; pub const HASH: u16 = 82; pub const TEXT: u16 = 83; pub const DROP: u16 = 84; pub const TAKE: u16 = 85; pub const INTO_ITER: u16 = 86;
    pub const INTO_BFS: u16 = 87; pub const COLLECT: u16 = 88; pub const BFS_MUT: u16 = 89; pub const ITER_MUT: u16 = 90; pub const OPER: u16 = 91; pub const ASSIGN: u16 = 92; pub const WALK: u16 = 93;
    pub const FOLD: u16 = 94; pub const ABANDON: u16 = 95;
    pub const ILL_T: u16 = 96; pub const ILL_F: u16 = 97; pub const ILL_B: u16 = 98; pub const ILL_O: u16 = 99; pub const ILL_A: u16 = 100; pub const ILL_X: u16 = 101;
}

pub struct World<L: Lay> { pub a: wa::World<L>, fall: u32 }

struct NoHash;
impl Hasher for NoHash { fn finish(&self) -> u64 { 0 } fn write(&mut self, _: &[u8]) {} }

/// Runs `f` with a fault armed. None: the fault struck.
pub fn fault<T>(cx: &mut Cx, k: u32, kinds: u32, f: impl FnOnce() -> T) -> Option<T> {
    tok::arm(k, kinds);
    let r = catch(f);
    tok::disarm();
    match r {
        Ok(v) => Some(v),
        Err(p) => if p.is::<Injected>() {
            cx.leak_ok = true;
            cx.feat(F_INJ);
            if kinds & K_DROP != 0 { cx.feat(F_INJ_D) }
            None
        } else { resume_unwind(p) }
    }
}

/// In a world with faults: runs `f`, sometimes with a fault armed. None: the fault struck.
pub fn shoot<T>(cx: &mut Cx, kinds: u32, f: impl FnOnce() -> T) -> Option<T> {
    let k = match &mut cx.frng { Some(r) => if r.chance(1, 2) { 1 + r.below(4) as u32 } else if r.chance(1, 2) { 1 + r.below(16) as u32 } else { 0 }, None => 0 };
    if k == 0 { Some(f()) } else { fault(cx, k, kinds, f) }
}

fn sel<'a, L: Lay>(s: &'a S<L>, p: &[usize]) -> Option<&'a Node<Tok<L>>> {
    match s { S::T(t, _) => nav_ref(t.root(), p), S::F(f, _) => if p.is_empty() { None } else { f.iter().nth(p[0]).and_then(|n| nav_ref(n, &p[1..])) } }
}
fn sel_m<'a, L: Lay>(s: &'a S<L>, p: &[usize]) -> &'a M { match s { S::T(_, m) => m.at(p), S::F(_, f) => f.kids[p[0]].at(&p[1..]) } }
fn bfs_ms<'a>(roots: Vec<&'a mut M>) -> Vec<*mut M> {
    let mut q: std::collections::VecDeque<&'a mut M> = roots.into();
    let mut v = vec![];
    while let Some(x) = q.pop_front() { v.push(x as *mut M); q.extend(x.kids.iter_mut()) }
    v
}

/// A caller's iterator that panics when its fuse burns down.
struct Burn<I>(I);
impl<I: Iterator> Iterator for Burn<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { tok::tick(K_USER); self.0.next() } }

impl<L: Lay> World<L> {
    fn dead_or_leaked(&self, uids: &[u32], what: &str, cx: &mut Cx) {
        for &u in uids { let k = tok::drops_of(u); cx.check(k <= 1, &["C29"], || format!("value {u} was dropped {k} times by {what}")); }
    }
    pub fn exec(&mut self, o: &Op, cx: &mut Cx) -> R<()> {
        if o[0] < op::B { return self.a.exec(o, cx) }
        let [code, a, b, c, d] = *o;
        let code = if self.a.total() > 90 && matches!(code, op::CLONE | op::COLLECT | op::OPER) { op::DROP } else { code };
        cx.feat(F0 + (code - op::B) as usize % OPS.len());
        cx.l(code as u64 + 1);
        self.a.ensure(a);
        let r = if code < op::ILL_T { self.faulty(code, a, b, c, d, cx) } else { self.ill(code, a, b, c, d, cx) };
        self.a.sweep();
        cx.t(|| format!("{:<22} {:?} => {}", OPS[(code - op::B) as usize % OPS.len()], [a, b, c, d], self.a.slots.iter().map(|s| s.show()).collect::<Vec<_>>().join(" | ")));
        r?;
        cx.bail()?;
        self.a.observe(if code < op::ILL_T { &["C29"] } else { &["C30"] }, cx)
    }

    fn faulty(&mut self, code: u16, a: u16, b: u16, c: u16, d: u16, cx: &mut Cx) -> R<()> {
        use op::*;
        // most structures are small: mostly strike early
        let k = 1 + (d % if d & 0x100 == 0 { 4 } else if d & 0x200 == 0 { 10 } else { 30 }) as u32;
        match code {
            CLONE => {
                let (i, p) = self.a.pick(a, b);
                let n = self.a.slots.len();
                if c % 7 == 6 && n > 1 {
                    // over another one
                    let j = (i + 1 + b as usize % (n - 1)) % n;
                    let mut dst = self.a.slots.remove(j);
                    let i = if j < i { i - 1 } else { i };
                    let mut u = vec![];
                    let done = match (&mut dst, &self.a.slots[i]) {
                        (S::T(x, xm), S::T(t, m)) => { xm.uids(&mut u); let done = fault(cx, k, K_CLONE, || x.clone_from(t)); *xm = m.cloned(0); done }
                        (S::F(x, xm), S::F(f, m)) => { for k in &xm.kids { k.uids(&mut u) } let done = fault(cx, k, K_CLONE, || x.clone_from(f)); *xm = FM { kids: m.kids.iter().map(|k| k.cloned(0)).collect(), blk: 0 }; done }
                        _ => Some(()),
                    };
                    if done.is_some() { self.a.slots.push(dst) } else { drop(dst) }
                    self.dead_or_leaked(&u, "an overwriting clone", cx);
                    return Ok(())
                }
                let bk = self.a.new_blk();
                let s = &self.a.slots[i];
                let whole = p.is_empty() && matches!(s, S::F(..));
                let (bm, fm) = if whole { let S::F(_, fm) = s else { unreachable!() }; (None, FM { kids: fm.kids.iter().map(|k| k.cloned(bk)).collect(), blk: bk }) }
                    else { let m = sel_m(s, &p).cloned(bk); (Some(m.clone()), FM { kids: m.kids, blk: bk }) };
                let new: Option<S<L>> = match s {
                    S::F(f, _) if whole => fault(cx, k, K_CLONE, || if c % 2 == 0 { f.clone() } else { Forest::from(f.bfs().map(|t| t.clone())) }).map(|f| S::F(f, fm)),
                    S::T(t, _) if p.is_empty() && c % 3 == 0 => fault(cx, k, K_CLONE, || t.clone()).map(|t| S::T(t, bm.unwrap())),
                    _ => {
                        let Some(n) = sel(s, &p) else { return wa::lost(cx) };
                        match c % 4 {
                            0 => fault(cx, k, K_CLONE, || n.deep_clone()).map(|t| S::T(t, bm.unwrap())),
                            1 => fault(cx, k, K_CLONE, || Tree::from(n.bfs().map(|t| t.clone()))).map(|t| S::T(t, bm.unwrap())),
                            2 => fault(cx, k, K_CLONE, || n.deep_clone_forest()).map(|f| S::F(f, fm)),
                            _ => fault(cx, k, K_CLONE, || Forest::from(n.bfs_children().map(|t| t.clone()))).map(|f| S::F(f, fm)),
                        }
                    }
                };
                self.a.slots.extend(new);
            }
            CMP => {
                let n = self.a.slots.len();
                let (x, y) = (&self.a.slots[a as usize % n], &self.a.slots[b as usize % n]);
                macro_rules! cmp { ($x:expr, $y:expr) => {{ let (x, y) = ($x, $y); match c % 4 {
                    0 => { fault(cx, k, K_CMP, || x == y); } 1 => { fault(cx, k, K_CMP, || x.partial_cmp(y)); } 2 => { fault(cx, k, K_CMP, || x.cmp(y)); } _ => { fault(cx, k, K_CMP, || x != y); } } }} }
                match (x, y) { (S::T(x, _), S::T(y, _)) => if c & 4 == 0 { cmp!(x, y) } else { cmp!(x.root(), y.root()) }, (S::F(x, _), S::F(y, _)) => cmp!(x, y), (S::T(x, _), _) => cmp!(x, x), (S::F(x, _), _) => cmp!(x, x) }
            }
            HASH => { let n = self.a.slots.len(); match &self.a.slots[a as usize % n] { S::T(t, _) => { fault(cx, k, K_HASH, || t.hash(&mut NoHash)); } S::F(f, _) => { fault(cx, k, K_HASH, || f.hash(&mut NoHash)); } } }
            TEXT => {
                let n = self.a.slots.len();
                match &self.a.slots[a as usize % n] {
                    S::T(t, _) => { if c & 1 == 0 { fault(cx, k, K_FMT, || t.to_string()); } else { fault(cx, k, K_FMT, || format!("{t:?}")); } }
                    S::F(f, _) => { if c & 1 == 0 { fault(cx, k, K_FMT, || f.to_string()); } else { fault(cx, k, K_FMT, || format!("{f:?}")); } }
                }
            }
            DROP => {
                let Some(s) = self.a.take_any(a) else { return Ok(()) };
                let mut u = vec![];
                match &s { S::T(_, m) => m.uids(&mut u), S::F(_, f) => for k in &f.kids { k.uids(&mut u) } }
                let done = fault(cx, k, K_DROP, || drop(s)).is_some();
                if done && self.fall == 0 { for x in &u { cx.check(!tok::is_alive(*x), &["C29", "C04"], || format!("value {x} survived the drop of its tree")); } }
                self.dead_or_leaked(&u, "a drop", cx);
            }
            TAKE => {
                // takes a subtree out and drops it on the spot
                let (i, p) = self.a.pick_inner(a, b);
                let s = &mut self.a.slots[i];
                let pp = &p[..p.len() - 1];
                let (sibs, j) = wa::World::sibs_mut(s, &p);
                let nk = sibs.len();
                let (j, how) = match c % 3 { 0 => (0, 0), 1 => (nk - 1, 1), _ => (j, 2) };
                let m = sibs.remove(j);
                if pp.is_empty() && how != 2 {
                    match s {
                        S::T(t, _) => fault(cx, k, K_DROP, || drop(if how == 0 { t.pop_front() } else { t.pop_back() })),
                        S::F(f, _) => fault(cx, k, K_DROP, || drop(if how == 0 { f.pop_front() } else { f.pop_back() })),
                    };
                } else {
                    let q = if how == 2 { &p } else { pp };
                    let Some(n) = wa::World::node(s, q, false) else { return wa::lost(cx) };
                    fault(cx, k, K_DROP, || match how { 0 => drop(n.pop_front()), 1 => drop(n.pop_back()), _ => drop(n.detach()) });
                }
                let mut u = vec![];
                m.uids(&mut u);
                self.dead_or_leaked(&u, "dropping a subtree taken out", cx);
            }
            INTO_ITER => {
                let Some(s) = self.a.take_any(a) else { return Ok(()) };
                let (mut it, mut ms) = match s { S::T(t, m) => (t.into_iter(), vec![m]), S::F(f, m) => (f.into_iter(), m.kids) };
                let mut u = vec![];
                for m in &ms { m.uids(&mut u) }
                for j in 0..b as usize % (ms.len() + 1) {
                    let Some(t) = it.next() else { return wa::lost(cx) };
                    let m = ms.remove(0);
                    if c >> (j % 16) & 1 == 1 { self.a.slots.push(S::T(t, m)) } else { fault(cx, k, K_DROP, || drop(t)); }
                }
                fault(cx, k, K_DROP, || drop(it));
                self.dead_or_leaked(&u, "an owning iterator", cx);
            }
            INTO_BFS => {
                let Some(s) = self.a.take_any(a) else { return Ok(()) };
                let mut u = vec![];
                match &s { S::T(_, m) => m.uids(&mut u), S::F(_, f) => for k in &f.kids { k.uids(&mut u) } }
                let n = u.len();
                let mut it = match s { S::T(t, _) => t.into_bfs().iter, S::F(f, _) => f.into_bfs().iter };
                let mut kept = vec![];
                for j in 0..b as usize % (n + 1) {
                    // next() itself drops nothing
                    let v = it.next();
                    if c >> (j % 16) & 1 == 1 { kept.extend(v) } else { fault(cx, k, K_DROP, || drop(v)); }
                }
                fault(cx, k, K_DROP, || drop(it));
                self.dead_or_leaked(&u, "an owning traversal", cx);
                for v in &kept { cx.check(v.data.ok(), &["C29"], || format!("value {} handed out by the traversal was dropped", v.data.uid)); }
                fault(cx, k, K_DROP, || drop(kept));
            }
            COLLECT => {
                // the caller's iterator or mapping closure panics
                let (i, p) = self.a.pick(a, b);
                let bk = self.a.new_blk();
                if c % 2 == 0 {
                    // owned input: the data are gone with it
                    let s = self.a.slots.remove(i);
                    let mut u = vec![];
                    match &s { S::T(_, m) => m.uids(&mut u), S::F(_, f) => for k in &f.kids { k.uids(&mut u) } }
                    let both = K_USER | if c & 4 == 0 { K_DROP } else { 0 };
                    let new = match s {
                        S::T(t, mut m) => { let x = t.into_bfs(); m.each(&mut |k| { k.addr = 0; k.blk = bk });
                            if c & 2 == 0 { fault(cx, k, both, || Tree::from(BfsTree { iter: Burn(x.iter), size: x.size })).map(|t| S::T(t, m)) }
                            else { fault(cx, k, both, || Tree::from(x.map(|t| { tok::tick(K_USER); t }))).map(|t| S::T(t, m)) } }
                        S::F(f, mut m) => { let x = f.into_bfs(); for t in &mut m.kids { t.each(&mut |k| { k.addr = 0; k.blk = bk }) } m.blk = bk;
                            if c & 2 == 0 { fault(cx, k, both, || Forest::from(BfsForest { iter: Burn(x.iter), size: x.size })).map(|f| S::F(f, m)) }
                            else { fault(cx, k, both, || Forest::from(x.map(|t| { tok::tick(K_USER); t }))).map(|f| S::F(f, m)) } }
                    };
                    self.dead_or_leaked(&u, "an interrupted collect", cx);
                    self.a.slots.extend(new);
                } else {
                    let s = &mut self.a.slots[i];
                    let whole = p.is_empty() && matches!(s, S::F(..));
                    let new = if whole {
                        let S::F(f, m) = s else { unreachable!() };
                        let m = FM { kids: m.kids.iter().map(|k| k.cloned(bk)).collect(), blk: bk };
                        fault(cx, k, K_USER, || Forest::from(f.bfs_mut().map(|t| { tok::tick(K_USER); t.clone() }))).map(|f| S::F(f, m))
                    } else {
                        let m = sel_m(s, &p).cloned(bk);
                        let Some(n) = wa::World::node(s, &p, false) else { return wa::lost(cx) };
                        match c % 3 {
                            0 => fault(cx, k, K_USER, || { let x = n.bfs(); Tree::from(BfsTree { iter: Burn(x.iter), size: x.size }.map(|t: &Tok<L>| t.clone())) }).map(|t| S::T(t, m)),
                            1 => fault(cx, k, K_USER, || Forest::from(n.bfs_children_mut().map(|t| { tok::tick(K_USER); t.clone() }))).map(|f| S::F(f, FM { kids: m.kids, blk: bk })),
                            _ => fault(cx, k, K_USER, || Tree::from(n.bfs_mut().map(|t| { tok::tick(K_USER); t.clone() }))).map(|t| S::T(t, m)),
                        }
                    };
                    self.a.slots.extend(new);
                }
            }
            BFS_MUT => {
                let (i, p) = self.a.pick(a, b);
                let base = self.a.vals;
                self.a.vals += 2000;
                let s = &mut self.a.slots[i];
                let mut cnt = 0;
                let mut go = |v: Visit<&mut Tok<L>>| { tok::tick(K_USER); cnt += 1; v.data.val = base + cnt };
                let kids = p.is_empty() && matches!(s, S::F(..)) || c & 1 == 1;
                if p.is_empty() && matches!(s, S::F(..)) { if let S::F(f, _) = s { fault(cx, k, K_USER, || f.bfs_mut().iter.for_each(&mut go)); } }
                else {
                    let Some(n) = wa::World::node(s, &p, false) else { return wa::lost(cx) };
                    if kids { fault(cx, k, K_USER, || n.bfs_children_mut().iter.for_each(&mut go)); } else { fault(cx, k, K_USER, || n.bfs_mut().iter.for_each(&mut go)); }
                }
                let ms = if kids { bfs_ms(unsafe { &mut *wa::World::kids_mut(s, &p).0 }.iter_mut().collect()) } else { bfs_ms(vec![unsafe { &mut *wa::mp(s, &p) }]) };
                for (j, m) in ms.into_iter().take(cnt as usize).enumerate() { unsafe { (*m).val = base + j as i32 + 1 } }
            }
            ITER_MUT => {
                // a loop over the children that edits and then panics
                let (i, p) = self.a.pick(a, b);
                let orig: Vec<M> = unsafe { &*wa::World::kids_mut(&mut self.a.slots[i], &p).0 }.clone();
                let mut news: Vec<(Tree<Tok<L>>, M)> = (0..orig.len()).map(|j| self.a.build_tree(1 + (c as usize + j) % 3, c.wrapping_add(j as u16), j % 2 == 0, c)).collect();
                let mut out = vec![];
                let mut kept = vec![];
                let mut at = 0;
                let s = &mut self.a.slots[i];
                let it = if p.is_empty() { match s { S::T(t, _) => t.iter_mut(), S::F(f, _) => f.iter_mut() } } else { match wa::World::node(s, &p, false) { Some(n) => n.iter_mut(), None => return wa::lost(cx) } };
                let mut lost_one = false;
                fault(cx, k, K_USER, || {
                    for ch in it {
                        let ch = wa::pm(ch);
                        let mut m = orig[at].clone();
                        tok::tick(K_USER);
                        let (t, nm) = match news.pop() { Some(x) => x, None => { lost_one = true; break } };
                        at += 1;
                        match c >> (at % 8) & 7 {
                            0 | 1 => { ch.insert_prev_sib(t); out.push(nm); out.push(m); tok::tick(K_USER) }
                            2 | 3 => { ch.insert_next_sib(t); out.push(m); out.push(nm); tok::tick(K_USER) }
                            4 => { kept.push(S::T(ch.detach(), m)); kept.push(S::T(t, nm)); tok::tick(K_USER) }
                            5 => { ch.push_front(t); m.kids.insert(0, nm); out.push(m) }
                            _ => { kept.push(S::T(t, nm)); out.push(m) }
                        }
                    }
                });
                if lost_one { return wa::lost(cx) }
                out.extend(orig.into_iter().skip(at));
                *unsafe { &mut *wa::World::kids_mut(&mut self.a.slots[i], &p).0 } = out;
                self.a.slots.extend(kept);
                self.a.slots.extend(news.into_iter().map(|(t, m)| S::T(t, m)));
            }
            OPER => {
                // a clone made for a borrowed operand panics; an owned operand is gone then
                let (x, xm) = self.a.take_tree(b, None);
                self.a.sweep();
                let (y, ym) = self.a.take_tree(c, None);
                self.a.sweep();
                let b1 = self.a.new_blk();
                let b2 = self.a.new_blk();
                let mut u = vec![];
                xm.uids(&mut u);
                ym.uids(&mut u);
                let (mut xc, yc) = (xm.cloned(b1), ym.cloned(b2));
                let mut back = vec![];
                let kd = K_CLONE;
                let res = match a % 6 {
                    0 => { let r = fault(cx, k, kd, || &x - y).map(|f| S::F(f, FM { kids: vec![xc, ym], blk: 0 })); back.push(S::T(x, xm)); r }
                    1 => { let mut xm = xm; let r = fault(cx, k, kd, || x / &y).map(|t| { xm.kids.push(yc); S::T(t, xm) }); back.push(S::T(y, ym)); r }
                    2 => { let r = fault(cx, k, kd, || &x / &y).map(|t| { xc.kids.push(yc); S::T(t, xc) }); back.push(S::T(x, xm)); back.push(S::T(y, ym)); r }
                    3 => { let (f, fm) = self.a.take_forest(c, None); self.a.sweep(); let mut fc = FM { kids: fm.kids.iter().map(|k| k.cloned(b1)).collect(), blk: b1 };
                        back.push(S::T(x, xm));
                        let r = fault(cx, k, kd, || &f - &y).map(|g| { fc.kids.push(yc); S::F(g, fc) }); back.push(S::F(f, fm)); back.push(S::T(y, ym)); r }
                    4 => { let (f, fm) = self.a.take_forest(c, None); self.a.sweep();
                        back.push(S::T(x, xm)); back.push(S::T(y, ym));
                        let ts = back.len() - 2;
                        let S::T(x, xm) = &back[ts] else { unreachable!() };
                        let mut xc = xm.cloned(b1);
                        let mut u2 = vec![];
                        for k in &fm.kids { k.uids(&mut u2) }
                        let r = fault(cx, k, kd, || x / f).map(|t| { xc.kids.extend(fm.kids); S::T(t, xc) });
                        self.dead_or_leaked(&u2, "an interrupted operator", cx);
                        r }
                    _ => { let (f, fm) = self.a.take_forest(c, None); self.a.sweep(); let mut fm2 = fm.clone();
                        back.push(S::T(x, xm));
                        let mut fc = FM { kids: fm.kids.iter().map(|k| k.cloned(b1)).collect(), blk: b1 };
                        let r = fault(cx, k, kd, || &f - -y).map(|g| { fc.kids.push(ym); fc.blk = NO - 1; S::F(g, fc) });
                        fm2.blk = fm.blk;
                        back.push(S::F(f, fm2));
                        r }
                };
                // the operators may keep either operand's hidden root: its block is not tracked
                let res = res.map(|s| match s { S::F(f, mut m) if m.blk == NO - 1 => { m.blk = 0; self.a.untrack(b1); S::F(f, m) } s => s });
                self.dead_or_leaked(&u, "an interrupted operator", cx);
                self.a.slots.extend(back);
                self.a.slots.extend(res);
            }
            ASSIGN => {
                let (i, p) = self.a.pick(a, b);
                let s = &mut self.a.slots[i];
                if p.is_empty() && matches!(s, S::F(..)) { return Ok(()) }
                let v = self.a.val();
                let s = &mut self.a.slots[i];
                let t = Tok::<L>::new(v);
                let uid = t.uid;
                let Some(n) = wa::World::node(s, &p, c & 1 == 1) else { return wa::lost(cx) };
                fault(cx, 1, K_DROP, || *n.data_mut() = t);
                let m = unsafe { &mut *wa::mp(s, &p) };
                m.uid = uid; m.val = v; m.org = NO;
            }
            WALK => {
                let Some(s) = self.a.take_any(a) else { return Ok(()) };
                let mut u = vec![];
                match &s { S::T(_, m) => m.uids(&mut u), S::F(_, f) => for k in &f.kids { k.uids(&mut u) } }
                let n = b as usize % (2 * u.len() + 2);
                match s {
                    S::T(t, _) => { let mut w = TreeWalk::from(t); for _ in 0..n { w.forward() } fault(cx, k, K_DROP, || drop(w)); }
                    S::F(f, _) => { let mut w = ForestWalk::from(f); for _ in 0..n { w.forward() } fault(cx, k, K_DROP, || drop(w)); }
                }
                self.dead_or_leaked(&u, "dropping a walker", cx);
            }
            FOLD => {
                // read-only traversal with a panicking closure
                let (i, p) = self.a.pick(a, b);
                let s = &self.a.slots[i];
                match sel(s, &p) {
                    Some(n) => if c & 1 == 0 { fault(cx, k, K_USER, || n.bfs().iter.for_each(|_| tok::tick(K_USER))); } else { fault(cx, k, K_USER, || n.iter().for_each(|_| tok::tick(K_USER))); },
                    None => if let S::F(f, _) = s { fault(cx, k, K_USER, || f.bfs().iter.for_each(|_| tok::tick(K_USER))); },
                }
            }
            _ => {
                // the abandoned children are dropped with a panic
                let ts = self.a.tree_slots();
                if ts.is_empty() { return Ok(()) }
                let i = ts[a as usize % ts.len()];
                let mut u = vec![];
                if let S::T(t, m) = &mut self.a.slots[i] {
                    fault(cx, k, K_DROP, || drop(t.abandon()));
                    for m in std::mem::take(&mut m.kids) { m.uids(&mut u) }
                    m.blk = 0;
                    m.addr = 0;
                }
                self.dead_or_leaked(&u, "dropping abandoned children", cx);
            }
        }
        if cx.leak_ok { self.fall += 1 }
        Ok(())
    }

    // ---- ill-sized input ----

    /// Looks at whatever came out, takes some of it apart and drops it. Only memory safety and the identity of the data are certain.
    fn survey(&self, x: Out<L>, given: &HashSet<u32>, d: u16, cx: &mut Cx) {
        let mut seen = HashSet::new();
        let mut bad = None;
        let mut look = |n: &Node<Tok<L>>| {
            let t = n.data();
            if !t.ok() { bad = Some(format!("a node of the tree holds value {} which is not alive", t.uid)) }
            else if !given.contains(&t.uid) { bad = Some(format!("a node of the tree holds value {} which was not given", t.uid)) }
            else if !seen.insert(t.uid) { bad = Some(format!("value {} is in the tree twice", t.uid)) }
        };
        fn visit<L: Lay>(n: &Node<Tok<L>>, left: &mut usize, look: &mut dyn FnMut(&Node<Tok<L>>)) {
            if *left == 0 { return }
            *left -= 1;
            look(n);
            for c in n.iter() { visit(c, left, look) }
        }
        let mut left = 500;
        let _ = catch(|| match &x { Out::T(t) => visit(t.root(), &mut left, &mut look), Out::F(f) => for n in f.iter() { visit(n, &mut left, &mut look) } });
        if let Some(m) = bad { cx.fail(&["C30"], m) }
        if left == 0 { cx.fail(&["C30"], "the tree does not end".into()) }
        // each step on its own: a second panic while the first one unwinds would end the process
        let bad = std::cell::Cell::new(false);
        match d % 5 {
            1 => {
                let mut x = x;
                for j in 0..60 {
                    let t = catch(|| match &mut x { Out::T(t) => if d >> (j % 8) & 32 == 0 { t.pop_front() } else { t.pop_back() }, Out::F(f) => if d >> (j % 8) & 32 == 0 { f.pop_front() } else { f.pop_back() } });
                    match t { Ok(Some(t)) => { let _ = catch(|| drop(t)); } Ok(None) => break, Err(_) => break }
                }
                let _ = catch(|| drop(x));
            }
            2 => {
                let mut n = 0;
                let _ = catch(|| match &x { Out::T(t) => t.bfs().iter.take(500).for_each(|v| { n += 1; bad.set(bad.get() | !v.data.ok()) }), Out::F(f) => f.bfs().iter.take(500).for_each(|v| { n += 1; bad.set(bad.get() | !v.data.ok()) }) });
                if n >= 500 { cx.fail(&["C30"], "the tree does not end".into()) }
                let _ = catch(|| drop(x));
            }
            3 => { let _ = catch(|| match &x { Out::T(t) => drop(t.clone()), Out::F(f) => drop(f.clone()) }); let _ = catch(|| drop(x)); }
            4 => {
                let _ = catch(|| match &x { Out::T(t) => { let _ = t.to_string(); let _ = t == t; } Out::F(f) => { let _ = f.to_string(); let _ = f == f; } });
                match x {
                    Out::T(t) => { let mut w = TreeWalk::from(t); let _ = catch(|| for _ in 0..100 { w.forward(); if let Some(v) = w.get() { bad.set(bad.get() | !v.node().data().ok()) } }); let _ = catch(|| drop(w)); }
                    Out::F(t) => { let mut w = ForestWalk::from(t); let _ = catch(|| for _ in 0..100 { w.forward(); if let Some(v) = w.get() { bad.set(bad.get() | !v.node().data().ok()) } }); let _ = catch(|| drop(w)); }
                }
            }
            _ => { let _ = catch(|| drop(x)); }
        }
        if bad.get() { cx.fail(&["C30"], "a traversal of the tree shows a value that is not alive".into()) }
    }

    fn ill(&mut self, code: u16, a: u16, b: u16, c: u16, d: u16, cx: &mut Cx) -> R<()> {
        use op::*;
        let mut r = Rng::new((b as u64) << 16 | c as u64);
        let first = tok::next_uid();
        let mut source: Vec<u32> = vec![];
        cx.leak_ok = true;
        cx.feat(F_ILL);
        let off = |r: &mut Rng, x: usize| -> usize { match r.below(9) { 0 => x + 1, 1 => x.wrapping_sub(1), 2 => 0, 3 => x + 2 + r.below(5), 4 => usize::MAX - r.below(2), 5 => x / 2, 6 => 1, 7 => (1 << 62) + r.below(3), _ => x * 2 } };
        // a wrong node count stays small or is absurd: what is between is a matter of available memory
        let perturb = |r: &mut Rng, s: &mut Size| match r.below(3) { 0 => s.degree = off(r, s.degree), 1 => s.descendants = off(r, s.descendants), _ => { s.degree = off(r, s.degree); s.descendants = off(r, s.descendants) } };
        let made: Result<Out<L>, _> = match code {
            ILL_T | ILL_F => {
                let n = wa::size_arg(a);
                let par = shape(n, b);
                let ts: Vec<Tok<L>> = (0..n).map(|i| Tok::new(i as i32)).collect();
                let x = bfs_of(&par, ts);
                let mut size = x.size;
                let mut v: Vec<Visit<Tok<L>>> = x.iter.collect();
                for _ in 0..r.below(4) { let j = if r.chance(1, 2) { 0 } else { r.below(v.len()) }; perturb(&mut r, &mut v[j].size) }
                match r.below(4) { 0 => { let k = r.below(v.len() + 1); v.truncate(k) } 1 => for _ in 0..1 + r.below(4) { v.push(Visit { data: Tok::new(-1), size: Size { degree: r.below(3), descendants: r.below(3) } }) }, 2 => if v.len() > 1 { let k = r.below(v.len()); v.remove(k); }, _ => {} }
                if r.chance(1, 8) { let k = v.len(); if k > 0 { let (i, j) = (r.below(k), r.below(k)); v.swap(i, j) } }
                if code == ILL_T {
                    if r.chance(1, 3) { perturb(&mut r, &mut size) }
                    catch(|| Out::T(Tree::from(BfsTree { iter: v.into_iter(), size })))
                } else {
                    size = Size { degree: 1, descendants: n };
                    if r.chance(2, 3) { perturb(&mut r, &mut size) }
                    catch(|| Out::F(Forest::from(BfsForest { iter: v.into_iter(), size })))
                }
            }
            ILL_B => {
                // a borrowed traversal, partially consumed, then collected
                let (i, p) = self.a.pick(a, b);
                let s = &self.a.slots[i];
                let k = 1 + r.below(4);
                match sel(s, &p) {
                    Some(n) => if c & 1 == 0 { catch(|| { let mut x = n.bfs(); for _ in 0..k { x.iter.next(); } Out::T(Tree::from(x.map(|t| t.clone()))) }) }
                        else { catch(|| { let mut x = n.bfs_children(); for _ in 0..k { x.iter.next(); } Out::F(Forest::from(x.map(|t| t.clone()))) }) },
                    None => { let S::F(f, _) = s else { return Ok(()) }; catch(|| { let mut x = f.bfs(); for _ in 0..k { x.iter.next(); } Out::F(Forest::from(x.map(|t| t.clone()))) }) }
                }
            }
            ILL_O => {
                let Some(s) = self.a.take_any(a) else { return Ok(()) };
                match &s { S::T(_, m) => m.uids(&mut source), S::F(_, f) => for k in &f.kids { k.uids(&mut source) } }
                let k = 1 + r.below(5);
                match s {
                    S::T(t, _) => { let mut x = t.into_bfs(); for _ in 0..k { x.iter.next(); } if c & 1 == 0 { catch(|| Out::T(Tree::from(x))) } else { catch(|| Out::T(Tree::from(x.map(|t| t)))) } }
                    S::F(f, _) => { let mut x = f.into_bfs(); for _ in 0..k { x.iter.next(); } catch(|| Out::F(Forest::from(x))) }
                }
            }
            ILL_A => {
                // the traversal is right, what it announces is not
                let (i, p) = self.a.pick(a, b);
                let s = &self.a.slots[i];
                match (sel(s, &p), s) {
                    (Some(n), _) => { let mut x = n.bfs_children(); perturb(&mut r, &mut x.size); catch(|| Out::F(Forest::from(x.map(|t| t.clone())))) }
                    (None, S::F(f, _)) => { let mut x = f.bfs(); let mut z = x.size; perturb(&mut r, &mut z);
                        if c & 1 == 0 { x.size = z; catch(|| Out::F(Forest::from(x.map(|t| t.clone())))) } else { catch(|| Out::F(Forest::from(BfsForest::from(f.iter(), z).map(|t: &Tok<L>| t.clone())))) } }
                    _ => return Ok(()),
                }
            }
            _ => {
                // a tree's traversal taken for a forest's, and the other way round
                let (i, p) = self.a.pick(a, b);
                let s = &self.a.slots[i];
                match (sel(s, &p), s) {
                    (Some(n), _) => if c & 1 == 0 { let x = n.bfs(); catch(|| Out::F(Forest::from(BfsForest { iter: x.iter, size: x.size }.map(|t: &Tok<L>| t.clone())))) }
                        else { let x = n.bfs_children(); catch(|| Out::T(Tree::from(BfsTree { iter: x.iter, size: x.size }.map(|t: &Tok<L>| t.clone())))) },
                    (None, S::F(f, _)) => { let x = f.bfs(); catch(|| Out::T(Tree::from(BfsTree { iter: x.iter, size: x.size }.map(|t: &Tok<L>| t.clone())))) }
                    _ => return Ok(()),
                }
            }
        };
        let mut given: HashSet<u32> = (first..tok::next_uid()).collect();
        given.extend(&source);
        match made {
            Ok(x) => { cx.feat(F_ILL_Y); self.survey(x, &given, d, cx) }
            Err(p) => { cx.feat(F_ILL_P); drop(p) }
        }
        let mut all: Vec<u32> = (first..tok::next_uid()).collect();
        all.extend(source);
        for u in all { let k = tok::drops_of(u); cx.check(k <= 1, &["C30"], || format!("value {u} was dropped {k} times")); }
        Ok(())
    }
}
enum Out<L: Lay> { T(Tree<Tok<L>>), F(Forest<Tok<L>>) }

pub fn run<L: Lay>(case: &Case, store: Store, cx: &mut Cx) -> R<()> {
    let mut w = std::mem::ManuallyDrop::new(World::<L> { a: wa::World::new(store), fall: 0 });
    for (i, o) in case.ops.iter().enumerate() {
        cx.step = i;
        w.exec(o, cx)?;
    }
    cx.step = case.ops.len();
    let w = std::mem::ManuallyDrop::into_inner(w);
    wa::finish(w.a, case.params[2], cx)
}
