//! World W: depth-first walkers over trees and forests of world A, against a cursor model.
use crate::tok::{Lay, Tok};
use crate::util::*;
use crate::wa::{self, ad, obs_forest, obs_node, Store, FM, M, S};
use trees::walk::Visit;
use trees::{Forest, ForestWalk, Node, Tree, TreeWalk};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K { Begin, End, Leaf }
/// Where the cursor is. Paths start with the index of the top-level tree.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Cur { Done, At(Vec<usize>, K), Past(Vec<usize>) }

fn at<'a>(m: &'a FM, p: &[usize]) -> &'a M { m.kids[p[0]].at(&p[1..]) }
fn open(m: &FM, p: Vec<usize>) -> Cur { let k = if at(m, &p).kids.is_empty() { K::Leaf } else { K::Begin }; Cur::At(p, k) }
fn level(m: &FM, p: &[usize]) -> usize { if p.is_empty() { m.kids.len() } else { at(m, p).kids.len() } }
fn up(p: &[usize]) -> Vec<usize> { p[..p.len() - 1].to_vec() }
fn end_of(p: Vec<usize>) -> Cur { if p.is_empty() { Cur::Done } else { Cur::At(p, K::End) } }

pub fn start(m: &FM) -> Cur { if m.kids.is_empty() { Cur::Done } else { open(m, vec![0]) } }
pub fn forward(m: &FM, c: &Cur) -> Cur {
    match c {
        Cur::Done => Cur::Done,
        Cur::At(p, K::Begin) => { let mut q = p.clone(); q.push(0); open(m, q) }
        Cur::At(p, _) => {
            let parent = up(p);
            let i = p[p.len() - 1] + 1;
            if i < level(m, &parent) { let mut q = parent; q.push(i); open(m, q) } else { end_of(parent) }
        }
        Cur::Past(p) => end_of(p.clone()),
    }
}
pub fn to_parent(c: &Cur) -> Cur { match c { Cur::Done => Cur::Done, Cur::At(p, _) => end_of(up(p)), Cur::Past(p) => end_of(p.clone()) } }
pub fn parent_of(c: &Cur) -> Option<Vec<usize>> {
    let p = match c { Cur::Done => return None, Cur::At(p, _) => up(p), Cur::Past(p) => p.clone() };
    if p.is_empty() { None } else { Some(p) }
}
/// The new cursor, and whether something was found.
pub fn to_child(m: &FM, c: &Cur, n: usize) -> (Cur, bool) {
    match c {
        Cur::At(p, _) => {
            let d = level(m, p);
            if d == 0 { (c.clone(), false) } else if n < d { let mut q = p.clone(); q.push(n); (open(m, q), true) } else { (Cur::Past(p.clone()), false) }
        }
        _ => (c.clone(), false),
    }
}
pub fn to_sib(m: &FM, c: &Cur, n: usize) -> (Cur, bool) {
    match c {
        Cur::At(p, _) => {
            let parent = up(p);
            let i = p[p.len() - 1].saturating_add(n);
            if i < level(m, &parent) { let mut q = parent; q.push(i); (open(m, q), true) } else { (Cur::Past(parent), false) }
        }
        _ => (c.clone(), false),
    }
}
pub fn revisit(m: &FM, c: &Cur) -> Cur { match c { Cur::Done => start(m), Cur::At(p, _) => open(m, p.clone()), Cur::Past(_) => c.clone() } }

pub enum AnyWalk<L: Lay> { T(TreeWalk<Tok<L>>), F(ForestWalk<Tok<L>>) }
macro_rules! on { ($w:expr, $x:ident => $e:expr) => { match $w { AnyWalk::T($x) => $e, AnyWalk::F($x) => $e } } }
/// A walker, its trees' model (by index into `held`), its cursor, and whether it was only advanced so far.
pub struct Wk<L: Lay> { pub w: AnyWalk<L>, pub cur: Cur, pub pure: bool, pub no: u32 }

pub const OPS: &[&str] = &["walk_new", "walk_forward", "walk_next", "walk_to_parent", "walk_get_parent", "walk_to_child", "walk_to_sib", "walk_revisit", "walk_back", "walk_drop", "walk_full", "walk_run", "walk_default", "walk_move"];
pub mod op {
    pub const W0: u16 = 60;
    pub const NEW: u16 = 60; pub const FWD: u16 = 61; pub const NEXT: u16 = 62; pub const PARENT: u16 = 63; pub const GETP: u16 = 64; pub const CHILD: u16 = 65; pub const SIB: u16 = 66;
    pub const REVISIT: u16 = 67; pub const BACK: u16 = 68; pub const DROP: u16 = 69; pub const FULL: u16 = 70; pub const RUN: u16 = 71; pub const DEFAULT: u16 = 72; pub const MOVE: u16 = 73;
}
pub const F0: usize = 170;
pub const F_END: usize = 190;  // a walk came to its end
pub const F_PAST: usize = 191; // a jump found nothing, then the walk went on
pub const F_MID: usize = 192;  // turned back from the middle of a walk
pub const F_BRANCH: usize = 193; // a walk over more than 3 nodes
pub const F_JUMP: usize = 194; // a jump landed

pub struct World<L: Lay> { pub a: wa::World<L>, pub ws: Vec<Wk<L>> }

fn show_got<L: Lay>(v: &Option<Visit<Tok<L>>>) -> String {
    match v { None => "None".into(), Some(Visit::Begin(n)) => format!("Begin(value {})", n.data().uid), Some(Visit::End(n)) => format!("End(value {})", n.data().uid), Some(Visit::Leaf(n)) => format!("Leaf(value {})", n.data().uid) }
}
fn show_exp(m: &FM, c: &Cur) -> String { match c { Cur::At(p, k) => format!("{k:?}(value {})", at(m, p).uid), Cur::Done => "None (completed)".into(), Cur::Past(p) => format!("None (past the last sibling at depth {})", p.len()) } }

/// Is what the walker shows the item of the cursor?
fn same<L: Lay>(m: &FM, c: &Cur, v: &Option<Visit<Tok<L>>>) -> bool {
    match (c, v) {
        (Cur::At(p, k), Some(v)) => {
            let (kind, n): (K, &Node<Tok<L>>) = match *v { Visit::Begin(n) => (K::Begin, n), Visit::End(n) => (K::End, n), Visit::Leaf(n) => (K::Leaf, n) };
            let e = at(m, p);
            kind == *k && std::ptr::eq(n, v.node()) && n.data().uid == e.uid && n.data().ok() && (e.addr == 0 || ad(n) == e.addr) && n.degree() == e.kids.len()
        }
        (Cur::At(..), None) | (_, Some(_)) => false,
        (_, None) => true,
    }
}

impl<L: Lay> World<L> {
    fn tags(&self, i: usize) -> &'static [&'static str] { if self.ws[i].pure { &["C15", "C16"] } else { &["C16"] } }
    /// All walkers still show what their cursor says.
    fn check_all(&mut self, cx: &mut Cx) -> R<()> {
        for i in 0..self.ws.len() {
            let (w, m) = (&self.ws[i], &self.a.held[i]);
            let st = self.tags(i);
            for _ in 0..2 {
                let v = on!(&w.w, x => x.get());
                if !same(m, &w.cur, &v) { cx.fail(st, format!("get() shows {}, expected {}", show_got(&v), show_exp(m, &w.cur))); return Err(Stop) }
            }
            let gp = on!(&w.w, x => x.get_parent());
            let ep = parent_of(&w.cur).map(|p| at(m, &p));
            if gp.map(|n| n.data().uid) != ep.map(|e| e.uid) { cx.fail(&["C16", "C15"], format!("get_parent() is {:?}, expected {:?}, at {}", gp.map(|n| n.data().uid), ep.map(|e| e.uid), show_exp(m, &w.cur))); return Err(Stop) }
            cx.l(match &w.cur { Cur::Done => 1, Cur::At(p, k) => 4 + p.len() as u64 * 8 + *k as u64, Cur::Past(p) => 2 + p.len() as u64 * 8 });
        }
        Ok(())
    }
    fn result(&self, i: usize, got: bool, exp: bool, v: String, what: &str, cx: &mut Cx) -> R<()> {
        if got != exp { cx.fail(self.tags(i), format!("{what} returns {v}, expected {}", show_exp(&self.a.held[i], &self.ws[i].cur))); return Err(Stop) }
        Ok(())
    }
    fn give_back(&mut self, i: usize, cx: &mut Cx) {
        let w = self.ws.remove(i);
        let mut m = self.a.held.remove(i);
        if !matches!(w.cur, Cur::Done) && m.count() > 1 { cx.feat(F_MID) }
        match w.w {
            AnyWalk::T(x) => { let t = Tree::from(x); self.a.slots.push(S::T(t, m.kids.pop().unwrap())) }
            AnyWalk::F(x) => { let f: Forest<Tok<L>> = x.into(); self.a.slots.push(S::F(f, m)) }
        }
    }
    fn observe(&mut self, st: &[&'static str], cx: &mut Cx) -> R<()> {
        for s in self.a.slots.iter_mut() {
            match s { S::T(t, m) => obs_node(t.root(), m, None, st, cx), S::F(f, m) => obs_forest(f, m, st, cx) }
            cx.bail()?;
        }
        self.a.account(st, cx)
    }
    pub fn exec(&mut self, o: &Op, cx: &mut Cx) -> R<()> {
        let [code, a, b, _c, _d] = *o;
        if code < op::W0 { self.a.exec(o, cx)?; return self.check_all(cx) }
        let code = op::W0 + (code - op::W0) % OPS.len() as u16;
        cx.feat(F0 + (code - op::W0) as usize);
        cx.l(code as u64);
        cx.t(|| format!("{:<16} {:?}", OPS[(code - op::W0) as usize], &o[1..]));
        if self.ws.is_empty() && !matches!(code, op::DEFAULT) || code == op::NEW && self.ws.len() < 4 { self.make(a, cx)?; if code == op::NEW { return self.check_all(cx) } }
        let mut st: &[&'static str] = &["C16", "C15"];
        let i = if self.ws.is_empty() { 0 } else { (a % self.ws.len() as u16) as usize };
        // mostly small, sometimes huge
        let n = match b % 16 { 0..=5 => 0, 6..=9 => 1, 10..=12 => (b / 16 % 4) as usize, 13..=14 => (b / 16) as usize, _ => usize::MAX - (b / 16 % 3) as usize };
        match code {
            op::FWD | op::NEXT => self.step(i, code == op::NEXT, cx)?,
            op::RUN => for k in 0..1 + b % 12 { self.step(i, (b >> (k % 8)) & 1 == 1, cx)?; self.check_all(cx)? },
            op::FULL => {
                // on to the end, at most two steps for each node
                let left = 2 * self.a.held[i].count() + 4;
                let mut seen = 0;
                while self.ws[i].cur != Cur::Done && seen < left { self.step(i, (b >> (seen % 8)) & 1 == 1, cx)?; self.check_all(cx)?; seen += 1 }
                for _ in 0..2 { self.step(i, b % 2 == 0, cx)?; self.check_all(cx)? }
                if self.a.held[i].count() > 3 { cx.feat(F_BRANCH) }
            }
            op::GETP => {}
            op::PARENT | op::CHILD | op::SIB => {
                self.ws[i].pure = false;
                let m = &self.a.held[i];
                let (new, exp) = match code { op::PARENT => { let c = to_parent(&self.ws[i].cur); let f = c != Cur::Done; (c, f) } op::CHILD => to_child(m, &self.ws[i].cur, n), _ => to_sib(m, &self.ws[i].cur, n) };
                let was_past = matches!(self.ws[i].cur, Cur::Past(_));
                self.ws[i].cur = new;
                let (name, got, txt) = {
                    let w = &mut self.ws[i];
                    let v = match code { op::PARENT => on!(&mut w.w, x => x.to_parent()), op::CHILD => on!(&mut w.w, x => x.to_child(n)), _ => on!(&mut w.w, x => x.to_sib(n)) };
                    let ok = match &v { None => false, v => same(m, &w.cur, v) };
                    let name = match code { op::PARENT => "to_parent()".to_string(), op::CHILD => format!("to_child({n})"), _ => format!("to_sib({n})") };
                    if v.is_some() && !ok { let s = format!("{name} lands on {}, expected {}{}", show_got(&v), show_exp(m, &w.cur), if exp { "" } else { ", returning None" }); cx.fail(&["C16"], s); return Err(Stop) }
                    (name, v.is_some(), show_got(&v))
                };
                self.result(i, got, exp, txt, &name, cx)?;
                if exp { cx.feat(F_JUMP) }
                if was_past { cx.feat(F_PAST) }
            }
            op::REVISIT => {
                self.ws[i].pure = false;
                let m = &self.a.held[i];
                self.ws[i].cur = revisit(m, &self.ws[i].cur);
                on!(&mut self.ws[i].w, x => x.revisit());
            }
            op::BACK => { st = &["C17"]; self.give_back(i, cx) }
            op::DROP => {
                st = &["C17", "C04"];
                let w = self.ws.remove(i);
                self.a.held.remove(i);
                drop(w);
            }
            op::DEFAULT => {
                let w: ForestWalk<Tok<L>> = ForestWalk::default();
                self.ws.push(Wk { w: AnyWalk::F(w), cur: Cur::Done, pure: true, no: 0 });
                self.a.held.push(FM { kids: vec![], blk: 0 });
                if self.ws.len() > 4 { self.give_back(0, cx); st = &["C17"] }
            }
            op::MOVE => {
                // moving the walker itself changes nothing
                let w = self.ws.remove(i);
                let m = self.a.held.remove(i);
                let w = Box::new(w);
                self.ws.push(*w);
                self.a.held.push(m);
            }
            _ => {}
        }
        cx.t(|| format!("    => {}", self.ws.iter().zip(&self.a.held).map(|(w, m)| format!("{:?} on [{}]", w.cur, m.kids.iter().map(|k| k.show()).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" | ")));
        self.check_all(cx)?;
        if matches!(code, op::BACK | op::DROP | op::NEW | op::DEFAULT) { self.observe(st, cx) } else { self.a.account(&["C16", "C15"], cx) }
    }
    fn step(&mut self, i: usize, next: bool, cx: &mut Cx) -> R<()> {
        let m = &self.a.held[i];
        if matches!(self.ws[i].cur, Cur::Past(_)) { cx.feat(F_PAST) }
        let was = self.ws[i].cur.clone();
        self.ws[i].cur = forward(m, &self.ws[i].cur);
        if was != Cur::Done && self.ws[i].cur == Cur::Done { cx.feat(F_END) }
        if next {
            let st = self.tags(i);
            let w = &mut self.ws[i];
            let v = on!(&mut w.w, x => x.next());
            if !same(m, &w.cur, &v) { let s = format!("next() returns {}, expected {}", show_got(&v), show_exp(m, &w.cur)); cx.fail(st, s); return Err(Stop) }
        } else { on!(&mut self.ws[i].w, x => x.forward()) }
        Ok(())
    }
    fn make(&mut self, a: u16, cx: &mut Cx) -> R<()> {
        self.a.ensure(a);
        self.observe(&["C01"], cx)?; // learns where the nodes are
        let s = self.a.take_any(a / 4).unwrap();
        let (w, m) = match s {
            S::T(t, m) => (AnyWalk::T(TreeWalk::from(t)), FM { kids: vec![m], blk: 0 }),
            S::F(f, m) => (AnyWalk::F(ForestWalk::from(f)), m),
        };
        if m.count() > 3 { cx.feat(F_BRANCH) }
        self.ws.push(Wk { w, cur: start(&m), pure: true, no: 0 });
        self.a.held.push(m);
        Ok(())
    }
}

pub fn run<L: Lay>(case: &Case, store: Store, cx: &mut Cx) -> R<()> {
    let mut w = std::mem::ManuallyDrop::new(World::<L> { a: wa::World::new(store), ws: vec![] });
    cx.big = case.params[1] % 16 == 15;
    for (i, o) in case.ops.iter().enumerate() {
        cx.step = i;
        w.exec(o, cx)?;
    }
    let mut w = std::mem::ManuallyDrop::into_inner(w);
    cx.step = case.ops.len();
    let mut k = case.params[2] as usize;
    let mut r = Ok(());
    while !w.ws.is_empty() && r.is_ok() {
        let i = k % w.ws.len();
        k = k / 2 + 5;
        if k % 3 == 0 { w.give_back(i, cx); r = w.observe(&["C17"], cx) }
        else { drop(w.ws.remove(i)); w.a.held.remove(i); r = w.a.account(&["C17", "C04"], cx) }
        if r.is_ok() { r = w.check_all(cx) }
    }
    if r.is_err() { std::mem::forget(w); return r }
    wa::finish(w.a, case.params[3], cx)
}
