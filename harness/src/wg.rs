//! World G: very large trees (around 65536 nodes, children, handles), where counters narrower than they should be,
//! size classes and thresholds would show. A script over one tree, against an ordered tree.
use crate::util::*;
use crate::wa::{bfs_of, scattered, Store};
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use trees::rc::WeakNode;
use trees::walk::Visit;
use trees::{Forest, ForestWalk, Node, RcNode, Tree, TreeWalk};

pub const F_GIANT: usize = 295;
static LIVE: AtomicI64 = AtomicI64::new(0);
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct G(u32);
fn g(v: u32) -> G { LIVE.fetch_add(1, Relaxed); G(v) }
impl Clone for G { fn clone(&self) -> G { g(self.0) } }
impl Drop for G { fn drop(&mut self) { LIVE.fetch_sub(1, Relaxed); } }
impl fmt::Display for G { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }

const SHIFT: u32 = 1 << 24;
#[derive(Clone)]
struct M { v: u32, k: Vec<M> }
impl M {
    fn count(&self) -> usize { 1 + self.k.iter().map(|m| m.count()).sum::<usize>() }
    fn text(&self, o: &mut String) {
        *o += &self.v.to_string();
        if self.k.is_empty() { return }
        *o += "( ";
        for k in &self.k { k.text(o); *o += " " }
        *o += ")";
    }
    fn bfs(&self) -> Vec<&M> { let mut q = vec![self]; let mut i = 0; while i < q.len() { q.extend(&q[i].k); i += 1 } q }
    /// Values, degrees and descendant counts by level.
    fn levels(&self) -> Vec<(u32, usize, usize)> {
        let mut q = vec![(self, 0)];
        let mut i = 0;
        while i < q.len() { let m = q[i].0; q.extend(m.k.iter().map(|k| (k, i))); i += 1 }
        let mut d = vec![0; q.len()];
        for i in (1..q.len()).rev() { d[q[i].1] += d[i] + 1 }
        q.iter().zip(d).map(|((m, _), d)| (m.v, m.k.len(), d)).collect()
    }
    fn shift(&mut self) { self.v += SHIFT; for k in &mut self.k { k.shift() } }
    fn pre(&self, o: &mut Vec<u32>) { o.push(self.v); for k in &self.k { k.pre(o) } }
    /// The node with most children.
    fn wide(&self) -> (usize, Vec<usize>) {
        let mut best = (self.k.len(), vec![]);
        for (i, k) in self.k.iter().enumerate() { if k.k.is_empty() { continue } let (n, mut p) = k.wide(); if n > best.0 { p.insert(0, i); best = (n, p) } }
        best
    }
    fn at(&mut self, p: &[usize]) -> &mut M { let mut m = self; for &i in p { m = &mut m.k[i] } m }
}
fn pm<T>(p: Pin<&mut Node<T>>) -> &mut Node<T> { unsafe { p.get_unchecked_mut() } }
fn node<'a>(t: &'a mut Tree<G>, p: &[usize]) -> Option<&'a mut Node<G>> { let mut n = pm(t.root_mut()); for &i in p { n = pm(n.iter_mut().nth(i)?) } Some(n) }

fn same(n: &Node<G>, m: &M, up: Option<&Node<G>>, st: &[&'static str], cx: &mut Cx) -> usize {
    if !cx.fails.is_empty() || cx.soft.is_some() { return 0 }
    cx.nodes_seen += 1;
    if n.data().0 != m.v { cx.fail(st, format!("a node holds {}, expected {}", n.data().0, m.v)); return 0 }
    if n.parent().map(|x| x as *const _) != up.map(|x| x as *const _) { cx.fail(&["C03", st[0]], format!("parent() of {} is wrong", m.v)) }
    if n.degree() != m.k.len() || n.has_no_child() != m.k.is_empty() { cx.fail(&["C02", st[0]], format!("degree() of {} is {}, expected {}", m.v, n.degree(), m.k.len())) }
    let mut c = 1;
    let mut it = n.iter();
    for (i, k) in m.k.iter().enumerate() {
        if it.len() != m.k.len() - i { cx.fail(&["C07"], format!("iter().len() is {} with {} left", it.len(), m.k.len() - i)); return 0 }
        match it.next() { Some(x) => c += same(x, k, Some(n), st, cx), None => { cx.fail(st, format!("{} has {i} children, expected {}", m.v, m.k.len())); return 0 } }
    }
    if it.next().is_some() { cx.fail(st, format!("{} has more than {} children", m.v, m.k.len())) }
    if n.front().map(|x| x.data().0) != m.k.first().map(|m| m.v) || n.back().map(|x| x.data().0) != m.k.last().map(|m| m.v) { cx.fail(&["C03", st[0]], "front() or back() is wrong".into()) }
    if n.node_count() != c && cx.fails.is_empty() { cx.fail(&["C02", st[0]], format!("node_count() of {} is {}, expected {c}", m.v, n.node_count())) }
    c
}
fn live(exp: usize, st: &[&'static str], cx: &mut Cx) {
    let n = LIVE.load(Relaxed);
    if n != exp as i64 { cx.fail(st, format!("{n} values are alive, expected {exp}")) }
}
fn hash(t: &Tree<G>) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

pub fn run(case: &Case, store: Store, cx: &mut Cx) -> R<()> {
    let mut r = Rng::new((case.params[2] as u64) << 16 | case.params[3] as u64);
    LIVE.store(0, Relaxed);
    cx.feat(F_GIANT);
    let n = match r.below(4) { 0 => 65_536 + r.below(3), 1 => 65_400 + r.below(300), 2 => 66_000 + r.below(2000), _ => 33_000 + r.below(300) };
    let kind = r.below(6);
    let deep = if kind == 5 { if cfg!(feature = "sysalloc") { 800 } else { 2500 } } else { 300 }; // sanitized frames are large
    let mut par = vec![0usize; n];
    for i in 1..n { par[i] = match kind { 0 => 0, 1 => if i < 4 { 0 } else { 2 }, 2 => (i - 1) / 2, 3 => if i <= n / 2 { 0 } else { i - n / 2 }, _ => if i < deep { i - 1 } else { deep / 2 } } }
    let mut m = { let mut ms: Vec<Option<M>> = (0..n).map(|i| Some(M { v: i as u32, k: vec![] })).collect(); for i in (1..n).rev() { let x = ms[i].take().unwrap(); ms[par[i]].as_mut().unwrap().k.push(x) } let mut m = ms[0].take().unwrap(); fn rev(m: &mut M) { m.k.reverse(); for k in &mut m.k { rev(k) } } rev(&mut m); m };
    let ts: Vec<G> = (0..n).map(|i| g(i as u32)).collect();
    let piled = match store { Store::AsIs => r.chance(1, 2), Store::Scattered => { r.chance(1, 2); false } Store::Piled => { r.chance(1, 2); true } };
    let mut t = std::mem::ManuallyDrop::new(if piled { Tree::from(bfs_of(&par, ts)) } else { scattered(&par, ts, 1) });
    cx.t(|| format!("{n} nodes, shape {kind}, contiguous: {piled}"));
    same(t.root(), &m, None, &["C01", "C13", "C34"], cx);
    cx.bail()?;
    let mut next = n as u32;
    for step in 0..4 {
        cx.step = step;
        let act = if r.chance(1, 2) { 11 + r.below(3) } else { r.below(11) };
        cx.t(|| format!("act {act}"));
        let (deg, p) = m.wide();
        let st: &[&'static str] = match act {
            0 => {
                let b = t.bfs();
                if b.size.degree != 1 || b.size.descendants + 1 != m.count() { cx.fail(&["C12"], format!("bfs() announces {:?}", (b.size.degree, b.size.descendants))) }
                let e = m.bfs();
                let mut i = 0;
                for v in b.iter { if i >= e.len() || v.data.0 != e[i].v || v.size.degree != e[i].k.len() { cx.fail(&["C12"], format!("bfs() yields a wrong node after {i}")); break } i += 1 }
                if i != e.len() && cx.fails.is_empty() { cx.fail(&["C12"], format!("bfs() yields {i} of {} nodes", e.len())) }
                &["C12"]
            }
            1 => {
                let c = std::mem::ManuallyDrop::new((**t).deep_clone());
                live(2 * m.count(), &["C14", "C04"], cx);
                same(c.root(), &m, None, &["C14"], cx);
                cx.bail()?;
                if *c != *t || *c < *t || (*c).partial_cmp(&*t) != Some(std::cmp::Ordering::Equal) || (*c).cmp(&*t) != std::cmp::Ordering::Equal { cx.fail(&["C19", "C14"], "a clone is not equal".into()) }
                if hash(&c) != hash(&t) { cx.fail(&["C20"], "a clone hashes differently".into()) }
                let mut c = std::mem::ManuallyDrop::into_inner(c);
                if let Some(x) = node(&mut c, &p) { x.push_back(Tree::new(g(next))) }
                if c == *t || c <= *t || c.cmp(&*t) != std::cmp::Ordering::Greater { cx.fail(&["C19"], "a tree with one more child is not greater".into()) }
                drop(c);
                live(m.count(), &["C14", "C04"], cx);
                &["C14"]
            }
            2 => {
                let old = std::mem::ManuallyDrop::into_inner(std::mem::replace(&mut t, std::mem::ManuallyDrop::new(Tree::new(g(0)))));
                drop(std::mem::replace(&mut *t, Tree::from(old.into_bfs())));
                &["C13", "C04"]
            }
            3 => {
                let mut e = String::new();
                m.text(&mut e);
                if t.to_string() != e { cx.fail(&["C18"], "the text is wrong".into()) }
                &["C18"]
            }
            4 => {
                let old = std::mem::ManuallyDrop::into_inner(std::mem::replace(&mut t, std::mem::ManuallyDrop::new(Tree::new(g(0)))));
                let mut w = std::mem::ManuallyDrop::new(TreeWalk::from(old));
                let mut e = vec![];
                m.pre(&mut e);
                let mut i = 0;
                let full = r.chance(1, 2);
                while full {
                    match w.get() {
                        None => break,
                        Some(Visit::Begin(x)) | Some(Visit::Leaf(x)) => { if i >= e.len() || x.data().0 != e[i] { cx.fail(&["C15"], format!("a walk visits a wrong node after {i}")); return Err(Stop) } i += 1 }
                        _ => {}
                    }
                    w.forward();
                }
                if full && i != e.len() { cx.fail(&["C15"], format!("a walk visits {i} of {} nodes", e.len())) }
                if full { w.revisit() }
                for &j in &p { w.to_child(j); }
                let k = r.below(deg);
                let got = w.to_child(k).map(|v| v.node().data().0);
                let q = m.at(&p);
                if got != Some(q.k[k].v) { cx.fail(&["C16"], format!("to_child({k}) lands on {got:?}")) }
                let j = r.below(deg - k + 2);
                let got = w.to_sib(j).map(|v| v.node().data().0);
                let exp = q.k.get(k + j).map(|m| m.v);
                if got != exp { cx.fail(&["C16"], format!("to_sib({j}) from child {k} of {deg} lands on {got:?}, expected {exp:?}")) }
                let old = Tree::from(std::mem::ManuallyDrop::into_inner(w));
                drop(std::mem::replace(&mut *t, old));
                &["C17", "C15", "C16"]
            }
            5 | 6 => {
                for _ in 0..3 + r.below(8) {
                    let q = m.at(&p);
                    let Some(x) = node(&mut t, &p) else { cx.fail(&["C01"], "a child is missing".into()); return Err(Stop) };
                    if q.k.is_empty() { break }
                    let k = r.below(q.k.len());
                    let mut new = || { next += 1; (Tree::new(g(next)), M { v: next, k: vec![] }) };
                    let mut out = None;
                    match r.below(10) {
                        0 => { let (a, b) = new(); x.push_front(a); q.k.insert(0, b) }
                        1 => { let (a, b) = new(); x.push_back(a); q.k.push(b) }
                        2 => { let (a, b) = new(); match x.iter_mut().nth(k) { Some(y) => { pm(y).insert_prev_sib(a); q.k.insert(k, b) } None => cx.fail(&["C07"], "nth() finds no child".into()) } }
                        3 => { let (a, b) = new(); match x.iter_mut().nth(k) { Some(y) => { pm(y).insert_next_sib(a); q.k.insert(k + 1, b) } None => cx.fail(&["C07"], "nth() finds no child".into()) } }
                        4 => match x.iter_mut().nth(k) { Some(y) => out = Some((pm(y).detach(), q.k.remove(k))), None => cx.fail(&["C07"], "nth() finds no child".into()) },
                        5 => if let Some(a) = x.pop_front() { out = Some((a, q.k.remove(0))) },
                        6 => if let Some(a) = x.pop_back() { out = Some((a, q.k.pop().unwrap())) },
                        7 => { let mut f = Forest::new(); let mut ms = vec![]; for _ in 0..300 { let (a, b) = new(); f.push_back(a); ms.push(b) } x.append(f); q.k.extend(ms) }
                        8 => { let mut f = Forest::new(); let mut ms = vec![]; for _ in 0..300 { let (a, b) = new(); f.push_back(a); ms.push(b) } x.prepend(f); ms.append(&mut q.k); q.k = ms }
                        _ => {
                            // every other child leaves, one by one
                            let mut i = 0;
                            let mut keep = vec![];
                            let old = std::mem::take(&mut q.k);
                            let d = old.len();
                            for (y, mm) in x.iter_mut().zip(old) { if i % 2 == 0 && d > 40_000 { drop(pm(y).detach()) } else { keep.push(mm) } i += 1 }
                            if i != d { cx.fail(&["C08", "C07"], format!("iter_mut() yields {i} of {d} children")) }
                            q.k = keep;
                        }
                    }
                    if let Some((a, b)) = out { same(a.root(), &b, None, &["C01"], cx); cx.bail()?; }
                }
                &["C01", "C08"]
            }
            7 => {
                let f = t.abandon();
                let ms = std::mem::take(&mut m.k);
                if f.degree() != ms.len() || f.node_count() != ms.iter().map(|m| m.count()).sum::<usize>() { cx.fail(&["C02", "C01"], "an abandoned forest has wrong sizes".into()) }
                let back = if r.chance(1, 2) {
                    let mut it = f.into_iter();
                    let mut i = 0;
                    let mut to = Forest::new();
                    let mut kept = vec![];
                    while i < ms.len() {
                        if it.len() != ms.len() - i { cx.fail(&["C07"], format!("into_iter().len() is {} with {} left", it.len(), ms.len() - i)); break }
                        let skip = if r.chance(1, 50) { r.below(4000) } else { 0 };
                        let x = it.nth(skip);
                        i += skip + 1;
                        match (x, ms.get(i - 1)) { (Some(x), Some(b)) => { if x.data().0 != b.v { cx.fail(&["C07", "C04"], "into_iter() yields a wrong tree".into()) } to.push_back(x); kept.push(b.clone()) } (None, None) => {} _ => { cx.fail(&["C07"], "into_iter() ends at a wrong place".into()); break } }
                    }
                    drop(it);
                    m.k = kept;
                    to
                } else if r.chance(1, 2) {
                    m.k = ms;
                    let mut w = ForestWalk::from(f);
                    let k = r.below(m.k.len() + 1);
                    let got = w.to_sib(k).map(|v| v.node().data().0);
                    let exp = m.k.get(k).map(|m| m.v);
                    if got != exp { cx.fail(&["C16"], format!("to_sib({k}) in a forest lands on {got:?}, expected {exp:?}")) }
                    Forest::from(w)
                } else { m.k = ms; Forest::from(f.into_bfs()) };
                t.append(back);
                &["C01", "C04", "C13"]
            }
            8 => {
                // all children of the widest node are held
                let old = std::mem::ManuallyDrop::into_inner(std::mem::replace(&mut t, std::mem::ManuallyDrop::new(Tree::new(g(0)))));
                let root = RcNode::from(old);
                let mut x = root.clone();
                for &i in &p { match x.iter_rc().nth(i) { Some(y) => x = y, None => { cx.fail(&["C21"], "a child is missing".into()); return Err(Stop) } } }
                let q = m.at(&p);
                let hs: Vec<RcNode<G>> = x.iter_rc().collect();
                if hs.len() != deg || x.degree() != deg { cx.fail(&["C21", "C07"], format!("iter_rc() yields {} of {deg} children", hs.len())); return Err(Stop) }
                for (h, k) in hs.iter().zip(&q.k) { if h.data().0 != k.v || h.is_root() || h.degree() != k.k.len() { cx.fail(&["C21"], "a handle shows another node".into()); break } }
                let ws: Vec<WeakNode<G>> = hs.iter().map(|h| h.downgrade()).collect();
                if r.chance(1, 2) {
                    let kids: usize = q.k.iter().map(|k| k.count()).sum();
                    drop(root);
                    drop(x);
                    live(kids + 1, &["C22"], cx); // and the place holder
                    for (h, k) in hs.iter().zip(&q.k) { if !h.is_root() || h.data().0 != k.v { cx.fail(&["C22"], "a child that survived is no root".into()); break } }
                    let mut i = 0;
                    let mut left = 0;
                    let hs: Vec<RcNode<G>> = hs.into_iter().filter(|_| { i += 1; i % 3 == 0 }).collect();
                    for (i, (w, k)) in ws.iter().zip(&q.k).enumerate() {
                        let u = w.upgrade();
                        if u.is_some() != (i % 3 == 2) { std::mem::forget(u); cx.fail(&["C23", "C22"], format!("a weak handle to child {i} upgrades wrongly")); return Err(Stop) }
                        if let Some(u) = u { left += k.count(); if u.data().0 != k.v { cx.fail(&["C23"], "a weak handle finds another node".into()); break } }
                    }
                    live(left + 1, &["C22"], cx);
                    drop(hs);
                    live(1, &["C22", "C24"], cx);
                    drop(ws);
                    *m.at(&[]) = M { v: 0, k: vec![] };
                } else {
                    drop(hs);
                    drop(x);
                    for (w, k) in ws.iter().zip(&q.k) { match w.upgrade() { Some(u) if u.data().0 == k.v => {} _ => { cx.fail(&["C23"], "a weak handle does not find its node".into()); break } } }
                    drop(ws);
                    let old = unsafe { root.into_tree() };
                    drop(std::mem::replace(&mut *t, old));
                }
                &["C21", "C22", "C26", "C24"]
            }
            9 => {
                // very many handles to one node
                let old = std::mem::ManuallyDrop::into_inner(std::mem::replace(&mut t, std::mem::ManuallyDrop::new(Tree::new(g(0)))));
                let root = RcNode::from(old);
                let inner = r.chance(1, 2) && root.front().is_some();
                let h = if inner { root.front().unwrap() } else { root.clone() };
                let e = if inner { m.k[0].v } else { m.v };
                let k = 65_530 + r.below(20);
                let hs: Vec<RcNode<G>> = (0..k).map(|_| h.clone()).collect();
                let ws: Vec<WeakNode<G>> = (0..k).map(|_| h.downgrade()).collect();
                drop(h);
                if hs[k - 1].data().0 != e || hs[0].data().0 != e { cx.fail(&["C21", "C22"], "one of many handles shows another node".into()) }
                drop(hs);
                live(m.count() + 1, &["C22"], cx);
                match ws[r.below(k)].upgrade() { Some(u) if u.data().0 == e => {} _ => cx.fail(&["C23"], "one of many weak handles does not find its node".into()) }
                drop(ws);
                live(m.count() + 1, &["C23", "C22"], cx);
                let old = unsafe { root.into_tree() };
                drop(std::mem::replace(&mut *t, old));
                &["C21", "C22", "C26", "C24"]
            }
            11 => {
                // other traversals by level, from any node
                let q = m.at(&p);
                let Some(x) = node(&mut t, &p) else { cx.fail(&["C01"], "a child is missing".into()); return Err(Stop) };
                let mut e = q.levels();
                let way = r.below(4);
                let (kids, (mut sd, mut sn)) = (way > 1, (1, e[0].2));
                if kids { sd = e[0].1; sn = e[0].2; e.remove(0); }
                let mut i = 0;
                macro_rules! go { ($b:expr, $d:ident, $act:expr) => {{
                    let b = $b;
                    if b.size.degree != sd || b.size.descendants != sn { cx.fail(&["C12"], format!("the traversal announces {:?}, expected {:?}", (b.size.degree, b.size.descendants), (sd, sn))) }
                    for y in b.iter {
                        let $d = y.data;
                        if i >= e.len() || ($d.0, y.size.degree, y.size.descendants) != e[i] { cx.fail(&["C12"], format!("the traversal yields a wrong node after {i}: {:?}, expected {:?}", ($d.0, y.size.degree, y.size.descendants), e.get(i))); break }
                        $act;
                        i += 1
                    }
                }} }
                match way { 0 => go!(x.bfs(), d, ()), 1 => go!(x.bfs_mut(), d, d.0 += SHIFT), 2 => go!(x.bfs_children(), d, ()), _ => go!(x.bfs_children_mut(), d, d.0 += SHIFT) }
                if i != e.len() && cx.fails.is_empty() { cx.fail(&["C12"], format!("the traversal yields {i} of {} nodes", e.len())) }
                if way == 1 { q.shift() }
                if way == 3 { for k in &mut q.k { k.shift() } }
                &["C12"]
            }
            12 => {
                // edits through handles at the widest node
                let old = std::mem::ManuallyDrop::into_inner(std::mem::replace(&mut t, std::mem::ManuallyDrop::new(Tree::new(g(0)))));
                let root = RcNode::from(old);
                let mut x = root.clone();
                for &i in &p { match x.iter_rc().nth(i) { Some(y) => x = y, None => { cx.fail(&["C21"], "a child is missing".into()); return Err(Stop) } } }
                let q = m.at(&p);
                for _ in 0..2 + r.below(6) {
                    if q.k.is_empty() { break }
                    let k = r.below(q.k.len());
                    let mut new = || { next += 1; (Tree::new(g(next)), M { v: next, k: vec![] }) };
                    let mut out = None;
                    let kid = |k: usize, cx: &mut Cx| { let y = x.iter_rc().nth(k); if y.is_none() { cx.fail(&["C21", "C07"], "iter_rc().nth() finds no child".into()) } y.ok_or(Stop) };
                    let what = r.below(11);
                    match what {
                        0 => { let (a, b) = new(); x.push_front(a); q.k.insert(0, b) }
                        1 => { let (a, b) = new(); x.push_back(a); q.k.push(b) }
                        2 => { let (a, b) = new(); kid(k, cx)?.insert_prev_sib(a); q.k.insert(k, b) }
                        3 => { let (a, b) = new(); kid(k, cx)?.insert_next_sib(a); q.k.insert(k + 1, b) }
                        4 => { let y = kid(k, cx)?; y.detach(); out = Some((y, q.k.remove(k))) }
                        5 => if let Some(y) = x.pop_front() { out = Some((y, q.k.remove(0))) },
                        6 => if let Some(y) = x.pop_back() { out = Some((y, q.k.pop().unwrap())) },
                        7 | 8 => {
                            let mut f = Forest::new();
                            let mut ms = vec![];
                            for _ in 0..300 { let (a, b) = new(); f.push_back(a); ms.push(b) }
                            if what == 7 { x.append(f); q.k.extend(ms) } else { x.prepend(f); ms.append(&mut q.k); q.k = ms }
                        }
                        9 => { let mut ts = vec![]; for _ in 0..300 { let (a, b) = new(); ts.push(a); q.k.push(b) } x.clone().extend(ts) }
                        _ => {
                            // an iterator runs while the children it has yielded leave
                            let d = q.k.len();
                            let old = std::mem::take(&mut q.k);
                            let every = 2 + r.below(5);
                            let mut it = x.iter_rc();
                            for (i, mm) in old.into_iter().enumerate() {
                                if it.size_hint() != (d - i, Some(d - i)) { cx.fail(&["C07", "C27"], format!("iter_rc().size_hint() is {:?} with {} left", it.size_hint(), d - i)); return Err(Stop) }
                                let Some(y) = it.next() else { cx.fail(&["C08", "C27", "C07"], format!("iter_rc() ends after {i} of {d} children")); return Err(Stop) };
                                if y.data().0 != mm.v { cx.fail(&["C08", "C27", "C07"], format!("iter_rc() yields a wrong child after {i} of {d}")); return Err(Stop) }
                                if i % every == 0 { y.detach() } else { q.k.push(mm) }
                            }
                            if it.next().is_some() { cx.fail(&["C08", "C27", "C07"], format!("iter_rc() yields more than {d} children")) }
                        }
                    }
                    if let Some((y, b)) = out {
                        if !y.is_root() || y.data().0 != b.v || y.node_count() != b.count() { cx.fail(&["C21", "C22"], "a child taken out is not what it was".into()) }
                        drop(y);
                    }
                    if x.degree() != q.k.len() { cx.fail(&["C02", "C21"], format!("degree() is {}, expected {}", x.degree(), q.k.len())) }
                    cx.bail()?;
                }
                drop(x);
                drop(std::mem::replace(&mut *t, unsafe { root.into_tree() }));
                &["C21", "C22", "C08", "C27", "C26"]
            }
            13 => {
                // the children as a forest
                let Some(x) = node(&mut t, &p) else { cx.fail(&["C01"], "a child is missing".into()); return Err(Stop) };
                let mut f = Forest::new();
                let q = m.at(&p);
                let mut k = std::mem::take(&mut q.k);
                while let Some(a) = x.pop_back() { f.push_front(a) }
                for _ in 0..2 + r.below(6) {
                    if k.is_empty() { break }
                    let i = r.below(k.len());
                    let mut new = || { next += 1; (Tree::new(g(next)), M { v: next, k: vec![] }) };
                    let mut out = None;
                    match r.below(12) {
                        0 => { let (a, b) = new(); f.push_front(a); k.insert(0, b) }
                        1 => { let (a, b) = new(); f.push_back(a); k.push(b) }
                        2 => { let (a, b) = new(); match f.iter_mut().nth(i) { Some(y) => { pm(y).insert_prev_sib(a); k.insert(i, b) } None => cx.fail(&["C07"], "nth() finds no tree".into()) } }
                        3 => { let (a, b) = new(); match f.iter_mut().nth(i) { Some(y) => { pm(y).insert_next_sib(a); k.insert(i + 1, b) } None => cx.fail(&["C07"], "nth() finds no tree".into()) } }
                        4 => match f.iter_mut().nth(i) { Some(y) => out = Some((pm(y).detach(), k.remove(i))), None => cx.fail(&["C07"], "nth() finds no tree".into()) },
                        5 => if let Some(a) = f.pop_front() { out = Some((a, k.remove(0))) },
                        6 => if let Some(a) = f.pop_back() { out = Some((a, k.pop().unwrap())) },
                        c @ (7 | 8) => {
                            // split in two, and joined at either end
                            let mut h = Forest::new();
                            let mut ms = vec![];
                            for j in 0..k.len() - i { match f.pop_back() { Some(a) => h.push_front(a), None => { cx.fail(&["C01"], format!("a forest ends {j} trees too early")); break } } }
                            ms.extend(k.drain(i..));
                            if h.degree() != ms.len() || f.degree() != k.len() { cx.fail(&["C02"], "the degree of a part is wrong".into()) }
                            if c == 7 { f.append(h); k.extend(ms) } else { f.prepend(h); ms.append(&mut k); k = ms }
                        }
                        9 => {
                            let c = f.clone();
                            if c != f || c < f || c.cmp(&f) != std::cmp::Ordering::Equal { cx.fail(&["C19", "C14"], "a cloned forest is not equal".into()) }
                            let (mut a, mut b) = (DefaultHasher::new(), DefaultHasher::new());
                            c.hash(&mut a);
                            f.hash(&mut b);
                            if a.finish() != b.finish() { cx.fail(&["C20"], "a cloned forest hashes differently".into()) }
                            drop(std::mem::replace(&mut f, c));
                        }
                        10 => {
                            let all = M { v: 0, k: k.clone() };
                            let e = all.levels();
                            let b = f.bfs();
                            if (b.size.degree, b.size.descendants) != (e[0].1, e[0].2) { cx.fail(&["C12"], format!("bfs() of a forest announces {:?}", (b.size.degree, b.size.descendants))) }
                            let mut i = 1;
                            for y in b.iter { if e.get(i) != Some(&(y.data.0, y.size.degree, y.size.descendants)) { cx.fail(&["C12"], format!("bfs() of a forest yields a wrong node after {i}")); break } i += 1 }
                            if i != e.len() && cx.fails.is_empty() { cx.fail(&["C12"], format!("bfs() of a forest yields {i} of {} nodes", e.len())) }
                        }
                        _ => { let mut e = String::from("( "); for x in &k { x.text(&mut e); e += " " } e += ")"; if f.to_string() != e { cx.fail(&["C18"], "the text of a forest is wrong".into()) } }
                    }
                    if let Some((a, b)) = out { same(a.root(), &b, None, &["C01"], cx); cx.bail()?; }
                    if f.degree() != k.len() || f.iter().len() != k.len() { cx.fail(&["C02", "C07"], format!("degree() of a forest is {}, expected {}", f.degree(), k.len())) }
                    if f.front().map(|x| x.data().0) != k.first().map(|m| m.v) || f.back().map(|x| x.data().0) != k.last().map(|m| m.v) { cx.fail(&["C03", "C01"], "an end of a forest is wrong".into()) }
                    cx.bail()?;
                }
                if f.node_count() != k.iter().map(|m| m.count()).sum::<usize>() { cx.fail(&["C02"], "node_count() of a forest is wrong".into()) }
                match node(&mut t, &p) { Some(x) => if r.chance(1, 2) { x.append(f) } else { x.prepend(f) }, None => cx.fail(&["C01"], "a node is missing".into()) }
                m.at(&p).k = k;
                &["C01", "C08", "C13"]
            }
            _ => {
                let c = std::mem::ManuallyDrop::into_inner(std::mem::replace(&mut t, std::mem::ManuallyDrop::new(Tree::new(g(0)))));
                let rc = RcNode::from(c);
                let d = std::mem::ManuallyDrop::new(rc.deep_clone());
                same(d.root(), &m, None, &["C14"], cx);
                cx.bail()?;
                drop(rc);
                live(m.count() + 1, &["C22", "C14"], cx);
                drop(std::mem::replace(&mut *t, std::mem::ManuallyDrop::into_inner(d)));
                &["C14"]
            }
        };
        let n = same(t.root(), &m, None, st, cx);
        cx.l(act as u64);
        cx.l(n as u64);
        if cx.soft.is_some() { return Err(Stop) }
        if cx.fails.is_empty() { live(n, &["C04", st[0]], cx) }
        cx.bail()?;
        if m.k.is_empty() { break }
    }
    drop(std::mem::ManuallyDrop::into_inner(t));
    live(0, &["C04", "C05", "C22"], cx);
    cx.bail()
}
