//! What one case does.
use crate::sys::{self, fail, spawn, D};
use trees::bfs;
use trees::{Forest, ForestWalk, Node, RcNode, Size, Tree, TreeWalk};
use vt::util::{shape, Case, Rng};

#[derive(Clone, Debug, PartialEq)]
pub struct M { v: u32, k: Vec<M> }
fn count(m: &[M]) -> usize { m.iter().map(|m| 1 + count(&m.k)).sum() }
fn text(m: &M, o: &mut String) { *o += &m.v.to_string(); if !m.k.is_empty() { *o += "( "; for k in &m.k { text(k, o); *o += " " } *o += ")" } }
/// The n-th node in preorder, as a path.
fn path(m: &[M], mut n: usize) -> Vec<usize> {
    for (i, t) in m.iter().enumerate() {
        let c = 1 + count(&t.k);
        if n < c { let mut p = vec![i]; if n > 0 { p.extend(path(&t.k, n - 1)) } return p }
        n -= c;
    }
    vec![]
}
fn at<'a>(m: &'a mut Vec<M>, p: &[usize]) -> &'a mut M { let (i, r) = p.split_first().unwrap(); if r.is_empty() { &mut m[*i] } else { at(&mut m[*i].k, r) } }
fn kids<'a>(m: &'a mut Vec<M>, p: &[usize]) -> &'a mut Vec<M> { if p.is_empty() { m } else { &mut at(m, p).k } }

/// A tree or forest with what it should hold; a tree's model has one element.
pub enum P { T(Tree<D>, Vec<M>), F(Forest<D>, Vec<M>) }
pub enum Wk { T(TreeWalk<D>, Vec<M>), F(ForestWalk<D>, Vec<M>) }
impl P {
    fn m(&mut self) -> &mut Vec<M> { match self { P::T(_, m) | P::F(_, m) => m } }
    fn n(&self) -> usize { match self { P::T(_, m) | P::F(_, m) => count(m) } }
    fn walk(self) -> Wk { match self { P::T(t, m) => Wk::T(TreeWalk::from(t), m), P::F(f, m) => Wk::F(ForestWalk::from(f), m) } }
    fn node(&mut self, p: &[usize]) -> Option<&mut Node<D>> {
        fn down<'a>(n: &'a mut Node<D>, p: &[usize]) -> Option<&'a mut Node<D>> { match p.split_first() { None => Some(n), Some((i, r)) => down(unsafe { n.iter_mut().nth(*i)?.get_unchecked_mut() }, r) } }
        match self {
            P::T(t, _) => down(unsafe { t.root_mut().get_unchecked_mut() }, &p[1..]),
            P::F(f, _) => down(unsafe { f.iter_mut().nth(p[0])?.get_unchecked_mut() }, &p[1..]),
        }
    }
    fn check(&self, what: &str) {
        fn same(n: &Node<D>, m: &M) -> bool {
            n.data().ok() && n.data().val == m.v && n.degree() == m.k.len() && n.node_count() == 1 + count(&m.k) && n.iter().len() == m.k.len() && n.iter().zip(&m.k).all(|(n, m)| same(n, m))
        }
        let ok = match self {
            P::T(t, m) => same(t.root(), &m[0]) && t.root().parent().is_none(),
            P::F(f, m) => f.degree() == m.len() && f.node_count() == count(m) && f.iter().zip(m).all(|(n, m)| same(n, m)),
        };
        if !ok { fail(format!("{what}: the structure differs from what the operations denote")) }
    }
}
impl Wk {
    fn back(self) -> P { match self { Wk::T(w, m) => P::T(Tree::from(w), m), Wk::F(w, m) => P::F(Forest::from(w), m) } }
}
fn seq(m: &[M], o: &mut Vec<(u8, u32)>) { for t in m { if t.k.is_empty() { o.push((0, t.v)) } else { o.push((1, t.v)); seq(&t.k, o); o.push((2, t.v)) } } }
macro_rules! kind { ($v:expr) => { match $v { trees::walk::Visit::Leaf(n) => (0u8, n.data().val), trees::walk::Visit::Begin(n) => (1, n.data().val), trees::walk::Visit::End(n) => (2, n.data().val) } } }
macro_rules! walk_all { ($w:expr, $m:expr, $what:expr) => {{
    let mut want = vec![];
    seq($m, &mut want);
    let mut got = vec![];
    while let Some(v) = $w.get() { got.push(kind!(v)); $w.forward(); if got.len() > want.len() + 2 { break } }
    if got != want { fail(format!("{}: the walk gives {got:?}, expected {want:?}", $what)) }
}} }
macro_rules! jump { ($w:expr, $r:expr) => { for _ in 0..$r.below(12) {
    let k = $r.below(4);
    let bad = match $r.below(7) {
        0 | 1 => $w.next().map_or(false, |v| !v.node().data().ok()),
        2 => { $w.forward(); false }
        3 => $w.to_child(k).map_or(false, |v| !v.node().data().ok()),
        4 => $w.to_sib(k).map_or(false, |v| !v.node().data().ok()),
        5 => $w.to_parent().map_or(false, |v| !v.node().data().ok()),
        _ => { $w.revisit(); $w.get_parent().map_or(false, |n| !n.data().ok()) }
    };
    if bad { fail("a walker shows a damaged value".into()) }
} } }

pub const OPS: &[&str] = &["push", "pop", "detach", "drop", "graft", "walk", "jump", "clone", "bfs_rebuild", "into_iter", "share", "abandon", "text", "set", "prepend"];
/// The operations of one actor on its pieces.
fn script(ps: &mut Vec<P>, ops: &[[u16; 5]], who: u32, feats: &mut [u32; 32]) {
    let mut fresh = (who + 1) * 10_000;
    let mut new = || { fresh += 1; fresh };
    for o in ops {
        let [_, code, a, b, c] = *o;
        if ps.is_empty() { ps.push(P::T(Tree::new(D::new(7)), vec![M { v: 7, k: vec![] }])) }
        if c % 5 == 0 { sys::yield_now() }
        let i = a as usize % ps.len();
        let n = ps[i].n();
        let p = if n == 0 { vec![] } else { path(ps[i].m(), b as usize % n) };
        let code = code as usize % OPS.len();
        feats[code] += 1;
        let total: usize = ps.iter().map(|p| p.n()).sum();
        match code {
            0 => { // push
                let v = new();
                let t = Tree::new(D::new(v));
                let front = c & 1 == 0;
                if p.is_empty() { if let P::F(f, _) = &mut ps[i] { if front { f.push_front(t) } else { f.push_back(t) } } }
                else { let n = ps[i].node(&p).unwrap(); if front { n.push_front(t) } else { n.push_back(t) } }
                let k = kids(ps[i].m(), &p);
                let x = M { v, k: vec![] };
                if front { k.insert(0, x) } else { k.push(x) }
            }
            1 => { // pop
                let front = c & 1 == 0;
                let top = c & 6 == 6 && matches!(ps[i], P::F(..));
                let q = if top { vec![] } else { p };
                let t = if q.is_empty() { if let P::F(f, _) = &mut ps[i] { if front { f.pop_front() } else { f.pop_back() } } else { None } }
                    else { let n = ps[i].node(&q).unwrap(); if front { n.pop_front() } else { n.pop_back() } };
                let k = kids(ps[i].m(), &q);
                if t.is_some() != !k.is_empty() { fail("pop gives something exactly when there are children: violated".into()); return }
                if let Some(t) = t { let m = if front { k.remove(0) } else { k.pop().unwrap() }; ps.push(P::T(t, vec![m])) }
            }
            2 => { // detach
                if p.is_empty() || (p.len() == 1 && matches!(ps[i], P::T(..))) { continue }
                let t = ps[i].node(&p).unwrap().detach();
                let (l, r) = p.split_last().unwrap();
                let m = kids(ps[i].m(), r).remove(*l);
                ps.push(P::T(t, vec![m]));
            }
            3 => { drop(ps.swap_remove(i)) }
            4 => { // graft: one piece goes under a node of another
                if ps.len() < 2 { continue }
                let x = ps.swap_remove(i);
                let j = b as usize % ps.len();
                let n = ps[j].n();
                if n == 0 { ps.push(x); continue }
                let q = path(ps[j].m(), c as usize % n);
                match x {
                    P::T(t, m) => { ps[j].node(&q).unwrap().push_back(t); kids(ps[j].m(), &q).extend(m) }
                    P::F(f, m) => { ps[j].node(&q).unwrap().append(f); kids(ps[j].m(), &q).extend(m) }
                }
            }
            5 | 6 => {
                let mut w = ps.swap_remove(i).walk();
                let mut r = Rng::new(b as u64);
                if code == 6 { jumps(&mut w, &mut r) }
                else { match &mut w { Wk::T(w, m) => walk_all!(w, m, "tree"), Wk::F(w, m) => walk_all!(w, m, "forest") } }
                ps.push(w.back());
            }
            7 => {
                if total > 120 { continue }
                let x = match &ps[i] { P::T(t, m) => P::T(t.clone(), m.clone()), P::F(f, m) => P::F(f.clone(), m.clone()) };
                ps.push(x);
            }
            8 => {
                let x = match ps.swap_remove(i) { P::T(t, m) => P::T(Tree::from(t.into_bfs()), m), P::F(f, m) => P::F(Forest::from(f.into_bfs()), m) };
                ps.push(x);
            }
            9 => {
                let take = c as usize % 4;
                match ps.swap_remove(i) {
                    P::F(f, m) => { let mut it = f.into_iter(); for m in m.into_iter().take(take) { match it.next() { Some(t) => ps.push(P::T(t, vec![m])), None => fail("into_iter ends early".into()) } } }
                    P::T(t, m) => { let mut t = t; let mut it = t.abandon().into_iter(); for m in m[0].k.iter().take(take) { match it.next() { Some(t) => ps.push(P::T(t, vec![m.clone()])), None => fail("into_iter ends early".into()) } } }
                }
            }
            10 => { // shared ownership for a while, all handles in this thread
                if let P::T(..) = &ps[i] {
                    if let P::T(t, m) = ps.swap_remove(i) {
                        let rc = RcNode::from(t);
                        let mut hs = vec![rc.clone()];
                        let mut ws = vec![rc.downgrade()];
                        for k in rc.iter_rc() { ws.push(k.downgrade()); if c & 2 == 0 { hs.push(k) } }
                        if hs.iter().any(|h| !h.data().ok()) { fail("a handle shows a damaged value".into()) }
                        if rc.degree() != m[0].k.len() || rc.node_count() != count(&m) { fail("a handle reports wrong sizes".into()) }
                        if c & 4 == 0 { hs.extend(ws.iter().filter_map(|w| w.upgrade())) }
                        if c & 8 == 0 { ws.clear() }
                        drop(rc);
                        if c & 1 == 0 { hs.reverse() }
                        hs.clear();
                        if ws.iter().any(|w| w.upgrade().is_some()) { fail("a weak handle finds a dead node".into()) }
                    }
                }
            }
            11 => {
                if let P::T(t, m) = &mut ps[i] {
                    let f = t.abandon();
                    let k = std::mem::take(&mut m[0].k);
                    ps.push(P::F(f, k));
                }
            }
            12 => {
                if let P::T(t, m) = &ps[i] { let mut s = String::new(); text(&m[0], &mut s); if t.to_string() != s { fail(format!("the text is {t}, expected {s}")) } }
            }
            13 => { if !p.is_empty() { let v = new(); ps[i].node(&p).unwrap().data_mut().val = v; at(ps[i].m(), &p).v = v } }
            _ => { // the children of a forest go before those of another node
                let k = ps.iter().position(|p| matches!(p, P::F(..)));
                let Some(k) = k else { continue };
                if ps.len() < 2 { continue }
                if let P::F(f, m) = ps.swap_remove(k) {
                    let j = b as usize % ps.len();
                    let n = ps[j].n();
                    if n == 0 { ps.push(P::F(f, m)); continue }
                    let q = path(ps[j].m(), c as usize % n);
                    ps[j].node(&q).unwrap().prepend(f);
                    let k = kids(ps[j].m(), &q);
                    let old = std::mem::replace(k, m);
                    k.extend(old);
                }
            }
        }
        if ps.iter().map(|p| p.n()).sum::<usize>() > 200 { drop(ps.swap_remove(0)) }
        if !cfg!(miri) { for p in ps.iter() { p.check(OPS[code]) } }
    }
    if cfg!(miri) { for p in ps.iter() { p.check("after the operations") } }
}
fn jumps(w: &mut Wk, r: &mut Rng) { match w { Wk::T(w, _) => jump!(w, r), Wk::F(w, _) => jump!(w, r) } }

/// Reads a walker that other threads read, too.
fn read(w: &Wk, r: &mut Rng) {
    fn node(n: &Node<D>, r: &mut Rng) -> u64 {
        let mut s = n.data().val as u64 + n.degree() as u64 + n.node_count() as u64;
        if !n.data().ok() { fail("a shared walker shows a damaged value".into()) }
        match r.below(5) {
            0 => s += n.iter().map(|k| k.data().val as u64).sum::<u64>(),
            1 => s += n.to_string().len() as u64,
            2 => { let t: Tree<D> = n.deep_clone(); s += t.node_count() as u64; if t.node_count() != n.node_count() { fail("a clone made by a reader has a wrong size".into()) } }
            3 => s += n.bfs().iter.map(|v| v.data.val as u64 + v.size.degree as u64).sum::<u64>(),
            _ => s += n.front().map_or(0, |k| k.data().val as u64) + n.back().map_or(0, |k| k.parent().map_or(0, |p| p.data().val as u64)),
        }
        s
    }
    for _ in 0..1 + r.below(3) {
        let s = match w {
            Wk::T(w, _) => w.get().map_or(0, |v| node(v.node(), r)) + w.get_parent().map_or(0, |p| node(p, r)),
            Wk::F(w, _) => w.get().map_or(0, |v| node(v.node(), r)) + w.get_parent().map_or(0, |p| node(p, r)),
        };
        std::hint::black_box(s);
        if r.chance(1, 3) { sys::yield_now() }
    }
}

fn build(n: usize, sh: u16, piled: u16, base: u32) -> P {
    let par = shape(n, sh);
    let mut ms: Vec<Option<M>> = (0..n).map(|i| Some(M { v: base + i as u32, k: vec![] })).collect();
    for i in (1..n).rev() { let m = ms[i].take().unwrap(); ms[par[i]].as_mut().unwrap().k.insert(0, m) }
    let m = ms[0].take().unwrap();
    if piled % 4 == 0 {
        let mut ts: Vec<Option<Tree<D>>> = (0..n).map(|i| Some(Tree::new(D::new(base + i as u32)))).collect();
        for i in (1..n).rev() { let t = ts[i].take().unwrap(); ts[par[i]].as_mut().unwrap().push_front(t) }
        return P::T(ts[0].take().unwrap(), vec![m]);
    }
    let mut v = vec![];
    let forest = piled % 4 == 1;
    let top: Vec<&M> = if forest { m.k.iter().collect() } else { vec![&m] };
    let mut q: std::collections::VecDeque<&M> = top.into_iter().collect();
    while let Some(x) = q.pop_front() { v.push(bfs::Visit { data: D::new(x.v), size: Size { degree: x.k.len(), descendants: count(&x.k) } }); q.extend(x.k.iter()) }
    if forest {
        let f = Forest::from(bfs::BfsForest { iter: v.into_iter(), size: Size { degree: m.k.len(), descendants: n - 1 } });
        P::F(f, m.k)
    } else {
        P::T(Tree::from(bfs::BfsTree { iter: v.into_iter(), size: Size { degree: 1, descendants: n - 1 } }), vec![m])
    }
}

pub const F_THREADS: usize = 20;
pub const F_SPLIT: usize = 21; // pieces of one construction in different threads
pub const F_READERS: usize = 22;
pub const F_SECOND: usize = 23;
/// Actors: 0 main before the threads, 1..=3 the threads, 4 main meanwhile, 5 main afterwards.
pub fn run(c: &Case, feats: &mut [u32; 32]) {
    let [shp, sz, cfg, dist] = c.params;
    let ops = |who: u16| -> Vec<[u16; 5]> { c.ops.iter().filter(|o| o[0] % 6 == who).cloned().collect() };
    let mut ps = vec![];
    for b in 0..1 + cfg % 2 { ps.push(build(2 + (sz as usize >> (4 * b)) % 9, shp.wrapping_add(b * 77), (cfg >> 4).wrapping_add(b), 100 + 1000 * b as u32)) }
    script(&mut ps, &ops(0), 0, feats);
    // hand the pieces out
    let nthr = 1 + (cfg as usize >> 1) % 3;
    let mut r = Rng::new(dist as u64);
    // always take something out of the first construction, so that it is shared
    if let Some(p) = ps.first_mut() {
        for _ in 0..1 + r.below(3) {
            let t = match p { P::T(t, m) => t.pop_front().map(|t| (t, m[0].k.remove(0))), P::F(f, m) => f.pop_front().map(|t| (t, m.remove(0))) };
            if let Some((t, m)) = t { ps.push(P::T(t, vec![m])); break }
        }
    }
    let mut bags: Vec<Vec<Wk>> = (0..nthr).map(|_| vec![]).collect();
    let mut mine = vec![];
    for (k, p) in ps.into_iter().enumerate() {
        let d = if k == 0 { r.below(nthr + 1) } else { (k + r.below(2)) % (nthr + 1) };
        if d == nthr { mine.push(p) } else { let mut w = p.walk(); if r.chance(1, 2) { jumps(&mut w, &mut r) } bags[d].push(w) }
    }
    let share = r.chance(1, 2).then(|| { let k = r.below(nthr); bags[k].pop() }).flatten();
    feats[F_THREADS] += 1;
    if bags.iter().filter(|b| !b.is_empty()).count() + (!mine.is_empty()) as usize + share.is_some() as usize > 1 { feats[F_SPLIT] += 1 }
    if share.is_some() { feats[F_READERS] += 1 }
    let sh = share.as_ref();
    let thr: Vec<_> = bags.into_iter().enumerate().map(|(k, bag)| {
        let o = ops(k as u16 + 1);
        let mut rr = Rng::new(dist as u64 * 7 + k as u64);
        let keep = r.below(3);
        spawn(move || {
            let mut f = [0u32; 32];
            if let Some(w) = sh { read(w, &mut rr) }
            // some are dropped as walkers
            let mut ps = vec![];
            for w in bag { if rr.chance(1, 6) { drop(w) } else { ps.push(w.back()) } }
            script(&mut ps, &o, k as u32 + 1, &mut f);
            if let Some(w) = sh { read(w, &mut rr) }
            let out: Vec<Wk> = ps.into_iter().take(keep).map(|p| p.walk()).collect();
            (out, f)
        })
    }).collect();
    if let Some(w) = sh { read(w, &mut r) }
    script(&mut mine, &ops(4), 4, feats);
    if r.chance(1, 2) { mine.clear() }
    let mut again: Vec<Wk> = vec![];
    for t in thr { if let Some((v, f)) = t.join() { again.extend(v); for (a, b) in feats.iter_mut().zip(f) { *a += b } } }
    again.extend(share);
    // a second round: what came back goes to another thread
    if !again.is_empty() && r.chance(1, 2) {
        feats[F_SECOND] += 1;
        let half = again.split_off(again.len() / 2);
        let o = ops(5);
        let t = spawn(move || { let mut f = [0u32; 32]; let mut ps: Vec<P> = half.into_iter().map(|w| w.back()).collect(); for p in &ps { p.check("returned") } script(&mut ps, &o, 6, &mut f); });
        for w in again { mine.push(w.back()) }
        let o = ops(4);
        script(&mut mine, &o[..o.len().min(2)], 7, feats);
        drop(mine);
        t.join();
    } else {
        for w in again { let p = w.back(); p.check("returned"); mine.push(p) }
        script(&mut mine, &ops(5), 5, feats);
    }
}
pub fn gen(seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed.wrapping_mul(0x9e37_79b9) ^ i.wrapping_mul(0x1234_5678_9abc_def1));
    let mut c = Case { params: [r.next() as u16, r.next() as u16, r.next() as u16, r.next() as u16], ops: vec![] };
    for who in 0..6u16 {
        let most = match who { 0 => 5, 5 => 3, _ => 6 };
        for _ in 0..r.below(most) { c.ops.push([who, *r.pick(&[0u16, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9, 10, 10, 11, 12, 13, 14]), r.next() as u16, r.next() as u16, r.next() as u16]) }
    }
    c
}
