//! World P: two structures over a small value domain; text, comparisons and hashes against plain reference definitions.
use crate::tok::{Lay, Tok};
use crate::util::*;
use crate::wa::{bfs_of, scattered, Store};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use trees::bfs::BfsForest;
use trees::{Forest, ForestWalk, Node, RcNode, Tree, TreeWalk};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct V { pub val: i32, pub kids: Vec<V> }
impl V {
    fn count(&self) -> usize { 1 + self.kids.iter().map(|k| k.count()).sum::<usize>() }
    fn nth<'a>(&'a mut self, k: &mut usize) -> Option<&'a mut V> {
        if *k == 0 { return Some(self) }
        *k -= 1;
        for c in &mut self.kids { if let Some(v) = c.nth(k) { return Some(v) } }
        None
    }
    fn at(&mut self, k: usize) -> &mut V { let n = self.count(); let mut k = k % n; self.nth(&mut k).unwrap() }
    fn has_neg(&self) -> bool { self.val < 0 || self.kids.iter().any(|k| k.has_neg()) }
}
// ---- the reference definitions ----
fn text(v: &V) -> String { if v.kids.is_empty() { format!("v{}", v.val) } else { format!("v{}( {} )", v.val, v.kids.iter().map(text).collect::<Vec<_>>().join(" ")) } }
fn text_f(f: &[V]) -> String { if f.is_empty() { "()".into() } else { format!("( {} )", f.iter().map(text).collect::<Vec<_>>().join(" ")) } }
fn eq(a: &V, b: &V) -> bool { a.val == b.val && a.val >= 0 && eq_f(&a.kids, &b.kids) }
fn eq_f(a: &[V], b: &[V]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y)) }
fn pc(a: &V, b: &V) -> Option<Ordering> {
    if a.val < 0 || b.val < 0 { return None }
    if a.val != b.val { return Some(a.val.cmp(&b.val)) }
    pc_f(&a.kids, &b.kids)
}
fn pc_f(a: &[V], b: &[V]) -> Option<Ordering> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (None, _) => return Some(Ordering::Less),
            (_, None) => return Some(Ordering::Greater),
            (Some(x), Some(y)) => match pc(x, y) { Some(Ordering::Equal) => {} o => return o },
        }
    }
    Some(Ordering::Equal)
}
fn tc(a: &V, b: &V) -> Ordering { a.val.cmp(&b.val).then_with(|| tc_f(&a.kids, &b.kids)) }
fn tc_f(a: &[V], b: &[V]) -> Ordering {
    for (x, y) in a.iter().zip(b) { let o = tc(x, y); if o != Ordering::Equal { return o } }
    a.len().cmp(&b.len())
}
/// Records all that a value feeds to its hasher.
#[derive(Default, Clone, PartialEq, Eq, Debug)]
pub struct Rec(pub Vec<(u8, u64)>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.push((0, b.len() as u64)); for x in b { self.0.push((1, *x as u64)) } }
    fn write_u8(&mut self, i: u8) { self.0.push((2, i as u64)) }
    fn write_u16(&mut self, i: u16) { self.0.push((3, i as u64)) }
    fn write_u32(&mut self, i: u32) { self.0.push((4, i as u64)) }
    fn write_u64(&mut self, i: u64) { self.0.push((5, i)) }
    fn write_usize(&mut self, i: usize) { self.0.push((6, i as u64)) }
    fn write_i32(&mut self, i: i32) { self.0.push((7, i as u32 as u64)) }
    fn write_i64(&mut self, i: i64) { self.0.push((8, i as u64)) }
    fn write_isize(&mut self, i: isize) { self.0.push((9, i as u64)) }
}
fn rec<T: Hash + ?Sized>(t: &T) -> Rec { let mut h = Rec::default(); t.hash(&mut h); h }

// ---- building the same structure by different routes ----
fn flat(f: &[V]) -> (Vec<usize>, Vec<i32>) {
    // in breadth-first order, node 0 standing for the forest
    let mut par = vec![0];
    let mut val = vec![0];
    let mut q: std::collections::VecDeque<(&V, usize)> = f.iter().map(|v| (v, 0)).collect();
    while let Some((v, p)) = q.pop_front() {
        par.push(p);
        val.push(v.val);
        let me = par.len() - 1;
        q.extend(v.kids.iter().map(|k| (k, me)));
    }
    (par, val)
}
fn scat<L: Lay>(v: &V, how: u16) -> Tree<Tok<L>> {
    let (par, val) = flat(std::slice::from_ref(v));
    let par: Vec<usize> = par[1..].iter().map(|p| p.saturating_sub(1)).collect();
    scattered(&par, val[1..].iter().map(|x| Tok::new(*x)).collect(), how)
}
fn piled<L: Lay>(v: &V) -> Tree<Tok<L>> {
    let (par, val) = flat(std::slice::from_ref(v));
    let par: Vec<usize> = par[1..].iter().map(|p| p.saturating_sub(1)).collect();
    Tree::from(bfs_of(&par, val[1..].iter().map(|x| Tok::new(*x)).collect()))
}
fn rec_build<L: Lay>(v: &V, r: &mut Rng) -> Tree<Tok<L>> {
    let mut t = Tree::new(Tok::new(v.val));
    if r.chance(1, 2) { for k in &v.kids { let k = rec_build(k, r); t.push_back(k) } } else { for k in v.kids.iter().rev() { let k = rec_build(k, r); t.push_front(k) } }
    t
}
fn pm<T>(p: std::pin::Pin<&mut Node<T>>) -> &mut Node<T> { unsafe { p.get_unchecked_mut() } }
const ROUTES: u16 = 12;
fn tree<L: Lay>(v: &V, route: u16, store: Store) -> Tree<Tok<L>> {
    let r = match store { Store::AsIs => route % ROUTES, Store::Scattered => 0, Store::Piled => 1 };
    let mut rng = Rng::new(route as u64);
    match r {
        0 => scat(v, route / 16),
        1 => piled(v),
        2 => rec_build(v, &mut rng),
        3 => { let t: Tree<Tok<L>> = piled(v); t.clone() }
        4 => { // popped out of a larger contiguous tree
            let w = V { val: 9, kids: vec![V { val: 8, kids: vec![] }, v.clone(), V { val: 7, kids: vec![] }] };
            let mut t: Tree<Tok<L>> = piled(&w);
            drop(t.pop_front());
            t.pop_front().unwrap()
        }
        5 => { // detached from the middle
            let w = V { val: 9, kids: vec![V { val: 8, kids: vec![] }, v.clone(), V { val: 7, kids: vec![] }] };
            let mut t: Tree<Tok<L>> = if route & 64 == 0 { piled(&w) } else { scat(&w, route / 128) };
            let x = t.iter_mut().nth(1).unwrap().detach();
            x
        }
        6 => { // edited into shape: other children pushed and popped again, values set
            let mut t: Tree<Tok<L>> = piled(&V { val: v.val + 1, kids: v.kids.clone() });
            t.push_front(Tree::new(Tok::new(5)));
            t.push_back(Tree::new(Tok::new(6)));
            drop(t.pop_back());
            drop(t.pop_front());
            t.root_mut().data_mut().val = v.val;
            t
        }
        7 => { // through shared handles
            let h: RcNode<Tok<L>> = RcNode::from(if route & 64 == 0 { piled(v) } else { scat(v, route / 128) });
            h.push_back(Tree::new(Tok::new(4)));
            drop(h.pop_back());
            unsafe { h.into_tree() }
        }
        8 => { let mut w = TreeWalk::from(piled::<L>(v)); for _ in 0..route / 16 % 7 { w.forward() } Tree::from(w) }
        9 => { // root and children apart
            let mut t: Tree<Tok<L>> = piled(v);
            let f = t.abandon();
            t.append(f);
            t
        }
        10 => { // mixed storage: some children contiguous, some not
            let mut t = Tree::new(Tok::new(v.val));
            for (i, k) in v.kids.iter().enumerate() { let c = if (route >> 4 >> (i % 8)) & 1 == 0 { piled(k) } else { scat(k, i as u16) }; t.push_back(c) }
            t
        }
        _ => { // siblings inserted one by one, last first
            let mut t = Tree::new(Tok::new(v.val));
            for k in v.kids.iter().rev() {
                let c: Tree<Tok<L>> = tree(k, route / 12, store);
                if t.has_no_child() { t.push_back(c) } else { pm(t.front_mut().unwrap()).insert_prev_sib(c) }
            }
            t
        }
    }
}
fn forest<L: Lay>(f: &[V], route: u16, store: Store) -> Forest<Tok<L>> {
    let r = match store { Store::AsIs => route % 7, Store::Scattered => 1, Store::Piled => 0 };
    let mut rng = Rng::new(route as u64 + 99);
    match r {
        0 => {
            let (par, val) = flat(f);
            let mut ts: Vec<Tok<L>> = val.iter().map(|x| Tok::new(*x)).collect();
            let d = ts.remove(0);
            drop(d);
            let kids = crate::wa::kids_of(&par);
            let desc = crate::wa::descs(&par);
            let visits: Vec<_> = ts.into_iter().enumerate().map(|(i, data)| trees::bfs::Visit { data, size: trees::Size { degree: kids[i + 1].len(), descendants: desc[i + 1] } }).collect();
            Forest::from(BfsForest { iter: visits.into_iter(), size: trees::Size { degree: f.len(), descendants: par.len() - 1 } })
        }
        1 => { let mut x = Forest::new(); for v in f { x.push_back(rec_build(v, &mut rng)) } x }
        2 => { let mut x = Forest::new(); for v in f.iter().rev() { x.push_front(tree(v, route / 7, store)) } x }
        3 => { let x: Forest<Tok<L>> = forest(f, 1, Store::AsIs); x.clone() }
        4 => { let w = V { val: 1, kids: f.to_vec() }; let mut t: Tree<Tok<L>> = piled(&w); t.abandon() }
        5 => { let w = V { val: 1, kids: f.to_vec() }; let t: Tree<Tok<L>> = scat(&w, route / 7); t.deep_clone_forest() }
        _ => { let x: Forest<Tok<L>> = forest(f, 1, Store::AsIs); let mut w = ForestWalk::from(x); for _ in 0..route / 7 % 5 { w.forward() } w.into() }
    }
}

pub const OPS: &[&str] = &["set_value", "add_child", "remove_subtree", "swap_siblings", "duplicate_sibling", "wrap", "lower", "raise", "reverse", "cut_tail", "replace"];
pub const F0: usize = 200;
pub const F_EQ: usize = 215; pub const F_NE: usize = 216; pub const F_INC: usize = 217; pub const F_PREFIX: usize = 218; pub const F_SEQ: usize = 219; pub const F_NEST: usize = 220;

/// Changes `v` a little.
fn mutate(v: &mut V, o: &Op, neg: bool) {
    let [code, a, b, c, _] = *o;
    let val = |x: u16| -> i32 { if neg && x % 7 == 0 { -1 } else { (x % 3) as i32 } };
    let n = v.at(a as usize);
    match code % OPS.len() as u16 {
        0 => n.val = val(b),
        1 => { let i = b as usize % (n.kids.len() + 1); n.kids.insert(i, V { val: val(c), kids: vec![] }) }
        2 => if !n.kids.is_empty() { let i = b as usize % n.kids.len(); n.kids.remove(i); },
        3 => if n.kids.len() > 1 { let i = b as usize % (n.kids.len() - 1); n.kids.swap(i, i + 1) },
        4 => if !n.kids.is_empty() && n.count() < 40 { let i = b as usize % n.kids.len(); let k = n.kids[i].clone(); n.kids.insert(i, k) },
        5 => if n.count() < 60 { let x = n.clone(); *n = V { val: val(b), kids: vec![x] } },
        6 => if n.kids.len() > 1 { let i = 1 + b as usize % (n.kids.len() - 1); let k = n.kids.remove(i); n.kids[i - 1].kids.push(k) }, // same values in preorder
        7 => if let Some(k) = n.kids.iter_mut().find(|k| !k.kids.is_empty()) { let g = k.kids.pop().unwrap(); let i = n.kids.iter().position(|k| !k.kids.is_empty()).unwrap_or(0) + 1; let i = i.min(n.kids.len()); n.kids.insert(i, g) },
        8 => n.kids.reverse(),
        9 => { let l = n.kids.len(); n.kids.truncate(b as usize % (l + 1)) }
        _ => *n = V { val: val(b), kids: vec![V { val: val(c), kids: vec![] }] },
    }
}
fn shape_v(n: usize, seed: u16, neg: bool) -> V {
    let par = shape(n, seed);
    let mut r = Rng::new(seed as u64 + 5);
    let mut vs: Vec<Option<V>> = (0..n).map(|_| Some(V { val: if neg && r.chance(1, 9) { -1 } else { r.below(3) as i32 }, kids: vec![] })).collect();
    for i in (1..n).rev() { let c = vs[i].take().unwrap(); vs[par[i]].as_mut().unwrap().kids.insert(0, c) }
    vs[0].take().unwrap()
}

struct Want { eq: bool, pc: Option<Ordering>, tc: Ordering, clean: bool }
fn relations<T: PartialEq + PartialOrd + Ord + Hash>(x: &T, y: &T, w: &Want, what: &str, cx: &mut Cx) {
    let c = |ok: bool, s: &str, cx: &mut Cx| { if !ok { cx.fail(&["C19"], format!("{what}: {s}, expected eq {}, partial_cmp {:?}, cmp {:?}", w.eq, w.pc, w.tc)) } };
    c((x == y) == w.eq, &format!("== is {}", x == y), cx);
    c((x != y) != w.eq, &format!("!= is {}", x != y), cx);
    let p = x.partial_cmp(y);
    c(p == w.pc, &format!("partial_cmp is {p:?}"), cx);
    c((x < y) == (w.pc == Some(Ordering::Less)), &format!("< is {}", x < y), cx);
    c((x > y) == (w.pc == Some(Ordering::Greater)), &format!("> is {}", x > y), cx);
    c((x <= y) == matches!(w.pc, Some(Ordering::Less | Ordering::Equal)), &format!("<= is {}", x <= y), cx);
    c((x >= y) == matches!(w.pc, Some(Ordering::Greater | Ordering::Equal)), &format!(">= is {}", x >= y), cx);
    let t = x.cmp(y);
    c(t == w.tc, &format!("cmp is {t:?}"), cx);
    if w.clean { c((x.cmp(y) == Ordering::Equal) == (x == y), "cmp and == disagree", cx) }
    // the other way round
    c(y.partial_cmp(x) == w.pc.map(|o| o.reverse()), "partial_cmp is not antisymmetric", cx);
    c(y.cmp(x) == w.tc.reverse(), "cmp is not antisymmetric", cx);
    c((y == x) == w.eq, "== is not symmetric", cx);
    if w.tc == Ordering::Equal {
        let (a, b) = (rec(x), rec(y));
        if a != b { cx.fail(&["C20"], format!("{what}: equal, but they feed a hasher differently: {:?} / {:?}", a.0, b.0)) }
        let k = |v: &T| { let mut h = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut h); h.finish() };
        if k(x) != k(y) { cx.fail(&["C20"], format!("{what}: equal, but their hashes differ")) }
    }
    let (a, b) = (rec(x), rec(x));
    if a != b { cx.fail(&["C20"], format!("{what}: hashing twice feeds a hasher differently")) }
}
struct Full { s: String, room: usize }
impl std::fmt::Write for Full {
    fn write_str(&mut self, t: &str) -> std::fmt::Result { if self.s.len() + t.len() > self.room { return Err(std::fmt::Error) } self.s += t; Ok(()) }
}
fn texts<T: std::fmt::Display>(x: &T, e: &str, what: &str, cx: &mut Cx) {
    for _ in 0..2 { let s = format!("{x}"); if s != e { cx.fail(&["C18"], format!("the text of the {what} is {s:?}, expected {e:?}")); return } }
    let s = x.to_string();
    if s != e { cx.fail(&["C18"], format!("to_string() of the {what} is {s:?}, expected {e:?}")) }
    // a writer that is full at some point: what was written before is the beginning of the text, and the error comes back
    let room = e.bytes().fold(what.len(), |h, b| h.wrapping_mul(31).wrapping_add(b as usize)) % (e.len() + 2);
    let mut w = Full { s: String::new(), room };
    let r = std::fmt::write(&mut w, format_args!("{x}"));
    if r.is_err() != (room < e.len()) || !e.starts_with(&w.s) { cx.fail(&["C18"], format!("writing the {what} to a writer with room for {room} bytes of {e:?} gives {r:?} and {:?}", w.s)) }
    cx.ls(&s);
}
/// The debug text: the same structure, with `@address` after each datum (for a handle, not the node's address).
fn debugs<T: std::fmt::Debug>(x: &T, e: &str, addrs: Option<Vec<usize>>, what: &str, cx: &mut Cx) {
    let s = format!("{x:?}");
    let (mut bare, mut found) = (String::new(), vec![]);
    let mut it = s.char_indices().peekable();
    while let Some((i, ch)) = it.next() {
        if ch == '@' {
            let hex: String = s[i + 1..].strip_prefix("0x").unwrap_or("").chars().take_while(|c| c.is_ascii_hexdigit()).collect();
            let Ok(a) = usize::from_str_radix(&hex, 16) else { cx.fail(&["C18"], format!("no address after @ in the debug text of the {what}: {s:?}")); return };
            found.push(a);
            for _ in 0..hex.len() + 2 { it.next(); }
        } else if ch != ' ' { bare.push(ch) }
    }
    let e: String = e.chars().filter(|c| *c != ' ').collect();
    if bare != e { cx.fail(&["C18"], format!("the debug text of the {what} is {s:?}; without addresses and spaces this should be {e:?}")); return }
    if let Some(a) = addrs { if a != found { cx.fail(&["C18"], format!("the debug text of the {what} is {s:?}, but its nodes are at {a:x?}")) } }
}
fn addrs<T>(n: &Node<T>, out: &mut Vec<usize>) { out.push(n as *const Node<T> as usize); for c in n.iter() { addrs(c, out) } }
fn addr_of<T>(n: &Node<T>) -> Option<Vec<usize>> { let mut v = vec![]; addrs(n, &mut v); Some(v) }
fn node_at<'a, T>(n: &'a Node<T>, k: &mut usize) -> Option<&'a Node<T>> {
    if *k == 0 { return Some(n) }
    *k -= 1;
    for c in n.iter() { if let Some(x) = node_at(c, k) { return Some(x) } }
    None
}
fn rc_at<T>(n: &RcNode<T>, k: &mut usize) -> Option<RcNode<T>> {
    if *k == 0 { return Some(n.clone()) }
    *k -= 1;
    for c in n.iter_rc() { if let Some(x) = rc_at(&c, k) { return Some(x) } }
    None
}
fn want(a: &V, b: &V) -> Want { Want { eq: eq(a, b), pc: pc(a, b), tc: tc(a, b), clean: !a.has_neg() && !b.has_neg() } }

pub fn run<L: Lay>(case: &Case, store: Store, cx: &mut Cx) -> R<()> {
    let p = case.params;
    let neg = p[2] % 3 == 0;
    let mut rng = Rng::new((p[2] as u64) << 16 | p[3] as u64);
    let big = p[1] % 16 == 15;
    let n = match if big { 7 } else { p[2] / 3 % 8 } { 0 => 1, 1 => 2, 2 => 3, 3..=5 => 2 + rng.below(6), 6 => 2 + rng.below(14), _ => 1 + rng.below(if p[1] % 16 == 15 { 500 } else { 30 }) };
    let a = shape_v(n, p[3], neg);
    let mut b = a.clone();
    for (i, o) in case.ops.iter().enumerate() {
        cx.step = i;
        cx.feat(F0 + (o[0] % OPS.len() as u16) as usize);
        if b.count() < 600 { mutate(&mut b, o, neg) }
    }
    cx.nodes_seen += (a.count() + b.count()) as u64;
    cx.t(|| format!("A = {}   B = {}", text(&a), text(&b)));
    let (ra, rb, rk) = (rng.next() as u16, rng.next() as u16, rng.next() as usize);
    let w = want(&a, &b);
    cx.feat(if w.eq { F_EQ } else { F_NE });
    if w.pc.is_none() { cx.feat(F_INC) }
    if !w.eq && a.val == b.val && a.kids.len() != b.kids.len() && a.kids.iter().zip(&b.kids).all(|(x, y)| eq(x, y)) { cx.feat(F_PREFIX) }
    if !w.eq && flat_vals(&a) == flat_vals(&b) { cx.feat(F_SEQ) }
    {
        let ta: Tree<Tok<L>> = tree(&a, ra, store);
        let tb: Tree<Tok<L>> = tree(&b, rb, store);
        texts(&ta, &text(&a), "tree", cx);
        texts(&tb, &text(&b), "tree", cx);
        texts(ta.root(), &text(&a), "node", cx);
        debugs(&ta, &text(&a), addr_of(ta.root()), "tree", cx);
        debugs(tb.root(), &text(&b), addr_of(tb.root()), "node", cx);
        relations(&ta, &tb, &w, "trees", cx);
        relations(ta.root(), tb.root(), &w, "nodes", cx);
        // nodes anywhere inside
        for j in 0..3 {
            let (i1, i2) = (rk.wrapping_mul(j + 1) % a.count(), rk.wrapping_mul(j * 3 + 7) % b.count());
            let (v1, v2) = (a.clone().at(i1).clone(), b.clone().at(i2).clone());
            match (node_at(ta.root(), &mut { i1 }), node_at(tb.root(), &mut { i2 })) {
                (Some(n1), Some(n2)) => {
                    texts(n1, &text(&v1), "inner node", cx);
                    if j == 0 { debugs(n1, &text(&v1), addr_of(n1), "inner node", cx) }
                    relations(n1, n2, &want(&v1, &v2), "inner nodes", cx);
                }
                _ => { cx.fail(&["C01"], "a node is missing".into()); return Err(Stop) }
            }
        }
        // the same structure by another route
        let tc: Tree<Tok<L>> = tree(&a, ra.wrapping_mul(31).wrapping_add(rb), store);
        relations(&ta, &tc, &want(&a, &a), "the same tree built by another route", cx);
        // a tree, or a node, with itself; nodes of one tree
        let own = want(&a, &a);
        relations(&ta, &ta, &own, "a tree and itself", cx);
        relations(ta.root(), ta.root(), &own, "a node and itself", cx);
        let (i1, i2) = (rk / 3 % a.count(), rk / 11 % a.count());
        let (v1, v2) = (a.clone().at(i1).clone(), a.clone().at(i2).clone());
        if let (Some(n1), Some(n2)) = (node_at(ta.root(), &mut { i1 }), node_at(ta.root(), &mut { i2 })) {
            relations(n1, n2, &want(&v1, &v2), "two nodes of one tree", cx);
            relations(n1, n1, &want(&v1, &v1), "an inner node and itself", cx);
            relations(n1, ta.root(), &want(&v1, &a), "a node and its root", cx);
        }
        cx.bail()?;
        // as map keys
        if w.clean {
            let mut m: HashMap<&Node<Tok<L>>, i32> = HashMap::new();
            m.insert(ta.root(), 1);
            m.insert(tb.root(), 2);
            let (e1, en) = if w.eq { (2, 1) } else { (1, 2) };
            let ok = m.len() == en && m.get(tc.root()) == Some(&e1) && m.get(tb.root()) == Some(&2);
            cx.check(ok, &["C20", "C19"], || "trees are not interchangeable as map keys".into());
            let s: HashSet<Tree<Tok<L>>> = [ta, tc].into_iter().collect();
            cx.check(s.len() == 1 && s.contains(&tb) == w.eq, &["C20", "C19"], || "equal trees are different members of a set".into());
        }
    }
    cx.bail()?;
    {
        let ha: RcNode<Tok<L>> = RcNode::from(tree(&a, ra.wrapping_add(3), store));
        let hb: RcNode<Tok<L>> = RcNode::from(tree(&b, rb.wrapping_add(5), store));
        texts(&ha, &text(&a), "shared node", cx);
        debugs(&ha, &text(&a), None, "shared node", cx);
        relations(&ha, &hb, &w, "shared nodes", cx);
        let (i1, i2) = (rk % a.count(), rk / 7 % b.count());
        let (v1, v2) = (a.clone().at(i1).clone(), b.clone().at(i2).clone());
        if let (Some(x), Some(y)) = (rc_at(&ha, &mut { i1 }), rc_at(&hb, &mut { i2 })) {
            texts(&x, &text(&v1), "inner shared node", cx);
            debugs(&y, &text(&v2), None, "inner shared node", cx);
            relations(&x, &y, &want(&v1, &v2), "inner shared nodes", cx);
        }
        let hc = ha.clone();
        relations(&ha, &hc, &want(&a, &a), "two handles to one node", cx);
        relations(&ha, &ha, &want(&a, &a), "a handle and itself", cx);
        let i3 = rk / 13 % a.count();
        let v3 = a.clone().at(i3).clone();
        if let (Some(x), Some(y)) = (rc_at(&ha, &mut { i1 }), rc_at(&ha, &mut { i3 })) { relations(&x, &y, &want(&v1, &v3), "two handles to one tree", cx) }
    }
    cx.bail()?;
    {
        // the children as forests (also the empty ones)
        let (fa, fb): (Vec<V>, Vec<V>) = if p[2] / 24 % 2 == 0 { (a.kids.clone(), b.kids.clone()) } else { (vec![a.clone()], { let mut f = b.kids.clone(); f.insert(0, a.clone()); f }) };
        let w = Want { eq: eq_f(&fa, &fb), pc: pc_f(&fa, &fb), tc: tc_f(&fa, &fb), clean: !fa.iter().chain(&fb).any(|v| v.has_neg()) };
        let xa: Forest<Tok<L>> = forest(&fa, ra, store);
        let xb: Forest<Tok<L>> = forest(&fb, rb, store);
        texts(&xa, &text_f(&fa), "forest", cx);
        texts(&xb, &text_f(&fb), "forest", cx);
        debugs(&xa, &text_f(&fa), Some(xa.iter().flat_map(|n| addr_of(n).unwrap()).collect()), "forest", cx);
        relations(&xa, &xb, &w, "forests", cx);
        let xc: Forest<Tok<L>> = forest(&fa, ra.wrapping_mul(17).wrapping_add(1), store);
        let w = Want { eq: eq_f(&fa, &fa), pc: pc_f(&fa, &fa), tc: Ordering::Equal, clean: false };
        relations(&xa, &xc, &w, "the same forest built by another route", cx);
        relations(&xa, &xa, &w, "a forest and itself", cx);
        for (x, v) in xa.iter().zip(&fa) { texts(x, &text(v), "tree of a forest", cx) }
    }
    cx.bail()
}
fn flat_vals(v: &V) -> Vec<i32> { let mut o = vec![v.val]; for k in &v.kids { o.extend(flat_vals(k)) } o }
