//! Which types may cross threads: found out for data of every kind, without depending on it for compilation.
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::MutexGuard;
use trees::{Forest, ForestWalk, IntoIter, Iter, IterMut, IterRc, Node, RcNode, Tree, TreeWalk, WeakNode};

struct W<T: ?Sized>(PhantomData<T>);
trait No { const SEND: bool = false; const SYNC: bool = false; }
impl<T: ?Sized> No for W<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Send> W<T> { const SEND: bool = true; }
#[allow(dead_code)]
impl<T: ?Sized + Sync> W<T> { const SYNC: bool = true; }

/// (type, data, data is Send, data is Sync, type is Send, type is Sync)
pub type Row = (&'static str, &'static str, bool, bool, bool, bool);
pub fn table() -> Vec<Row> {
    let mut v: Vec<Row> = vec![];
    macro_rules! row { ($d:ty; $($t:ty),*) => { $( v.push((stringify!($t), stringify!($d), W::<$d>::SEND, W::<$d>::SYNC, W::<$t>::SEND, W::<$t>::SYNC)); )* } }
    macro_rules! data { ($($d:ty),*) => { $( row!($d; TreeWalk<$d>, ForestWalk<$d>, Tree<$d>, Forest<$d>, Node<$d>, IntoIter<$d>, Iter<'static, $d>, IterMut<'static, $d>, RcNode<$d>, WeakNode<$d>, IterRc<$d>); )* } }
    data!(u32, String, Box<dyn Send>, Box<dyn Send + Sync>, Cell<u32>, MutexGuard<'static, u32>, Rc<u32>, *const u8, RcNode<u32>);
    v
}
/// What is wrong with the table.
pub fn wrong() -> Option<String> {
    for (t, d, ds, dy, s, y) in table() {
        let t0: String = t.chars().filter(|c| *c != ' ').collect();
        let walker = t0.starts_with("TreeWalk<") || t0.starts_with("ForestWalk<");
        let shared = t0.starts_with("RcNode<") || t0.starts_with("WeakNode<") || t0.starts_with("IterRc<");
        if walker && ds && !s { return Some(format!("{t} cannot be moved to another thread, although its data can")) }
        if walker && ds && dy && !y { return Some(format!("{t} cannot be read by several threads, although its data can")) }
        if s && !ds && !t0.starts_with("Iter<") { return Some(format!("{t} may be moved to another thread, although {d} may not")) }
        if t0.starts_with("Iter<") && s && !dy { return Some(format!("{t} may be moved to another thread, although {d} may not be shared")) }
        if y && !dy { return Some(format!("{t} may be shared between threads, although {d} may not")) }
        if shared && (s || y) { return Some(format!("{t} may cross threads, although its counts are not made for that")) }
    }
    None
}
