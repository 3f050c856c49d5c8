//! What the compiler lets threads do with trees and iterators: for every container and every kind
//! of its parts, whether the container may be sent to and shared with another thread (C22).

use noisy_float::types::{n64, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Write;
use std::marker::PhantomData;

pub struct Probe<T>(PhantomData<T>);
pub fn probe<T>(_: &T) -> Probe<T> {
    Probe(PhantomData)
}
pub trait MaySend {
    fn may_send(&self) -> bool {
        true
    }
}
pub trait MayNotSend {
    fn may_send(&self) -> bool {
        false
    }
}
pub trait MayShare {
    fn may_share(&self) -> bool {
        true
    }
}
pub trait MayNotShare {
    fn may_share(&self) -> bool {
        false
    }
}
impl<T: Send> MaySend for Probe<T> {}
impl<T> MayNotSend for &Probe<T> {}
impl<T: Sync> MayShare for Probe<T> {}
impl<T> MayNotShare for &Probe<T> {}

// The kinds of types.
pub struct Both;
pub type SendOnly = Cell<u8>;
pub struct SyncOnly(#[allow(dead_code)] *const u8);
unsafe impl Sync for SyncOnly {}
pub type Neither = *const u8;

macro_rules! part {
    ($($name:ident),*) => {$(
        pub struct $name<M>(PhantomData<M>);
        impl<M> $name<M> {
            pub fn new() -> Self { $name(PhantomData) }
        }
        impl<M> Default for $name<M> {
            fn default() -> Self { Self::new() }
        }
        impl<M> Clone for $name<M> {
            fn clone(&self) -> Self { Self::new() }
        }
        impl<M> PartialEq for $name<M> {
            fn eq(&self, _: &Self) -> bool { true }
        }
        impl<M> Eq for $name<M> {}
        impl<M> PartialOrd for $name<M> {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
        }
        impl<M> Ord for $name<M> {
            fn cmp(&self, _: &Self) -> Ordering { Ordering::Equal }
        }
    )*}
}
part!(Bx, Ky, Va, Fi, Me);

impl<M> Contains<Bx<M>> for Bx<M> {
    fn contains(&self, _: &Self) -> bool {
        true
    }
}
impl<M> Intersects<Bx<M>> for Bx<M> {
    fn intersects(&self, _: &Self) -> bool {
        true
    }
}
impl<M> Bounds for Bx<M> {
    fn empty() -> Self {
        Bx::new()
    }
    fn union(_: &Self, _: &Self) -> Self {
        Bx::new()
    }
    fn union_all(_: impl IntoIterator<Item = Self>) -> Self {
        Bx::new()
    }
}
impl<M> Volume for Bx<M> {
    fn volume(&self) -> N64 {
        n64(1.0)
    }
}
impl<M, N> Bounded<Bx<M>> for Ky<N> {
    fn bounds(&self) -> Bx<M> {
        Bx::new()
    }
}
impl<F, B, K> SpatialFilter<Bx<B>, Ky<K>> for Fi<F> {
    fn test_bounds(&self, _: &Bx<B>) -> bool {
        true
    }
    fn test_key(&self, _: &Ky<K>) -> bool {
        true
    }
}
impl<F, B, K, B2, K2> JoinFilter<Bx<B>, Bx<B2>, Ky<K>, Ky<K2>> for Fi<F> {
    fn test_bounds(&self, _: &Bx<B>, _: &Bx<B2>) -> bool {
        true
    }
    fn test_key(&self, _: &Ky<K>, _: &Ky<K2>) -> bool {
        true
    }
}
pub struct Rk<F, M>(PhantomData<(F, M)>);
pub struct FRk<F, M>(PhantomData<(F, M)>);
impl<F, M, B, K> Ranking<Bx<B>, Ky<K>> for Rk<F, M> {
    type Metric = Me<M>;
    fn bounds_min(&self, _: &Bx<B>) -> Me<M> {
        Me::new()
    }
    fn rank_key(&self, _: &Ky<K>) -> Me<M> {
        Me::new()
    }
}
impl<F, M, B, K> Ranking<Bx<B>, Ky<K>> for FRk<F, M> {
    type Metric = Option<Me<M>>;
    fn bounds_min(&self, _: &Bx<B>) -> Option<Me<M>> {
        Some(Me::new())
    }
    fn rank_key(&self, _: &Ky<K>) -> Option<Me<M>> {
        Some(Me::new())
    }
}

pub fn kind(name: &str) -> (bool, bool) {
    match name {
        "Both" => (true, true),
        "SendOnly" => (true, false),
        "SyncOnly" => (false, true),
        _ => (false, false),
    }
}
fn json(kinds: &[(&str, &str)]) -> String {
    let mut s = String::from("{");
    for (i, (p, k)) in kinds.iter().enumerate() {
        let _ = write!(s, "{}\"{p}\":{:?}", if i > 0 { "," } else { "" }, [kind(k).0, kind(k).1]);
    }
    s + "}"
}

macro_rules! fact {
    ($out:ident, $c:literal, $x:expr, [$($p:literal $k:ident),*]) => {{
        let x = $x;
        let (send, share) = ((&probe(&x)).may_send(), (&probe(&x)).may_share());
        drop(x);
        let kinds = json(&[$(($p, stringify!($k))),*]);
        $out.push(format!("{{\"op\":\"fact\",\"c\":\"{}\",\"kinds\":{kinds},\"send\":{send},\"share\":{share}}}", $c));
    }};
}
macro_rules! tree {
    ($b:ident, $k:ident, $v:ident) => {{
        let mut t: rusty_rtree::RTree<Bx<$b>, Ky<$k>, Va<$v>> =
            rusty_rtree::RTree::new(rusty_rtree::RTreeConfig { max_children: 3, min_children: 1 });
        for _ in 0..5 {
            t.insert(Ky::new(), Va::new());
        }
        t
    }};
}
/// One tree: kinds of the bounds, keys, values, filter or ranking, and metric.
macro_rules! facts {
    ($out:ident, $b:ident, $k:ident, $v:ident, $f:ident, $m:ident) => {{
        let mut t = tree!($b, $k, $v);
        fact!($out, "iter", t.iter(), ["B" $b, "K" $k, "V" $v]);
        fact!($out, "iter", (&t).into_iter(), ["B" $b, "K" $k, "V" $v]);
        fact!($out, "iter_mut", t.iter_mut(), ["B" $b, "K" $k, "V" $v]);
        fact!($out, "iter_mut", (&mut t).into_iter(), ["B" $b, "K" $k, "V" $v]);
        fact!($out, "filter", t.filter_iter::<Ky<$k>, _>(Fi::<$f>::new()), ["B" $b, "K" $k, "V" $v, "F" $f]);
        fact!($out, "filter_mut", t.filter_iter_mut::<Ky<$k>, _>(Fi::<$f>::new()), ["B" $b, "K" $k, "V" $v, "F" $f]);
        fact!($out, "rank", t.iter_asc_by(Rk::<$f, $m>(PhantomData)), ["B" $b, "K" $k, "V" $v, "F" $f, "M" $m]);
        fact!($out, "rank_mut", t.iter_asc_by_mut(Rk::<$f, $m>(PhantomData)), ["B" $b, "K" $k, "V" $v, "F" $f, "M" $m]);
        fact!($out, "rank", t.filter_iter_asc_by(FRk::<$f, $m>(PhantomData)), ["B" $b, "K" $k, "V" $v, "F" $f, "M" $m]);
        fact!($out, "rank_mut", t.filter_iter_asc_by_mut(FRk::<$f, $m>(PhantomData)), ["B" $b, "K" $k, "V" $v, "F" $f, "M" $m]);
        fact!($out, "tree", t, ["B" $b, "K" $k, "V" $v]);
    }};
}
macro_rules! joins {
    ($out:ident, $b:ident, $k:ident, $v:ident, $b2:ident, $k2:ident, $v2:ident, $f:ident) => {{
        let t = tree!($b, $k, $v);
        let u = tree!($b2, $k2, $v2);
        fact!($out, "join", t.join::<_, _, _, Ky<$k>, Ky<$k2>, _>(&u, Fi::<$f>::new()),
            ["B" $b, "K" $k, "V" $v, "B2" $b2, "K2" $k2, "V2" $v2, "F" $f]);
        fact!($out, "left_join", t.left_join::<_, _, _, Ky<$k>, Ky<$k2>, _>(&u, Fi::<$f>::new()),
            ["B" $b, "K" $k, "V" $v, "B2" $b2, "K2" $k2, "V2" $v2, "F" $f]);
        let mut it = t.left_join::<_, _, _, Ky<$k>, Ky<$k2>, _>(&u, Fi::<$f>::new());
        let inner = it.next().unwrap().1;
        fact!($out, "left_join_inner", inner,
            ["B" $b, "K" $k, "V" $v, "B2" $b2, "K2" $k2, "V2" $v2, "F" $f]);
    }};
}
// All kinds of the bounds, keys and values of a tree.
macro_rules! all_v {
    ($o:ident, $b:ident, $k:ident) => {
        facts!($o, $b, $k, Both, Both, Both);
        facts!($o, $b, $k, SendOnly, Both, Both);
        facts!($o, $b, $k, SyncOnly, Both, Both);
        facts!($o, $b, $k, Neither, Both, Both);
    };
}
macro_rules! all_k {
    ($o:ident, $b:ident) => {
        all_v!($o, $b, Both);
        all_v!($o, $b, SendOnly);
        all_v!($o, $b, SyncOnly);
        all_v!($o, $b, Neither);
    };
}
// One part after the other of every kind.
macro_rules! each {
    ($o:ident, $x:ident) => {
        facts!($o, Both, Both, Both, $x, Both);
        facts!($o, Both, Both, Both, Both, $x);
        facts!($o, Both, Both, Both, $x, $x);
        joins!($o, $x, Both, Both, Both, Both, Both, Both);
        joins!($o, Both, $x, Both, Both, Both, Both, Both);
        joins!($o, Both, Both, $x, Both, Both, Both, Both);
        joins!($o, Both, Both, Both, $x, Both, Both, Both);
        joins!($o, Both, Both, Both, Both, $x, Both, Both);
        joins!($o, Both, Both, Both, Both, Both, $x, Both);
        joins!($o, Both, Both, Both, Both, Both, Both, $x);
        joins!($o, $x, $x, $x, $x, $x, $x, $x);
    };
}

pub fn facts() -> Vec<String> {
    let mut out = vec![];
    first(&mut out);
    second(&mut out);
    third(&mut out);
    out
}
fn first(out: &mut Vec<String>) {
    all_k!(out, Both);
    all_k!(out, SendOnly);
}
fn second(out: &mut Vec<String>) {
    all_k!(out, SyncOnly);
    all_k!(out, Neither);
}
fn third(out: &mut Vec<String>) {
    each!(out, Both);
    each!(out, SendOnly);
    each!(out, SyncOnly);
    each!(out, Neither);
}
