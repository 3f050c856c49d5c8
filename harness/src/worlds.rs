//! Worlds: key and bounds types to instantiate the library with, and the projection of their
//! values to the specification's integers.
//!
//! Coordinates are projected by an order embedding: palette value number i (from 1) becomes 2*i, a
//! value strictly between palette values becomes the odd number in between.

use crate::dbg::{numbers, D};
pub use rtcommon::snap::{ibox_json, IBox};
pub use rtcommon::universe::Universe;
use crate::rng::Rng;
use noisy_float::types::{n32, n64, N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::geom::line::Line;
use rusty_rtree::vector::SVec;
use std::borrow::Borrow;
use std::fmt::Debug;
use std::ops::{Add, Sub};


pub fn contains(a: &IBox, b: &IBox) -> bool {
    (0..b.0.len()).any(|i| b.0[i] > b.1[i])
        || (0..a.0.len()).all(|i| a.0[i] <= b.0[i] && b.1[i] <= a.1[i])
}
pub fn meets(a: &IBox, b: &IBox) -> bool {
    (0..a.0.len()).all(|i| a.0[i].max(b.0[i]) <= a.1[i].min(b.1[i]))
}

/// Scalars of the built-in boxes.
pub trait Num:
    Copy + Ord + Debug + Add<Output = Self> + Sub<Output = Self> + Into<f64> + num_traits::Bounded + 'static
{
    fn of(x: f64) -> Self;
    fn lowest() -> f64;
    fn highest() -> f64;
    const NAME: &'static str;
}
macro_rules! int_num {
    ($($t:ty),*) => {$(impl Num for $t {
        fn of(x: f64) -> Self { x as $t }
        fn lowest() -> f64 { <$t>::MIN as f64 }
        fn highest() -> f64 { <$t>::MAX as f64 }
        const NAME: &'static str = stringify!($t);
    })*};
}
int_num!(i32, u8, i8, u32, i16, u16);
impl Num for N64 {
    fn of(x: f64) -> Self {
        n64(x)
    }
    fn lowest() -> f64 {
        -1e90
    }
    fn highest() -> f64 {
        1e90
    }
    const NAME: &'static str = "N64";
}
impl Num for N32 {
    fn of(x: f64) -> Self {
        n32(x as f32)
    }
    fn lowest() -> f64 {
        -1048576.0
    }
    fn highest() -> f64 {
        1048576.0
    }
    const NAME: &'static str = "N32";
}

pub trait World: 'static {
    type B: Bounds + Volume + Clone + Debug + 'static;
    type K: Bounded<Self::B> + Eq + Clone + Debug + Borrow<Self::Q> + 'static;
    type Q: ?Sized + Bounded<Self::B> + Eq + 'static;
    fn name(&self) -> String;
    fn tight(&self) -> bool;
    fn u(&self) -> &Universe;
    /// kid is in 1..=nkeys
    fn key(&self, kid: usize, ser: i32) -> Self::K;
    fn id(&self, k: &Self::K) -> (i32, i32);
    fn qid(&self, q: &Self::Q) -> (i32, i32);
    fn bbox(&self, b: &Self::B) -> IBox;
    fn dbg_id(&self, d: &D) -> Option<(i32, i32)>;
    /// The clonings of a key, if they can be told.
    fn gen(&self, _k: &Self::K) -> Option<u32> {
        None
    }
    /// Whether keys have an identity of their own (ser) besides equality.
    fn has_ser(&self) -> bool {
        true
    }

    fn nkeys(&self) -> usize {
        self.u().boxes.len()
    }
    fn alien(&self) -> i32 {
        self.nkeys() as i32 + 1
    }
    fn dbg_box(&self, d: &D) -> Option<IBox> {
        let mut v = vec![];
        numbers(d, &mut v);
        let n = self.u().d;
        if v.len() != 2 * n {
            return None;
        }
        Some(self.u().project(&v[..n], &v[n..]))
    }
    /// The boxes of all keys, and of the alien key.
    fn keys_json(&self) -> String {
        let mut s = String::from("[");
        for b in &self.u().kboxes {
            s.push_str(&ibox_json(b));
            s.push(',');
        }
        let d = self.u().d;
        s.push_str(&ibox_json(&(vec![-1000000; d], vec![1000000; d])));
        s.push(']');
        s
    }
}

fn saabb<N: Num, const DIM: usize>(b: &(Vec<f64>, Vec<f64>)) -> SAABB<N, DIM> {
    AABB {
        min: SVec(std::array::from_fn(|i| N::of(b.0[i]))),
        max: SVec(std::array::from_fn(|i| N::of(b.1[i]))),
    }
}
fn unbox<N: Num, const DIM: usize>(u: &Universe, b: &SAABB<N, DIM>) -> IBox {
    let lo: Vec<f64> = b.min.0.iter().map(|x| (*x).into()).collect();
    let hi: Vec<f64> = b.max.0.iter().map(|x| (*x).into()).collect();
    u.project(&lo, &hi)
}

// ---------------------------------------------------------------------------------------------
// Tagged keys: equality by kid, each object with its own serial number.

#[derive(Clone, Debug)]
pub struct Core<B> {
    pub kid: i32,
    pub b: B,
}
impl<B> PartialEq for Core<B> {
    fn eq(&self, o: &Self) -> bool {
        self.kid == o.kid
    }
}
impl<B> Eq for Core<B> {}
impl<B: Bounds + Clone> Bounded<B> for Core<B> {
    fn bounds(&self) -> B {
        self.b.clone()
    }
}
pub struct TKey<B> {
    pub core: Core<B>,
    pub ser: i32,
    /// the clonings that lie between it and the original
    pub gen: u32,
}
impl<B: Clone> Clone for TKey<B> {
    fn clone(&self) -> Self {
        TKey { core: self.core.clone(), ser: self.ser, gen: self.gen + 1 }
    }
}
impl<B> Debug for TKey<B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "K({}, {})", self.core.kid, self.ser)
    }
}
impl<B> PartialEq for TKey<B> {
    fn eq(&self, o: &Self) -> bool {
        self.core == o.core
    }
}
impl<B> Eq for TKey<B> {}
impl<B: Bounds + Clone> Bounded<B> for TKey<B> {
    fn bounds(&self) -> B {
        self.core.b.clone()
    }
}
impl<B> Borrow<Core<B>> for TKey<B> {
    fn borrow(&self) -> &Core<B> {
        &self.core
    }
}

fn two_ints(d: &D) -> Option<(i32, i32)> {
    let mut v = vec![];
    numbers(d, &mut v);
    if v.len() == 2 {
        Some((v[0] as i32, v[1] as i32))
    } else {
        None
    }
}

/// Boxes over a scalar, tagged keys.
pub struct BoxWorld<N, const DIM: usize> {
    pub u: Universe,
    pub _n: std::marker::PhantomData<N>,
}
impl<N: Num, const DIM: usize> BoxWorld<N, DIM> {
    pub fn new(u: Universe) -> Self {
        BoxWorld { u, _n: std::marker::PhantomData }
    }
}
impl<N: Num, const DIM: usize> World for BoxWorld<N, DIM> {
    type B = SAABB<N, DIM>;
    type K = TKey<SAABB<N, DIM>>;
    type Q = Core<SAABB<N, DIM>>;
    fn name(&self) -> String {
        format!("SAABB<{},{}>", N::NAME, DIM)
    }
    fn tight(&self) -> bool {
        true
    }
    fn u(&self) -> &Universe {
        &self.u
    }
    fn key(&self, kid: usize, ser: i32) -> Self::K {
        TKey { core: Core { kid: kid as i32, b: saabb(&self.u.boxes[kid - 1]) }, ser, gen: 0 }
    }
    fn id(&self, k: &Self::K) -> (i32, i32) {
        (k.core.kid, k.ser)
    }
    fn gen(&self, k: &Self::K) -> Option<u32> {
        Some(k.gen)
    }
    fn qid(&self, q: &Self::Q) -> (i32, i32) {
        (q.kid, -1)
    }
    fn bbox(&self, b: &Self::B) -> IBox {
        unbox(&self.u, b)
    }
    fn dbg_id(&self, d: &D) -> Option<(i32, i32)> {
        two_ints(d)
    }
}

// ---------------------------------------------------------------------------------------------
// Plain keys: points, boxes, lines as users would use them.

pub trait Plain<N: Num, const DIM: usize>: Bounded<SAABB<N, DIM>> + Eq + Clone + Debug + 'static {
    fn make(b: &(Vec<f64>, Vec<f64>)) -> Self;
    const KIND: &'static str;
    const POINTS: bool;
}
impl<const DIM: usize> Plain<i32, DIM> for SVec<i32, DIM> {
    fn make(b: &(Vec<f64>, Vec<f64>)) -> Self {
        SVec(std::array::from_fn(|i| b.0[i] as i32))
    }
    const KIND: &'static str = "SVec";
    const POINTS: bool = true;
}
impl<const DIM: usize> Plain<i32, DIM> for SAABB<i32, DIM> {
    fn make(b: &(Vec<f64>, Vec<f64>)) -> Self {
        saabb(b)
    }
    const KIND: &'static str = "SAABB";
    const POINTS: bool = false;
}
impl<const DIM: usize> Plain<i32, DIM> for Line<SVec<i32, DIM>> {
    fn make(b: &(Vec<f64>, Vec<f64>)) -> Self {
        Line(
            SVec(std::array::from_fn(|i| if i == 0 { b.1[i] } else { b.0[i] } as i32)),
            SVec(std::array::from_fn(|i| if i == 0 { b.0[i] } else { b.1[i] } as i32)),
        )
    }
    const KIND: &'static str = "Line";
    const POINTS: bool = false;
}

pub struct PlainWorld<P, const DIM: usize> {
    pub u: Universe,
    keys: Vec<P>,
    text: std::collections::HashMap<String, i32>,
}
impl<P: Plain<i32, DIM>, const DIM: usize> PlainWorld<P, DIM> {
    pub fn new(u: Universe) -> Self {
        // equal keys are one key
        let mut seen: Vec<P> = vec![];
        let mut boxes = vec![];
        for b in &u.boxes {
            let k = P::make(b);
            if !seen.contains(&k) {
                seen.push(k);
                boxes.push(b.clone());
            }
        }
        let text = seen.iter().enumerate().map(|(i, k)| (canon(&format!("{k:?}")), i as i32 + 1)).collect();
        PlainWorld { u: Universe::new(u.d, boxes), keys: seen, text }
    }
}
fn canon(s: &str) -> String {
    format!("{:?}", crate::dbg::parse(s))
}
impl<P: Plain<i32, DIM>, const DIM: usize> World for PlainWorld<P, DIM> {
    type B = SAABB<i32, DIM>;
    type K = P;
    type Q = P;
    fn name(&self) -> String {
        format!("{}<i32,{}>", P::KIND, DIM)
    }
    fn tight(&self) -> bool {
        true
    }
    fn u(&self) -> &Universe {
        &self.u
    }
    fn key(&self, kid: usize, _ser: i32) -> P {
        self.keys[kid - 1].clone()
    }
    fn id(&self, k: &P) -> (i32, i32) {
        match self.keys.iter().position(|x| x == k) {
            Some(i) => (i as i32 + 1, 0),
            None => (self.alien(), 0),
        }
    }
    fn qid(&self, q: &P) -> (i32, i32) {
        (self.id(q).0, -1)
    }
    fn bbox(&self, b: &Self::B) -> IBox {
        unbox(&self.u, b)
    }
    fn dbg_id(&self, d: &D) -> Option<(i32, i32)> {
        Some((*self.text.get(&format!("{:?}", Some(d.clone()))).unwrap_or(&self.alien()), 0))
    }
    fn has_ser(&self) -> bool {
        false
    }
}

// ---------------------------------------------------------------------------------------------
// Keys with an unsized borrowed form.

/// kid (one byte), then the corners as i8.
#[derive(PartialEq, Eq)]
#[repr(transparent)]
pub struct Name([u8]);
impl Name {
    pub fn new(b: &[u8]) -> &Name {
        unsafe { &*(b as *const [u8] as *const Name) }
    }
}
fn name_box(b: &[u8]) -> SAABB<i32, 2> {
    let c = |i: usize| b[i] as i8 as i32;
    AABB { min: SVec([c(1), c(2)]), max: SVec([c(3), c(4)]) }
}
impl Bounded<SAABB<i32, 2>> for Name {
    fn bounds(&self) -> SAABB<i32, 2> {
        name_box(&self.0)
    }
}
#[derive(Clone)]
pub struct NKey(pub Vec<u8>, pub i32);
impl PartialEq for NKey {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for NKey {}
impl Debug for NKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "K({}, {})", self.0[0], self.1)
    }
}
impl Borrow<Name> for NKey {
    fn borrow(&self) -> &Name {
        Name::new(&self.0)
    }
}
impl Bounded<SAABB<i32, 2>> for NKey {
    fn bounds(&self) -> SAABB<i32, 2> {
        name_box(&self.0)
    }
}
pub struct NameWorld {
    pub u: Universe,
}
impl World for NameWorld {
    type B = SAABB<i32, 2>;
    type K = NKey;
    type Q = Name;
    fn name(&self) -> String {
        "unsized keys".into()
    }
    fn tight(&self) -> bool {
        true
    }
    fn u(&self) -> &Universe {
        &self.u
    }
    fn key(&self, kid: usize, ser: i32) -> NKey {
        let b = &self.u.boxes[kid - 1];
        NKey(
            vec![kid as u8, b.0[0] as i8 as u8, b.0[1] as i8 as u8, b.1[0] as i8 as u8, b.1[1] as i8 as u8],
            ser,
        )
    }
    fn id(&self, k: &NKey) -> (i32, i32) {
        (k.0[0] as i32, k.1)
    }
    fn qid(&self, q: &Name) -> (i32, i32) {
        (q.0[0] as i32, -1)
    }
    fn bbox(&self, b: &Self::B) -> IBox {
        unbox(&self.u, b)
    }
    fn dbg_id(&self, d: &D) -> Option<(i32, i32)> {
        two_ints(d)
    }
}

// ---------------------------------------------------------------------------------------------
// A user's own bounds type whose union is not exact: it rounds outward.

#[derive(Clone, Debug, PartialEq)]
pub struct Loose {
    pub lo: [i32; 2],
    pub hi: [i32; 2],
}
impl Loose {
    fn is_empty(&self) -> bool {
        self.lo[0] > self.hi[0]
    }
}
impl Contains<Loose> for Loose {
    fn contains(&self, o: &Loose) -> bool {
        o.is_empty() || (0..2).all(|i| self.lo[i] <= o.lo[i] && o.hi[i] <= self.hi[i])
    }
}
impl Intersects<Loose> for Loose {
    fn intersects(&self, o: &Loose) -> bool {
        (0..2).all(|i| self.lo[i].max(o.lo[i]) <= self.hi[i].min(o.hi[i]))
    }
}
impl Bounds for Loose {
    fn empty() -> Self {
        Loose { lo: [1; 2], hi: [0; 2] }
    }
    fn union(a: &Self, b: &Self) -> Self {
        if a.is_empty() {
            return b.clone();
        }
        if b.is_empty() {
            return a.clone();
        }
        if a == b {
            return a.clone();
        }
        Loose {
            lo: std::array::from_fn(|i| a.lo[i].min(b.lo[i]).div_euclid(4) * 4),
            hi: std::array::from_fn(|i| (a.hi[i].max(b.hi[i]) + 3).div_euclid(4) * 4),
        }
    }
    fn union_all(bounds: impl IntoIterator<Item = Self>) -> Self {
        let mut all: Vec<Loose> = bounds.into_iter().collect();
        let first = match all.pop() {
            Some(b) => b,
            None => return Self::empty(),
        };
        all.iter().fold(first, |a, b| Self::union(&a, b))
    }
}
impl Volume for Loose {
    fn volume(&self) -> N64 {
        n64((0..2).map(|i| (self.hi[i] - self.lo[i]) as f64).product())
    }
}
pub struct LooseWorld {
    pub u: Universe,
}
impl World for LooseWorld {
    type B = Loose;
    type K = TKey<Loose>;
    type Q = Core<Loose>;
    fn name(&self) -> String {
        "inexact union".into()
    }
    fn tight(&self) -> bool {
        false
    }
    fn u(&self) -> &Universe {
        &self.u
    }
    fn key(&self, kid: usize, ser: i32) -> Self::K {
        let b = &self.u.boxes[kid - 1];
        let b = Loose { lo: std::array::from_fn(|i| b.0[i] as i32), hi: std::array::from_fn(|i| b.1[i] as i32) };
        TKey { core: Core { kid: kid as i32, b }, ser, gen: 0 }
    }
    fn id(&self, k: &Self::K) -> (i32, i32) {
        (k.core.kid, k.ser)
    }
    fn gen(&self, k: &Self::K) -> Option<u32> {
        Some(k.gen)
    }
    fn qid(&self, q: &Self::Q) -> (i32, i32) {
        (q.kid, -1)
    }
    fn bbox(&self, b: &Loose) -> IBox {
        let f = |v: &[i32; 2]| v.iter().map(|x| *x as f64).collect::<Vec<_>>();
        self.u.project(&f(&b.lo), &f(&b.hi))
    }
    fn dbg_id(&self, d: &D) -> Option<(i32, i32)> {
        two_ints(d)
    }
}

/// What to do with a world whose type is only known at run time.
pub trait WithWorld {
    type Out;
    fn run<W: World>(self, w: W) -> Self::Out;
}

pub const WORLDS: usize = 12;

fn uni<N: Num>(rng: &mut Rng, d: usize, n: usize) -> Universe {
    Universe::random(rng, d, n, N::lowest(), N::highest(), false)
}
/// Builds world number `which` with `n` random keys.
pub fn with_world<F: WithWorld>(which: usize, rng: &mut Rng, n: usize, f: F) -> F::Out {
    match which {
        0 => f.run(BoxWorld::<i32, 2>::new(uni::<i32>(rng, 2, n))),
        1 => f.run(BoxWorld::<i32, 1>::new(uni::<i32>(rng, 1, n))),
        2 => f.run(BoxWorld::<i32, 3>::new(uni::<i32>(rng, 3, n))),
        3 => f.run(BoxWorld::<N64, 2>::new(uni::<N64>(rng, 2, n))),
        4 => f.run(BoxWorld::<u8, 2>::new(uni::<u8>(rng, 2, n))),
        5 => f.run(BoxWorld::<i8, 2>::new(uni::<i8>(rng, 2, n))),
        6 => f.run(LooseWorld { u: Universe::random(rng, 2, n, -1000.0, 1000.0, false) }),
        7 => f.run(NameWorld { u: Universe::random(rng, 2, n.min(120), -100.0, 100.0, false) }),
        8 => f.run(PlainWorld::<SVec<i32, 2>, 2>::new(Universe::random(rng, 2, n, -1e9, 1e9, true))),
        9 => f.run(PlainWorld::<SAABB<i32, 2>, 2>::new(uni::<i32>(rng, 2, n))),
        10 => f.run(PlainWorld::<Line<SVec<i32, 2>>, 2>::new(Universe::random(rng, 2, n, -1e9, 1e9, false))),
        _ => f.run(BoxWorld::<N32, 2>::new(uni::<N32>(rng, 2, n))),
    }
}

/// The worlds of the left and of the right tree of a join (fewer: each pair is compiled).
pub const FIRST_WORLDS: usize = 4;
pub fn first_world<F: WithWorld>(which: usize, rng: &mut Rng, n: usize, f: F) -> F::Out {
    match which {
        0 => f.run(BoxWorld::<i32, 2>::new(uni::<i32>(rng, 2, n))),
        1 => f.run(BoxWorld::<N64, 1>::new(uni::<N64>(rng, 1, n))),
        2 => f.run(NameWorld { u: Universe::random(rng, 2, n.min(120), -100.0, 100.0, false) }),
        _ => f.run(PlainWorld::<SVec<i32, 2>, 2>::new(Universe::random(rng, 2, n, -1e9, 1e9, true))),
    }
}
pub const SECOND_WORLDS: usize = 3;
pub fn second_world<F: WithWorld>(which: usize, rng: &mut Rng, n: usize, f: F) -> F::Out {
    match which {
        0 => f.run(BoxWorld::<i32, 2>::new(uni::<i32>(rng, 2, n))),
        1 => f.run(NameWorld { u: Universe::random(rng, 2, n.min(120), -100.0, 100.0, false) }),
        _ => f.run(BoxWorld::<u8, 3>::new(uni::<u8>(rng, 3, n))),
    }
}

/// The given boxes (corners: lower, upper) in the plane, scaled to various scalars.
pub fn with_boxes<F: WithWorld>(which: usize, boxes: &[Vec<i64>], f: F) -> F::Out {
    let uni = |scale: f64, off: f64| {
        let p = |x: i64| x as f64 * scale + off;
        Universe::new(2, boxes.iter().map(|b| (vec![p(b[0]), p(b[1])], vec![p(b[2]), p(b[3])])).collect())
    };
    match which % 4 {
        0 => f.run(BoxWorld::<i32, 2>::new(uni(1000.0, -3.0))),
        1 => f.run(BoxWorld::<N64, 2>::new(uni(0.25, -1.0))),
        2 => f.run(BoxWorld::<u8, 2>::new(uni(36.0, 3.0))),
        _ => f.run(BoxWorld::<i8, 2>::new(uni(36.0, -128.0))),
    }
}
