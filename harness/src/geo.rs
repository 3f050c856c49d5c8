//! Geometric facts (C17..C20): calls of the geometric operations and queries with the built-in
//! filters and rankings, recorded with their answers for GeometryFacts.tla.
//!
//! Coordinates are recorded as small integers. For operations that only compare, the integers are
//! ranks in a palette of scalar values (value i of the palette is 2*i, values in between are odd).
//! For operations that calculate, coordinate g stands for base + unit * g, and an answer that is
//! no multiple of the unit is recorded as -1.

use crate::rng::Rng;
use crate::tree::{config, guarded, Guarded};
use crate::Args;
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance, Ranking};
use rusty_rtree::vector::{SVec, Vector};
use rusty_rtree::{RTree, RTreeConfig};
use std::collections::BTreeSet;
use std::fmt::{Debug, Write};
use std::ops::{Add, Mul, Sub};
use std::time::Instant;

pub trait Sc:
    Copy + Ord + Debug + num_traits::Bounded + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + 'static
{
    const NAME: &'static str;
    const SIGNED: bool;
    /// 0: floating
    const BITS: i32;
    /// of a value that is representable
    fn of(x: f64) -> Self;
    fn back(self) -> f64;
    /// Values to compare with each other, ascending, with the extremes.
    fn palette() -> Vec<Self>;
}
macro_rules! int_sc {
    ($($t:ty, $s:expr);*) => {$(impl Sc for $t {
        const NAME: &'static str = stringify!($t);
        const SIGNED: bool = $s;
        const BITS: i32 = <$t>::BITS as i32;
        fn of(x: f64) -> Self { x as $t }
        fn back(self) -> f64 { self as f64 }
        fn palette() -> Vec<Self> {
            let mut v = vec![<$t>::MIN, <$t>::MIN + 1, <$t>::MIN + 2, <$t>::MIN / 2, 0, 1, 2, 3, 5, 7, <$t>::MAX / 2, <$t>::MAX - 2, <$t>::MAX - 1, <$t>::MAX];
            if $s { v.push(<$t>::MIN + (<$t>::MAX - 1)); v.push((0 as $t).wrapping_sub(2)); }
            v.sort();
            v.dedup();
            v
        }
    })*};
}
int_sc!(i8, true; i16, true; i32, true; i64, true; i128, true; u8, false; u16, false; u32, false; u64, false);
macro_rules! float_sc {
    ($($t:ty, $f:ty, $name:expr);*) => {$(impl Sc for $t {
        const NAME: &'static str = $name;
        const SIGNED: bool = true;
        const BITS: i32 = 0;
        fn of(x: f64) -> Self { <$t>::new(x as $f) }
        fn back(self) -> f64 { self.raw() as f64 }
        fn palette() -> Vec<Self> {
            let f: [$f; 14] = [<$f>::MIN, <$f>::MIN / 2.0, -3.0, -1.0, -<$f>::MIN_POSITIVE, 0.0, <$f>::MIN_POSITIVE / 8.0,
                <$f>::MIN_POSITIVE, 0.1, 1.0 - <$f>::EPSILON, 1.0, 1.0 + <$f>::EPSILON, 7.5, <$f>::MAX];
            f.iter().map(|x| <$t>::new(*x)).collect()
        }
    })*};
}
float_sc!(N64, f64, "N64"; N32, f32, "N32");

/// Grid coordinate g stands for base + unit * g.
#[derive(Clone, Copy, Debug)]
pub struct Emb {
    base: f64,
    unit: f64,
    lo: i32,
    hi: i32,
    /// zeros are recorded as zeros, but given as -0.0
    neg: bool,
}
impl Emb {
    fn at<N: Sc>(&self, g: i32) -> N {
        let x = self.base + self.unit * g as f64;
        N::of(if x == 0.0 && self.neg && N::BITS == 0 { -0.0 } else { x })
    }
    /// A difference of grid coordinates.
    fn diff<N: Sc>(&self, g: i32) -> N {
        let x = self.unit * g as f64;
        N::of(if x == 0.0 && self.neg && N::BITS == 0 { -0.0 } else { x })
    }
    fn back(&self, x: f64) -> i32 {
        whole((x - self.base) / self.unit)
    }
    fn vec<N: Sc, const D: usize>(&self, g: &[i32]) -> SVec<N, D> {
        SVec(std::array::from_fn(|i| self.at(g[i])))
    }
    fn boxed<N: Sc, const D: usize>(&self, b: &GBox) -> SAABB<N, D> {
        AABB { min: self.vec(&b.0), max: self.vec(&b.1) }
    }
    fn unbox<N: Sc, const D: usize>(&self, b: &SAABB<N, D>) -> GBox {
        (
            b.min.0.iter().map(|x| self.back(x.back())).collect(),
            b.max.0.iter().map(|x| self.back(x.back())).collect(),
        )
    }
}
fn whole(x: f64) -> i32 {
    if x.fract() == 0.0 && x.abs() < 1e9 {
        x as i32
    } else {
        -987_654_321
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Use {
    /// converted to f64 before anything is calculated
    Free,
    /// differences are calculated in N
    Diff,
    /// squares are calculated in N
    Square,
}

/// The range of coordinates is smaller in many dimensions: products and sums stay small integers.
fn emb<N: Sc>(rng: &mut Rng, u: Use, d: usize) -> Emb {
    let mut e = emb_any::<N>(rng, u, d);
    if d > 4 {
        if e.lo < 0 {
            (e.lo, e.hi) = (e.lo.max(-2), e.hi.min(2));
        } else {
            e.hi = e.hi.min(e.lo + 4);
        }
    }
    e
}
fn emb_any<N: Sc>(rng: &mut Rng, u: Use, d: usize) -> Emb {
    let neg = rng.chance(1, 3);
    let e = |base: f64, unit: f64, lo: i32, hi: i32| Emb { base, unit, lo, hi, neg };
    if N::BITS == 0 {
        // units whose multiples and squares are exact
        let small = N::NAME == "N32";
        return match rng.below(5) {
            0 => e(0.0, 0.125, -8, 7),
            1 => e(0.0, if small { 1048576.0 } else { 2f64.powi(100) }, -8, 7),
            2 => e(if small { 16.0 } else { 1000.0 }, 0.25, -8, 7),
            3 => e(0.0, if small { 2f64.powi(-20) } else { 2f64.powi(-100) }, -8, 7),
            _ => e(0.0, 1.0, -8, 7),
        };
    }
    let bits = N::BITS;
    let max = 2f64.powi(if N::SIGNED { bits - 1 } else { bits }) - 1.0;
    let min = if N::SIGNED { -max - 1.0 } else { 0.0 };
    // beyond what an f64 can tell apart
    let wide = bits > 32;
    match u {
        Use::Free => match rng.below(4) {
            0 if !wide => e(max - 7.0, 1.0, 0, 7),
            1 if !wide => e(min, 1.0, 0, 7),
            2 => e(0.0, 2f64.powi(bits - 4), if N::SIGNED { -8 } else { 0 }, if N::SIGNED { 7 } else { 15 }),
            _ => e(0.0, 1.0, if N::SIGNED { -8 } else { 0 }, 7),
        },
        Use::Diff => match rng.below(4) {
            0 if !wide => e(max - 7.0, 1.0, 0, 7),
            1 if !wide => e(min, 1.0, 0, 7),
            2 => e(0.0, 2f64.powi(bits - 5), -8, 7),
            _ => e(0.0, 1.0, -8, 7),
        },
        Use::Square => {
            if bits == 8 {
                return if d <= 3 { e(0.0, 1.0, -3, 3) } else { e(0.0, 1.0, -2, 2) };
            }
            match rng.below(3) {
                0 => e(0.0, 2f64.powi((bits - 12) / 2), -8, 7),
                1 if !wide => e(max - 7.0, 1.0, 0, 7),
                _ => e(0.0, 1.0, -8, 7),
            }
        }
    }
}

type GBox = (Vec<i32>, Vec<i32>);

fn rpoint(rng: &mut Rng, d: usize, lo: i32, hi: i32) -> Vec<i32> {
    (0..d).map(|_| rng.range(lo as i64, hi as i64) as i32).collect()
}
fn rbox(rng: &mut Rng, d: usize, lo: i32, hi: i32) -> GBox {
    let flat = rng.chance(1, 6);
    let small = rng.chance(1, 2);
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..d {
        let x = rng.range(lo as i64, hi as i64) as i32;
        let y = if flat || rng.chance(1, 6) {
            x
        } else if small {
            (x + rng.below(3) as i32).min(hi)
        } else {
            rng.range(lo as i64, hi as i64) as i32
        };
        a.push(x.min(y));
        b.push(x.max(y));
    }
    (a, b)
}
/// All boxes on a grid of m values per dimension.
fn all_boxes(d: usize, m: i32) -> Vec<GBox> {
    let mut v: Vec<GBox> = vec![(vec![], vec![])];
    for _ in 0..d {
        let mut w = vec![];
        for b in &v {
            for x in 0..m {
                for y in x..m {
                    let mut c = b.clone();
                    c.0.push(x);
                    c.1.push(y);
                    w.push(c);
                }
            }
        }
        v = w;
    }
    v
}
fn all_points(d: usize, lo: i32, hi: i32) -> Vec<Vec<i32>> {
    let mut v: Vec<Vec<i32>> = vec![vec![]];
    for _ in 0..d {
        v = v.iter().flat_map(|p| (lo..=hi).map(move |x| p.iter().cloned().chain([x]).collect())).collect();
    }
    v
}
fn jbox(b: &GBox) -> String {
    format!("[{:?},{:?}]", b.0, b.1)
}
fn jboxes(b: &[GBox]) -> String {
    let v: Vec<String> = b.iter().map(jbox).collect();
    format!("[{}]", v.join(","))
}

struct Hist {
    id: String,
    keys: String,
    ev: Vec<String>,
}
impl Hist {
    fn new(id: String) -> Hist {
        Hist { id, keys: "[]".into(), ev: vec![] }
    }
    fn add(&mut self, what: &str, f: impl FnOnce() -> String) {
        crate::watch::note(|| format!("{} {what}", self.id));
        match guarded(f) {
            Guarded::Ok(s) => self.ev.push(s),
            Guarded::Panicked => {
                let m = crate::watch::last_panic();
                self.ev.push(format!("{{\"op\":\"panic\",\"what\":\"{what}\",\"message\":\"{m}\"}}"))
            }
        }
    }
}
#[derive(Default)]
struct Book {
    lines: String,
    n: usize,
    facts: usize,
    classes: BTreeSet<String>,
}
impl Book {
    fn put(&mut self, class: &str, h: Hist) {
        self.n += 1;
        self.facts += h.ev.len();
        self.classes.insert(class.into());
        let _ = writeln!(self.lines, "{{\"id\":\"{}\",\"keys\":{},\"ev\":[{}]}}", h.id, h.keys, h.ev.join(","));
    }
}

// ---------------------------------------------------------------------------------------------
// C17

struct Pal<N> {
    v: Vec<N>,
}
impl<N: Sc> Pal<N> {
    fn random(rng: &mut Rng, n: usize) -> Self {
        let all = N::palette();
        let mut v = vec![];
        while v.len() < n.min(all.len()) {
            let x = match rng.below(6) {
                0 => all[0],
                1 => all[all.len() - 1],
                _ => *rng.pick(&all),
            };
            if !v.contains(&x) {
                v.push(x);
            }
        }
        v.sort();
        Pal { v }
    }
    fn rank(&self, x: N) -> i32 {
        let i = self.v.partition_point(|y| *y < x);
        if i < self.v.len() && self.v[i] == x {
            2 * i as i32 + 2
        } else {
            2 * i as i32 + 1
        }
    }
    fn pt<const D: usize>(&self, g: &[i32]) -> SVec<N, D> {
        SVec(std::array::from_fn(|i| self.v[g[i] as usize]))
    }
    fn bx<const D: usize>(&self, b: &GBox) -> SAABB<N, D> {
        AABB { min: self.pt(&b.0), max: self.pt(&b.1) }
    }
    fn jp<const D: usize>(&self, p: &SVec<N, D>) -> String {
        let v: Vec<i32> = p.0.iter().map(|x| self.rank(*x)).collect();
        format!("{v:?}")
    }
    fn jb<const D: usize>(&self, b: &SAABB<N, D>) -> String {
        format!("[{},{}]", self.jp(&b.min), self.jp(&b.max))
    }
}

fn boxes_fact<N: Sc, const D: usize>(h: &mut Hist, p: &Pal<N>, a: &GBox, b: &GBox) {
    let (x, y): (SAABB<N, D>, SAABB<N, D>) = (p.bx(a), p.bx(b));
    h.add("boxes", || {
        format!(
            "{{\"op\":\"boxes\",\"a\":{},\"b\":{},\"contains\":{},\"meets\":{},\"meets2\":{},\"union\":{}}}",
            p.jb(&x), p.jb(&y), Contains::contains(&x, &y), x.intersects(&y), y.intersects(&x), p.jb(&Bounds::union(&x, &y))
        )
    });
}
fn point_fact<N: Sc, const D: usize>(h: &mut Hist, p: &Pal<N>, a: &GBox, q: &[i32]) {
    let (x, y): (SAABB<N, D>, SVec<N, D>) = (p.bx(a), p.pt(q));
    h.add("box and point", || {
        let b: SAABB<N, D> = y.bounds();
        let b2: SAABB<N, D> = Bounded::<SAABB<N, D>>::bounds(&x);
        format!(
            "{{\"op\":\"boxpoint\",\"a\":{},\"p\":{},\"contains\":{},\"meets\":{},\"meets2\":{},\"bounds\":{},\"bounds2\":{}}}",
            p.jb(&x), p.jp(&y), Contains::contains(&x, &y), x.intersects(&y), y.intersects(&x), p.jb(&b), p.jb(&b2)
        )
    });
}

fn vectors_fact<N: Sc, const D: usize>(h: &mut Hist, p: &Pal<N>, a: &[i32], b: &[i32]) {
    let (x, y): (SVec<N, D>, SVec<N, D>) = (p.pt(a), p.pt(b));
    h.add("vectors", || {
        format!(
            "{{\"op\":\"vectors\",\"p\":{},\"q\":{},\"le\":{},\"ge\":{},\"min\":{},\"max\":{},\"extremes\":{}}}",
            p.jp(&x), p.jp(&y), x.all_le(&y), x.all_ge(&y), p.jp(&x.componentwise_min(&y)), p.jp(&x.componentwise_max(&y)),
            SVec::<N, D>::min_value().all_le(&x) && SVec::<N, D>::max_value().all_ge(&x)
        )
    });
}
/// Ranks among the values and 0.
fn ranks(v: &[f64]) -> (i32, Vec<i32>) {
    let mut all: Vec<f64> = v.iter().cloned().chain([0.0]).collect();
    all.sort_by(|a, b| a.total_cmp(b));
    let rank = |x: f64| all.iter().filter(|y| **y < x).count() as i32;
    (rank(0.0), v.iter().map(|x| rank(*x)).collect())
}
/// Volumes of boxes anywhere, where they cannot be exact.
fn growth_facts<N: Sc + Into<f64>, const D: usize>(rng: &mut Rng, book: &mut Book, id: &str) {
    let class = format!("growth {} {}", N::NAME, D);
    let mut h = Hist::new(format!("{id} {class}"));
    let n = 3 + rng.below(8);
    let p: Pal<N> = Pal::random(rng, n);
    let n = p.v.len() as i32;
    for _ in 0..16 {
        let (x, y): (SAABB<N, D>, SAABB<N, D>) = (p.bx(&rbox(rng, D, 0, n - 1)), p.bx(&rbox(rng, D, 0, n - 1)));
        h.add("volumes", || {
            let u: SAABB<N, D> = Bounds::union(&x, &y);
            let (zero, v) = ranks(&[x.volume().raw(), y.volume().raw(), u.volume().raw()]);
            format!("{{\"op\":\"growth\",\"a\":{},\"b\":{},\"zero\":{zero},\"v\":{v:?}}}", p.jb(&x), p.jb(&y))
        });
    }
    book.put(&class, h);
}

fn order_facts<N: Sc, const D: usize>(rng: &mut Rng, book: &mut Book, exhaustive: Option<(usize, usize)>, id: &str) {
    let class = format!("order {} {}", N::NAME, D);
    if let Some((part, parts)) = exhaustive {
        // all pairs of boxes, all boxes and points on a small grid
        let m: i32 = if D == 1 { 6 } else { 4 };
        let p: Pal<N> = Pal::random(rng, m as usize);
        let boxes = all_boxes(D, m);
        let points = all_points(D, 0, m - 1);
        for (i, a) in boxes.iter().enumerate() {
            if i % parts != part {
                continue;
            }
            let mut h = Hist::new(format!("{id} all {class} {i}"));
            for b in &boxes {
                boxes_fact::<N, D>(&mut h, &p, a, b);
            }
            for q in &points {
                point_fact::<N, D>(&mut h, &p, a, q);
            }
            book.put(&class, h);
        }
        return;
    }
    let mut h = Hist::new(format!("{id} {class}"));
    let n = 3 + rng.below(8);
    let p: Pal<N> = Pal::random(rng, n);
    let n = p.v.len() as i32;
    for _ in 0..12 {
        let (a, b) = (rbox(rng, D, 0, n - 1), rbox(rng, D, 0, n - 1));
        boxes_fact::<N, D>(&mut h, &p, &a, &b);
        // a box next to a, or in it
        let mut c = a.clone();
        let i = rng.below(D);
        match rng.below(3) {
            0 => c.0[i] = (c.0[i] + 1).min(c.1[i]),
            1 => c.1[i] = (c.1[i] - 1).max(c.0[i]),
            _ => {
                c.0[i] = c.1[i];
                c.1[i] = (c.1[i] + 1).min(n - 1)
            }
        }
        boxes_fact::<N, D>(&mut h, &p, &a, &c);
        let mut q = rpoint(rng, D, 0, n - 1);
        if rng.chance(1, 2) {
            // near the box
            for i in 0..D {
                if rng.chance(4, 5) {
                    q[i] = *rng.pick(&[a.0[i], a.1[i], rng.clone().range(a.0[i] as i64, a.1[i] as i64) as i32]);
                }
            }
        }
        point_fact::<N, D>(&mut h, &p, &a, &q);
        let o = rpoint(rng, D, 0, n - 1);
        vectors_fact::<N, D>(&mut h, &p, &q, &o);
        let mut o = q.clone();
        for x in o.iter_mut() {
            if rng.chance(1, 2) {
                *x = (*x + rng.below(2) as i32).min(n - 1);
            }
        }
        vectors_fact::<N, D>(&mut h, &p, &q, &o);
        vectors_fact::<N, D>(&mut h, &p, &o, &q);
        let k = rng.below(7);
        let bs: Vec<SAABB<N, D>> = (0..k).map(|_| p.bx(&rbox(rng, D, 0, n - 1))).collect();
        let some: SAABB<N, D> = p.bx(&a);
        let pt: SVec<N, D> = p.pt(&q);
        h.add("union_all", || {
            let u: SAABB<N, D> = Bounds::union_all(bs.clone());
            let l: Vec<String> = bs.iter().map(|b| p.jb(b)).collect();
            if bs.is_empty() {
                let id = Bounds::union(&u, &some) == some && Bounds::union(&some, &u) == some;
                let none = !Contains::contains(&u, &pt) && !Contains::contains(&u, &some);
                format!("{{\"op\":\"unionall\",\"boxes\":[],\"isempty\":{}}}", id && none)
            } else {
                format!("{{\"op\":\"unionall\",\"boxes\":[{}],\"union\":{}}}", l.join(","), p.jb(&u))
            }
        });
        h.add("empty", || {
            let e: SAABB<N, D> = Bounds::empty();
            format!(
                "{{\"op\":\"empty\",\"a\":{},\"left\":{},\"right\":{},\"contains\":{},\"containedin\":{},\"haspoint\":{}}}",
                p.jb(&some), p.jb(&Bounds::union(&e, &some)), p.jb(&Bounds::union(&some, &e)),
                Contains::contains(&some, &e), Contains::contains(&e, &some), Contains::contains(&e, &pt)
            )
        });
    }
    book.put(&class, h);
}
fn volume_facts<N: Sc + Into<f64>, const D: usize>(rng: &mut Rng, book: &mut Book, id: &str) {
    let class = format!("volume {} {}", N::NAME, D);
    let mut h = Hist::new(format!("{id} {class}"));
    let e = emb::<N>(rng, Use::Free, D);
    for i in 0..20 {
        let mut a = rbox(rng, D, e.lo, e.hi);
        if i % 5 == 0 {
            a = (vec![e.lo; D], vec![e.hi; D]);
        }
        let b: SAABB<N, D> = e.boxed(&a);
        h.add("volume", || {
            let v = whole(b.volume().raw() / e.unit.powi(D as i32));
            format!("{{\"op\":\"volume\",\"a\":{},\"v\":{v}}}", jbox(&a))
        });
    }
    book.put(&class, h);
}

// ---------------------------------------------------------------------------------------------
// C18

fn seg<N: Sc, const D: usize>(e: &Emb, s: &(Vec<i32>, Vec<i32>)) -> Line<SVec<N, D>> {
    Line(e.vec(&s.0), e.vec(&s.1))
}
fn segment_fact<N: Sc + Into<f64>, const D: usize>(h: &mut Hist, e: &Emb, s: &(Vec<i32>, Vec<i32>), boxes: &[GBox]) {
    let l: Line<SVec<N, D>> = seg(e, s);
    h.add("segment", || {
        let bs: Vec<SAABB<N, D>> = boxes.iter().map(|b| e.boxed(b)).collect();
        let m: Vec<bool> = bs.iter().map(|b| l.intersects(b)).collect();
        let m2: Vec<bool> = bs.iter().map(|b| b.intersects(&l)).collect();
        let b: SAABB<N, D> = l.bounds();
        format!(
            "{{\"op\":\"segment\",\"s\":{},\"boxes\":{},\"meets\":{m:?},\"meets2\":{m2:?},\"bounds\":{}}}",
            jbox(s), jboxes(boxes), jbox(&e.unbox(&b))
        )
    });
}
fn ray_fact<N: Sc + Into<f64>, const D: usize>(h: &mut Hist, e: &Emb, o: &[i32], n: &[i32], boxes: &[GBox]) {
    let r: Ray<N, D> = Ray { origin: e.vec(o), n: SVec(std::array::from_fn(|i| e.diff(n[i]))) };
    h.add("ray", || {
        let bs: Vec<SAABB<N, D>> = boxes.iter().map(|b| e.boxed(b)).collect();
        let m: Vec<bool> = bs.iter().map(|b| r.intersects(b)).collect();
        let m2: Vec<bool> = bs.iter().map(|b| b.intersects(&r)).collect();
        format!(
            "{{\"op\":\"ray\",\"s\":[{o:?},{n:?}],\"boxes\":{},\"meets\":{m:?},\"meets2\":{m2:?}}}",
            jboxes(boxes)
        )
    });
}
fn sphere_fact<N: Sc + Into<f64>, const D: usize>(h: &mut Hist, e: &Emb, c: &[i32], r: i32, points: &[Vec<i32>]) {
    let s: Sphere<N, D> = Sphere { center: e.vec(c), radius: e.diff(r) };
    h.add("sphere", || {
        let ps: Vec<SVec<N, D>> = points.iter().map(|p| e.vec(p)).collect();
        let m: Vec<bool> = ps.iter().map(|p| s.intersects(p)).collect();
        let m2: Vec<bool> = ps.iter().map(|p| p.intersects(&s)).collect();
        let b: SAABB<N, D> = s.bounds();
        format!(
            "{{\"op\":\"sphere\",\"s\":[{c:?},{r}],\"points\":{points:?},\"meets\":{m:?},\"meets2\":{m2:?},\"bounds\":{}}}",
            jbox(&e.unbox(&b))
        )
    });
}
/// A segment in the range of e, often parallel to an axis, degenerate or in exact steps.
fn rsegment(rng: &mut Rng, d: usize, e: &Emb) -> (Vec<i32>, Vec<i32>) {
    let p = rpoint(rng, d, e.lo, e.hi);
    let exact = rng.chance(1, 2);
    let mut q = rpoint(rng, d, e.lo, e.hi);
    for i in 0..d {
        if rng.chance(1, 4) {
            q[i] = p[i];
        } else if exact {
            let s = *rng.pick(&[1, 2, 4, 8, -1, -2, -4, -8]);
            q[i] = if (e.lo..=e.hi).contains(&(p[i] + s)) { p[i] + s } else { p[i] };
        }
    }
    (p, q)
}
/// A direction: not zero in all dimensions.
fn rdirection(rng: &mut Rng, d: usize) -> Vec<i32> {
    let exact = rng.chance(1, 2);
    let n: Vec<i32> = (0..d)
        .map(|_| {
            if rng.chance(1, 4) {
                0
            } else if exact {
                *rng.pick(&[1, 2, 4, -1, -2, -4])
            } else {
                rng.range(-7, 7) as i32
            }
        })
        .collect();
    if n.iter().all(|x| *x == 0) {
        return rdirection(rng, d);
    }
    n
}
fn shape_facts<N: Sc + Into<f64>, const D: usize>(rng: &mut Rng, book: &mut Book, exhaustive: Option<(usize, usize)>, id: &str) {
    let class = format!("shapes {} {}", N::NAME, D);
    if let Some((part, parts)) = exhaustive {
        let m: i32 = if D == 1 { 6 } else { 4 };
        let mut e = emb::<N>(rng, Use::Diff, D);
        while e.lo > 0 || e.hi < m - 1 {
            e = emb::<N>(rng, Use::Diff, D);
        }
        let boxes = all_boxes(D, m);
        let points = all_points(D, 0, m - 1);
        let dirs: Vec<Vec<i32>> = all_points(D, -2, 2).into_iter().filter(|n| n.iter().any(|x| *x != 0)).collect();
        for (i, p) in points.iter().enumerate() {
            if i % parts != part {
                continue;
            }
            let mut h = Hist::new(format!("{id} all {class} {i}"));
            for q in &points {
                segment_fact::<N, D>(&mut h, &e, &(p.clone(), q.clone()), &boxes);
            }
            for n in &dirs {
                ray_fact::<N, D>(&mut h, &e, p, n, &boxes);
            }
            for r in (0..=3).filter(|r| p.iter().all(|x| x - r >= e.lo && x + r <= e.hi)) {
                sphere_fact::<N, D>(&mut h, &e, p, r, &points);
            }
            book.put(&class, h);
        }
        return;
    }
    let mut h = Hist::new(format!("{id} {class}"));
    let e = emb::<N>(rng, Use::Diff, D);
    for _ in 0..4 {
        let s = rsegment(rng, D, &e);
        let boxes = boxes_along(rng, D, &e, &s.0, &s.1);
        segment_fact::<N, D>(&mut h, &e, &s, &boxes);
        let o = rpoint(rng, D, e.lo, e.hi);
        let n = rdirection(rng, D);
        let far: Vec<i32> = (0..D).map(|i| o[i] + n[i] * rng.range(-2, 3) as i32).collect();
        let boxes = boxes_along(rng, D, &e, &o, &far);
        ray_fact::<N, D>(&mut h, &e, &o, &n, &boxes);
        let r = rng.below(((e.hi - e.lo) / 2) as usize + 1) as i32;
        let c: Vec<i32> = (0..D).map(|_| rng.range((e.lo + r) as i64, (e.hi - r) as i64) as i32).collect();
        let mut points: Vec<Vec<i32>> = (0..6).map(|_| rpoint(rng, D, e.lo, e.hi)).collect();
        for _ in 0..6 {
            // near the surface
            let mut p = c.clone();
            let i = rng.below(D);
            let s = if rng.chance(1, 2) { 1 } else { -1 };
            p[i] = (p[i] + s * (r - rng.below(2) as i32)).clamp(e.lo, e.hi);
            let j = rng.below(D);
            p[j] = (p[j] + rng.range(-2, 2) as i32).clamp(e.lo, e.hi);
            points.push(p);
        }
        sphere_fact::<N, D>(&mut h, &e, &c, r, &points);
    }
    book.put(&class, h);
}
/// Random boxes, half of them near the line from p to q.
fn boxes_along(rng: &mut Rng, d: usize, e: &Emb, p: &[i32], q: &[i32]) -> Vec<GBox> {
    (0..12)
        .map(|_| {
            if rng.chance(1, 3) {
                return rbox(rng, d, e.lo, e.hi);
            }
            let t = rng.range(-1, 5);
            let (mut a, mut b) = (vec![], vec![]);
            for i in 0..d {
                let x = p[i] as i64 + (q[i] - p[i]) as i64 * t / 4 + rng.range(-1, 1);
                let y = x + *rng.pick(&[0, 0, 1, 1, 2, 4]);
                let (x, y) = ((x as i32).clamp(e.lo, e.hi), (y as i32).clamp(e.lo, e.hi));
                a.push(x);
                b.push(y);
            }
            (a, b)
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// C19

fn sq(e: &Emb, x: f64) -> i32 {
    whole(x / e.unit / e.unit)
}

fn distance_facts<N: Sc, const D: usize>(rng: &mut Rng, book: &mut Book, id: &str) {
    let class = format!("distance {} {}", N::NAME, D);
    let mut h = Hist::new(format!("{id} {class}"));
    let e = emb::<N>(rng, Use::Square, D);
    for _ in 0..4 {
        let p = rpoint(rng, D, e.lo, e.hi);
        let points: Vec<Vec<i32>> = (0..6).map(|_| rpoint(rng, D, e.lo, e.hi)).collect();
        let boxes: Vec<GBox> = (0..8).map(|_| rbox(rng, D, e.lo, e.hi)).collect();
        h.add("distance", || {
            let pt: SVec<N, D> = e.vec(&p);
            let ps: Vec<SVec<N, D>> = points.iter().map(|p| e.vec(p)).collect();
            let bs: Vec<SAABB<N, D>> = boxes.iter().map(|b| e.boxed(b)).collect();
            let pp: Vec<i32> = ps.iter().map(|q| sq(&e, q.dist_sq(&pt).back())).collect();
            let pb: Vec<i32> = bs.iter().map(|b| sq(&e, b.dist_sq(&pt).back())).collect();
            let r: EuclideanDistanceRanking<SVec<N, D>, N> = EuclideanDistanceRanking::new(pt);
            let rank: Vec<i32> = bs
                .iter()
                .map(|b| sq(&e, Ranking::<SAABB<N, D>, SVec<N, D>>::bounds_min(&r, b).back()))
                .collect();
            let rankp: Vec<i32> = ps
                .iter()
                .map(|q| sq(&e, Ranking::<SAABB<N, D>, SVec<N, D>>::rank_key(&r, q).back()))
                .collect();
            let rankb: Vec<i32> = bs
                .iter()
                .map(|b| sq(&e, Ranking::<SAABB<N, D>, SAABB<N, D>>::rank_key(&r, b).back()))
                .collect();
            format!(
                "{{\"op\":\"distance\",\"p\":{p:?},\"points\":{points:?},\"boxes\":{},\"pp\":{pp:?},\"pb\":{pb:?},\"rank\":{rank:?},\"rankp\":{rankp:?},\"rankb\":{rankb:?}}}",
                jboxes(&boxes)
            )
        });
    }
    book.put(&class, h);
}
fn between_facts<N: Sc + Into<f64>, const D: usize>(rng: &mut Rng, book: &mut Book, id: &str) {
    let class = format!("box distance {} {}", N::NAME, D);
    let mut h = Hist::new(format!("{id} {class}"));
    let e = emb::<N>(rng, Use::Free, D);
    for _ in 0..6 {
        let a = rbox(rng, D, e.lo, e.hi);
        let boxes: Vec<GBox> = (0..8).map(|_| rbox(rng, D, e.lo, e.hi)).collect();
        h.add("box distance", || {
            let x: SAABB<N, D> = e.boxed(&a);
            let bs: Vec<SAABB<N, D>> = boxes.iter().map(|b| e.boxed(b)).collect();
            let bb: Vec<i32> = bs.iter().map(|b| sq(&e, x.sq_dist_to(b).raw())).collect();
            let bb2: Vec<i32> = bs.iter().map(|b| sq(&e, b.sq_dist_to(&x).raw())).collect();
            format!(
                "{{\"op\":\"boxdist\",\"a\":{},\"boxes\":{},\"bb\":{bb:?},\"bb2\":{bb2:?}}}",
                jbox(&a), jboxes(&boxes)
            )
        });
    }
    book.put(&class, h);
}

/// Distances of boxes anywhere, where they cannot be exact.
fn reach_facts<N: Sc + Into<f64>, const D: usize>(rng: &mut Rng, book: &mut Book, id: &str) {
    let class = format!("reach {} {}", N::NAME, D);
    let mut h = Hist::new(format!("{id} {class}"));
    let n = 3 + rng.below(8);
    let p: Pal<N> = Pal::random(rng, n);
    let n = p.v.len() as i32;
    for _ in 0..16 {
        let mut b = || -> SAABB<N, D> { p.bx(&rbox(rng, D, 0, n - 1)) };
        let (x, y, z) = (b(), b(), b());
        h.add("distances", || {
            let u: SAABB<N, D> = Bounds::union(&y, &z);
            let (zero, v) = ranks(&[x.sq_dist_to(&y).raw(), y.sq_dist_to(&x).raw(), x.sq_dist_to(&u).raw()]);
            format!("{{\"op\":\"reach\",\"a\":{},\"b\":{},\"zero\":{zero},\"v\":{v:?}}}", p.jb(&x), p.jb(&y))
        });
    }
    book.put(&class, h);
}
/// Differences, sums and lengths of vectors and segments.
fn length_facts<N: Sc + Into<f64>, const D: usize>(rng: &mut Rng, book: &mut Book, id: &str) {
    let class = format!("lengths {} {}", N::NAME, D);
    let mut h = Hist::new(format!("{id} {class}"));
    let e = emb::<N>(rng, Use::Square, D);
    let m = if N::BITS == 8 { if D <= 3 { 3 } else { 2 } } else { 7 };
    for _ in 0..10 {
        let s = if rng.chance(1, 2) { rsegment(rng, D, &e) } else { (rpoint(rng, D, e.lo, e.hi), rpoint(rng, D, e.lo, e.hi)) };
        h.add("segment length", || {
            let l: Line<SVec<N, D>> = seg(&e, &s);
            let delta: Vec<i32> = l.delta().0.iter().map(|x| whole(x.back() / e.unit)).collect();
            // in units, next to an integer if it is one
            let len = l.len() / e.unit;
            let len = if (len - len.round()).abs() < 1e-9 { len.round() } else { len.floor() };
            format!(
                "{{\"op\":\"length\",\"s\":{},\"delta\":{delta:?},\"sqlen\":{},\"len\":{}}}",
                jbox(&s), sq(&e, l.sq_len()), whole(len)
            )
        });
        let (p, q) = (rpoint(rng, D, if N::SIGNED { -m } else { 0 }, m), rpoint(rng, D, if N::SIGNED { -m } else { 0 }, m));
        let v = |g: &[i32]| -> SVec<N, D> { SVec(std::array::from_fn(|i| e.diff(g[i]))) };
        let w = |v: SVec<N, D>| -> Vec<i32> { (0..D).map(|i| whole(v[i].back() / e.unit)).collect() };
        h.add("vector sum", || {
            format!(
                "{{\"op\":\"sum\",\"p\":{p:?},\"q\":{q:?},\"sum\":{:?},\"diff\":{:?},\"sq\":{}}}",
                w(v(&p) + v(&q)), w(v(&p) - v(&q)), sq(&e, v(&p).sq_mag().back())
            )
        });
    }
    book.put(&class, h);
}

// ---------------------------------------------------------------------------------------------
// Trees for C19 and C20

struct Planted<N: Sc, K, const D: usize> {
    t: RTree<SAABB<N, D>, K, i32>,
    keys: Vec<K>,
    cfg: (usize, usize),
}
impl<N: Sc + Into<f64>, K: Bounded<SAABB<N, D>> + Eq + Clone, const D: usize> Planted<N, K, D> {
    fn kid(&self, k: &K) -> i32 {
        self.keys.iter().position(|x| x == k).map_or(-1, |i| i as i32 + 1)
    }
    fn ent(&self, e: (&K, &i32)) -> [i32; 2] {
        [self.kid(e.0), *e.1]
    }
    fn new(rng: &mut Rng, keys: Vec<K>, id: &str) -> Option<Self> {
        let cfg = config(rng);
        let n = *rng.pick(&[0, 1, 3, 8, 15, 30, 45]);
        let mut t: RTree<SAABB<N, D>, K, i32> = RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 });
        crate::watch::note(|| format!("{id} a tree of {n} with {cfg:?}"));
        let r = guarded(|| {
            let mut vid = 0;
            for _ in 0..n {
                let i = rng.below(keys.len());
                if rng.chance(1, 5) {
                    let j = rng.below(keys.len());
                    t.remove(&keys[j]);
                }
                vid += 1;
                t.insert(keys[i].clone(), vid);
            }
            if rng.chance(1, 4) {
                for k in &keys {
                    if rng.chance(2, 3) {
                        t.remove(k);
                    }
                }
            }
        });
        match r {
            Guarded::Ok(_) => Some(Planted { t, keys, cfg }),
            Guarded::Panicked => {
                std::mem::forget(t);
                None
            }
        }
    }
    fn stored(&self) -> Vec<[i32; 2]> {
        self.t.iter().take(100_000).map(|e| self.ent(e)).collect()
    }
    /// Answers of a filter, by one of the ways to ask.
    fn ask<F: SpatialFilter<SAABB<N, D>, K>>(&mut self, f: F, way: usize) -> Vec<[i32; 2]> {
        let keys = self.keys.clone();
        let kid = |k: &K| keys.iter().position(|x| x == k).map_or(-1, |i| i as i32 + 1);
        match way {
            0 => self.t.filter_iter::<K, F>(f).take(100_000).map(|(k, v)| [kid(k), *v]).collect(),
            _ => self.t.filter_iter_mut::<K, F>(f).take(100_000).map(|(k, v)| [kid(k), *v]).collect(),
        }
    }
}

fn nearest_facts<N: Sc + Into<f64>, K, const D: usize>(
    rng: &mut Rng,
    book: &mut Book,
    id: &str,
    kind: &str,
    e: &Emb,
    gkeys: Vec<String>,
    keys: Vec<K>,
) where
    K: Bounded<SAABB<N, D>> + Eq + Clone + PointDistance<SVec<N, D>, N>,
{
    let class = format!("nearest {kind} {} {}", N::NAME, D);
    let mut h = Hist::new(format!("{id} {class}"));
    h.keys = format!("[{}]", gkeys.join(","));
    let Some(mut p) = Planted::<N, K, D>::new(rng, keys, id) else {
        h.ev.push(format!("{{\"op\":\"panic\",\"what\":\"building a tree\",\"message\":\"{}\"}}", crate::watch::last_panic()));
        book.put(&class, h);
        return;
    };
    h.id.push_str(&format!(" {:?}", p.cfg));
    let stored = p.stored();
    for _ in 0..3 {
        let g = rpoint(rng, D, e.lo, e.hi);
        let way = rng.below(4);
        let most = match way {
            2 | 3 => 1,
            _ if rng.chance(1, 2) => 1000,
            _ => 1 + rng.below(stored.len() + 1),
        };
        let p = &mut p;
        h.add("nearest", || {
            let r: EuclideanDistanceRanking<SVec<N, D>, N> = EuclideanDistanceRanking::new(e.vec(&g));
            let keys = p.keys.clone();
            let kid = |k: &K| keys.iter().position(|x| x == k).map_or(-1, |i| i as i32 + 1);
            let res: Vec<[i32; 2]> = match way {
                0 => p.t.iter_asc_by(r).take(most).map(|(k, v)| [kid(k), *v]).collect(),
                1 => p.t.iter_asc_by_mut(r).take(most).map(|(k, v)| [kid(k), *v]).collect(),
                2 => p.t.min_by(r).into_iter().map(|(k, v)| [kid(k), *v]).collect(),
                _ => p.t.min_by_mut(r).into_iter().map(|(k, v)| [kid(k), *v]).collect(),
            };
            format!(
                "{{\"op\":\"nearest\",\"p\":{g:?},\"kind\":\"{kind}\",\"stored\":{stored:?},\"res\":{res:?},\"most\":{most},\"size\":{}}}",
                stored.len()
            )
        });
    }
    book.put(&class, h);
}
fn nearest<N: Sc + Into<f64>, const D: usize>(rng: &mut Rng, book: &mut Book, id: &str) {
    let e = emb::<N>(rng, Use::Square, D);
    let n = 4 + rng.below(14);
    if rng.chance(1, 2) {
        let g: Vec<Vec<i32>> = distinct((0..n).map(|_| rpoint(rng, D, e.lo, e.hi)).collect());
        let keys: Vec<SVec<N, D>> = g.iter().map(|p| e.vec(p)).collect();
        nearest_facts::<N, _, D>(rng, book, id, "point", &e, g.iter().map(|p| format!("{p:?}")).collect(), keys);
    } else {
        let g: Vec<GBox> = distinct((0..n).map(|_| rbox(rng, D, e.lo, e.hi)).collect());
        let keys: Vec<SAABB<N, D>> = g.iter().map(|p| e.boxed(p)).collect();
        nearest_facts::<N, _, D>(rng, book, id, "box", &e, g.iter().map(jbox).collect(), keys);
    }
}
fn distinct<T: PartialEq>(v: Vec<T>) -> Vec<T> {
    let mut w: Vec<T> = vec![];
    for x in v {
        if !w.contains(&x) {
            w.push(x);
        }
    }
    w
}

/// The queries on one tree: `ask` gets the random generator, the tree and the history.
fn on_tree<N: Sc + Into<f64>, K: Bounded<SAABB<N, D>> + Eq + Clone, const D: usize>(
    rng: &mut Rng,
    book: &mut Book,
    id: &str,
    kk: &str,
    gkeys: Vec<String>,
    keys: Vec<K>,
    mut ask: impl FnMut(&mut Rng, &mut Planted<N, K, D>, &mut Hist, &[[i32; 2]]),
) {
    let class = format!("filters {kk} {} {}", N::NAME, D);
    let mut h = Hist::new(format!("{id} {class}"));
    h.keys = format!("[{}]", gkeys.join(","));
    match Planted::<N, K, D>::new(rng, keys, id) {
        None => h.ev.push(format!(
            "{{\"op\":\"panic\",\"what\":\"building a tree\",\"message\":\"{}\"}}",
            crate::watch::last_panic()
        )),
        Some(mut p) => {
            h.id.push_str(&format!(" {:?}", p.cfg));
            let stored = p.stored();
            for _ in 0..3 {
                ask(rng, &mut p, &mut h, &stored);
            }
        }
    }
    book.put(&class, h);
}

macro_rules! query {
    ($h:expr, $p:expr, $st:expr, $way:expr, $rel:expr, $sk:expr, $shape:expr, $kk:expr, $f:expr) => {{
        let (p, st, way) = (&mut *$p, $st, $way);
        $h.add(concat!($rel, " ", $sk, " ", $kk), || {
            let res = p.ask($f, way);
            format!(
                "{{\"op\":\"query\",\"rel\":\"{}\",\"sk\":\"{}\",\"shape\":{},\"kk\":\"{}\",\"stored\":{:?},\"res\":{:?}}}",
                $rel, $sk, $shape, $kk, st, res
            )
        });
    }};
}

fn box_keys<N: Sc + Into<f64>, const D: usize>(rng: &mut Rng, book: &mut Book, id: &str) {
    // unsigned scalars have no differences in both directions: boxes and points only
    let lines = N::SIGNED;
    let e = emb::<N>(rng, if lines { Use::Diff } else { Use::Free }, D);
    let n = 4 + rng.below(16);
    let g: Vec<GBox> = distinct((0..n).map(|_| rbox(rng, D, e.lo, e.hi)).collect());
    let keys: Vec<SAABB<N, D>> = g.iter().map(|b| e.boxed(b)).collect();
    on_tree::<N, _, D>(rng, book, id, "box", g.iter().map(jbox).collect(), keys, |rng, p, h, st| {
        let w = rng.below(2);
        let b = rbox(rng, D, e.lo, e.hi);
        let s: SAABB<N, D> = e.boxed(&b);
        query!(h, p, st, w, "intersects", "box", jbox(&b), "box", IntersectsFilter::new(s));
        query!(h, p, st, w, "intersects", "box", jbox(&b), "box", BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(s));
        query!(h, p, st, w, "contains", "box", jbox(&b), "box", ContainsFilter::new(s));
        query!(h, p, st, w, "contains", "box", jbox(&b), "box", BoundedContainsFilter::<SAABB<N, D>, _>::new_bounded(s));
        query!(h, p, st, w, "all", "box", jbox(&b), "box", NoFilter);
        let q = rpoint(rng, D, e.lo, e.hi);
        let v: SVec<N, D> = e.vec(&q);
        query!(h, p, st, w, "intersects", "point", format!("{q:?}"), "box", IntersectsFilter::new(v));
        query!(h, p, st, w, "intersects", "point", format!("{q:?}"), "box", BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(v));
        if lines {
            let sg = rsegment(rng, D, &e);
            query!(h, p, st, w, "intersects", "segment", jbox(&sg), "box", IntersectsFilter::new(seg::<N, D>(&e, &sg)));
            query!(h, p, st, w, "intersects", "segment", jbox(&sg), "box",
                BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(seg::<N, D>(&e, &sg)));
            let o = rpoint(rng, D, e.lo, e.hi);
            let n = rdirection(rng, D);
            let r: Ray<N, D> = Ray { origin: e.vec(&o), n: SVec(std::array::from_fn(|i| e.diff(n[i]))) };
            query!(h, p, st, w, "intersects", "ray", format!("[{o:?},{n:?}]"), "box", IntersectsFilter::new(r));
        }
    });
}
fn point_keys<N: Sc + Into<f64>, const D: usize>(rng: &mut Rng, book: &mut Book, id: &str) {
    let spheres = N::SIGNED;
    let e = emb::<N>(rng, if spheres { Use::Diff } else { Use::Free }, D);
    let n = 4 + rng.below(16);
    let g: Vec<Vec<i32>> = distinct((0..n).map(|_| rpoint(rng, D, e.lo, e.hi)).collect());
    let keys: Vec<SVec<N, D>> = g.iter().map(|b| e.vec(b)).collect();
    on_tree::<N, _, D>(rng, book, id, "point", g.iter().map(|p| format!("{p:?}")).collect(), keys, |rng, p, h, st| {
        let w = rng.below(2);
        let b = rbox(rng, D, e.lo, e.hi);
        let s: SAABB<N, D> = e.boxed(&b);
        query!(h, p, st, w, "intersects", "box", jbox(&b), "point", IntersectsFilter::new(s));
        query!(h, p, st, w, "intersects", "box", jbox(&b), "point", BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(s));
        query!(h, p, st, w, "contains", "box", jbox(&b), "point", ContainsFilter::new(s));
        query!(h, p, st, w, "contains", "box", jbox(&b), "point", BoundedContainsFilter::<SAABB<N, D>, _>::new_bounded(s));
        query!(h, p, st, w, "all", "box", jbox(&b), "point", NoFilter);
        if spheres {
            let r = rng.below(((e.hi - e.lo) / 2) as usize + 1) as i32;
            let c: Vec<i32> = (0..D).map(|_| rng.range((e.lo + r) as i64, (e.hi - r) as i64) as i32).collect();
            let s: Sphere<N, D> = Sphere { center: e.vec(&c), radius: e.diff(r) };
            query!(h, p, st, w, "intersects", "sphere", format!("[{c:?},{r}]"), "point",
                BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(s));
        }
    });
}
fn line_keys<N: Sc + Into<f64>, const D: usize>(rng: &mut Rng, book: &mut Book, id: &str) {
    let e = emb::<N>(rng, Use::Diff, D);
    let n = 4 + rng.below(16);
    let g: Vec<(Vec<i32>, Vec<i32>)> = distinct((0..n).map(|_| rsegment(rng, D, &e)).collect());
    let keys: Vec<Line<SVec<N, D>>> = g.iter().map(|b| seg(&e, b)).collect();
    on_tree::<N, _, D>(rng, book, id, "segment", g.iter().map(jbox).collect(), keys, |rng, p, h, st| {
        let w = rng.below(2);
        let b = rbox(rng, D, e.lo, e.hi);
        let s: SAABB<N, D> = e.boxed(&b);
        query!(h, p, st, w, "intersects", "box", jbox(&b), "segment", IntersectsFilter::new(s));
        query!(h, p, st, w, "intersects", "box", jbox(&b), "segment", BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(s));
        query!(h, p, st, w, "all", "box", jbox(&b), "segment", NoFilter);
    });
}

// ---------------------------------------------------------------------------------------------

macro_rules! many {
    ($rng:expr, $d:expr, $f:ident, $a:tt) => {
        match ($d, $rng.below(2)) {
            (5, 0) => $f::<i32, 5> $a,
            (5, _) => $f::<N64, 5> $a,
            (6, 0) => $f::<i32, 6> $a,
            (6, _) => $f::<N64, 6> $a,
            (7, 0) => $f::<i32, 7> $a,
            (7, _) => $f::<N64, 7> $a,
            (_, 0) => $f::<i32, 9> $a,
            (_, _) => $f::<N64, 9> $a,
        }
    };
}
macro_rules! scalar {
    ($rng:expr, [$($t:ty),*], $d:expr, $f:ident, $a:tt) => {{
        if $d > 4 {
            many!($rng, $d, $f, $a)
        } else {
            scalar_few!($rng, [$($t),*], $d, $f, $a)
        }
    }};
}
macro_rules! scalar_few {
    ($rng:expr, [$($t:ty),*], $d:expr, $f:ident, $a:tt) => {{
        let names = [$(<$t as Sc>::NAME),*];
        let pick = names[$rng.below(names.len())];
        $(if <$t as Sc>::NAME == pick {
            match $d {
                1 => $f::<$t, 1> $a,
                2 => $f::<$t, 2> $a,
                3 => $f::<$t, 3> $a,
                _ => $f::<$t, 4> $a,
            }
        } else)* { unreachable!() }
    }};
}

pub fn run(a: &Args) {
    let mut rng = Rng::new(a.mine);
    // for decisions in which all parts agree
    let mut common = Rng::new(a.seed);
    let mut book = Book::default();
    let r = &mut rng;
    let exhaustive_cost = book.facts;
    match a.prop.as_str() {
        "C17" => {
            let all = Some(a.part);
            let c = &mut common;
            scalar!(c, [i8, i32, i64, u8, u32, u64, N32, N64], 1, order_facts, (c, &mut book, all, "x"));
            scalar!(c, [i8, i32, i64, u8, u32, u64, N32, N64], 2, order_facts, (c, &mut book, all, "x"));
        }
        "C18" => {
            let all = Some(a.part);
            let c = &mut common;
            scalar!(c, [i8, i16, i32, N32, N64], 1, shape_facts, (c, &mut book, all, "x"));
            scalar!(c, [i8, i16, i32, N32, N64], 2, shape_facts, (c, &mut book, all, "x"));
        }
        _ => {}
    }
    let _ = exhaustive_cost;
    let mut i = 0;
    while book.lines.len() < a.budget && Instant::now() < a.until {
        i += 1;
        let id = format!("{}.{}", a.mine, i);
        let d = *r.pick(&[1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 9]);
        match a.prop.as_str() {
            "C17" => {
                match r.below(6) {
                    0..=2 => scalar!(r, [i8, i16, i32, i64, i128, u8, u16, u32, u64, N32, N64], d, order_facts, (r, &mut book, None, &id)),
                    3 => scalar!(r, [i8, i16, i32, u8, u16, u32, N32, N64], d, growth_facts, (r, &mut book, &id)),
                    _ => scalar!(r, [i8, i16, i32, u8, u16, u32, N32, N64], d, volume_facts, (r, &mut book, &id)),
                }
            }
            "C18" => scalar!(r, [i8, i16, i32, i32, N32, N64], d, shape_facts, (r, &mut book, None, &id)),
            "C19" => match r.below(5) {
                3 => scalar_few!(r, [i8, i16, i32, u8, u16, u32, N32], d.min(4), reach_facts, (r, &mut book, &id)),
                4 => scalar!(r, [i8, i16, i32, N32, N64], d, length_facts, (r, &mut book, &id)),
                0 => scalar!(r, [i8, i16, i32, i64, N32, N64], d, distance_facts, (r, &mut book, &id)),
                1 => scalar!(r, [i8, i16, i32, u8, u16, u32, N32, N64], d, between_facts, (r, &mut book, &id)),
                _ => scalar!(r, [i8, i16, i32, N64], d, nearest, (r, &mut book, &id)),
            },
            "C20" => match r.below(5) {
                0 | 1 => scalar!(r, [i32, u8, i8, N64], d, box_keys, (r, &mut book, &id)),
                2 | 3 => scalar!(r, [i32, u8, i8, N64], d, point_keys, (r, &mut book, &id)),
                _ => scalar!(r, [i32, i8, N64], d, line_keys, (r, &mut book, &id)),
            },
            p => panic!("{p} is not geometric"),
        }
    }
    std::fs::write(&a.out, &book.lines).expect("write");
    println!(
        "{{\"cases\":{},\"steps\":{},\"features\":{},\"histories\":{},\"sent\":{}}}",
        book.n, book.facts, book.classes.len(), book.n, book.facts
    );
}
