//! Whether everything returns (C21): all operations and iterations, over all scalar types, with
//! coordinates up to the limits of the scalar, all configurations, empty and large trees.

use crate::rng::Rng;
use crate::tree::{big_config, config, guarded, Guarded};
use crate::worlds::Num;
use crate::Args;
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::geom::line::Line;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::fmt::Debug;
use std::time::Instant;

type Bx<N, const D: usize> = SAABB<N, D>;

fn extremes<N: Num>() -> Vec<f64> {
    let (lo, hi) = match N::NAME {
        "N64" => (f64::MIN, f64::MAX),
        "N32" => (f32::MIN as f64, f32::MAX as f64),
        _ => (N::lowest(), N::highest()),
    };
    let mut v = vec![lo, hi, lo / 2.0, hi / 2.0, 0.0, 1.0, 2.0];
    if matches!(N::NAME, "N64" | "N32") {
        v.extend([-0.0, -1.0, f32::MIN_POSITIVE as f64, -f32::MIN_POSITIVE as f64, 1e-45f32 as f64, 0.1f32 as f64]);
        if N::NAME == "N64" {
            v.extend([f64::MIN_POSITIVE, 5e-324, -5e-324, 1e153, -1e200]);
        }
        v
    } else {
        v.extend([lo + 1.0, hi - 1.0]);
        if lo < 0.0 {
            v.push(-1.0);
        }
        v.iter().map(|x| x.trunc()).collect()
    }
}
fn coord<N: Num>(rng: &mut Rng, ext: &[f64], style: usize) -> N {
    match style {
        0 => N::of(*rng.pick(ext)),
        1 => N::of(rng.below(6) as f64),
        2 => N::of(rng.below(120) as f64),
        _ => {
            if rng.chance(1, 2) {
                N::of(*rng.pick(ext))
            } else {
                N::of(rng.below(100) as f64)
            }
        }
    }
}
fn point<N: Num, const D: usize>(rng: &mut Rng, ext: &[f64], style: usize) -> SVec<N, D> {
    SVec(std::array::from_fn(|_| coord(rng, ext, style)))
}
fn boxed<N: Num, const D: usize>(rng: &mut Rng, ext: &[f64], style: usize) -> Bx<N, D> {
    let (a, b): (SVec<N, D>, SVec<N, D>) = (point(rng, ext, style), point(rng, ext, style));
    AABB {
        min: SVec(std::array::from_fn(|i| a.0[i].min(b.0[i]))),
        max: SVec(std::array::from_fn(|i| a.0[i].max(b.0[i]))),
    }
}

/// Keys.
trait Key<N: Num, const D: usize>: Bounded<Bx<N, D>> + Eq + Clone + Debug + 'static {
    fn random(rng: &mut Rng, ext: &[f64], style: usize) -> Self;
    const KIND: &'static str;
}
trait Vecs: Num + std::ops::Add<Output = Self> + Ord {}
impl<N: Num> Vecs for N {}
impl<N: Vecs, const D: usize> Key<N, D> for SVec<N, D> {
    fn random(rng: &mut Rng, ext: &[f64], style: usize) -> Self {
        point(rng, ext, style)
    }
    const KIND: &'static str = "points";
}
impl<N: Vecs, const D: usize> Key<N, D> for Bx<N, D> {
    fn random(rng: &mut Rng, ext: &[f64], style: usize) -> Self {
        boxed(rng, ext, style)
    }
    const KIND: &'static str = "boxes";
}
impl<N: Vecs, const D: usize> Key<N, D> for Line<SVec<N, D>> {
    fn random(rng: &mut Rng, ext: &[f64], style: usize) -> Self {
        Line(point(rng, ext, style), point(rng, ext, style))
    }
    const KIND: &'static str = "lines";
}

#[derive(Clone)]
struct Meet;
impl<N: Vecs, const D: usize, K: Key<N, D>> JoinFilter<Bx<N, D>, Bx<N, D>, K, K> for Meet {
    fn test_bounds(&self, a: &Bx<N, D>, b: &Bx<N, D>) -> bool {
        a.intersects(b)
    }
    fn test_key(&self, a: &K, b: &K) -> bool {
        a.bounds().intersects(&b.bounds())
    }
}
#[derive(Clone)]
struct All;
impl<N: Vecs, const D: usize, K: Key<N, D>> JoinFilter<Bx<N, D>, Bx<N, D>, K, K> for All {
    fn test_bounds(&self, _: &Bx<N, D>, _: &Bx<N, D>) -> bool {
        true
    }
    fn test_key(&self, _: &K, _: &K) -> bool {
        true
    }
}
#[derive(Clone, Copy)]
struct Least;
impl<N: Vecs, const D: usize, K: Key<N, D>> Ranking<Bx<N, D>, K> for Least {
    type Metric = N;
    fn bounds_min(&self, b: &Bx<N, D>) -> N {
        b.min.0[0]
    }
    fn rank_key(&self, k: &K) -> N {
        k.bounds().min.0[0]
    }
}
#[derive(Clone, Copy)]
struct UpTo<N>(N);
impl<N: Vecs, const D: usize, K: Key<N, D>> Ranking<Bx<N, D>, K> for UpTo<N> {
    type Metric = Option<N>;
    fn bounds_min(&self, b: &Bx<N, D>) -> Option<N> {
        Some(b.min.0[0]).filter(|x| *x <= self.0)
    }
    fn rank_key(&self, k: &K) -> Option<N> {
        Some(k.bounds().min.0[0]).filter(|x| *x <= self.0)
    }
}
/// A filter by bounds that works for every key.
struct Touch<N, const D: usize>(Bx<N, D>, bool);
impl<N: Vecs, const D: usize, K: Key<N, D>> SpatialFilter<Bx<N, D>, K> for Touch<N, D> {
    fn test_bounds(&self, b: &Bx<N, D>) -> bool {
        self.0.intersects(b)
    }
    fn test_key(&self, k: &K) -> bool {
        if self.1 {
            self.0.contains(&k.bounds())
        } else {
            self.0.intersects(&k.bounds())
        }
    }
}

struct Case<N: Vecs, const D: usize, K: Key<N, D>> {
    t: [Option<RTree<Bx<N, D>, K, u32>>; 2],
    size: [usize; 2],
    ev: Vec<String>,
    id: String,
}
/// What a call came to: grown or shrunk by, yielded, yielded by inner iterators, not ended.
#[derive(Default)]
struct Out {
    k: usize,
    n: usize,
    m: usize,
    endless: bool,
}
fn drain<I: Iterator>(mut it: I, most: usize, again: bool) -> (usize, bool) {
    let mut n = 0;
    while it.next().is_some() {
        n += 1;
        if n > most + 100 {
            return (n, true);
        }
    }
    if again {
        // an iterator that has ended can still be asked
        let _ = it.next();
    }
    (n, false)
}
fn iteration<I: Iterator>(it: I, most: usize, again: bool) -> Out {
    let _ = it.size_hint();
    let (n, endless) = drain(it, most, again);
    Out { n, endless, ..Out::default() }
}

impl<N: Vecs, const D: usize, K: Key<N, D>> Case<N, D, K> {
    fn call(&mut self, op: &str, what: &str, s: usize, t: usize, f: impl FnOnce(&mut Self) -> Out) -> bool {
        crate::watch::note(|| format!("{} step {}: {what} on {s} {t}, {:?} entries", self.id, self.ev.len(), self.size));
        let (ret, o, msg) = match guarded(|| f(self)) {
            Guarded::Ok(o) => (if o.endless { "endless" } else { "ok" }, o, String::new()),
            Guarded::Panicked => ("panic", Out::default(), crate::watch::last_panic()),
        };
        self.ev.push(format!(
            "{{\"op\":\"{op}\",\"what\":\"{what}\",\"s\":{},\"t\":{},\"ret\":\"{ret}\",\"n\":{},\"m\":{},\"k\":{},\"message\":\"{msg}\"}}",
            s + 1, t + 1, o.n, o.m, o.k
        ));
        match op {
            "insert" => self.size[s] += o.k,
            "remove" => self.size[s] = self.size[s].saturating_sub(o.k),
            _ => (),
        }
        ret == "ok"
    }
    fn query(&mut self, rng: &mut Rng, ext: &[f64], style: usize, s: usize, t: usize) -> bool {
        let b: Bx<N, D> = if rng.chance(1, 8) { Bx::<N, D>::empty() } else { boxed(rng, ext, style) };
        let p: SVec<N, D> = point(rng, ext, style);
        let ending = rng.chance(1, 3);
        let inside = rng.chance(1, 2);
        let most = self.size[s];
        let (a, most2) = (s, self.size[s] * self.size[t]);
        macro_rules! walk {
            ($what:expr, $t:ident, $e:expr) => {
                self.call("iter", $what, s, s, |h| {
                    let $t = h.t[a].as_mut().unwrap();
                    iteration($e, most, ending)
                })
            };
        }
        let joins = if most2 > 4000 { 0 } else { 4 };
        match rng.below(16 + joins) {
            0 => walk!("iter", t, t.iter()),
            1 => walk!("iter_mut", t, t.iter_mut()),
            2 => walk!("into_iter", t, (&*t).into_iter()),
            3 => walk!("filter_iter", t, t.filter_iter::<K, _>(Touch(b, inside))),
            4 => walk!("filter_iter_mut", t, t.filter_iter_mut::<K, _>(Touch(b, inside))),
            5 => walk!("filter_iter NoFilter", t, t.filter_iter::<K, _>(NoFilter)),
            6 => walk!("filter_iter at a point", t, t.filter_iter::<K, _>(Touch(p.bounds(), inside))),
            7 => walk!("iter_asc_by", t, t.iter_asc_by(Least)),
            8 => walk!("iter_asc_by_mut", t, t.iter_asc_by_mut(Least)),
            9 => walk!("filter_iter_asc_by", t, t.filter_iter_asc_by(UpTo(p.0[0]))),
            10 => walk!("filter_iter_asc_by_mut", t, t.filter_iter_asc_by_mut(UpTo(p.0[0]))),
            k @ 11..=13 => self.call("one", "min_by", s, s, |h| {
                let t = h.t[s].as_mut().unwrap();
                let n = match (k, inside) {
                    (11, true) => t.min_by(Least).is_some(),
                    (11, _) => t.min_by_mut(Least).is_some(),
                    (_, true) => t.filter_min_by(UpTo(p.0[0])).is_some(),
                    _ => t.filter_min_by_mut(UpTo(p.0[0])).is_some(),
                };
                Out { n: n as usize, ..Out::default() }
            }),
            14 => self.call("show", "debug", s, s, |h| {
                let text = format!("{:?} {}", h.t[s].as_ref().unwrap(), h.t[s].as_ref().unwrap().len());
                Out { k: 0 * text.len(), ..Out::default() }
            }),
            15 => walk!("into_iter mut, cut short", t, t.into_iter().take(2)),
            16 => self.call("join", "join", s, t, |h| {
                let (l, r) = (h.t[s].as_ref().unwrap(), h.t[t].as_ref().unwrap());
                iteration(l.join::<_, _, _, K, K, _>(r, Meet), most2, ending)
            }),
            17 => self.call("join", "join of all", s, t, |h| {
                let (l, r) = (h.t[s].as_ref().unwrap(), h.t[t].as_ref().unwrap());
                iteration(l.join::<_, _, _, K, K, _>(r, All), most2, ending)
            }),
            k => self.call("left_join", "left_join", s, t, |h| {
                let (l, r) = (h.t[s].as_ref().unwrap(), h.t[t].as_ref().unwrap());
                let mut o = Out::default();
                if k == 18 {
                    let mut held = vec![];
                    for (_, mut it) in l.left_join::<_, _, _, K, K, _>(r, Meet) {
                        o.n += 1;
                        if inside {
                            let (n, e) = drain(&mut it, most2, ending);
                            o.m += n;
                            o.endless |= e;
                        } else {
                            if it.next().is_some() {
                                o.m += 1;
                            }
                            held.push(it);
                        }
                        if o.n > most + 100 || o.endless {
                            o.endless = true;
                            break;
                        }
                    }
                    for it in held {
                        let (n, e) = drain(it, most2, ending);
                        o.m += n;
                        o.endless |= e;
                    }
                } else {
                    let mut held = vec![];
                    for (_, mut it) in l.left_join::<_, _, _, K, K, _>(r, All) {
                        o.n += 1;
                        if it.next().is_some() {
                            o.m += 1;
                        }
                        if inside {
                            held.push(it);
                        }
                        if o.n > most + 100 {
                            o.endless = true;
                            break;
                        }
                    }
                    for it in held.into_iter().rev() {
                        let (n, e) = drain(it, most2, ending);
                        o.m += n;
                        o.endless |= e;
                    }
                }
                o
            }),
        }
    }
}

fn case<N: Vecs, const D: usize, K: Key<N, D>>(rng: &mut Rng, id: String, thorough: bool, until: Instant) -> (String, usize)
where
    Bx<N, D>: Volume,
{
    let mut cfg = match rng.below(12) {
        0 | 1 => big_config(rng),
        2 => (2 + rng.below(6), *rng.pick(&[0, 1, 1000, usize::MAX, usize::MAX / 2 + 1])),
        3 => (2 + rng.below(30), rng.below(40)),
        4 => (1000 + rng.below(4000), *rng.pick(&[0, 1, 500, 2500])),
        _ => config(rng),
    };
    cfg.0 = cfg.0.max(2);
    let ext = extremes::<N>();
    let style = rng.below(4);
    // few different keys, or many
    let n = *rng.pick(&[1, 1, 2, 4, 10, 30, 200]);
    let keys: Vec<K> = (0..n).map(|_| K::random(rng, &ext, style)).collect();
    let mut h: Case<N, D, K> = Case {
        t: [None, None],
        size: [0, 0],
        ev: vec![],
        id: format!("{id} {} SAABB<{},{D}> {cfg:?} style {style} {n} keys", K::KIND, N::NAME),
    };
    let big = rng.chance(1, 15);
    let mut ok = true;
    for s in 0..2 {
        ok = ok && h.call("new", "new", s, s, |h| {
            h.t[s] = Some(RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 }));
            Out::default()
        });
    }
    let phases = 3 + rng.below(4);
    let size = if big { if thorough { 3000 } else { 400 } } else { *rng.pick(&[3, 8, 20, 50]) };
    'all: for _ in 0..phases {
        let grow = *rng.pick(&[15, 12, 8, 4, 0]);
        for _ in 0..size {
            if !ok || Instant::now() > until {
                break 'all;
            }
            let s = rng.below(4) / 3;
            let kid = rng.below(keys.len());
            let k = keys[kid].clone();
            ok = match rng.below(if big { 400 } else { 40 }) {
                0..=5 => {
                    let t = if rng.chance(1, 3) { s } else { 1 - s };
                    h.query(rng, &ext, style, s, t)
                }
                6 => h.call("get", "get", s, s, |h| {
                    let _ = h.t[s].as_ref().unwrap().get(&k).copied();
                    let _ = h.t[s].as_mut().unwrap().get_mut(&k).map(|v| *v += 1);
                    let _ = h.t[s].as_ref().unwrap().len();
                    let _ = h.t[s].as_ref().unwrap().is_empty();
                    Out::default()
                }),
                7 if rng.chance(1, 2) => {
                    let t = 1 - s;
                    let a = h.call("drop", "drop", t, t, |h| {
                        h.t[t] = None;
                        Out::default()
                    });
                    h.size[t] = h.size[s];
                    a && h.call("clone", "clone", s, t, |h| {
                        h.t[t] = h.t[s].clone();
                        Out::default()
                    })
                }
                8..=11 => h.call("insert", "insert_unique", s, s, |h| Out {
                    k: h.t[s].as_mut().unwrap().insert_unique(k, 1).is_none() as usize,
                    ..Out::default()
                }),
                _ if rng.below(16) < grow => h.call("insert", "insert", s, s, |h| {
                    h.t[s].as_mut().unwrap().insert(k, 1);
                    Out { k: 1, ..Out::default() }
                }),
                _ => h.call("remove", "remove", s, s, |h| Out {
                    k: h.t[s].as_mut().unwrap().remove(&k).is_some() as usize,
                    ..Out::default()
                }),
            };
        }
        for _ in 0..3 {
            let s = rng.below(2);
            let t = rng.below(2);
            ok = ok && h.query(rng, &ext, style, s, t);
        }
    }
    for s in 0..2 {
        if ok {
            ok = h.call("drop", "drop", s, s, |h| {
                h.t[s] = None;
                Out::default()
            });
        } else {
            std::mem::forget(h.t[s].take());
        }
    }
    (format!("{{\"id\":\"{}\",\"ev\":[{}]}}", h.id, h.ev.join(",")), h.ev.len())
}

pub fn run(a: &Args) {
    let mut rng = Rng::new(a.mine);
    let mut out = String::new();
    let (mut n, mut steps) = (0, 0);
    let mut i = 0;
    let mut kinds = std::collections::BTreeSet::new();
    while out.len() < a.budget && Instant::now() < a.until {
        i += 1;
        let id = format!("t{}.{i}", a.mine);
        let r = &mut rng;
        macro_rules! keys {
            ($n:ty, $d:expr) => {
                match r.below(3) {
                    0 => case::<$n, $d, SVec<$n, $d>>(r, id, a.thorough, a.until),
                    1 => case::<$n, $d, Bx<$n, $d>>(r, id, a.thorough, a.until),
                    _ => case::<$n, $d, Line<SVec<$n, $d>>>(r, id, a.thorough, a.until),
                }
            };
        }
        let w = r.below(16);
        kinds.insert(w);
        let (line, s) = match w {
            0 => keys!(i8, 2),
            1 => keys!(u8, 2),
            2 => keys!(i16, 1),
            3 => keys!(u16, 3),
            4 => keys!(i32, 1),
            5 => keys!(i32, 2),
            6 => keys!(i32, 3),
            7 => keys!(u32, 2),
            8 => keys!(u32, 3),
            9 => keys!(N32, 1),
            10 => keys!(N32, 2),
            11 => keys!(N32, 4),
            12 => keys!(N64, 1),
            13 => keys!(N64, 2),
            14 => keys!(N64, 3),
            _ => keys!(i8, 4),
        };
        n += 1;
        steps += s;
        out.push_str(&line);
        out.push('\n');
    }
    std::fs::write(&a.out, &out).expect("write");
    println!(
        "{{\"cases\":{n},\"steps\":{steps},\"features\":{},\"histories\":{n},\"sent\":{steps}}}",
        kinds.len()
    );
}
