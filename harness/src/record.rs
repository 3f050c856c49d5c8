//! Observation of trees and recording of histories.

use crate::dbg::{self, Kids, D};
use crate::worlds::{IBox, World};
pub use rtcommon::snap::*;
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::RTree;
use std::cell::RefCell;
use std::fmt::Debug;

/// A value, identified by its number.
/// It also counts the clonings that lie between it and the original.
pub struct V(pub i32, pub u32);
impl V {
    pub fn new(n: i32) -> V {
        V(n, 0)
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V(self.0, self.1 + 1)
    }
}
impl Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "V({})", self.0)
    }
}

static WAY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn vid(d: &D) -> i32 {
    let mut v = vec![];
    dbg::numbers(d, &mut v);
    v.first().map_or(-1, |x| *x as i32)
}

fn build<W: World>(w: &W, b: &D, k: &Kids) -> Option<Nd> {
    let b = w.dbg_box(b)?;
    match k {
        Kids::Entries(es) => {
            let mut e = vec![];
            for (k, v) in es {
                let (kid, ser) = w.dbg_id(k)?;
                e.push([kid, ser, vid(v)]);
            }
            Some(Nd { b, l: 0, c: vec![], e })
        }
        Kids::Nodes(ns) => {
            let mut c = vec![];
            for (b, k) in ns {
                c.push(build(w, b, k)?);
            }
            let l = 1 + c.iter().map(|n| n.l).max().unwrap_or(0);
            Some(Nd { b, l, c, e: vec![] })
        }
    }
}

/// A filter that follows a script: the first `accept` calls of test_bounds whose numbers are in
/// the list are accepted. Used to explore the structure when the Debug output is of no use.
struct Probe<'a, W: World> {
    w: &'a W,
    calls: RefCell<usize>,
    path: &'a [usize],
    log: RefCell<Vec<(usize, bool, IBox, (i32, i32))>>,
}
impl<W: World> SpatialFilter<W::B, W::K> for Probe<'_, W> {
    fn test_bounds(&self, b: &W::B) -> bool {
        let n = *self.calls.borrow();
        *self.calls.borrow_mut() += 1;
        self.log.borrow_mut().push((n, false, self.w.bbox(b), (0, 0)));
        self.path.contains(&n)
    }
    fn test_key(&self, k: &W::K) -> bool {
        let n = *self.calls.borrow();
        *self.calls.borrow_mut() += 1;
        self.log.borrow_mut().push((n, true, (vec![], vec![]), self.w.id(k)));
        true
    }
}

/// Reconstructs the structure from which groups a filter is shown when it accepts the groups on
/// one path only.
fn probe<W: World>(w: &W, t: &RTree<W::B, W::K, V>, path: &mut Vec<usize>) -> Option<Nd> {
    let run = |path: &[usize]| {
        let p = Probe { w, calls: RefCell::new(0), path, log: RefCell::new(vec![]) };
        let mut got = vec![];
        for (k, v) in t.filter_iter::<W::K, _>(ByRef(&p)) {
            let (kid, ser) = w.id(k);
            got.push([kid, ser, v.0]);
        }
        (p.log.into_inner(), got)
    };
    let (base, _) = run(&path[..path.len().saturating_sub(1)]);
    let (log, got) = run(path);
    if path.is_empty() {
        if log.is_empty() {
            // not shown: the empty tree
            let d = w.u().d;
            return Some(Nd { b: (vec![1; d], vec![0; d]), l: 0, c: vec![], e: vec![] });
        }
        path.push(0);
        let r = probe(w, t, path);
        path.pop();
        return r;
    }
    let me = *path.last()?;
    let b = base.iter().find(|x| x.0 == me)?.2.clone();
    let extra = log.len() - base.len();
    // what was shown because this group was accepted follows it directly
    let i = log.iter().position(|x| x.0 == me)?;
    let inside = &log[i + 1..i + 1 + extra];
    if inside.iter().any(|x| x.1) || inside.is_empty() {
        return Some(Nd { b, l: 0, c: vec![], e: got });
    }
    let mut c = vec![];
    for x in inside {
        path.push(x.0);
        let n = probe(w, t, path);
        path.pop();
        c.push(n?);
    }
    let l = 1 + c.iter().map(|n| n.l).max().unwrap_or(0);
    Some(Nd { b, l, c, e: vec![] })
}

pub struct ByRef<'a, F>(pub &'a F);
impl<B, K: ?Sized, F: SpatialFilter<B, K>> SpatialFilter<B, K> for ByRef<'_, F> {
    fn test_bounds(&self, b: &B) -> bool {
        self.0.test_bounds(b)
    }
    fn test_key(&self, k: &K) -> bool {
        self.0.test_key(k)
    }
}

pub static USE_PROBE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn structure<W: World>(w: &W, t: &RTree<W::B, W::K, V>) -> Nd {
    if !USE_PROBE.load(std::sync::atomic::Ordering::Relaxed) {
        let text = format!("{t:?}");
        if let Some(n) = dbg::parse(&text).and_then(|d| {
            let (b, k) = dbg::node(&d)?;
            build(w, b, &k)
        }) {
            return n;
        }
    }
    if let Some(n) = probe(w, t, &mut vec![]) {
        return n;
    }
    // Not observable: an empty structure, which contradicts a non-empty iteration.
    let d = w.u().d;
    Nd { b: (vec![1; d], vec![0; d]), l: 0, c: vec![], e: vec![] }
}

pub fn snap<W: World>(w: &W, t: &RTree<W::B, W::K, V>) -> Snap {
    let root = structure(w, t);
    let mut it = vec![];
    // An iteration that does not end is cut off, it shows up as duplicates.
    let way = WAY.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let put = |(k, v): (&W::K, &V)| {
        let (kid, ser) = w.id(k);
        it.push([kid, ser, v.0]);
    };
    let d = if way / crate::draw::WAYS % 2 == 0 {
        crate::draw::draw(t.iter(), way, usize::MAX, 100_000, put)
    } else {
        crate::draw::draw(t.into_iter(), way, usize::MAX, 100_000, put)
    };
    let hint = (d.hints[0].1, d.hints[0].2);
    let cnt = if way % 5 == 0 { t.iter().count() } else { it.len() };
    let part = (way % 3 == 0).then(|| {
        let mut rng = crate::rng::Rng::new(way as u64);
        let p = crate::draw::Part::pick(&mut rng, it.len().min(1000));
        let mut got: Vec<Ent> = vec![];
        p.draw(t.iter(), 100_000, &mut |(k, v)| {
            let (kid, ser) = w.id(k);
            got.push([kid, ser, v.0]);
        });
        (p.json(&format!("{got:?}")), p.ok(&got, &it))
    });
    Snap { root, it, len: t.len() as i64, emp: t.is_empty(), cnt: cnt.min(1_000_000) as i64, hint, part: Aside(part) }
}

