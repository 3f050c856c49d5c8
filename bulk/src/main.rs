//! Trees with very many entries, observed class by class (spec/Bulk.tla).
//! PROP SEED TIER OUT BUDGET SECONDS PART PARTS

#[path = "../../harness/src/watch.rs"]
#[allow(dead_code)]
mod watch;
mod own {
    pub fn off<T>(f: impl FnOnce() -> T) -> T {
        f()
    }
}

use rtcommon::dbg::{self, Kids, D as Text};
use rtcommon::rng::Rng;
use rusty_rtree::bounds::{Bounded, SAABB, AABB};
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::ranking::Ranking;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

/// Key number i of class c, with the bounds of a key of form w.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Key {
    c: u16,
    i: u32,
    w: u8,
}
/// What a value belongs to, and the mark it carries.
#[derive(Clone, Debug)]
struct Val {
    c: u16,
    i: u32,
    mark: i32,
}
/// The last dimension orders the keys of a class: the interval of key i contains i. The others tell
/// the classes apart (mostly): the intervals of class c meet strip(c).
impl<const D: usize> Bounded<SAABB<i32, D>> for Key {
    fn bounds(&self) -> SAABB<i32, D> {
        let i = self.i as i32;
        let s = strip(self.c).0;
        let x = s + (i * 37) % 80;
        let ((l, h), (x0, x1)) = match self.w {
            // points
            1 => ((i, i), (x, x)),
            // a crowd
            2 => ((i - (i * 53) % 1999, i + (i * 71) % 1777), (s - (i * 31) % 977, s + (i * 43) % 1013)),
            // all the same
            3 => ((-10, 200_000), (-5000, 5000)),
            // some are long
            4 if i % 50 == 7 => ((i - 5000, i + 5000), (x, x)),
            4 if i % 50 == 23 => ((i, i), (s - 5000, s + 5000)),
            5 => ((i, i + 3), (s, s + 100)),
            _ => ((i, i + i % 4), (x, x + i % 20)),
        };
        AABB {
            min: SVec(std::array::from_fn(|d| if d + 1 == D { l } else { x0 })),
            max: SVec(std::array::from_fn(|d| if d + 1 == D { h } else { x1 })),
        }
    }
}
/// How large a class of this form may be: how many groups a lookup goes into is another matter.
fn room(w: u8) -> usize {
    match w {
        2 => 2500,
        3 => 800,
        4 => 30_000,
        _ => usize::MAX,
    }
}
fn strip(c: u16) -> (i32, i32) {
    (60 * c as i32, 60 * c as i32 + 100)
}
type B<const D: usize> = SAABB<i32, D>;
type T<const D: usize> = RTree<B<D>, Key, Val>;

/// The structure of a tree, in the form that Trees.tla knows; the entries refer to `keys`.
struct Shape<const D: usize> {
    json: String,
    keys: Vec<B<D>>,
    tight: bool,
    sized: bool,
    hash: u32,
    level: usize,
}
fn numbers(d: &Text<'_>) -> Vec<f64> {
    let mut v = vec![];
    dbg::numbers(d, &mut v);
    v
}
fn box_json<const D: usize>(b: &B<D>) -> String {
    format!("[{:?},{:?}]", b.min.0, b.max.0)
}
impl<const D: usize> Shape<D> {
    fn of(t: &T<D>, forms: &[u8], cfg: (usize, usize)) -> Option<Shape<D>> {
        let text = format!("{t:?}");
        let d = dbg::parse(&text)?;
        let (b, k) = dbg::node(&d)?;
        let mut s = Shape { json: String::new(), keys: vec![], tight: true, sized: true, hash: 1, level: 0 };
        s.level = s.node(b, &k, forms, cfg, true)?.1;
        Some(s)
    }
    fn mix(&mut self, x: i64) {
        self.hash = ((self.hash as u64 * 1_000_003 + (x + (1 << 40)) as u64) % 2_147_483_629) as u32;
    }
    /// The bounds of the node and its level.
    fn node(&mut self, b: &Text<'_>, k: &Kids<'_>, forms: &[u8], cfg: (usize, usize), root: bool) -> Option<(B<D>, usize)> {
        let v = numbers(b);
        if v.len() != 2 * D {
            return None;
        }
        let b: B<D> = AABB { min: SVec(std::array::from_fn(|i| v[i] as i32)), max: SVec(std::array::from_fn(|i| v[D + i] as i32)) };
        v.iter().for_each(|x| self.mix(*x as i64));
        let _ = write!(self.json, "{{\"b\":{},", box_json(&b));
        let mut inner: Vec<B<D>> = vec![];
        let mut level = 0;
        match k {
            Kids::Entries(es) => {
                self.json.push_str("\"l\":0,\"c\":[],\"e\":[");
                for (i, (k, v)) in es.iter().enumerate() {
                    let (k, v) = (numbers(k), numbers(v));
                    let (c, n) = (*k.first()? as usize, *k.get(1)? as u32);
                    let key = Key { c: c as u16, i: n, w: *forms.get(c)? };
                    inner.push(key.bounds());
                    self.keys.push(key.bounds());
                    let _ = write!(self.json, "{}[{},0,0]", if i > 0 { "," } else { "" }, self.keys.len());
                    for x in [c as f64, n as f64].iter().chain(&v) {
                        self.mix(*x as i64);
                    }
                }
                self.json.push_str("]}");
            }
            Kids::Nodes(ns) => {
                self.json.push_str("\"e\":[],\"c\":[");
                let mut levels = vec![];
                for (i, (b, k)) in ns.iter().enumerate() {
                    if i > 0 {
                        self.json.push(',');
                    }
                    let (b, l) = self.node(b, k, forms, cfg, false)?;
                    inner.push(b);
                    levels.push(l);
                }
                level = 1 + levels.iter().max()?;
                self.sized &= levels.iter().all(|l| l + 1 == level);
                let _ = write!(self.json, "],\"l\":{level}}}");
            }
        }
        self.mix(-(inner.len() as i64));
        if !inner.is_empty() {
            let least = inner.iter().cloned().reduce(|a, b| AABB {
                min: SVec(std::array::from_fn(|i| a.min.0[i].min(b.min.0[i]))),
                max: SVec(std::array::from_fn(|i| a.max.0[i].max(b.max.0[i]))),
            })?;
            self.tight &= least.min.0 == b.min.0 && least.max.0 == b.max.0;
        }
        let least = if root && level == 0 { 0 } else if root { 2 } else if 2 * cfg.1 <= cfg.0 + 1 { cfg.1.max(1) } else { 1 };
        self.sized &= least <= inner.len() && inner.len() <= cfg.0;
        Some((b, level))
    }
}

/// Keys lo..=hi of some classes.
#[derive(Clone)]
struct Some_ {
    cs: Vec<bool>,
    lo: i32,
    hi: i32,
}
fn last<const D: usize>(b: &B<D>) -> (i32, i32) {
    (b.min.0[D - 1], b.max.0[D - 1])
}
impl Some_ {
    fn bounds<const D: usize>(&self, b: &B<D>) -> bool {
        let (l, h) = last(b);
        l <= self.hi && h >= self.lo && (D == 1 || self.cs.iter().enumerate().any(|(c, x)| *x && strip(c as u16).0 <= b.max.0[0] && b.min.0[0] <= strip(c as u16).1))
    }
    fn key(&self, k: &Key) -> bool {
        self.cs[k.c as usize] && self.lo <= k.i as i32 && k.i as i32 <= self.hi
    }
}
impl<const D: usize> SpatialFilter<B<D>, Key> for Some_ {
    fn test_bounds(&self, b: &B<D>) -> bool {
        self.bounds(b)
    }
    fn test_key(&self, k: &Key) -> bool {
        self.key(k)
    }
}
/// Pairs of keys with equal numbers of related classes.
#[derive(Clone)]
struct Related(Vec<(u16, u16)>);
impl<const D: usize> JoinFilter<B<D>, B<D>, Key, Key> for Related {
    fn test_bounds(&self, a: &B<D>, b: &B<D>) -> bool {
        let ((al, ah), (bl, bh)) = (last(a), last(b));
        al <= bh && bl <= ah
    }
    fn test_key(&self, a: &Key, b: &Key) -> bool {
        a.i == b.i && self.0.contains(&(a.c, b.c))
    }
}
/// Ascending numbers; `up` and `down` choose the direction. Of some of the keys only, for the filtered forms.
#[derive(Clone)]
struct Rank {
    down: bool,
    loose: i32,
    only: Some_,
}
impl Rank {
    fn metric(&self, k: &Key) -> i32 {
        if self.down { -(k.i as i32) } else { k.i as i32 }
    }
    fn bound<const D: usize>(&self, b: &B<D>) -> i32 {
        let (l, h) = last(b);
        (if self.down { -h } else { l }) - self.loose
    }
}
impl<const D: usize> Ranking<B<D>, Key> for Rank {
    type Metric = i32;
    fn bounds_min(&self, b: &B<D>) -> i32 {
        self.bound(b)
    }
    fn rank_key(&self, k: &Key) -> i32 {
        self.metric(k)
    }
}
#[derive(Clone)]
struct Only(Rank);
impl<const D: usize> Ranking<B<D>, Key> for Only {
    type Metric = Option<i32>;
    fn bounds_min(&self, b: &B<D>) -> Option<i32> {
        self.0.only.bounds(b).then(|| self.0.bound(b))
    }
    fn rank_key(&self, k: &Key) -> Option<i32> {
        self.0.only.key(k).then(|| self.0.metric(k))
    }
}

/// How often each key of each class was seen.
struct Seen {
    n: Vec<Vec<u32>>,
    other: u64,
}
impl Seen {
    fn new(size: &[usize]) -> Seen {
        Seen { n: size.iter().map(|n| vec![0; *n]).collect(), other: 0 }
    }
    fn add(&mut self, k: &Key, v: &Val) {
        match self.n.get_mut(k.c as usize).and_then(|c| c.get_mut(k.i as usize)) {
            Some(n) if v.c == k.c && v.i == k.i => *n += 1,
            _ => self.other += 1,
        }
    }
    /// min and max over lo..=hi, and the total.
    fn range(&self, c: usize, lo: i32, hi: i32) -> (u32, u32, u64) {
        let x = if lo <= hi { &self.n[c][lo as usize..=hi as usize] } else { &[] };
        (x.iter().min().copied().unwrap_or(0), x.iter().max().copied().unwrap_or(0), x.iter().map(|n| *n as u64).sum())
    }
    fn total(&self) -> u64 {
        self.other + self.n.iter().flatten().map(|n| *n as u64).sum::<u64>()
    }
    /// The JSON of seen and rest, for keys lo..=hi of the classes `cs`.
    fn json(&self, f: &Some_) -> String {
        let mut s = String::new();
        let mut rest = self.total();
        for c in 0..self.n.len() {
            if f.cs[c] {
                let (lo, hi) = (f.lo.max(0), f.hi.min(self.n[c].len() as i32 - 1));
                let (min, max, t) = self.range(c, lo, hi);
                rest -= t;
                let _ = write!(s, "{}{{\"c\":{},\"lo\":{lo},\"hi\":{hi},\"min\":{min},\"max\":{max}}}", if s.is_empty() { "" } else { "," }, c + 1);
            }
        }
        format!("\"seen\":[{s}],\"rest\":{rest}")
    }
}

struct Hist<const D: usize> {
    id: String,
    size: Vec<usize>,
    form: Vec<u8>,
    trees: Vec<Option<T<D>>>,
    cfg: Vec<(usize, usize)>,
    /// since the structure was looked at, and how often it was sent
    calls: usize,
    shapes: usize,
    wrong: bool,
    ev: Vec<String>,
    rng: Rng,
    /// entries per key, to choose what to do (not for judging)
    n: Vec<Vec<u32>>,
    cases: usize,
}

impl<const D: usize> Hist<D> {
    fn key(&self, c: usize, i: usize) -> Key {
        Key { c: c as u16, i: i as u32, w: self.form[c] }
    }
    fn val(&self, c: usize, i: usize) -> Val {
        Val { c: c as u16, i: i as u32, mark: 0 }
    }
    /// The numbers of the keys of a class in some order.
    fn order(&mut self, c: usize) -> Vec<usize> {
        let n = self.size[c];
        let mut x: Vec<usize> = (0..n).collect();
        match self.rng.below(4) {
            0 => {}
            1 => x.reverse(),
            2 => {
                let k = 1 + self.rng.below(7);
                x.sort_by_key(|i| (i % k, *i));
            }
            _ => {
                for i in (1..n).rev() {
                    x.swap(i, self.rng.below(i + 1));
                }
            }
        }
        x
    }
    fn all(&self) -> String {
        let mut out = String::new();
        for (s, t) in self.trees.iter().enumerate() {
            let Some(t) = t else { continue };
            let mut seen = Seen::new(&self.size);
            let mut marks = vec![(1000, -1000); self.size.len()];
            let mut cnt = 0;
            let most = t.len() * 2 + 100;
            for (k, v) in t.iter().take(most) {
                seen.add(k, v);
                cnt += 1;
                if let Some(m) = marks.get_mut(k.c as usize) {
                    *m = (m.0.min(v.mark), m.1.max(v.mark));
                }
            }
            let cls: Vec<String> = (0..self.size.len())
                .map(|c| {
                    let (min, max, _) = seen.range(c, 0, self.size[c] as i32 - 1);
                    format!("[{min},{max},{},{}]", marks[c].0, marks[c].1)
                })
                .collect();
            let _ = write!(
                out,
                "{}{{\"s\":{s},\"len\":{},\"empty\":{},\"cnt\":{cnt},\"odd\":{},\"cls\":[{}]}}",
                if out.is_empty() { "" } else { "," },
                t.len(),
                t.is_empty(),
                seen.other,
                cls.join(",")
            );
        }
        out
    }
    /// One step; `f` gives the rest of the event. False after a panic.
    fn step(&mut self, op: &str, s: usize, f: impl FnOnce(&mut Self) -> String) -> bool {
        if std::env::var("RT_TELL").is_ok() {
            eprintln!("  {op} {s} {:?} {:?}", self.n, self.cfg);
        }
        let at = self.ev.len();
        watch::note(|| format!("{} step {at} {op}", self.id));
        watch::tick();
        self.cases += 1;
        watch::GUARDED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let what = f(self);
            let all = if ["get", "filter", "ranked", "join", "left_join"].contains(&op) { String::new() } else { self.all() };
            (what, all)
        }));
        watch::GUARDED.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        match r {
            Ok((what, all)) => {
                self.ev.push(format!("{{\"op\":\"{op}\",\"ret\":\"ok\",\"s\":{s},{what},\"all\":[{all}]}}"));
                true
            }
            Err(_) => {
                self.ev.push(format!("{{\"op\":\"{op}\",\"ret\":\"panic\",\"s\":{s},\"t\":{s},\"c\":1,\"mark\":0,\"seen\":[],\"why\":\"{}\"}}", watch::last_panic()));
                std::mem::take(&mut self.trees).into_iter().for_each(std::mem::forget);
                false
            }
        }
    }
    /// Looks at the structure now and then; sends it if it seems wrong, or is small.
    fn look(&mut self, s: usize, t: &T<D>, now: bool) {
        let n = t.len();
        self.calls += 1;
        if n == 0 || self.wrong || !(now || self.calls > n / 15) || n > 20_000 {
            return;
        }
        self.calls = 0;
        let Some(x) = Shape::of(t, &self.form, self.cfg[s]) else { return };
        if x.level > 100 {
            // The reader of the traces has its limits.
            return;
        }
        self.wrong = !x.tight || !x.sized;
        if (self.wrong && n < 10_000) || (now && n < 400 && self.shapes < 4) {
            self.shapes += 1;
            let keys: Vec<String> = x.keys.iter().map(box_json).collect();
            let cfg = self.cfg[s];
            self.ev.push(format!("{{\"op\":\"shape\",\"ret\":\"ok\",\"s\":{s},\"c\":1,\"cfg\":[{},{}],\"keys\":[{}],\"root\":{},\"all\":[]}}", cfg.0, cfg.1, keys.join(","), x.json));
        }
    }
    fn slot(&self) -> usize {
        self.trees.iter().position(|t| t.is_none()).unwrap_or(self.trees.len())
    }
    fn put(&mut self, s: usize, t: T<D>, n: Vec<u32>, cfg: (usize, usize)) {
        if s == self.trees.len() {
            self.cfg.push(cfg);
            self.trees.push(Some(t));
            self.n.push(n);
        } else {
            self.trees[s] = Some(t);
            self.n[s] = n;
            self.cfg[s] = cfg;
        }
    }
    fn some(&mut self) -> Some_ {
        let most = *self.size.iter().max().unwrap();
        let cs = (0..self.size.len()).map(|_| self.rng.chance(2, 3)).collect();
        let (mut lo, mut hi) = (self.rng.below(most) as i32, self.rng.below(most) as i32);
        if lo > hi {
            std::mem::swap(&mut lo, &mut hi);
        }
        if self.rng.chance(1, 3) {
            (lo, hi) = (0, i32::MAX / 2);
        }
        Some_ { cs, lo, hi }
    }
    /// Would looking up a class of keys take too long? Boxes that meet everything are met by every lookup.
    fn slow(&self, s: usize, c: usize) -> bool {
        let count = |f: &dyn Fn(u8) -> usize| (0..self.size.len()).map(|c| self.n[s][c] as usize * self.size[c] * f(self.form[c])).sum::<usize>();
        let wide = if self.cfg[s].0 < 4 { count(&|_| 1) } else { count(&|w| [0, 0, 100, 100, 4, 0][w as usize]) / 100 };
        wide * self.size[c] > 40_000_000
    }
    fn live(&self) -> Vec<usize> {
        (0..self.trees.len()).filter(|s| self.trees[*s].is_some()).collect()
    }
    /// What to do is chosen by the property, most of the time.
    fn random_step(&mut self, prop: &str) -> bool {
        let live = self.live();
        let look = prop == "C05" || prop == "C06";
        if self.wrong {
            return false;
        }
        if live.is_empty() || (live.len() < 2 && self.rng.chance(1, 6)) {
            let (mut max, mut min) = *self.rng.pick(&[(4, 2), (16, 4), (64, 16), (300, 80), (2, 1), (3, 0), (32, 8), (5, 2), (64, 32), (33, 17), (128, 3), (257, 129), (1000, 400)]);
            // With a minimum below two trees can be as high as they have entries (known-findings.txt).
            if min < 2 && max > 1 && self.size.iter().sum::<usize>() > 2000 {
                (max, min) = (max.max(4), 2);
            }
            let s = self.slot();
            return self.step("new", s, |h| {
                let t = RTree::new(RTreeConfig { max_children: max, min_children: min });
                h.put(s, t, vec![0; h.size.len()], (max, min));
                format!("\"cfg\":[{max},{min}]")
            });
        }
        let s = *self.rng.pick(&live);
        let c = if self.rng.chance(1, 3) { 0 } else { self.rng.below(self.size.len()) };
        let mine = self.rng.chance(1, 2);
        let op = match (prop, mine) {
            // Queries of empty trees are for other recorders.
            _ if self.ev.len() < 4 && self.n[s].iter().all(|n| *n == 0) && self.rng.chance(3, 4) => self.rng.below(2),
            ("C02", true) => 3,
            ("C03", true) => 1,
            ("C04", true) => 2,
            ("C07", true) => 6,
            ("C09", true) => 7,
            ("C11", true) => 8,
            ("C12", true) => 9,
            ("C13", true) => 10,
            ("C15", true) => 4,
            ("C05" | "C06", _) => *self.rng.pick(&[0, 0, 0, 1, 2, 2, 2, 4, 5]),
            _ => *self.rng.pick(&[0, 0, 0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10]),
        };
        let full = (0..self.size.len()).map(|c| self.size[c] * self.n[s][c] as usize).sum::<usize>();
        match op {
            0 | 1 => {
                if full + self.size[c] > 150_000 || self.n[s][c] >= 3 || (op == 1 && self.slow(s, c)) {
                    return true;
                }
                let order = self.order(c);
                let unique = op == 1;
                self.step(if unique { "unique" } else { "insert" }, s, |h| {
                    let mut t = h.trees[s].take().unwrap();
                    let (mut some, mut odd) = (0, 0);
                    for i in order {
                        watch::tick();
                        let (k, v) = (h.key(c, i), h.val(c, i));
                        if unique {
                            if let Some(v) = t.insert_unique(k, v) {
                                some += 1;
                                odd += (v.c as usize != c || v.i as usize != i) as usize;
                            }
                        } else {
                            t.insert(k, v);
                        }
                        if look {
                            h.look(s, &t, h.size[c] < 16);
                        }
                    }
                    if look {
                        h.look(s, &t, true);
                    }
                    h.trees[s] = Some(t);
                    if !unique || some == 0 {
                        h.n[s][c] += 1;
                    }
                    format!("\"c\":{},\"some\":{some},\"odd\":{odd}", c + 1)
                })
            }
            2 | 3 => {
                if self.slow(s, c) {
                    return true;
                }
                let order = self.order(c);
                let mutable = self.rng.chance(1, 2);
                self.step(if op == 2 { "remove" } else { "get" }, s, |h| {
                    let mut t = h.trees[s].take().unwrap();
                    let (mut some, mut odd) = (0, 0);
                    for i in order {
                        watch::tick();
                        let k = h.key(c, i);
                        let v = match (op, mutable) {
                            (2, _) => t.remove(&k),
                            (_, false) => t.get(&k).cloned(),
                            _ => t.get_mut(&k).map(|v| v.clone()),
                        };
                        if let Some(v) = v {
                            some += 1;
                            odd += (v.c as usize != c || v.i as usize != i) as usize;
                        }
                        if look && op == 2 {
                            h.look(s, &t, h.size[c] < 16);
                        }
                    }
                    if look && op == 2 {
                        h.look(s, &t, true);
                    }
                    h.trees[s] = Some(t);
                    if op == 2 && some > 0 {
                        h.n[s][c] = h.n[s][c].saturating_sub(1);
                    }
                    format!("\"c\":{},\"some\":{some},\"odd\":{odd}", c + 1)
                })
            }
            4 => {
                if self.live().len() >= 3 {
                    return true;
                }
                let u = self.slot();
                self.step("clone", s, |h| {
                    let t = h.trees[s].as_ref().unwrap().clone();
                    let (n, cfg) = (h.n[s].clone(), h.cfg[s]);
                    let both = [h.trees[s].as_ref().unwrap(), &t].map(|t| if t.len() > 20_000 { 0 } else { Shape::of(t, &h.form, cfg).map_or(0, |x| x.hash) });
                    h.put(u, t, n, cfg);
                    format!("\"t\":{u},\"hash\":{both:?}")
                })
            }
            5 => {
                if self.live().len() < 2 {
                    return true;
                }
                self.step("drop", s, |h| {
                    h.trees[s] = None;
                    "\"t\":0".to_string()
                })
            }
            6 => {
                let f = self.some();
                self.step("filter", s, |h| {
                    let t = h.trees[s].as_ref().unwrap();
                    let mut seen = Seen::new(&h.size);
                    for (k, v) in t.filter_iter(f.clone()).take(t.len() * 2 + 100) {
                        watch::tick();
                        seen.add(k, v);
                    }
                    seen.json(&f)
                })
            }
            7 => {
                let mut only = self.some();
                let form = self.rng.below(4);
                if form == 0 || form == 2 {
                    only = Some_ { cs: vec![true; self.size.len()], lo: 0, hi: i32::MAX / 2 };
                }
                let r = Rank { down: self.rng.chance(1, 2), loose: *self.rng.pick(&[0, 0, 5, 1000]), only: only.clone() };
                self.step("ranked", s, |h| {
                    let mut t = h.trees[s].take().unwrap();
                    let mut seen = Seen::new(&h.size);
                    let mut down = 0;
                    let mut before = i32::MIN;
                    let mut first = None;
                    let most = t.len() * 2 + 100;
                    let mut take = |k: &Key, v: &Val| {
                        watch::tick();
                        seen.add(k, v);
                        let m = r.metric(k);
                        first = first.or(Some(m));
                        down += (m < before) as usize;
                        before = m;
                    };
                    let least = match form {
                        0 => {
                            t.iter_asc_by(r.clone()).take(most).for_each(|(k, v)| take(k, v));
                            t.min_by(r.clone()).map(|(k, _)| r.metric(k))
                        }
                        1 => {
                            t.filter_iter_asc_by(Only(r.clone())).take(most).for_each(|(k, v)| take(k, v));
                            t.filter_min_by(Only(r.clone())).map(|(k, _)| r.metric(k))
                        }
                        2 => {
                            t.iter_asc_by_mut(r.clone()).take(most).for_each(|(k, v)| take(k, v));
                            t.min_by_mut(r.clone()).map(|(k, _)| r.metric(k))
                        }
                        _ => {
                            t.filter_iter_asc_by_mut(Only(r.clone())).take(most).for_each(|(k, v)| take(k, v));
                            t.filter_min_by_mut(Only(r.clone())).map(|(k, _)| r.metric(k))
                        }
                    };
                    let same = least == first;
                    h.trees[s] = Some(t);
                    format!("{},\"down\":{},\"first\":{same}", seen.json(&only), down)
                })
            }
            8 | 9 => {
                let u = *self.rng.pick(&live);
                let k = self.size.len();
                // Boxes that meet everything make joins quadratic.
                let count = |s: usize, f: &dyn Fn(u8) -> usize| (0..k).map(|c| self.n[s][c] as usize * self.size[c] * f(self.form[c])).sum::<usize>();
                let wide = |s: usize| count(s, &|w| [0, 0, 100, 100, 4, 0][w as usize]) / 100;
                if wide(s) * count(u, &|_| 1) + wide(u) * count(s, &|_| 1) > 4_000_000 {
                    return true;
                }
                let mut rel: Vec<(u16, u16)> = vec![];
                for _ in 0..1 + self.rng.below(3) {
                    let p = (self.rng.below(k) as u16, self.rng.below(k) as u16);
                    if !rel.contains(&p) {
                        rel.push(p);
                    }
                }
                self.step(if op == 8 { "join" } else { "left_join" }, s, |h| {
                    let (t, o) = (h.trees[s].as_ref().unwrap(), h.trees[u].as_ref().unwrap());
                    let room: Vec<usize> = rel.iter().map(|(a, b)| h.size[*a as usize].min(h.size[*b as usize])).collect();
                    // per related pair of classes
                    let mut seen = Seen::new(&room);
                    let mut outer = Seen::new(&h.size);
                    let mut add = |a: &Key, va: &Val, b: &Key, vb: &Val| {
                        watch::tick();
                        let fine = va.c == a.c && va.i == a.i && vb.c == b.c && vb.i == b.i && a.i == b.i;
                        match rel.iter().position(|p| *p == (a.c, b.c)) {
                            Some(p) if fine => seen.n[p][a.i as usize] += 1,
                            _ => seen.other += 1,
                        }
                    };
                    if op == 8 {
                        for ((a, va), (b, vb)) in t.join::<B<D>, Key, Val, Key, Key, _>(o, Related(rel.clone())).take(3_000_000) {
                            add(a, va, b, vb);
                        }
                    } else {
                        for ((a, va), inner) in t.left_join::<B<D>, Key, Val, Key, Key, _>(o, Related(rel.clone())).take(1_000_000) {
                            outer.add(a, va);
                            for (b, vb) in inner.take(1000) {
                                add(a, va, b, vb);
                            }
                        }
                    }
                    let mut out = String::new();
                    for (p, (a, b)) in rel.iter().enumerate() {
                        let hi = room[p] as i32 - 1;
                        let (min, max, _) = seen.range(p, 0, hi);
                        let _ = write!(out, "{}{{\"c\":{},\"c2\":{},\"lo\":0,\"hi\":{hi},\"min\":{min},\"max\":{max}}}", if p > 0 { "," } else { "" }, a + 1, b + 1);
                    }
                    let outs: Vec<String> = (0..if op == 9 { k } else { 0 })
                        .map(|c| {
                            let (min, max, _) = outer.range(c, 0, h.size[c] as i32 - 1);
                            format!("{{\"c\":{},\"min\":{min},\"max\":{max}}}", c + 1)
                        })
                        .collect();
                    format!("\"t\":{u},\"seen\":[{out}],\"rest\":{},\"outer\":[{}]", seen.other + outer.other, outs.join(","))
                })
            }
            _ => {
                let mark = 1 + self.rng.below(5) as i32;
                let mut f = self.some();
                (f.lo, f.hi) = (0, i32::MAX / 2);
                let form = self.rng.below(3);
                if form == 0 {
                    f.cs = vec![true; self.size.len()];
                }
                self.step("mark", s, |h| {
                    let mut t = h.trees[s].take().unwrap();
                    let mut seen = Seen::new(&h.size);
                    let most = t.len() * 2 + 100;
                    let mut put = |k: &Key, v: &mut Val| {
                        watch::tick();
                        seen.add(k, v);
                        v.mark = mark;
                    };
                    match form {
                        0 => t.iter_mut().take(most).for_each(|(k, v)| put(k, v)),
                        1 => t.filter_iter_mut(f.clone()).take(most).for_each(|(k, v)| put(k, v)),
                        _ => {
                            let r = Rank { down: false, loose: 0, only: f.clone() };
                            t.filter_iter_asc_by_mut(Only(r)).take(most).for_each(|(k, v)| put(k, v))
                        }
                    }
                    h.trees[s] = Some(t);
                    format!("{},\"mark\":{mark}", seen.json(&f))
                })
            }
        }
    }
}

fn history<const D: usize>(prop: &str, mut rng: Rng, id: String, largest: usize, steps: usize, until: Instant) -> (String, usize, usize) {
    let k = 1 + rng.below(5);
    let form: Vec<u8> = (0..k).map(|_| if rng.chance(1, 3) { 0 } else { rng.below(6) as u8 }).collect();
    let size: Vec<usize> = (0..k)
        .map(|i| if i == 0 { largest } else { *rng.pick(&[1, 10, 300, 3000, 30_000]) }.min(largest).min(room(form[i])))
        .collect();
    let mut h = Hist::<D> { id, size, form, trees: vec![], cfg: vec![], calls: 0, shapes: 0, wrong: false, ev: vec![], rng, n: vec![], cases: 0 };
    if std::env::var("RT_TELL").is_ok() {
        eprintln!("{} {:?} {:?}", h.id, h.size, h.form);
    }
    for _ in 0..steps * 3 {
        if h.ev.len() >= steps || Instant::now() > until || !h.random_step(prop) {
            break;
        }
    }
    let n = h.ev.len();
    (format!("{{\"id\":\"{} classes of {:?} keys, forms {:?}, {D} dimensions\",\"size\":{:?},\"ev\":[{}]}}", h.id, h.size, h.form, h.size, h.ev.join(",")), n, h.cases)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, thorough, out) = (&a[1], a[2].parse::<u64>().unwrap(), a[3] == "thorough", &a[4]);
    let (secs, part) = (a[6].parse::<f64>().unwrap(), a[7].parse::<u64>().unwrap());
    watch::quiet_panics();
    watch::start(60, out);
    let start = Instant::now();
    let until = start + Duration::from_secs_f64(secs);
    let mut rng = Rng::new(seed * 1000 + part);
    let (mut text, mut cases, mut sent, mut n) = (String::new(), 0, 0, 0);
    // The largest ones are each part's first history; later ones are quicker.
    while Instant::now() < until {
        let largest = if prop == "C05" || prop == "C06" {
            *rng.pick(&[30, 100, 100, 250, 250, 250, 500, 500, 1000, if thorough { 15_000 } else { 2_000 }])
        } else if n == 0 && part == 0 { if thorough { 140_000 } else { 66_000 } } else { *rng.pick(&[100, 300, 300, 1_000, 5_000, 20_000]) };
        let steps = 8 + rng.below(14);
        let id = format!("{seed}.{part}.{n}");
        let r = rng.fork();
        let (line, ev, c) = if rng.chance(1, 4) {
            history::<1>(prop, r, id, largest, steps, until)
        } else {
            history::<2>(prop, r, id, largest, steps, until)
        };
        if ev > 0 {
            text.push_str(&line);
            text.push('\n');
            sent += ev;
            n += 1;
        }
        cases += c;
    }
    std::fs::write(out, text).expect("write");
    println!("{{\"cases\":{cases},\"steps\":{cases},\"histories\":{n},\"sent\":{sent},\"complete\":true}}");
}
