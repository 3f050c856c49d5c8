//! Filters and rankings that answer from tables and record what they are asked, and the driver
//! for queries (C07..C12).

use crate::draw::{draw, hints_json, hints_ok, one, Drawn, Part, NO_PART, WAYS};
use crate::record::{pairs, Ent, Nd, Rec, Sink, Snap, V};
use crate::rng::Rng;
use crate::tree::{forest, guarded, Guarded};
use crate::worlds::{
    contains, first_world, ibox_json, meets, second_world, with_world, IBox, WithWorld, World,
    FIRST_WORLDS, SECOND_WORLDS, WORLDS,
};
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::ranking::Ranking;
use rusty_rtree::RTree;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};

fn hash(b: &IBox, salt: u64) -> u64 {
    let mut h = salt ^ 0x9E37_79B9_7F4A_7C15;
    for x in b.0.iter().chain(b.1.iter()) {
        h = (h ^ (*x as u64)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h ^= h >> 29;
    }
    h
}

/// How a filter judges the bounds of groups.
#[derive(Clone, Debug)]
pub enum Mode {
    /// accepts what contains the box of a key of `wide`
    Wide,
    /// the same, and any other bounds depending on a hash
    Salted(u64, u64),
    /// depending on a hash only
    Wild(u64, u64),
    Always,
    Never,
}

/// What was asked: bounds, or a key (kid, ser).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Asked {
    B(IBox),
    K(i32, i32),
    Y(Ent),
}

pub struct Table<'a, W: World> {
    pub w: &'a W,
    /// by kid - 1
    pub mk: Vec<bool>,
    pub wide: Vec<bool>,
    pub mode: Mode,
    pub log: RefCell<Vec<Asked>>,
}
impl<'a, W: World> Table<'a, W> {
    pub fn of(w: &'a W, mk: Vec<bool>) -> Self {
        Table { w, wide: mk.clone(), mk, mode: Mode::Wide, log: RefCell::new(vec![]) }
    }
    pub fn accepts(&self, b: &IBox) -> bool {
        let wide = || {
            self.w.u().kboxes.iter().enumerate().any(|(i, k)| self.wide[i] && contains(b, k))
        };
        match self.mode {
            Mode::Wide => wide(),
            Mode::Salted(s, n) => wide() || hash(b, s) >> 40 & 7 < n,
            Mode::Wild(s, n) => hash(b, s) >> 40 & 7 < n,
            Mode::Always => true,
            Mode::Never => false,
        }
    }
    pub fn matches(&self, kid: i32) -> bool {
        self.mk.get(kid as usize - 1).cloned().unwrap_or(false)
    }
    pub fn random(w: &'a W, rng: &mut Rng, conservative: bool) -> Self {
        let n = w.nkeys();
        let p = *rng.pick(&[0, 1, 2, 4, 6, 8]);
        // a random choice of keys, or those in some region
        let mk: Vec<bool> = if rng.chance(1, 2) {
            (0..n).map(|_| rng.chance(p, 8)).collect()
        } else {
            let a = rng.pick(&w.u().kboxes).clone();
            let b = rng.pick(&w.u().kboxes).clone();
            let d = w.u().d;
            let q: IBox = (
                (0..d).map(|i| a.0[i].min(b.0[i])).collect(),
                (0..d).map(|i| a.1[i].max(b.1[i])).collect(),
            );
            w.u().kboxes.iter().map(|k| meets(&q, k)).collect()
        };
        let mode = match rng.below(10) {
            0 => Mode::Always,
            1 if !conservative => Mode::Never,
            2 | 3 | 4 if !conservative => Mode::Wild(rng.next(), 2 + rng.below(6) as u64),
            2..=5 => Mode::Salted(rng.next(), 1 + rng.below(7) as u64),
            _ => Mode::Wide,
        };
        let mut wide = mk.clone();
        if rng.chance(1, 3) {
            wide.iter_mut().for_each(|x| *x = *x || rng.chance(1, 4));
        }
        Table { w, mk, wide, mode, log: RefCell::new(vec![]) }
    }
    fn ask_b(&self, b: &W::B) -> bool {
        let b = self.w.bbox(b);
        let r = self.accepts(&b);
        self.log.borrow_mut().push(Asked::B(b));
        r
    }
    fn ask_k(&self, (kid, ser): (i32, i32)) -> bool {
        self.log.borrow_mut().push(Asked::K(kid, ser));
        self.matches(kid)
    }
}
/// The filter on whole keys.
pub struct OnKey<'t, 'a, W: World>(pub &'t Table<'a, W>);
impl<W: World> SpatialFilter<W::B, W::K> for OnKey<'_, '_, W> {
    fn test_bounds(&self, b: &W::B) -> bool {
        self.0.ask_b(b)
    }
    fn test_key(&self, k: &W::K) -> bool {
        self.0.ask_k(self.0.w.id(k))
    }
}
/// The filter on the borrowed form.
pub struct OnBorrowed<'t, 'a, W: World>(pub &'t Table<'a, W>);
impl<W: World> SpatialFilter<W::B, W::Q> for OnBorrowed<'_, '_, W> {
    fn test_bounds(&self, b: &W::B) -> bool {
        self.0.ask_b(b)
    }
    fn test_key(&self, k: &W::Q) -> bool {
        self.0.ask_k(self.0.w.qid(k))
    }
}

/// A ranking by a table of metrics, with lower bounds that are valid for the universe.
pub struct Ranks<'a, W: World> {
    pub w: &'a W,
    /// by kid - 1
    pub m: Vec<Option<i32>>,
    /// how much bounds undershoot: depends on a hash, at most this
    pub slack: (u64, i32),
    pub log: RefCell<Vec<Asked>>,
    known: RefCell<HashMap<IBox, Option<i32>>>,
}
pub const FAR: i32 = 5000;
impl<'a, W: World> Ranks<'a, W> {
    pub fn of(w: &'a W, m: Vec<Option<i32>>, slack: (u64, i32)) -> Self {
        Ranks { w, m, slack, log: RefCell::new(vec![]), known: RefCell::default() }
    }
    pub fn random(w: &'a W, rng: &mut Rng, filtering: bool) -> Self {
        let n = w.nkeys();
        let range = *rng.pick(&[1, 2, 4, 10, 1000]);
        let at = rng.pick(&w.u().kboxes).clone();
        let geometric = rng.chance(1, 2);
        let p = if filtering { *rng.pick(&[0, 1, 3, 6, 8]) } else { 0 };
        let m = (0..n)
            .map(|i| {
                if rng.chance(p, 8) {
                    return None;
                }
                Some(if geometric {
                    let b = &w.u().kboxes[i];
                    (0..at.0.len())
                        .map(|j| (b.0[j] - at.0[j]).max(at.0[j] - b.1[j]).max(0))
                        .sum::<i32>()
                        .min(1500)
                } else {
                    rng.below(range) as i32
                })
            })
            .collect();
        let slack = (rng.next(), *rng.pick(&[0, 0, 0, 2, 50]));
        Ranks::of(w, m, slack)
    }
    /// None: no key inside has a metric.
    pub fn bound(&self, b: &IBox) -> Option<i32> {
        if let Some(r) = self.known.borrow().get(b) {
            return *r;
        }
        let r = self.decide(b);
        self.known.borrow_mut().insert(b.clone(), r);
        r
    }
    fn decide(&self, b: &IBox) -> Option<i32> {
        let low = (0..self.m.len())
            .filter(|i| contains(b, &self.w.u().kboxes[*i]))
            .filter_map(|i| self.m[i])
            .min()?;
        Some(low - (hash(b, self.slack.0) >> 40) as i32 % (self.slack.1 + 1))
    }
    pub fn metric(&self, kid: i32) -> Option<i32> {
        *self.m.get(kid as usize - 1).unwrap_or(&Some(FAR))
    }
    fn ask_b(&self, b: &W::B) -> Option<i32> {
        let b = self.w.bbox(b);
        let r = self.bound(&b);
        self.log.borrow_mut().push(Asked::B(b));
        r
    }
    fn ask_k(&self, k: &W::K) -> Option<i32> {
        let (kid, ser) = self.w.id(k);
        self.log.borrow_mut().push(Asked::K(kid, ser));
        self.metric(kid)
    }
}
/// Metrics with an order of their own, so that the library may use nothing but Ord.
pub struct Total<'t, 'a, W: World>(pub &'t Ranks<'a, W>);
impl<W: World> Ranking<W::B, W::K> for Total<'_, '_, W> {
    type Metric = i32;
    fn bounds_min(&self, b: &W::B) -> i32 {
        self.0.ask_b(b).unwrap_or(FAR)
    }
    fn rank_key(&self, k: &W::K) -> i32 {
        self.0.ask_k(k).unwrap_or(FAR)
    }
}
pub struct Partial<'t, 'a, W: World>(pub &'t Ranks<'a, W>);
impl<W: World> Ranking<W::B, W::K> for Partial<'_, '_, W> {
    type Metric = Option<i32>;
    fn bounds_min(&self, b: &W::B) -> Option<i32> {
        self.0.ask_b(b)
    }
    fn rank_key(&self, k: &W::K) -> Option<i32> {
        self.0.ask_k(k)
    }
}

/// A join filter by a table of pairs. Monotone: what it accepts is decided by the pairs of keys
/// inside.
pub struct Pairs<'a, W: World, X: World> {
    pub w: &'a W,
    pub x: &'a X,
    pub mk: Vec<Vec<bool>>,
    pub wide: Vec<Vec<bool>>,
    pub always: bool,
    pub log: RefCell<Vec<((i32, i32), (i32, i32))>>,
    known: RefCell<HashMap<IBox, HashMap<IBox, bool>>>,
}
impl<'a, W: World, X: World> Pairs<'a, W, X> {
    pub fn random(w: &'a W, x: &'a X, rng: &mut Rng, conservative: bool) -> Self {
        let (n, m) = (w.nkeys(), x.nkeys());
        let p = *rng.pick(&[0, 1, 2, 5, 9, 15, 16]);
        let by_row = rng.chance(1, 3);
        let mk: Vec<Vec<bool>> = (0..n)
            .map(|i| {
                let on = rng.chance(p, 16);
                (0..m)
                    .map(|j| {
                        if by_row {
                            on && (i + j) % 3 != 0
                        } else {
                            rng.chance(p, 16)
                        }
                    })
                    .collect()
            })
            .collect();
        let mut wide = mk.clone();
        let extra = *rng.pick(&[0, 0, 1, 3]);
        for row in wide.iter_mut() {
            for c in row.iter_mut() {
                *c = *c || rng.chance(extra, 16);
                if !conservative && rng.chance(6, 16) {
                    *c = false;
                }
            }
        }
        Pairs { w, x, mk, wide, always: conservative && rng.chance(1, 8), log: RefCell::new(vec![]), known: RefCell::default() }
    }
    pub fn accepts(&self, a: &IBox, b: &IBox) -> bool {
        if self.always {
            return true;
        }
        if let Some(r) = self.known.borrow().get(a).and_then(|m| m.get(b)) {
            return *r;
        }
        let r = self.decide(a, b);
        self.known.borrow_mut().entry(a.clone()).or_default().insert(b.clone(), r);
        r
    }
    fn decide(&self, a: &IBox, b: &IBox) -> bool {
        let ks = &self.w.u().kboxes;
        let js = &self.x.u().kboxes;
        ks.iter().enumerate().filter(|(_, k)| contains(a, k)).any(|(i, _)| {
            self.wide[i].iter().enumerate().any(|(j, on)| *on && contains(b, &js[j]))
        })
    }
    pub fn matches(&self, a: i32, b: i32) -> bool {
        self.mk
            .get(a as usize - 1)
            .and_then(|r| r.get(b as usize - 1))
            .cloned()
            .unwrap_or(false)
    }
}
pub struct JoinOnKey<'t, 'a, W: World, X: World>(pub &'t Pairs<'a, W, X>);
impl<W: World, X: World> Clone for JoinOnKey<'_, '_, W, X> {
    fn clone(&self) -> Self {
        JoinOnKey(self.0)
    }
}
impl<W: World, X: World> JoinFilter<W::B, X::B, W::K, X::K> for JoinOnKey<'_, '_, W, X> {
    fn test_bounds(&self, a: &W::B, b: &X::B) -> bool {
        self.0.accepts(&self.0.w.bbox(a), &self.0.x.bbox(b))
    }
    fn test_key(&self, a: &W::K, b: &X::K) -> bool {
        let (a, b) = (self.0.w.id(a), self.0.x.id(b));
        self.0.log.borrow_mut().push((a, b));
        self.0.matches(a.0, b.0)
    }
}
pub struct JoinOnBorrowed<'t, 'a, W: World, X: World>(pub &'t Pairs<'a, W, X>);
impl<W: World, X: World> Clone for JoinOnBorrowed<'_, '_, W, X> {
    fn clone(&self) -> Self {
        JoinOnBorrowed(self.0)
    }
}
impl<W: World, X: World> JoinFilter<W::B, X::B, W::Q, X::Q> for JoinOnBorrowed<'_, '_, W, X> {
    fn test_bounds(&self, a: &W::B, b: &X::B) -> bool {
        self.0.accepts(&self.0.w.bbox(a), &self.0.x.bbox(b))
    }
    fn test_key(&self, a: &W::Q, b: &X::Q) -> bool {
        let (a, b) = (self.0.w.qid(a), self.0.x.qid(b));
        self.0.log.borrow_mut().push((a, b));
        self.0.matches(a.0, b.0)
    }
}

// ---------------------------------------------------------------------------------------------

fn kids(mk: &[bool]) -> Vec<usize> {
    (0..mk.len()).filter(|i| mk[*i]).map(|i| i + 1).collect()
}
fn boxes_json(v: &[IBox]) -> String {
    let v: Vec<String> = v.iter().map(ibox_json).collect();
    format!("[{}]", v.join(","))
}
fn dedup<T: Eq + std::hash::Hash + Clone>(v: impl Iterator<Item = T>) -> Vec<T> {
    let mut seen = HashSet::new();
    v.filter(|x| seen.insert(x.clone())).collect()
}
/// Nothing a query yields is more than this; an iterator that does not end is cut off.
fn limit(a: &Snap, b: usize) -> usize {
    2 * (a.it.len() + 1) * (b + 1) + 8
}

fn reach<'a>(n: &'a Nd, ok: &impl Fn(&IBox) -> bool, out: &mut Vec<&'a Nd>) {
    if ok(&n.b) {
        out.push(n);
        for c in &n.c {
            reach(c, ok, out);
        }
    }
}
/// Keys of entries as they may be asked for: with their number, or without one.
fn names<'a>(v: impl Iterator<Item = &'a Ent>) -> HashSet<(i32, i32)> {
    v.flat_map(|e| [(e[0], e[1]), (e[0], -1)]).collect()
}
fn set<T: Eq + std::hash::Hash + Clone>(v: &[T]) -> HashSet<T> {
    v.iter().cloned().collect()
}
fn same_set<T: Eq + std::hash::Hash + Clone>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && set(a) == set(b)
}

thread_local! {
    /// Trees are large: what is not suspicious need not be written out.
    static BRIEF: Cell<bool> = const { Cell::new(false) };
}
fn brief() -> bool {
    BRIEF.with(|b| b.get())
}

pub struct Query {
    pub fields: String,
    pub suspicious: bool,
    pub class: String,
}
impl Query {
    pub fn panic() -> Query {
        Query {
            fields: format!("\"op\":\"panic\",\"s\":1,\"what\":\"{}\"", crate::watch::last_panic()),
            suspicious: true,
            class: "panic".into(),
        }
    }
}

/// A tree to query: shared, or with the only reference to it.
pub enum Lent<'a, T> {
    Shared(&'a T),
    Only(&'a mut T),
}
impl<T> Lent<'_, T> {
    fn is_shared(&self) -> bool {
        matches!(self, Lent::Shared(_))
    }
    fn get(&self) -> &T {
        match self {
            Lent::Shared(t) => t,
            Lent::Only(t) => t,
        }
    }
    fn get_mut(&mut self) -> &mut T {
        match self {
            Lent::Shared(_) => unreachable!(),
            Lent::Only(t) => t,
        }
    }
}

/// A quarter of the queries are made twice, the second time drawing in another way.
fn part_way(rng: &mut Rng, n: usize) -> Part {
    if rng.chance(1, 4) {
        Part::pick(rng, n)
    } else {
        NO_PART
    }
}

/// A filtered iteration of slot 1.
pub fn filter_query<W: World>(
    w: &W,
    mut t: Lent<RTree<W::B, W::K, V>>,
    snap: &Snap,
    rng: &mut Rng,
    prop: &str,
) -> Query {
    let f = Table::random(w, rng, prop == "C07");
    let how = rng.below(if t.is_shared() { 2 } else { 4 });
    let most = if rng.chance(1, 6) { rng.below(snap.it.len() + 1) } else { usize::MAX };
    let (way, counted, mut cnt) = (rng.below(WAYS), rng.chance(1, 6), -1);
    let part = part_way(rng, snap.it.len() / 2);
    let mut parts: Vec<Ent> = vec![];
    let mut drawn = Drawn { end: false, hints: vec![] };
    let mut res: Vec<Ent> = vec![];
    let cap = limit(snap, 0);
    let r = guarded(|| {
        macro_rules! run {
            ($it:expr) => {{
                if counted {
                    cnt = $it.count().min(1_000_000) as i64;
                }
                if part != NO_PART {
                    part.draw($it, cap, &mut |(k, v)| {
                        let (kid, ser) = w.id(k);
                        parts.push([kid, ser, v.0]);
                    });
                }
                drawn = draw($it, way, most, cap, |(k, v)| {
                    let (kid, ser) = w.id(k);
                    res.push([kid, ser, v.0]);
                });
            }};
        }
        match how {
            0 => run!(t.get().filter_iter::<W::K, _>(OnKey(&f))),
            1 => run!(t.get().filter_iter::<W::Q, _>(OnBorrowed(&f))),
            2 => run!(t.get_mut().filter_iter_mut::<W::K, _>(OnKey(&f))),
            _ => run!(t.get_mut().filter_iter_mut::<W::Q, _>(OnBorrowed(&f))),
        }
    });
    if !matches!(r, Guarded::Ok(())) {
        return Query::panic();
    }
    let Drawn { end, hints } = drawn;
    let log = f.log.borrow();
    let tb = dedup(log.iter().filter_map(|a| if let Asked::B(b) = a { Some(b.clone()) } else { None }));
    let tk = dedup(log.iter().filter_map(|a| if let Asked::K(k, s) = a { Some((*k, *s)) } else { None }));
    let acc: Vec<IBox> = dedup(snap.root.bounds().into_iter().chain(tb.iter().cloned()))
        .into_iter()
        .filter(|b| f.accepts(b))
        .collect();
    // what the specification says, roughly, to find what is worth a look
    let conservative = snap.root.bounds().iter().all(|b| {
        acc.contains(b)
            || !w.u().kboxes.iter().enumerate().any(|(i, k)| f.mk[i] && contains(b, k))
    });
    let want: Vec<Ent> = snap.it.iter().filter(|e| f.matches(e[0])).cloned().collect();
    let mut ns = vec![];
    reach(&snap.root, &|b| acc.contains(b), &mut ns);
    let inside: Vec<Ent> = ns.iter().flat_map(|n| n.e.iter().cloned()).collect();
    let mut shown: Vec<IBox> = vec![snap.root.b.clone()];
    shown.extend(ns.iter().flat_map(|n| n.c.iter().map(|c| c.b.clone())));
    let suspicious = if prop == "C07" {
        dedup(res.iter().cloned()).len() != res.len()
            || !set(&res).is_subset(&set(&want))
            || (end && conservative && !same_set(&res, &want))
            || (conservative && part != NO_PART && !part.ok(&parts, &want))
            || !hints_ok(&hints, res.len(), end)
            || (end && cnt >= 0 && cnt != res.len() as i64)
    } else {
        let names = names(inside.iter());
        !tk.iter().all(|k| names.contains(k))
            || !set(&res).is_subset(&set(&inside))
            || (!snap.it.is_empty() && !set(&tb).is_subset(&set(&shown)))
    };
    let class = format!(
        "filter{how} h{} acc{} res{} end{end} {} {}",
        snap.root.l,
        (acc.len() * 3).checked_div(snap.root.bounds().len()).unwrap_or(0),
        res.len().min(2),
        match f.mode {
            Mode::Wide => 'w',
            Mode::Salted(..) => 's',
            Mode::Wild(..) => 'r',
            Mode::Always => 'a',
            Mode::Never => 'n',
        },
        if way > 3 { "whole" } else { "" }
    );
    if brief() && !suspicious {
        return Query { fields: String::new(), suspicious, class };
    }
    let fields = format!(
        "\"op\":\"filter\",\"s\":1,\"how\":{how},\"acc\":{},\"mk\":{:?},\"tb\":{},\"tk\":{},\"res\":{:?},\"part\":{},\"end\":{end},\"cnt\":{cnt},\"hints\":{}",
        boxes_json(&acc),
        kids(&f.mk),
        boxes_json(&tb),
        pairs(&tk),
        res,
        part.json(&format!("{parts:?}")),
        hints_json(&hints)
    );
    Query { fields, suspicious, class }
}

/// A ranked iteration of slot 1.
pub fn rank_query<W: World>(
    w: &W,
    mut t: Lent<RTree<W::B, W::K, V>>,
    snap: &Snap,
    rng: &mut Rng,
    prop: &str,
) -> Query {
    let how = if t.is_shared() { 2 * rng.below(4) } else { rng.below(8) };
    let filtering = how >= 4;
    let rk = Ranks::random(w, rng, filtering);
    let minby = how % 4 >= 2;
    let most = if minby {
        1
    } else if rng.chance(1, 3) {
        rng.below(snap.it.len() + 1)
    } else {
        usize::MAX
    };
    let cap = limit(snap, 0);
    let mut end = false;
    // collecting hands out the entries only after all of them have been ranked
    let way = *rng.pick(&[0, 0, 1, 2, 3, 4, 6, 7]);
    let (counted, mut cnt, mut hints) = (rng.chance(1, 6), -1, vec![]);
    let part = if minby { NO_PART } else { part_way(rng, snap.it.len()) };
    let mut parts: Vec<Ent> = vec![];
    let r = guarded(|| {
        macro_rules! run {
            ($it:expr) => {{
                if counted {
                    cnt = $it.count().min(1_000_000) as i64;
                    rk.log.borrow_mut().clear();
                }
                if part != NO_PART {
                    part.draw($it, cap, &mut |(k, v)| {
                        let (kid, ser) = w.id(k);
                        parts.push([kid, ser, v.0]);
                    });
                    rk.log.borrow_mut().clear();
                }
                let d = draw($it, way, most, cap, |(k, v)| {
                    let (kid, ser) = w.id(k);
                    rk.log.borrow_mut().push(Asked::Y([kid, ser, v.0]));
                });
                end = d.end;
                hints = d.hints;
            }};
        }
        macro_rules! least {
            ($x:expr) => {
                match $x {
                    Some((k, v)) => {
                        let (kid, ser) = w.id(k);
                        let v = v.0;
                        rk.log.borrow_mut().push(Asked::Y([kid, ser, v]));
                    }
                    None => end = true,
                }
            };
        }
        match how {
            0 => run!(t.get().iter_asc_by(Total(&rk))),
            1 => run!(t.get_mut().iter_asc_by_mut(Total(&rk))),
            2 => least!(t.get().min_by(Total(&rk))),
            3 => least!(t.get_mut().min_by_mut(Total(&rk))),
            4 => run!(t.get().filter_iter_asc_by(Partial(&rk))),
            5 => run!(t.get_mut().filter_iter_asc_by_mut(Partial(&rk))),
            6 => least!(t.get().filter_min_by(Partial(&rk))),
            _ => least!(t.get_mut().filter_min_by_mut(Partial(&rk))),
        }
    });
    if !matches!(r, Guarded::Ok(())) {
        return Query::panic();
    }
    let log = rk.log.borrow();
    let asked = log.iter().filter_map(|a| if let Asked::B(b) = a { Some(b.clone()) } else { None });
    let all = dedup(snap.root.bounds().into_iter().chain(asked));
    // Metrics are shown shifted by 100, so that the slack below zero stays apart from None.
    let show = |m: Option<i32>| m.map_or(-1, |x| x + 100);
    let total = |m: Option<i32>| if filtering { m } else { Some(m.unwrap_or(FAR)) };
    let ys: Vec<Ent> = log.iter().filter_map(|a| if let Asked::Y(e) = a { Some(*e) } else { None }).collect();
    let cand: Vec<Ent> = snap.it.iter().filter(|e| total(rk.metric(e[0])).is_some()).cloned().collect();
    let suspicious = if prop == "C09" {
        let m: Vec<Option<i32>> = ys.iter().map(|e| rk.metric(e[0])).collect();
        let (most, yset, cset) = (m.iter().max().cloned().flatten(), set(&ys), set(&cand));
        dedup(ys.iter().cloned()).len() != ys.len()
            || !yset.is_subset(&cset)
            || m.windows(2).any(|p| p[0] > p[1])
            || cand.iter().any(|e| !yset.contains(e) && (end || most > rk.metric(e[0])))
            || (minby && ys.len() != cand.len().min(1))
            || !hints_ok(&hints, ys.len(), end)
            || (end && cnt >= 0 && cnt != ys.len() as i64)
            || (part != NO_PART && {
                let mut all: Vec<i32> = cand.iter().map(|e| total(rk.metric(e[0])).unwrap_or(FAR)).collect();
                all.sort();
                let want: Vec<i32> = part.seen(all.len()).iter().map(|i| all[i - 1]).collect();
                let got: Vec<i32> = parts.iter().map(|e| total(rk.metric(e[0])).unwrap_or(FAR)).collect();
                !part.ok(&parts, &cand) || want != got
            })
    } else {
        // the metric of a yielded entry from which a key or a group may have been asked about
        let mut keys: HashMap<(i32, i32), i64> = HashMap::new();
        let mut groups: HashMap<&IBox, i64> = HashMap::new();
        fn low<T: Eq + std::hash::Hash>(m: &mut HashMap<T, i64>, k: T, x: i64) {
            let v = m.entry(k).or_insert(x);
            *v = x.min(*v);
        }
        let mut todo = vec![(&snap.root, i64::MIN)];
        low(&mut groups, &snap.root.b, i64::MIN);
        while let Some((n, from)) = todo.pop() {
            let Some(own) = total(rk.bound(&n.b)) else { continue };
            let from = from.max(own as i64);
            n.e.iter().for_each(|e| {
                low(&mut keys, (e[0], e[1]), from);
                low(&mut keys, (e[0], -1), from);
            });
            for c in &n.c {
                low(&mut groups, &c.b, from);
                todo.push((c, from));
            }
        }
        let mut next = i64::MAX - 1;
        log.iter().rev().any(|a| match a {
            Asked::B(b) => !snap.it.is_empty() && groups.get(b).is_none_or(|x| *x > next),
            Asked::K(k, s) => keys.get(&(*k, *s)).is_none_or(|x| *x > next),
            Asked::Y(e) => {
                next = next.min(total(rk.metric(e[0])).map_or(i64::MAX - 1, |x| x as i64));
                false
            }
        })
    };
    let class = format!(
        "rank{how} h{} n{} end{end} slack{}",
        snap.root.l,
        ys.len().min(3),
        rk.slack.1
    );
    if brief() && !suspicious {
        return Query { fields: String::new(), suspicious, class };
    }
    let mut calls = String::new();
    for a in log.iter() {
        if !calls.is_empty() {
            calls.push(',');
        }
        calls.push_str(&match a {
            Asked::B(b) => format!("[\"b\",{}]", ibox_json(b)),
            Asked::K(k, s) => format!("[\"k\",{k},{s}]"),
            Asked::Y(e) => format!("[\"y\",{},{},{}]", e[0], e[1], e[2]),
        });
    }
    let bm: Vec<String> = all.iter().map(|b| format!("[{},{}]", ibox_json(b), show(total(rk.bound(b))))).collect();
    let mut m: Vec<i32> = rk.m.iter().map(|x| show(total(*x))).collect();
    m.push(show(Some(FAR))); // the alien key
    let fields = format!(
        "\"op\":\"rank\",\"s\":1,\"how\":{how},\"rk\":{:?},\"bm\":[{}],\"calls\":[{calls}],\"part\":{},\"end\":{end},\"minby\":{minby},\"cnt\":{cnt},\"hints\":{}",
        m,
        bm.join(","),
        part.json(&format!("{parts:?}")),
        hints_json(&hints)
    );
    Query { fields, suspicious, class }
}

type Pr = (Ent, Ent);
fn show_pairs(v: &[Pr]) -> String {
    let v: Vec<String> = v.iter().map(|(a, b)| format!("[{a:?},{b:?}]")).collect();
    format!("[{}]", v.join(","))
}
fn join_tables<W: World, X: World>(f: &Pairs<W, X>, a: &Snap, b: &Snap) -> (String, String, String) {
    let mut acc = vec![];
    for p in a.root.bounds() {
        for q in b.root.bounds() {
            if f.accepts(&p, &q) {
                acc.push(format!("[{},{}]", ibox_json(&p), ibox_json(&q)));
            }
        }
    }
    let mut mk = vec![];
    for (i, r) in f.mk.iter().enumerate() {
        for (j, on) in r.iter().enumerate() {
            // Only pairs of keys that are stored matter.
            if *on && a.first(i as i32 + 1).is_some() && b.first(j as i32 + 1).is_some() {
                mk.push((i + 1, j + 1));
            }
        }
    }
    // Keys recorded without the identity of the key object have ser = -1.
    let tk: Vec<String> = dedup(f.log.borrow().iter().cloned())
        .iter()
        .map(|(p, q)| format!("[[{},{}],[{},{}]]", p.0, p.1, q.0, q.1))
        .collect();
    (format!("[{}]", acc.join(",")), pairs(&mk), format!("[{}]", tk.join(",")))
}
/// The leaves that hold a key.
fn leaves(n: &Nd) -> HashMap<(i32, i32), Vec<&Nd>> {
    let mut out: HashMap<(i32, i32), Vec<&Nd>> = HashMap::new();
    n.each(&mut |m| {
        for k in names(m.e.iter()) {
            out.entry(k).or_default().push(m);
        }
    });
    out
}
fn pruned_ok<W: World, X: World>(f: &Pairs<W, X>, a: &Snap, b: &Snap) -> bool {
    let (la, lb) = (leaves(&a.root), leaves(&b.root));
    let log = dedup(f.log.borrow().iter().cloned());
    log.iter().all(|(p, q)| {
        la.get(p).is_some_and(|ls| {
            ls.iter().any(|l| lb.get(q).is_some_and(|rs| rs.iter().any(|r| f.accepts(&l.b, &r.b))))
        })
    })
}

type Tree<W> = RTree<<W as World>::B, <W as World>::K, V>;

pub fn join_query<W: World, X: World>(
    w: &W,
    t: &Tree<W>,
    a: &Snap,
    x: &X,
    u: &Tree<X>,
    b: &Snap,
    slot: usize,
    rng: &mut Rng,
    prop: &str,
) -> Query {
    let conservative = prop == "C11" || rng.chance(1, 2);
    let f = Pairs::random(w, x, rng, conservative);
    let how = rng.below(2);
    let most = if rng.chance(1, 8) { rng.below(a.it.len() + 2) } else { usize::MAX };
    let cap = limit(a, b.it.len());
    let (way, counted, mut cnt) = (rng.below(WAYS), rng.chance(1, 6), -1);
    let part = part_way(rng, a.it.len());
    let mut parts: Vec<Pr> = vec![];
    let mut drawn = Drawn { end: false, hints: vec![] };
    let mut res: Vec<Pr> = vec![];
    let r = guarded(|| {
        macro_rules! run {
            ($it:expr) => {{
                if counted {
                    cnt = $it.count().min(1_000_000) as i64;
                }
                if part != NO_PART {
                    part.draw($it, cap, &mut |(p, q)| {
                        let (i, j) = (w.id(&p.0), x.id(&q.0));
                        parts.push(([i.0, i.1, p.1 .0], [j.0, j.1, q.1 .0]));
                    });
                }
                drawn = draw($it, way, most, cap, |(p, q)| {
                    let (i, j) = (w.id(&p.0), x.id(&q.0));
                    res.push(([i.0, i.1, p.1 .0], [j.0, j.1, q.1 .0]));
                });
            }};
        }
        match how {
            0 => run!(t.join::<_, _, _, W::K, X::K, _>(u, JoinOnKey(&f))),
            _ => run!(t.join::<_, _, _, W::Q, X::Q, _>(u, JoinOnBorrowed(&f))),
        }
    });
    if !matches!(r, Guarded::Ok(())) {
        return Query::panic();
    }
    let Drawn { end, hints } = drawn;
    let mut want = vec![];
    for p in &a.it {
        for q in &b.it {
            if f.matches(p[0], q[0]) {
                want.push((*p, *q));
            }
        }
    }
    let suspicious = if prop == "C08" {
        !pruned_ok(&f, a, b)
    } else {
        dedup(res.iter().cloned()).len() != res.len()
            || !set(&res).is_subset(&set(&want))
            || (end && res.len() != want.len())
            || !hints_ok(&hints, res.len(), end)
            || (end && cnt >= 0 && cnt != res.len() as i64)
            || (part != NO_PART && !part.ok(&parts, &want))
    };
    let class = format!("join{how} t{slot} h{}h{} res{} end{end}", a.root.l, b.root.l, res.len().min(3));
    if brief() && !suspicious {
        return Query { fields: String::new(), suspicious, class };
    }
    let (acc, mk, tk) = join_tables(&f, a, b);
    let fields = format!(
        "\"op\":\"join\",\"s\":1,\"t\":{slot},\"how\":{how},\"acc\":{acc},\"mk\":{mk},\"tk\":{tk},\"res\":{},\"part\":{},\"end\":{end},\"cnt\":{cnt},\"hints\":{}",
        show_pairs(&res),
        part.json(&show_pairs(&parts)),
        hints_json(&hints)
    );
    Query { fields, suspicious, class }
}

/// A left join whose inner iterators are advanced, kept and dropped in random order.
pub fn left_join_query<W: World, X: World>(
    w: &W,
    t: &Tree<W>,
    a: &Snap,
    x: &X,
    u: &Tree<X>,
    b: &Snap,
    slot: usize,
    rng: &mut Rng,
    prop: &str,
) -> Query {
    let conservative = prop == "C12" || rng.chance(1, 2);
    let f = Pairs::random(w, x, rng, conservative);
    let how = rng.below(2);
    let style = rng.below(6);
    let way = rng.below(WAYS);
    let most = if rng.chance(1, 8) { rng.below(a.it.len() + 1) } else { usize::MAX };
    let cap = limit(a, 0);
    let mut end = false;
    let mut order = String::new();
    let part = part_way(rng, a.it.len());
    // the left entries of a second left join, drawn in another way, with the same of their matches
    let mut outer_part: Vec<Ent> = vec![];
    let mut parts: Vec<(Ent, Part, Vec<Ent>)> = vec![];
    // left entry, right entries so far, whether the inner iterator ended
    let mut res: Vec<(Ent, Vec<Ent>, bool)> = vec![];
    let r = guarded(|| {
        macro_rules! run {
            ($it:expr) => {{
                if part != NO_PART {
                    let mut all = vec![];
                    part.draw($it, cap, &mut |x| all.push(x));
                    for ((k, v), inner) in all {
                        let (kid, ser) = w.id(k);
                        let (e, p) = ([kid, ser, v.0], Part::pick(rng, b.it.len() / 2));
                        let mut got = vec![];
                        p.draw(inner, 2 * b.it.len() + 8, &mut |(k, v)| {
                            let (kid, ser) = x.id(k);
                            got.push([kid, ser, v.0]);
                        });
                        outer_part.push(e);
                        parts.push((e, p, got));
                    }
                }
                let mut it = Some($it);
                let mut held = vec![];
                loop {
                    crate::watch::tick();
                    // what to do next
                    let outer = it.is_some()
                        && !end
                        && res.len() < most.min(cap)
                        && match style {
                            0 => held.is_empty(),        // one after the other
                            1 => true,                   // all outer first
                            2 => held.len() < 3 && rng.chance(1, 2),
                            _ => rng.chance(1, 3) || held.is_empty(),
                        };
                    if outer {
                        match one(it.as_mut().unwrap(), way) {
                            Some(((k, v), inner)) => {
                                order.push('o');
                                let (kid, ser) = w.id(k);
                                res.push(([kid, ser, v.0], vec![], false));
                                held.push((res.len() - 1, inner));
                            }
                            None => end = true,
                        }
                        continue;
                    }
                    if it.is_some() && style == 4 && rng.chance(1, 10) {
                        // the outer iterator goes away, its inner iterators stay
                        it = None;
                        order.push('X');
                    }
                    if held.is_empty() {
                        if it.is_none() || end || res.len() >= most.min(cap) {
                            break;
                        }
                        continue;
                    }
                    let i = match style {
                        0 | 1 => 0,
                        5 => held.len() - 1,
                        _ => rng.below(held.len()),
                    };
                    if style >= 2 && rng.chance(1, 12) {
                        order.push('d');
                        drop(held.swap_remove(i));
                        continue;
                    }
                    if style <= 1 && way > 3 {
                        // the rest of it in one go
                        let (at, inner) = held.swap_remove(i);
                        order.push('f');
                        let got = &mut res[at].1;
                        let cap = 2 * b.it.len() + 8;
                        let d = draw(inner, way, usize::MAX, cap, |(k, v)| {
                            let (kid, ser) = x.id(k);
                            got.push([kid, ser, v.0]);
                        });
                        res[at].2 = d.end;
                        continue;
                    }
                    let steps = if style <= 1 { usize::MAX } else { 1 + rng.below(3) };
                    let mut done = false;
                    let (at, inner) = &mut held[i];
                    for _ in 0..steps {
                        order.push('i');
                        match one(inner, way) {
                            Some((k, v)) => {
                                let (kid, ser) = x.id(k);
                                res[*at].1.push([kid, ser, v.0]);
                                if res[*at].1.len() > 2 * b.it.len() + 8 {
                                    done = true;
                                    break;
                                }
                            }
                            None => {
                                res[*at].2 = true;
                                done = true;
                                break;
                            }
                        }
                    }
                    if done {
                        let h = held.swap_remove(i);
                        drop(h);
                    }
                }
            }};
        }
        match how {
            0 => run!(t.left_join::<_, _, _, W::K, X::K, _>(u, JoinOnKey(&f))),
            _ => run!(t.left_join::<_, _, _, W::Q, X::Q, _>(u, JoinOnBorrowed(&f))),
        }
    });
    if !matches!(r, Guarded::Ok(())) {
        return Query::panic();
    }
    let want = |e: &Ent| -> Vec<Ent> { b.it.iter().filter(|q| f.matches(e[0], q[0])).cloned().collect() };
    let suspicious = if prop == "C08" {
        !pruned_ok(&f, a, b)
    } else {
        let lefts: Vec<Ent> = res.iter().map(|r| r.0).collect();
        dedup(lefts.iter().cloned()).len() != lefts.len()
            || !set(&lefts).is_subset(&set(&a.it))
            || (end && lefts.len() != a.it.len())
            || res.iter().any(|(e, got, done)| {
                let w = want(e);
                dedup(got.iter().cloned()).len() != got.len()
                    || !set(got).is_subset(&set(&w))
                    || (*done && got.len() != w.len())
            })
            || (part != NO_PART
                && (!part.ok(&outer_part, &a.it) || parts.iter().any(|(e, p, got)| !p.ok(got, &want(e)))))
    };
    let class = format!(
        "left_join{how} t{slot} style{style} h{}h{} res{} end{end}",
        a.root.l,
        b.root.l,
        res.iter().map(|r| r.1.len()).sum::<usize>().min(3)
    );
    if brief() && !suspicious {
        return Query { fields: String::new(), suspicious, class };
    }
    let (acc, mk, tk) = join_tables(&f, a, b);
    let inner: Vec<String> = parts.iter().map(|(e, p, g)| format!("[{e:?},{}]", p.json(&format!("{g:?}")))).collect();
    let rs: Vec<String> = res.iter().map(|(e, g, d)| format!("[{e:?},{g:?},{d}]")).collect();
    let fields = format!(
        "\"op\":\"left_join\",\"s\":1,\"t\":{slot},\"how\":{how},\"order\":\"{}\",\"acc\":{acc},\"mk\":{mk},\"tk\":{tk},\"res\":[{}],\"part\":{},\"inner\":[{}],\"end\":{end}",
        &order[..order.len().min(200)],
        rs.join(","),
        part.json(&format!("{outer_part:?}")),
        inner.join(",")
    );
    Query { fields, suspicious, class }
}

// ---------------------------------------------------------------------------------------------

struct One<'a> {
    prop: &'a str,
    rng: Rng,
    sink: &'a mut Sink,
    id: String,
    queries: usize,
    /// Large trees; only what looks suspicious is kept.
    huge: bool,
}
struct First<'a>(One<'a>);
struct Two<'a, W: World> {
    one: One<'a>,
    w: &'a W,
    t: &'a mut Tree<W>,
    snap: Snap,
    cfg: (usize, usize),
}
pub fn sizes(rng: &mut Rng, joins: bool) -> (usize, usize) {
    // entries, keys
    let n = match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=6 => 3 + rng.below(6),
        7..=9 => 8 + rng.below(14),
        10 => 20 + rng.below(if joins { 12 } else { 30 }),
        _ => 12 + rng.below(10),
    };
    (n, (n * (2 + rng.below(6)) / 4).max(3))
}
pub fn slot<W: World>(w: &W, cfg: (usize, usize)) -> (String, (usize, usize), bool) {
    (w.keys_json(), cfg, w.tight())
}

impl One<'_> {
    /// The tree to query; None if the library panicked, which is recorded.
    fn built<W: World>(&mut self, w: &W, joins: bool) -> Option<(Tree<W>, Snap, (usize, usize))> {
        let (mut n, _) = sizes(&mut self.rng, joins);
        let mut cfg = crate::tree::config(&mut self.rng);
        if self.huge {
            cfg = crate::tree::huge_config(&mut self.rng);
            n = crate::tree::huge_size(&mut self.rng, cfg) / if joins { 3 } else { 1 };
        }
        self.id = format!("{}/{}/{}-{}", self.id, w.name(), cfg.0, cfg.1);
        let id = &self.id;
        crate::watch::note(|| id.clone());
        match forest(w, &mut self.rng, cfg, n) {
            Some((t, s)) => Some((t, s, cfg)),
            None => {
                let mut r = Rec::new(self.id.clone(), &[slot(w, cfg)], vec![]);
                r.event(Query::panic().fields, None);
                self.sink.put("panic".into(), true, r);
                None
            }
        }
    }
}
impl WithWorld for One<'_> {
    type Out = ();
    fn run<W: World>(mut self, w: W) {
        let (mut t, snap, cfg) = match self.built(&w, false) {
            Some(x) => x,
            None => return,
        };
        let id = self.id.clone();
        let mut by_class: Vec<(String, bool, Rec)> = vec![];
        BRIEF.with(|b| b.set(self.huge));
        for i in 0..self.queries {
            crate::watch::tick();
            let q = match self.prop {
                "C07" | "C08" => filter_query(&w, Lent::Only(&mut t), &snap, &mut self.rng, self.prop),
                _ => rank_query(&w, Lent::Only(&mut t), &snap, &mut self.rng, self.prop),
            };
            if self.huge && !q.suspicious {
                self.sink.note(&format!("huge {}", q.class));
                self.sink.cases += 1;
                self.sink.steps += 1;
                continue;
            }
            put(&mut by_class, q, || {
                let mut r = Rec::new(format!("{id}/{i}"), &[slot(&w, cfg)], vec![]);
                r.alt = true;
                r.init(&[(1, &snap)]);
                r
            });
        }
        for (c, s, r) in by_class {
            self.sink.put(c, s, r);
        }
    }
}
impl WithWorld for First<'_> {
    type Out = ();
    fn run<W: World>(self, w: W) {
        let mut one = self.0;
        let (mut t, snap, cfg) = match one.built(&w, true) {
            Some(x) => x,
            None => return,
        };
        let (_, mut k) = sizes(&mut one.rng, true);
        if one.huge {
            k = 20 + one.rng.below(80);
        }
        let mut rng = one.rng.fork();
        let which = rng.below(SECOND_WORLDS);
        let two = Two { one, w: &w, t: &mut t, snap, cfg };
        second_world(which, &mut rng, k, two);
    }
}
/// Queries of one case go into few histories: the suspicious ones alone, the others together.
fn put(v: &mut Vec<(String, bool, Rec)>, q: Query, new: impl Fn() -> Rec) {
    if q.suspicious || v.is_empty() || v[v.len() - 1].1 || v[v.len() - 1].2.steps() >= 3 {
        v.push((q.class, q.suspicious, new()));
    }
    let n = v.len() - 1;
    v[n].2.event(q.fields, None);
}
impl<V: World> WithWorld for Two<'_, V> {
    type Out = ();
    fn run<X: World>(self, x: X) {
        let mut rng = self.one.rng;
        let mut cfg = crate::tree::config(&mut rng);
        let (mut m, _) = sizes(&mut rng, true);
        let huge = self.one.huge;
        if huge && rng.chance(3, 4) {
            cfg = crate::tree::huge_config(&mut rng);
            m = crate::tree::huge_size(&mut rng, cfg) / 3;
        }
        let id = format!("{}+{}/{}-{}", self.one.id, x.name(), cfg.0, cfg.1);
        crate::watch::note(|| id.clone());
        let slots = [slot(self.w, self.cfg), slot(&x, cfg)];
        let (u, snap2) = match forest(&x, &mut rng, cfg, m) {
            Some(x) => x,
            None => {
                let mut r = Rec::new(id, &slots, vec![]);
                r.event(Query::panic().fields, None);
                self.one.sink.put("panic".into(), true, r);
                return;
            }
        };
        let mut by_class = vec![];
        BRIEF.with(|b| b.set(huge));
        for i in 0..self.one.queries {
            crate::watch::tick();
            let left = match self.one.prop {
                "C11" => false,
                "C12" => true,
                _ => rng.chance(1, 2),
            };
            let (p, s1) = (self.one.prop, &self.snap);
            let q = if rng.chance(1, 8) {
                // a tree with itself
                let (w, t) = (self.w, &*self.t);
                if left {
                    left_join_query(w, t, s1, w, t, s1, 1, &mut rng, p)
                } else {
                    join_query(w, t, s1, w, t, s1, 1, &mut rng, p)
                }
            } else if left {
                left_join_query(self.w, self.t, s1, &x, &u, &snap2, 2, &mut rng, p)
            } else {
                join_query(self.w, self.t, s1, &x, &u, &snap2, 2, &mut rng, p)
            };
            if huge && !q.suspicious {
                self.one.sink.note(&format!("huge {}", q.class));
                self.one.sink.cases += 1;
                self.one.sink.steps += 1;
                continue;
            }
            put(&mut by_class, q, || {
                let mut r = Rec::new(format!("{id}/{i}"), &slots, vec![]);
                r.alt = true;
                r.init(&[(1, &self.snap), (2, &snap2)]);
                r
            });
        }
        for (c, s, r) in by_class {
            self.one.sink.put(c, s, r);
        }
    }
}

/// Runs filtered and ranked queries until the time is over.
pub fn drive(prop: &str, seed: u64, sink: &mut Sink, cases: usize, until: std::time::Instant) {
    let mut rng = Rng::new(seed);
    for i in 0..cases {
        if std::time::Instant::now() > until || sink.suspects() >= 6 {
            break;
        }
        let which = if rng.chance(1, 2) { rng.below(3) } else { rng.below(WORLDS) };
        let (_, mut k) = sizes(&mut rng, false);
        let huge = i % 16 == 9;
        if huge {
            k = 20 + rng.below(150);
        }
        let one = One { prop, rng: rng.fork(), sink, id: format!("q{seed}.{i}"), queries: if huge { 4 } else { 9 }, huge };
        with_world(which, &mut rng.fork(), k, one);
    }
}
/// Runs joins until the time is over.
pub fn drive_joins(prop: &str, seed: u64, sink: &mut Sink, cases: usize, until: std::time::Instant) {
    let mut rng = Rng::new(seed ^ 0x10);
    for i in 0..cases {
        if std::time::Instant::now() > until || sink.suspects() >= 6 {
            break;
        }
        let which = rng.below(FIRST_WORLDS);
        let (_, mut k) = sizes(&mut rng, true);
        let huge = i % 16 == 9;
        if huge {
            k = 20 + rng.below(80);
        }
        let one = One { prop, rng: rng.fork(), sink, id: format!("j{seed}.{i}"), queries: if huge { 3 } else { 6 }, huge };
        first_world(which, &mut rng.fork(), k, First(one));
    }
}
