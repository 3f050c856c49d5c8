//! The driver of histories of operations on trees (C01..C06, C13, C15).

use crate::queries::{OnBorrowed, OnKey, Partial, Ranks, Table, Total};
use crate::record::{opt_json, snap, Ent, Rec, Sink, Snap, V};
use crate::rng::Rng;
use crate::worlds::{contains, ibox_json, with_world, IBox, WithWorld, World, WORLDS};
use rusty_rtree::{RTree, RTreeConfig};
use std::borrow::Borrow;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Tree<W> = RTree<<W as World>::B, <W as World>::K, V>;

pub enum Guarded<T> {
    Ok(T),
    Panicked,
}
/// Runs code under test; a panic is an observation.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Guarded<T> {
    use std::sync::atomic::Ordering::Relaxed;
    crate::watch::GUARDED.fetch_add(1, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::watch::GUARDED.fetch_sub(1, Relaxed);
    match r {
        Ok(x) => Guarded::Ok(x),
        Err(_) => Guarded::Panicked,
    }
}

/// How often the keys and values of a tree and of its clone have been cloned.
pub fn generations<W: World>(w: &W, t: &Tree<W>, c: &Tree<W>) -> Vec<[u32; 2]> {
    let mut out = vec![];
    for ((k, v), (l, u)) in t.iter().zip(c.iter()).take(10_000) {
        out.push([v.1, u.1]);
        if let (Some(a), Some(b)) = (w.gen(k), w.gen(l)) {
            out.push([a, b]);
        }
    }
    out.sort();
    out.dedup();
    out
}

pub fn config(rng: &mut Rng) -> (usize, usize) {
    *rng.pick(&[
        (2, 1),
        (2, 1),
        (2, 0),
        (2, 2),
        (3, 1),
        (3, 2),
        (3, 2),
        (3, 0),
        (4, 1),
        (4, 2),
        (4, 2),
        (4, 3),
        (4, 4),
        (4, 9),
        (5, 2),
        (5, 3),
        (6, 3),
        (7, 4),
        (8, 4),
        (8, 3),
        (10, 1),
    ])
}
pub fn big_config(rng: &mut Rng) -> (usize, usize) {
    *rng.pick(&[(16, 8), (16, 2), (12, 6), (64, 32), (64, 4), (33, 17), (100, 40)])
}
/// For trees that are only screened.
pub fn huge_config(rng: &mut Rng) -> (usize, usize) {
    *rng.pick(&[
        (2, 1), (3, 1), (4, 2), (8, 3), (32, 4), (64, 32), (100, 40), (127, 3), (128, 64), (129, 2), (200, 20),
        (255, 100), (256, 128), (257, 129), (300, 60), (600, 5),
    ])
}
pub fn huge_size(rng: &mut Rng, cfg: (usize, usize)) -> usize {
    100 + rng.below(if cfg.0 > 100 { 3 * cfg.0 } else { 400 })
}
fn make<W: World>(cfg: (usize, usize)) -> Tree<W> {
    RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 })
}

/// A tree of about `n` entries made by a random history. None if the library panicked.
pub fn forest<W: World>(w: &W, rng: &mut Rng, cfg: (usize, usize), n: usize) -> Option<(Tree<W>, Snap)> {
    let mut t = make::<W>(cfg);
    let mut stored: Vec<usize> = vec![];
    let style = rng.below(4);
    let r = guarded(|| {
        let mut id = 0;
        let mut add = |t: &mut Tree<W>, stored: &mut Vec<usize>, rng: &mut Rng| {
            id += 1;
            let kid = 1 + rng.below(w.nkeys());
            let ser = if w.has_ser() { id } else { 0 };
            if style == 3 {
                if t.insert_unique(w.key(kid, ser), V::new(id)).is_none() {
                    stored.push(kid);
                }
            } else {
                t.insert(w.key(kid, ser), V::new(id));
                stored.push(kid);
            }
        };
        let sub = |t: &mut Tree<W>, stored: &mut Vec<usize>, rng: &mut Rng| {
            if !stored.is_empty() {
                let kid = stored.swap_remove(rng.below(stored.len()));
                t.remove::<W::K>(&w.key(kid, 0));
            }
        };
        let extra = if style >= 1 { rng.below(n + 3) } else { 0 };
        for _ in 0..n + extra {
            add(&mut t, &mut stored, rng);
            if style == 2 && rng.chance(1, 3) {
                sub(&mut t, &mut stored, rng);
            }
        }
        let mut tries = 0;
        while stored.len() > n && tries < 1000 {
            sub(&mut t, &mut stored, rng);
            tries += 1;
        }
        snap(w, &t)
    });
    match r {
        Guarded::Ok(s) => Some((t, s)),
        Guarded::Panicked => {
            std::mem::forget(t);
            None
        }
    }
}

// ---------------------------------------------------------------------------------------------
// What the specification says, roughly: to find the steps that are worth a look by the model
// checker. It decides nothing.

fn sorted(v: &[Ent]) -> Vec<Ent> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn holds(s: &Snap, want: &[Ent]) -> bool {
    sorted(&s.it) == sorted(want)
}
fn entries(s: &Snap) -> Vec<Ent> {
    let mut v = vec![];
    s.root.each(&mut |n| v.extend(n.e.iter().cloned()));
    v
}
fn mapped(s: &Snap, f: &HashMap<Ent, Ent>) -> Snap {
    fn go(n: &mut crate::record::Nd, f: &HashMap<Ent, Ent>) {
        for e in n.e.iter_mut() {
            if let Some(x) = f.get(e) {
                *e = *x;
            }
        }
        n.c.iter_mut().for_each(|c| go(c, f));
    }
    let mut s = s.clone();
    go(&mut s.root, f);
    for e in s.it.iter_mut() {
        if let Some(x) = f.get(e) {
            *e = *x;
        }
    }
    s
}
fn structure_ok<W: World>(w: &W, s: &Snap, cfg: (usize, usize)) -> (bool, bool) {
    let (mut bounds, mut sizes) = (true, true);
    let least = if 2 * cfg.1 <= cfg.0 + 1 { cfg.1.max(1) } else { 1 };
    s.root.each(&mut |n| {
        let boxes: Vec<&IBox> = if n.l == 0 {
            n.e.iter().map(|e| &w.u().kboxes[(e[0] as usize - 1).min(w.nkeys() - 1)]).collect()
        } else {
            n.c.iter().map(|c| &c.b).collect()
        };
        bounds &= boxes.iter().all(|b| contains(&n.b, b));
        if w.tight() && !boxes.is_empty() {
            bounds &= (0..n.b.0.len()).all(|i| {
                boxes.iter().map(|b| b.0[i]).min() == Some(n.b.0[i])
                    && boxes.iter().map(|b| b.1[i]).max() == Some(n.b.1[i])
            });
        }
        let k = n.c.len() + n.e.len();
        let root = std::ptr::eq(n, &s.root);
        sizes &= k <= cfg.0 && (root || k >= least) && (!root || n.l == 0 || k >= 2);
        sizes &= n.c.iter().all(|c| c.l == n.l - 1);
    });
    if s.it.is_empty() {
        bounds &= (0..s.root.b.0.len()).any(|i| s.root.b.0[i] > s.root.b.1[i]);
    }
    (bounds, sizes)
}

// ---------------------------------------------------------------------------------------------

pub const SLOTS: usize = 3;

pub struct Hist<'a, W: World> {
    pub w: &'a W,
    pub prop: &'a str,
    pub cfg: (usize, usize),
    pub t: Vec<Option<Tree<W>>>,
    pub s: Vec<Option<Snap>>,
    pub id: String,
    next: i32,
    /// the window being recorded
    rec: Option<Rec>,
    window: usize,
    feats: Vec<String>,
    nwin: usize,
    /// Only what looks suspicious is kept.
    screened: bool,
}

pub struct Step {
    pub fields: String,
    pub bad: bool,
    pub feature: String,
}

impl<'a, W: World> Hist<'a, W> {
    pub fn new(w: &'a W, prop: &'a str, cfg: (usize, usize), id: String, window: usize) -> Self {
        Hist {
            w,
            prop,
            cfg,
            t: (0..SLOTS).map(|_| None).collect(),
            s: vec![None; SLOTS],
            id,
            next: 0,
            rec: None,
            window,
            feats: vec![],
            nwin: 0,
            screened: false,
        }
    }
    pub fn fresh(&mut self) -> i32 {
        self.next += 1;
        self.next
    }
    pub fn ser(&mut self) -> i32 {
        if self.w.has_ser() {
            self.fresh()
        } else {
            0
        }
    }
    pub fn new_rec(&self) -> Rec {
        let slot = (self.w.keys_json(), self.cfg, self.w.tight());
        let mut r = Rec::new(
            format!("{}#{}", self.id, self.nwin),
            &vec![slot; SLOTS],
            (2..=SLOTS).collect(),
        );
        let init: Vec<(usize, &Snap)> =
            (0..SLOTS).filter_map(|i| self.s[i].as_ref().map(|s| (i + 1, s))).collect();
        r.init(&init);
        r
    }
    /// The state after a step.
    pub fn observe(&self) -> Option<Vec<Option<Snap>>> {
        let w = self.w;
        match guarded(|| self.t.iter().map(|t| t.as_ref().map(|t| snap(w, t))).collect::<Vec<_>>()) {
            Guarded::Ok(s) => Some(s),
            Guarded::Panicked => None,
        }
    }
    pub fn start(&mut self) -> bool {
        self.t[0] = Some(make::<W>(self.cfg));
        match self.observe() {
            Some(s) => {
                self.s = s;
                true
            }
            None => false,
        }
    }

    /// Takes down a step that led from `self.s` to `post`.
    pub fn take(&mut self, st: Step, post: Option<Vec<Option<Snap>>>, sink: &mut Sink) -> bool {
        let post = match post {
            Some(p) => p,
            None => {
                self.lost(sink);
                return false;
            }
        };
        let mut bad = st.bad;
        for p in post.iter().flatten() {
            match self.prop {
                "C05" => bad |= !structure_ok(self.w, p, self.cfg).0,
                "C06" => bad |= !structure_ok(self.w, p, self.cfg).1,
                "C01" => {
                    bad |= sorted(&entries(p)) != sorted(&p.it)
                        || p.len != p.it.len() as i64
                        || p.cnt != p.len
                        || p.hint.0 > p.len
                        || (p.hint.1 >= 0 && p.hint.1 < p.len)
                        || p.emp != p.it.is_empty()
                        || p.part.0.as_ref().is_some_and(|x| !x.1)
                }
                _ => {}
            }
        }
        let after: Vec<(usize, &Snap)> =
            (0..SLOTS).filter_map(|i| post[i].as_ref().map(|s| (i + 1, s))).collect();
        let mut st = st;
        if self.prop == "C01" {
            let parts: Vec<String> = after
                .iter()
                .filter_map(|(i, s)| s.part.0.as_ref().map(|x| format!("[{i},{}]", x.0)))
                .collect();
            st.fields += &format!(",\"parts\":[{}]", parts.join(","));
        }
        if bad {
            let mut r = self.new_rec();
            r.event(st.fields.clone(), Some(&after));
            sink.put("suspicious".into(), true, r);
        }
        if self.screened {
            self.nwin += 1;
            sink.cases += 1;
            sink.steps += 1;
            sink.note(&format!("huge {}", st.feature));
            self.s = post;
            return true;
        }
        if self.rec.is_none() {
            self.rec = Some(self.new_rec());
        }
        let r = self.rec.as_mut().unwrap();
        r.event(st.fields, Some(&after));
        let full = r.steps() >= self.window || r.cost > 900;
        let hs = |s: &Vec<Option<Snap>>| s[0].as_ref().map_or((0, 0, 0), |s| {
            let mut n = 0;
            s.root.each(&mut |_| n += 1);
            (s.root.l, n, s.it.len())
        });
        let (h0, n0, _) = hs(&self.s);
        let (h1, n1, k) = hs(&post);
        self.feats.push(format!(
            "{} h{}{} n{} {}",
            st.feature,
            h1.min(3),
            match h1.cmp(&h0) {
                std::cmp::Ordering::Less => "-",
                std::cmp::Ordering::Equal => "",
                std::cmp::Ordering::Greater => "+",
            },
            (n1 as i64 - n0 as i64).clamp(-3, 3),
            if k == 0 { "empty" } else { "" }
        ));
        self.s = post;
        if full {
            self.flush(sink);
        }
        true
    }
    /// A step on which the library panicked.
    pub fn lost(&mut self, sink: &mut Sink) {
        let mut r = self.new_rec();
        r.event(
            format!("\"op\":\"panic\",\"s\":1,\"what\":\"{}\"", crate::watch::last_panic()),
            None,
        );
        sink.put("panic".into(), true, r);
        self.t.drain(..).for_each(std::mem::forget);
    }
    pub fn flush(&mut self, sink: &mut Sink) {
        self.nwin += 1;
        if let Some(r) = self.rec.take() {
            // the class of a window is its rarest feature
            let f = self.feats.iter().min_by_key(|f| sink.count(f)).cloned().unwrap_or_default();
            for f in &self.feats {
                sink.note(f);
            }
            self.feats.clear();
            sink.put(f, false, r);
        }
    }

    // -- operations ---------------------------------------------------------------------------

    fn tree(&mut self, s: usize) -> &mut Tree<W> {
        self.t[s].as_mut().unwrap()
    }
    fn pre(&self, s: usize) -> &Snap {
        self.s[s].as_ref().unwrap()
    }
    fn dups(&self, s: usize, kid: usize) -> usize {
        self.pre(s).it.iter().filter(|e| e[0] == kid as i32).count()
    }

    pub fn insert(&mut self, s: usize, kid: usize, sink: &mut Sink) -> bool {
        let (ser, v) = (self.ser(), self.fresh());
        let k = self.w.key(kid, ser);
        let d = self.dups(s, kid);
        let t = self.tree(s);
        if let Guarded::Panicked = guarded(|| t.insert(k, V::new(v))) {
            self.lost(sink);
            return false;
        }
        let post = self.observe();
        let e = [kid as i32, ser, v];
        let mut want = self.pre(s).it.clone();
        want.push(e);
        let bad = self.prop == "C01" && post.as_ref().is_some_and(|p| !holds(p[s].as_ref().unwrap(), &want));
        let st = Step {
            fields: format!("\"op\":\"insert\",\"s\":{},\"e\":{e:?}", s + 1),
            bad,
            feature: format!("insert d{}", d.min(2)),
        };
        self.take(st, post, sink)
    }

    pub fn insert_unique(&mut self, s: usize, kid: usize, sink: &mut Sink) -> bool {
        let (ser, v) = (self.ser(), self.fresh());
        let k = self.w.key(kid, ser);
        let t = self.tree(s);
        let res = match guarded(|| t.insert_unique(k, V::new(v)).map(|v| v.0)) {
            Guarded::Ok(r) => r,
            Guarded::Panicked => {
                self.lost(sink);
                return false;
            }
        };
        let post = self.observe();
        let e = [kid as i32, ser, v];
        let pre = self.pre(s);
        let old = pre.first(kid as i32);
        let bad = post.as_ref().is_some_and(|p| {
            let p = p[s].as_ref().unwrap();
            match old {
                None => {
                    let mut want = pre.it.clone();
                    want.push(e);
                    res.is_some() || !holds(p, &want)
                }
                Some(o) => {
                    let f = HashMap::from([(o, [o[0], o[1], v])]);
                    let m = mapped(pre, &f);
                    res != Some(o[2]) || p.it != m.it || p.root != m.root
                }
            }
        });
        let st = Step {
            fields: format!("\"op\":\"insert_unique\",\"s\":{},\"e\":{e:?},\"res\":{}", s + 1, opt_json(res)),
            bad: bad && matches!(self.prop, "C01" | "C03"),
            feature: format!("insert_unique d{}", self.dups(s, kid).min(2)),
        };
        self.take(st, post, sink)
    }

    /// Lookups of the given keys, in various ways.
    fn lookups(&mut self, s: usize, kids: &[usize], rng: &mut Rng) -> Option<Vec<(i32, Option<i32>)>> {
        let w = self.w;
        let t = self.tree(s);
        let mut out = vec![];
        for kid in kids {
            let k = w.key(*kid, -7);
            let how = rng.below(4);
            let g = guarded(|| match how {
                0 => t.get::<W::K>(&k).map(|v| v.0),
                1 => t.get::<W::Q>(k.borrow()).map(|v| v.0),
                2 => t.get_mut::<W::K>(&k).map(|v| v.0),
                _ => t.get_mut::<W::Q>(k.borrow()).map(|v| v.0),
            });
            match g {
                Guarded::Ok(r) => out.push((*kid as i32, r)),
                Guarded::Panicked => return None,
            }
        }
        Some(out)
    }
    fn gets_json(g: &[(i32, Option<i32>)]) -> String {
        let v: Vec<String> = g.iter().map(|(k, r)| format!("[{k},{}]", opt_json(*r))).collect();
        format!("[{}]", v.join(","))
    }
    fn some_kids(&self, s: usize, rng: &mut Rng, most: usize) -> Vec<usize> {
        let mut ks: Vec<usize> = (1..=self.w.nkeys()).collect();
        while ks.len() > most {
            let i = rng.below(ks.len());
            ks.swap_remove(i);
        }
        // those stored matter most
        for _ in 0..most / 2 {
            if !self.pre(s).it.is_empty() {
                let k = rng.pick(&self.pre(s).it)[0] as usize;
                if !ks.contains(&k) && k <= self.w.nkeys() {
                    ks.push(k);
                }
            }
        }
        ks
    }

    pub fn get(&mut self, s: usize, kids: &[usize], rng: &mut Rng, sink: &mut Sink) -> bool {
        let g = match self.lookups(s, kids, rng) {
            Some(g) => g,
            None => {
                self.lost(sink);
                return false;
            }
        };
        let post = self.observe();
        let bad = g.iter().any(|(k, r)| self.pre(s).first(*k).map(|e| e[2]) != *r)
            || post.as_ref().is_some_and(|p| *p != self.s);
        let st = Step {
            fields: format!("\"op\":\"get\",\"s\":{},\"gets\":{}", s + 1, Self::gets_json(&g)),
            bad: bad && self.prop == "C02",
            feature: format!("get len{}", self.pre(s).it.len().min(9) / 3),
        };
        self.take(st, post, sink)
    }

    pub fn remove(&mut self, s: usize, kid: usize, rng: &mut Rng, sink: &mut Sink) -> bool {
        let k = self.w.key(kid, -7);
        let borrowed = rng.chance(1, 2);
        let d = self.dups(s, kid);
        let t = self.tree(s);
        let r = guarded(|| {
            if borrowed {
                t.remove::<W::Q>(k.borrow()).map(|v| v.0)
            } else {
                t.remove::<W::K>(&k).map(|v| v.0)
            }
        });
        let res = match r {
            Guarded::Ok(r) => r,
            Guarded::Panicked => {
                self.lost(sink);
                return false;
            }
        };
        let post = self.observe();
        let mut g = vec![];
        if self.prop == "C04" {
            let mut ks = self.some_kids(s, rng, 10);
            if !ks.contains(&kid) {
                ks.push(kid);
            }
            g = match self.lookups(s, &ks, rng) {
                Some(g) => g,
                None => {
                    self.lost(sink);
                    return false;
                }
            };
        }
        let pre = self.pre(s);
        let old = pre.first(kid as i32);
        let bad = post.as_ref().is_some_and(|p| {
            let p = p[s].as_ref().unwrap();
            g.iter().any(|(k, r)| p.first(*k).map(|e| e[2]) != *r)
                || match old {
                    None => res.is_some() || p != pre,
                    Some(o) => {
                        let want: Vec<Ent> = pre.it.iter().filter(|e| **e != o).cloned().collect();
                        res != Some(o[2]) || !holds(p, &want)
                    }
                }
        });
        let st = Step {
            fields: format!(
                "\"op\":\"remove\",\"s\":{},\"k\":{kid},\"res\":{},\"gets\":{}",
                s + 1,
                opt_json(res),
                Self::gets_json(&g)
            ),
            bad: bad && matches!(self.prop, "C01" | "C04"),
            feature: format!("remove d{}", d.min(2)),
        };
        self.take(st, post, sink)
    }

    /// Writes through one of the mutable accesses.
    pub fn write(&mut self, s: usize, rng: &mut Rng, sink: &mut Sink) -> bool {
        let how = rng.below(14);
        let w = self.w;
        let n = w.nkeys();
        let pre = self.pre(s).clone();
        let p = *rng.pick(&[0, 2, 5, 8]);
        let mk: Vec<bool> = (0..n).map(|_| rng.chance(p, 8)).collect();
        let table = Table::of(w, mk.clone());
        let m: Vec<Option<i32>> = (0..n)
            .map(|i| if how == 11 || how == 12 || how == 9 { mk[i].then(|| rng.below(6) as i32) } else { Some(rng.below(6) as i32) })
            .collect();
        let ranks = Ranks::of(w, m.clone(), (0, 0));
        let everything = Table::of(w, vec![true; n]);
        let one = |m: &Vec<Option<i32>>| {
            let at = |k: i32| m.get(k as usize - 1).cloned().flatten();
            let low = pre.it.iter().filter_map(|e| at(e[0])).min();
            let mut v: Vec<i32> = pre.it.iter().map(|e| e[0]).filter(|k| low.is_some() && at(*k) == low).collect();
            v.sort();
            v.dedup();
            v
        };
        let some = |mk: &Vec<bool>| -> Vec<usize> { (0..n).filter(|i| mk[*i]).map(|i| i + 1).collect() };
        let kid = if !pre.it.is_empty() && rng.chance(3, 4) {
            rng.pick(&pre.it)[0] as usize
        } else {
            1 + rng.below(n)
        };
        let kid = kid.min(n);
        let mut base = self.next;
        let partial = how != 7 && how < 10 && rng.chance(1, 6);
        let most = if partial { rng.below(pre.it.len() + 1) } else { 100_000 };
        let aside = (!partial && how != 7 && (how < 10 || how == 12) && rng.chance(1, 6))
            .then(|| crate::draw::Part::pick(rng, pre.it.len()));
        let reverse = rng.chance(1, 2);
        let way = rng.below(crate::draw::WAYS);
        let t = self.t[s].as_mut().unwrap();
        let r = guarded(|| {
            let mut wr: Vec<(i32, i32, i32, i32)> = vec![];
            let mut distinct = true;
            macro_rules! all {
                ($it:expr) => {{
                    let mut held: Vec<(&W::K, &mut V)> = vec![];
                    let cap = 100_000.max(most);
                    let m = if partial { most } else { usize::MAX };
                    match aside {
                        Some(a) => a.draw($it, cap, &mut |x| held.push(x)),
                        None => {
                            crate::draw::draw($it, way, m, cap, |x| held.push(x));
                        }
                    }
                    // all of them held at once, then read and written
                    let mut at: Vec<usize> = held.iter().map(|h| &*h.1 as *const V as usize).collect();
                    at.sort();
                    at.dedup();
                    distinct = at.len() == held.len();
                    let old: Vec<i32> = held.iter().map(|h| h.1 .0).collect();
                    let idx: Vec<usize> =
                        if reverse { (0..held.len()).rev().collect() } else { (0..held.len()).collect() };
                    for i in idx {
                        base += 1;
                        held[i].1 .0 = base;
                    }
                    for (i, h) in held.iter().enumerate() {
                        let (kid, ser) = w.id(h.0);
                        wr.push((kid, ser, old[i], h.1 .0));
                    }
                }};
            }
            match how {
                0 | 1 => all!(t.iter_mut()),
                2 => all!((&mut *t).into_iter()),
                3 => all!(t.filter_iter_mut::<W::K, _>(OnKey(&everything))),
                4 => all!(t.filter_iter_mut::<W::K, _>(OnKey(&table))),
                5 => all!(t.filter_iter_mut::<W::Q, _>(OnBorrowed(&table))),
                6 => all!(t.iter_asc_by_mut(Total(&ranks))),
                7 | 13 => {
                    let k = w.key(kid, -7);
                    let v = if reverse { t.get_mut::<W::K>(&k) } else { t.get_mut::<W::Q>(k.borrow()) };
                    if let Some(v) = v {
                        base += 1;
                        let old = v.0;
                        v.0 = base;
                        // get_mut does not say which entry it is: the first one
                        let ser = pre.first(kid as i32).map_or(-9, |e| e[1]);
                        wr.push((kid as i32, ser, old, base));
                    }
                }
                8 => all!(t.iter_asc_by_mut(Total(&ranks))),
                9 => all!(t.filter_iter_asc_by_mut(Partial(&ranks))),
                10 => all!(t.min_by_mut(Total(&ranks)).into_iter()),
                11 => all!(t.filter_min_by_mut(Partial(&ranks)).into_iter()),
                _ => all!(t.filter_iter_asc_by_mut(Partial(&ranks))),
            }
            (wr, distinct)
        });
        self.next = base;
        let (wr, distinct) = match r {
            Guarded::Ok(x) => x,
            Guarded::Panicked => {
                self.lost(sink);
                return false;
            }
        };
        let post = self.observe();
        let cov = if partial {
            "[\"some\"]".to_string()
        } else {
            match how {
                0..=3 | 6 | 8 => "[\"all\"]".to_string(),
                4 | 5 | 9 | 12 => format!("[\"kids\",{:?}]", some(&mk)),
                7 | 13 => format!("[\"first\",{kid}]"),
                _ => format!("[\"one\",{:?}]", one(&m)),
            }
        };
        let cov = match aside {
            Some(a) => format!("[\"part\",{},{cov}]", a.json("[]")),
            None => cov,
        };
        let ks = self.some_kids(s, rng, 6);
        let g = match self.lookups(s, &ks, rng) {
            Some(g) => g,
            None => {
                self.lost(sink);
                return false;
            }
        };
        let handed: Vec<Ent> = wr.iter().map(|x| [x.0, x.1, x.2]).collect();
        let f: HashMap<Ent, Ent> = wr.iter().map(|x| ([x.0, x.1, x.2], [x.0, x.1, x.3])).collect();
        let m2 = mapped(&pre, &f);
        let want: Option<usize> = if partial {
            None
        } else {
            Some(match how {
                0..=3 | 6 | 8 => pre.it.len(),
                4 | 5 | 9 | 12 => pre.it.iter().filter(|e| *mk.get(e[0] as usize - 1).unwrap_or(&false)).count(),
                7 | 13 => pre.first(kid as i32).map_or(0, |_| 1),
                _ => one(&m).len().min(1),
            })
        };
        let want = want.map(|n| aside.map_or(n, |a| a.seen(n).len()));
        let bad = post.as_ref().is_some_and(|p| {
            let p = p[s].as_ref().unwrap();
            !distinct
                || f.len() != wr.len()
                || !handed.iter().all(|e| pre.it.contains(e))
                || want.is_some_and(|n| n != wr.len())
                || p.it != m2.it
                || p.root != m2.root
                || g.iter().any(|(k, r)| p.first(*k).map(|e| e[2]) != *r)
        });
        let wrj: Vec<String> = wr.iter().map(|x| format!("[{},{},{},{}]", x.0, x.1, x.2, x.3)).collect();
        let st = Step {
            fields: format!(
                "\"op\":\"write\",\"s\":{},\"how\":{how},\"wr\":[{}],\"cov\":{cov},\"distinct\":{distinct},\"gets\":{}",
                s + 1,
                wrj.join(","),
                Self::gets_json(&g)
            ),
            bad: bad && matches!(self.prop, "C01" | "C13"),
            feature: format!("write{how} {} {}", wr.len().min(3), if aside.is_some() { "aside" } else if partial { "partial" } else { "" }),
        };
        self.take(st, post, sink)
    }

    pub fn clone_to(&mut self, s: usize, to: usize, sink: &mut Sink) -> bool {
        let t = self.t[s].as_ref().unwrap();
        let w = self.w;
        let c = match guarded(|| {
            let c = t.clone();
            let gens = generations(w, t, &c);
            (c, gens)
        }) {
            Guarded::Ok(c) => c,
            Guarded::Panicked => {
                self.lost(sink);
                return false;
            }
        };
        let (c, gens) = c;
        self.t[to] = Some(c);
        let post = self.observe();
        let bad = post.as_ref().is_some_and(|p| p[to] != self.s[s] || p[s] != self.s[s])
            || gens.iter().any(|g| g[0] >= g[1]);
        let st = Step {
            fields: format!("\"op\":\"clone\",\"s\":{},\"to\":{},\"gens\":{gens:?}", s + 1, to + 1),
            bad: bad && matches!(self.prop, "C01" | "C15"),
            feature: format!("clone len{}", self.pre(s).it.len().min(12) / 4),
        };
        self.take(st, post, sink)
    }
    pub fn discard(&mut self, s: usize, sink: &mut Sink) -> bool {
        let t = self.t[s].take();
        if let Guarded::Panicked = guarded(|| drop(t)) {
            self.lost(sink);
            return false;
        }
        let post = self.observe();
        let bad = post.as_ref().is_some_and(|p| (0..SLOTS).any(|i| i != s && p[i] != self.s[i]));
        let st = Step {
            fields: format!("\"op\":\"drop\",\"s\":{}", s + 1),
            bad: bad && self.prop == "C15",
            feature: "drop".into(),
        };
        self.take(st, post, sink)
    }
    /// The same operation on two trees.
    pub fn twin(&mut self, s: usize, t: usize, kid: usize, what: usize, sink: &mut Sink) -> bool {
        let (ser, v) = (self.ser(), self.fresh());
        let w = self.w;
        let mut res = vec![];
        for i in [s, t] {
            let k = w.key(kid, ser);
            let tree = self.tree(i);
            match guarded(|| match what {
                0 => {
                    tree.insert(k, V::new(v));
                    None
                }
                1 => tree.insert_unique(k, V::new(v)).map(|v| v.0),
                _ => tree.remove::<W::K>(&k).map(|v| v.0),
            }) {
                Guarded::Ok(r) => res.push(r),
                Guarded::Panicked => {
                    self.lost(sink);
                    return false;
                }
            }
        }
        let post = self.observe();
        let bad = post.as_ref().is_some_and(|p| self.s[s] == self.s[t] && p[s] != p[t]);
        let st = Step {
            fields: format!(
                "\"op\":\"twin\",\"s\":{},\"t\":{},\"what\":{what},\"k\":{kid},\"res\":[{},{}]",
                s + 1,
                t + 1,
                opt_json(res[0]),
                opt_json(res[1])
            ),
            bad: bad && self.prop == "C15",
            feature: format!("twin{what} same{}", self.s[s] == self.s[t]),
        };
        self.take(st, post, sink)
    }
    /// The bounds that a filter is shown.
    pub fn shown(&mut self, s: usize, ranking: bool, sink: &mut Sink) -> bool {
        let w = self.w;
        let f = Table::of(w, vec![true; w.nkeys()]);
        let f = Table { mode: crate::queries::Mode::Always, ..f };
        let rk = Ranks::of(w, vec![Some(1); w.nkeys()], (0, 0));
        let t = self.tree(s);
        let r = guarded(|| {
            if ranking {
                t.iter_asc_by(Total(&rk)).take(100_000).count();
            } else {
                t.filter_iter::<W::K, _>(OnKey(&f)).take(100_000).count();
            }
        });
        if let Guarded::Panicked = r {
            self.lost(sink);
            return false;
        }
        let log = if ranking { rk.log.into_inner() } else { f.log.into_inner() };
        let mut shown: Vec<IBox> = vec![];
        for a in log {
            if let crate::queries::Asked::B(b) = a {
                if !shown.contains(&b) {
                    shown.push(b);
                }
            }
        }
        let post = self.observe();
        let pre = self.pre(s);
        let all = pre.root.bounds();
        let bad = !pre.it.is_empty() && (shown.len() != all.len() || !shown.iter().all(|b| all.contains(b)));
        let boxes: Vec<String> = shown.iter().map(ibox_json).collect();
        let st = Step {
            fields: format!("\"op\":\"shown\",\"s\":{},\"shown\":[{}]", s + 1, boxes.join(",")),
            bad: bad && self.prop == "C05",
            feature: format!("shown{ranking}"),
        };
        self.take(st, post, sink)
    }
}

// ---------------------------------------------------------------------------------------------

struct Random<'a> {
    prop: &'a str,
    rng: Rng,
    sink: &'a mut Sink,
    id: String,
    big: bool,
    huge: bool,
    until: std::time::Instant,
}
impl WithWorld for Random<'_> {
    type Out = ();
    fn run<W: World>(self, w: W) {
        let Random { prop, mut rng, sink, id, big, huge, until } = self;
        let cfg = if huge { huge_config(&mut rng) } else if big { big_config(&mut rng) } else { config(&mut rng) };
        let id = format!("{id}/{}/{}-{}", w.name(), cfg.0, cfg.1);
        let target = if big { cfg.0 * 2 + rng.below(cfg.0 * 4 + 20) } else { *rng.pick(&[5, 8, 14, 14, 25, 50]) };
        let window = if big { 4 } else { 14 };
        let mut h = Hist::new(&w, prop, cfg, id, window);
        let mut target = target;
        if huge {
            target = huge_size(&mut rng, cfg);
            match forest(&w, &mut rng, cfg, target) {
                Some((t, s)) => {
                    h.next = s.it.iter().map(|e| e[1].max(e[2])).max().unwrap_or(0);
                    h.t[0] = Some(t);
                    h.s[0] = Some(s);
                    h.screened = true;
                }
                None => {
                    h.lost(sink);
                    return;
                }
            }
        } else if !h.start() {
            h.lost(sink);
            return;
        }
        let phases = if huge { 1 + rng.below(3) } else { 2 + rng.below(4) };
        for _ in 0..phases {
            // chance out of 16 of an insertion; the others are removals
            let kind = rng.below(6);
            let (ins, steps) = match kind {
                0 | 1 => (14, target + rng.below(target + 1)),
                2 => (8, target + rng.below(target + 1)),
                3 => (3, target + rng.below(target)),
                4 => (0, 2 * target),
                _ => (11, target),
            };
            let steps = if huge { 20 + rng.below(20) } else { steps };
            // sometimes only a few keys are used
            let focus = if rng.chance(1, 4) { 1 + rng.below(3) } else { w.nkeys() };
            let off = rng.below(w.nkeys());
            let unique = prop == "C03" && rng.chance(2, 3) || rng.chance(1, 6);
            for _ in 0..steps {
                crate::watch::tick();
                if sink.suspects() >= 6 || std::time::Instant::now() > until {
                    h.flush(sink);
                    return;
                }
                let kid = 1 + (off + rng.below(focus)) % w.nkeys();
                let live: Vec<usize> = (0..SLOTS).filter(|i| h.t[*i].is_some()).collect();
                let s = if prop == "C15" || rng.chance(1, 5) { *rng.pick(&live) } else { live[0] };
                let stored = h.s[s].as_ref().map_or(0, |s| s.it.len());
                // operations that the property is about, beside those that move on
                let other = match prop {
                    "C02" | "C13" => 8,
                    "C15" => 7,
                    "C05" => 4,
                    _ => 1,
                };
                let ok = if rng.chance(other, 16) {
                    match prop {
                        "C02" => {
                            let ks = h.some_kids(s, &mut rng, 8);
                            h.get(s, &ks, &mut rng, sink)
                        }
                        "C05" => h.shown(s, rng.chance(1, 2), sink),
                        "C13" => h.write(s, &mut rng, sink),
                        _ => {
                            let free: Vec<usize> = (0..SLOTS).filter(|i| h.t[*i].is_none()).collect();
                            let k = rng.below(if prop == "C15" { 7 } else { 8 });
                            if k >= 6 {
                                h.write(s, &mut rng, sink)
                            } else if k >= 3 && live.len() >= 2 && prop == "C15" {
                                let o = *rng.pick(&live);
                                if o != s {
                                    let what = if rng.below(16) < ins { rng.below(2) } else { 2 };
                                    h.twin(s, o, kid, what, sink)
                                } else {
                                    true
                                }
                            } else if !free.is_empty() && (k >= 1 || live.len() < 2) {
                                h.clone_to(s, free[0], sink)
                            } else if live.len() >= 2 {
                                h.discard(s, sink)
                            } else {
                                true
                            }
                        }
                    }
                } else if rng.below(16) < ins && stored < 3 * target {
                    if unique || rng.chance(if prop == "C03" { 8 } else { 3 }, 16) {
                        h.insert_unique(s, kid, sink)
                    } else {
                        h.insert(s, kid, sink)
                    }
                } else {
                    // mostly a key that is stored
                    let kid = if stored > 0 && rng.chance(9, 10) {
                        let it = &h.s[s].as_ref().unwrap().it;
                        // often one that the bounds of its groups depend on
                        let tries = if rng.chance(1, 3) { 6 } else { 1 };
                        let size = |k: usize| w.u().kboxes.get(k - 1).map_or(0, |b| b.0.iter().zip(&b.1).map(|(a, b)| b - a).sum::<i32>());
                        (0..tries).map(|_| (rng.pick(it)[0] as usize).clamp(1, w.nkeys())).max_by_key(|k| size(*k)).unwrap()
                    } else {
                        kid
                    };
                    h.remove(s, kid, &mut rng, sink)
                };
                if !ok {
                    return;
                }
                if kind == 4 && stored == 0 && rng.chance(1, 2) {
                    break;
                }
            }
        }
        h.flush(sink);
    }
}

/// Random histories until the time is over.
pub fn drive(prop: &str, seed: u64, sink: &mut Sink, cases: usize, until: std::time::Instant) {
    let mut rng = Rng::new(seed);
    for i in 0..cases {
        if std::time::Instant::now() > until || sink.suspects() >= 6 {
            break;
        }
        let which = if rng.chance(1, 2) { rng.below(4) } else { rng.below(WORLDS) };
        let big = i % 24 == 7;
        let huge = i % 16 == 10;
        let n = if huge { 20 + rng.below(150) } else if big { 40 + rng.below(60) } else { 2 + rng.below(24) };
        let id = format!("h{seed}.{i}");
        crate::watch::note(|| id.clone());
        let r = Random { prop, rng: rng.fork(), sink, id, big, huge, until };
        with_world(which, &mut rng.fork(), n, r);
    }
}

// ---------------------------------------------------------------------------------------------
// Exhaustive exploration: all histories of insertions and removals over a small universe, up to a
// number of entries; every arrangement that comes up is taken once, with all operations from it.

struct Explore<'a> {
    prop: &'a str,
    sink: &'a mut Sink,
    cfg: (usize, usize),
    id: String,
    most: usize,
    cap: usize,
    until: std::time::Instant,
    part: (usize, usize),
    /// arrangements found, whether all were
    out: &'a mut (usize, bool),
}
impl WithWorld for Explore<'_> {
    type Out = ();
    fn run<W: World>(self, w: W) {
        let n = w.nkeys();
        let mut seen: HashMap<String, usize> = HashMap::new();
        // paths: (operation, kid)
        let mut frontier: Vec<Vec<(u8, usize)>> = vec![vec![]];
        seen.insert(String::new(), 0);
        let mut at = 0;
        let mut rng = Rng::new(7);
        let mut complete = true;
        while at < frontier.len() {
            if self.sink.suspects() >= 6 {
                return;
            }
            if at >= self.cap || std::time::Instant::now() > self.until {
                complete = false;
                break;
            }
            crate::watch::tick();
            let path = frontier[at].clone();
            at += 1;
            // Replay the path, then try each operation from a new replay.
            let replay = |path: &[(u8, usize)]| -> Option<Hist<W>> {
                let mut h = Hist::new(&w, self.prop, self.cfg, format!("{}/x{at}", self.id), usize::MAX);
                h.t[0] = Some(make::<W>(self.cfg));
                for (op, kid) in path {
                    let ser = h.ser();
                    let v = h.fresh();
                    let k = w.key(*kid, ser);
                    let t = h.t[0].as_mut().unwrap();
                    let r = guarded(|| match op {
                        0 => t.insert(k, V::new(v)),
                        1 => {
                            t.insert_unique(k, V::new(v));
                        }
                        _ => {
                            t.remove::<W::K>(&k);
                        }
                    });
                    if let Guarded::Panicked = r {
                        return None;
                    }
                }
                h.s = h.observe()?;
                Some(h)
            };
            let mine = at % self.part.1 == self.part.0;
            let base = match replay(&path) {
                Some(h) => h,
                None => continue,
            };
            let size = base.s[0].as_ref().unwrap().it.len();
            let mut star = base.new_rec();
            star.alt = true;
            for op in [0u8, 1, 2, 3] {
                for kid in 1..=n {
                    if op == 1 && !matches!(self.prop, "C01" | "C03" | "C05" | "C06") && size > 2 {
                        continue;
                    }
                    if op == 3 && !(kid == 1 && matches!(self.prop, "C02" | "C13" | "C05" | "C15")) {
                        continue;
                    }
                    if (op == 0 || op == 1) && size >= self.most {
                        continue;
                    }
                    let mut h = match replay(&path) {
                        Some(h) => h,
                        None => continue,
                    };
                    if !mine {
                        // another process looks at this one; find what it leads to only
                        if op == 3 {
                            continue;
                        }
                        let ser = h.ser();
                        let v = h.fresh();
                        let k = w.key(kid, ser);
                        let t = h.t[0].as_mut().unwrap();
                        let r = guarded(|| match op {
                            0 => t.insert(k, V::new(v)),
                            1 => {
                                t.insert_unique(k, V::new(v));
                            }
                            _ => {
                                t.remove::<W::K>(&k);
                            }
                        });
                        if let Guarded::Panicked = r {
                            h.t.drain(..).for_each(std::mem::forget);
                            continue;
                        }
                        match h.observe() {
                            Some(s) => h.s = s,
                            None => continue,
                        }
                    } else {
                        let ok = match op {
                            0 => h.insert(0, kid, self.sink),
                            1 => h.insert_unique(0, kid, self.sink),
                            2 => h.remove(0, kid, &mut rng, self.sink),
                            _ => match self.prop {
                                "C02" => {
                                    let ks: Vec<usize> = (1..=n).collect();
                                    h.get(0, &ks, &mut rng, self.sink)
                                }
                                "C05" => h.shown(0, at % 2 == 0, self.sink),
                                "C15" => h.clone_to(0, 1, self.sink),
                                _ => h.write(0, &mut rng, self.sink),
                            },
                        };
                        if !ok {
                            continue;
                        }
                        h.copy_step(&mut star);
                    }
                    if op < 3 {
                        if let Some(s) = h.s[0].as_ref() {
                            let shape = s.shape();
                            if !seen.contains_key(&shape) && s.it.len() <= self.most {
                                seen.insert(shape, frontier.len());
                                let mut p = path.clone();
                                p.push((op, kid));
                                frontier.push(p);
                            }
                        }
                    }
                }
            }
            if mine {
                self.sink.keep(star);
            }
        }
        self.out.0 += seen.len();
        self.out.1 &= complete;
    }
}
impl<W: World> Hist<'_, W> {
    /// Moves the one step recorded here into a star of alternatives.
    fn copy_step(&mut self, star: &mut Rec) {
        if let Some(r) = self.rec.take() {
            let post: Vec<(usize, &Snap)> =
                (0..SLOTS).filter_map(|i| self.s[i].as_ref().map(|s| (i + 1, s))).collect();
            star.event(r.fields_of_last(), Some(&post));
        }
    }
}

/// Explores some small universes completely. Returns the number of arrangements and whether the
/// exploration was complete.
pub fn explore(
    prop: &str,
    seed: u64,
    sink: &mut Sink,
    thorough: bool,
    part: (usize, usize),
    until: std::time::Instant,
) -> (usize, bool) {
    let mut rng = Rng::new(seed ^ 0xE1);
    let mut out = (0, true);
    let plan: &[((usize, usize), usize, usize)] = if thorough {
        &[((2, 1), 3, 5), ((3, 1), 3, 6), ((2, 0), 3, 4), ((3, 2), 3, 7), ((4, 2), 3, 6), ((2, 2), 3, 4), ((4, 1), 2, 8)]
    } else {
        &[((2, 1), 3, 4), ((3, 2), 3, 5), ((3, 1), 2, 6), ((2, 0), 2, 4), ((4, 2), 2, 7)]
    };
    for (i, (cfg, keys, most)) in plan.iter().enumerate() {
        let which = [0, 1, 2, 3, 6][(seed as usize + i) % 5];
        let e = Explore {
            prop,
            sink,
            cfg: *cfg,
            id: format!("x{seed}.{i}/{}-{}", cfg.0, cfg.1),
            most: *most,
            cap: if thorough { 6000 } else { 700 },
            until,
            part,
            out: &mut out,
        };
        with_world(which, &mut rng.fork(), *keys, e);
    }
    out
}

// ---------------------------------------------------------------------------------------------

/// A behaviour of the specification, to be executed step by step.
pub struct Behaviour<'a> {
    pub prop: &'a str,
    pub sink: &'a mut Sink,
    pub id: String,
    pub cfg: (usize, usize),
    /// (0 insert, 1 insert_unique, 2 remove, 3 clone, 4 drop; slot; key)
    pub ops: Vec<(i64, usize, usize)>,
    pub rng: Rng,
}
impl WithWorld for Behaviour<'_> {
    type Out = ();
    fn run<W: World>(self, w: W) {
        let Behaviour { prop, sink, id, cfg, ops, mut rng } = self;
        let mut h = Hist::new(&w, prop, cfg, format!("m{id}/{}/{}-{}", w.name(), cfg.0, cfg.1), 24);
        if !h.start() {
            h.lost(sink);
            return;
        }
        for (op, s, kid) in ops {
            crate::watch::tick();
            let ok = match op {
                0 => h.insert(s, kid, sink),
                1 => h.insert_unique(s, kid, sink),
                2 => h.remove(s, kid, &mut rng, sink),
                3 => h.clone_to(0, 1, sink),
                _ => h.discard(1, sink),
            };
            if !ok {
                return;
            }
            if rng.chance(1, 12) {
                let more = match prop {
                    "C02" => {
                        let ks: Vec<usize> = (1..=w.nkeys()).collect();
                        h.get(0, &ks, &mut rng, sink)
                    }
                    "C05" => h.shown(0, rng.chance(1, 2), sink),
                    "C13" => h.write(0, &mut rng, sink),
                    _ => true,
                };
                if !more {
                    return;
                }
            }
        }
        h.flush(sink);
    }
}
