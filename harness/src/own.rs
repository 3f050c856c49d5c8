//! Ownership (C14, C16): tracked keys, values and bounds, and a tracking memory allocator.

use crate::draw::{draw, one, WAYS};
use crate::rng::Rng;
use crate::tree::config;
use crate::Args;
use noisy_float::types::{n64, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::{RTree, RTreeConfig};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

// ---------------------------------------------------------------------------------------------
// The allocator. Blocks that are allocated while library code runs on this thread are tracked:
// they lie between canaries, and stay in quarantine, overwritten, after they are freed.

thread_local! {
    /// > 0 while library code runs
    static ON: Cell<i32> = const { Cell::new(0) };
}
pub fn on<T>(f: impl FnOnce() -> T) -> T {
    ON.with(|c| c.set(c.get() + 1));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|c| c.set(c.get() - 1));
        }
    }
    let _g = Off;
    f()
}
/// The recorder's own code within library code.
pub fn off<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.with(|c| c.replace(0));
    struct Back(i32);
    impl Drop for Back {
        fn drop(&mut self) {
            ON.with(|c| c.set(self.0));
        }
    }
    let _g = Back(was);
    f()
}

#[derive(Clone, Copy)]
struct Block {
    ptr: usize,
    base: usize,
    size: usize,
    align: usize,
    id: u32,
    live: bool,
    torn: bool,
}
const EMPTY: Block = Block { ptr: 0, base: 0, size: 0, align: 0, id: 0, live: false, torn: false };
const SLOTS: usize = 1 << 16;
const EVENTS: usize = 1 << 16;
/// A hash table of blocks by address, and the events since they were last taken.
struct Table {
    slots: [Block; SLOTS],
    used: [u32; SLOTS / 2],
    n: usize,
    ids: u32,
    events: [(u8, u32, usize, usize); EVENTS],
    e: usize,
    /// no more room: nothing is tracked until the next history
    full: bool,
}
static mut TABLE: Table = Table {
    slots: [EMPTY; SLOTS],
    used: [0; SLOTS / 2],
    n: 0,
    ids: 0,
    events: [(0, 0, 0, 0); EVENTS],
    e: 0,
    full: false,
};
static OWNER: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

#[allow(static_mut_refs)]
fn table() -> &'static mut Table {
    // Only the recording thread gets here (see `mine`).
    unsafe { &mut TABLE }
}
thread_local! {
    static ME: u8 = const { 0 };
}
fn mine() -> bool {
    let me = ME.with(|x| x as *const u8 as usize);
    OWNER.load(std::sync::atomic::Ordering::Relaxed) == me
}
const PRE: usize = 64;
const POST: usize = 32;

fn extent(l: Layout) -> Option<(Layout, usize)> {
    let pre = l.align().max(PRE);
    Some((Layout::from_size_align(pre + l.size() + POST, l.align().max(16)).ok()?, pre))
}
impl Table {
    fn event(&mut self, k: u8, id: u32, size: usize, align: usize) {
        if self.e < EVENTS {
            self.events[self.e] = (k, id, size, align);
            self.e += 1;
        } else {
            self.full = true;
        }
    }
    fn find(&self, ptr: usize) -> Option<usize> {
        let mut i = (ptr >> 4).wrapping_mul(0x9E37_79B9) % SLOTS;
        loop {
            if self.slots[i].ptr == 0 {
                return None;
            }
            if self.slots[i].ptr == ptr {
                return Some(i);
            }
            i = (i + 1) % SLOTS;
        }
    }
    unsafe fn alloc(&mut self, l: Layout) -> *mut u8 {
        if self.n >= SLOTS / 2 - 1 {
            self.full = true;
            return System.alloc(l);
        }
        let Some((real, pre)) = extent(l) else { return std::ptr::null_mut() };
        let base = System.alloc(real);
        if base.is_null() {
            return base;
        }
        std::ptr::write_bytes(base, 0xAB, pre);
        std::ptr::write_bytes(base.add(pre), 0xCD, l.size());
        std::ptr::write_bytes(base.add(pre + l.size()), 0xAB, POST);
        let ptr = base.add(pre);
        self.ids += 1;
        let mut i = (ptr as usize >> 4).wrapping_mul(0x9E37_79B9) % SLOTS;
        while self.slots[i].ptr != 0 {
            i = (i + 1) % SLOTS;
        }
        self.slots[i] = Block {
            ptr: ptr as usize,
            base: base as usize,
            size: l.size(),
            align: l.align(),
            id: self.ids,
            live: true,
            torn: false,
        };
        self.used[self.n] = i as u32;
        self.n += 1;
        self.event(b'a', self.ids, l.size(), l.align());
        ptr
    }
    /// Whether the block was tracked.
    unsafe fn free(&mut self, ptr: *mut u8, l: Layout) -> bool {
        let Some(i) = self.find(ptr as usize) else { return false };
        let b = self.slots[i];
        self.event(b'f', b.id, l.size(), l.align());
        if b.live {
            self.check(i);
            std::ptr::write_bytes(ptr, 0xDD, b.size);
            self.slots[i].live = false;
        }
        true
    }
    unsafe fn check(&mut self, i: usize) {
        let b = self.slots[i];
        if b.torn {
            return;
        }
        let all = |from: usize, n: usize, x: u8| (0..n).all(|k| *((from + k) as *const u8) == x);
        if !all(b.base, b.ptr - b.base, 0xAB)
            || !all(b.ptr + b.size, POST, 0xAB)
            || (!b.live && !all(b.ptr, b.size, 0xDD))
        {
            self.slots[i].torn = true;
            self.event(b't', b.id, 0, 0);
        }
    }
    fn check_all(&mut self) {
        for k in 0..self.n {
            unsafe { self.check(self.used[k] as usize) };
        }
    }
    /// Forgets and releases everything.
    fn reset(&mut self) {
        for k in 0..self.n {
            let i = self.used[k] as usize;
            let b = self.slots[i];
            // What is still alive is leaked: something may still point to it.
            if !b.live {
                unsafe {
                    let (real, _) = extent(Layout::from_size_align_unchecked(b.size, b.align)).unwrap();
                    System.dealloc(b.base as *mut u8, real);
                }
            }
            self.slots[i] = EMPTY;
        }
        self.n = 0;
        self.ids = 0;
        self.e = 0;
        self.full = false;
    }
}

pub struct Tracker;
unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.try_with(|c| c.get() > 0).unwrap_or(false) && mine() {
            table().alloc(l)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, l: Layout) {
        if mine() && table().n > 0 && table().free(ptr, l) {
            return;
        }
        if ON.try_with(|c| c.get() > 0).unwrap_or(false) && mine() && !table().full {
            // Library code frees what it was never given.
            table().event(b'f', 0, l.size(), l.align());
            return;
        }
        System.dealloc(ptr, l)
    }
    unsafe fn realloc(&self, ptr: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let tracked = mine() && table().n > 0 && table().find(ptr as usize).is_some();
        if !tracked && !(ON.try_with(|c| c.get() > 0).unwrap_or(false) && mine()) {
            return System.realloc(ptr, l, size);
        }
        let new = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(ptr, new, l.size().min(size));
            self.dealloc(ptr, l);
        }
        new
    }
}

// ---------------------------------------------------------------------------------------------
// Tracked objects

const MAGIC: u32 = 0x600D_0B1E;
thread_local! {
    static LOG: RefCell<Vec<(u8, u8, i64)>> = const { RefCell::new(vec![]) };
    static NEXT: Cell<i64> = const { Cell::new(1) };
    /// The number of calls of user-supplied operations in this step, and the one that panics.
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static FATAL: Cell<u64> = const { Cell::new(u64::MAX) };
    static STRUCK: Cell<&'static str> = const { Cell::new("") };
    static MUTE: Cell<bool> = const { Cell::new(false) };
}
fn log(what: u8, kind: u8, id: i64) {
    if !MUTE.with(|m| m.get()) {
        off(|| LOG.with(|l| l.borrow_mut().push((what, kind, id))));
    }
}
fn fresh() -> i64 {
    NEXT.with(|n| n.replace(n.get() + 1))
}
/// A user-supplied operation runs.
fn user(what: &'static str) {
    if MUTE.with(|m| m.get()) || ON.with(|c| c.get()) == 0 || std::thread::panicking() {
        return;
    }
    let n = CALLS.with(|c| c.replace(c.get() + 1));
    if n == FATAL.with(|f| f.get()) {
        FATAL.with(|f| f.set(u64::MAX));
        STRUCK.with(|s| s.set(what));
        // as a panic, but without the panic message
        std::panic::resume_unwind(Box::new(()));
    }
}
fn mute<T>(f: impl FnOnce() -> T) -> T {
    let was = MUTE.with(|m| m.replace(true));
    let r = f();
    MUTE.with(|m| m.set(was));
    r
}

/// An object of the program: its drop is not recorded.
struct Mine<T>(Option<T>);
impl<T> Drop for Mine<T> {
    fn drop(&mut self) {
        off(|| mute(|| drop(self.0.take())));
    }
}

/// The identity of a live object, -1 of anything else.
#[derive(Debug)]
struct Tag<const KIND: u8> {
    id: i64,
    magic: u32,
}
impl<const KIND: u8> Tag<KIND> {
    fn new() -> Self {
        Tag { id: fresh(), magic: MAGIC }
    }
    fn get(&self) -> i64 {
        if self.magic == MAGIC && self.id > 0 {
            self.id
        } else {
            -1
        }
    }
}
impl<const KIND: u8> Clone for Tag<KIND> {
    fn clone(&self) -> Self {
        user("clone");
        let t = Tag::new();
        // A clone of garbage shows as an object that is no object.
        if self.get() < 0 {
            log(b'd', KIND, -1);
        }
        log(b'n', KIND, t.id);
        t
    }
}
impl<const KIND: u8> Drop for Tag<KIND> {
    fn drop(&mut self) {
        log(b'd', KIND, self.get());
        self.magic = 0xDEAD;
        user("drop");
    }
}

type Ext = ([i32; 2], [i32; 2]);
fn x_union(a: &Ext, b: &Ext) -> Ext {
    (
        [a.0[0].min(b.0[0]), a.0[1].min(b.0[1])],
        [a.1[0].max(b.1[0]), a.1[1].max(b.1[1])],
    )
}
fn x_meets(a: &Ext, b: &Ext) -> bool {
    (0..2).all(|i| a.0[i] <= b.1[i] && b.0[i] <= a.1[i])
}
fn x_contains(a: &Ext, b: &Ext) -> bool {
    (0..2).all(|i| a.0[i] <= b.0[i] && b.1[i] <= a.1[i])
}
const X_EMPTY: Ext = ([i32::MAX, i32::MAX], [i32::MIN, i32::MIN]);

pub trait Pad: Clone + 'static {
    fn pad() -> Self;
    const NAME: &'static str;
}
impl Pad for () {
    fn pad() {}
    const NAME: &'static str = "";
}
impl Pad for [u64; 9] {
    fn pad() -> Self {
        [7; 9]
    }
    const NAME: &'static str = "large ";
}
#[derive(Clone)]
#[repr(align(64))]
pub struct Wide(#[allow(dead_code)] u8);
impl Pad for Wide {
    fn pad() -> Self {
        Wide(1)
    }
    const NAME: &'static str = "aligned ";
}
#[derive(Clone)]
#[repr(align(2))]
pub struct Odd(#[allow(dead_code)] [u8; 6]);
impl Pad for Odd {
    fn pad() -> Self {
        Odd([1; 6])
    }
    const NAME: &'static str = "odd ";
}

/// Bounds. T: tracked
pub struct TB<T, P> {
    x: Ext,
    _t: T,
    _p: P,
}
pub trait Track: Clone + 'static {
    fn born() -> Self;
    const TRACKED: bool;
}
impl Track for () {
    fn born() {}
    const TRACKED: bool = false;
}
pub struct Tracked(Tag<b'b'>);
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked(self.0.clone())
    }
}
impl Track for Tracked {
    fn born() -> Self {
        let t = Tag::new();
        log(b'n', b'b', t.id);
        Tracked(t)
    }
    const TRACKED: bool = true;
}
impl<T: Track, P: Pad> TB<T, P> {
    fn new(x: Ext) -> Self {
        TB { x, _t: T::born(), _p: P::pad() }
    }
}
impl<T: Track, P: Pad> Clone for TB<T, P> {
    fn clone(&self) -> Self {
        if !T::TRACKED {
            user("clone of bounds");
        }
        TB { x: self.x, _t: self._t.clone(), _p: self._p.clone() }
    }
}
impl<T: Track, P: Pad> Contains<TB<T, P>> for TB<T, P> {
    fn contains(&self, o: &Self) -> bool {
        user("contains");
        x_contains(&self.x, &o.x)
    }
}
impl<T: Track, P: Pad> Intersects<TB<T, P>> for TB<T, P> {
    fn intersects(&self, o: &Self) -> bool {
        user("intersects");
        x_meets(&self.x, &o.x)
    }
}
impl<T: Track, P: Pad> Bounds for TB<T, P> {
    fn empty() -> Self {
        user("empty");
        TB::new(X_EMPTY)
    }
    fn union(a: &Self, b: &Self) -> Self {
        user("union");
        TB::new(x_union(&a.x, &b.x))
    }
    fn union_all(all: impl IntoIterator<Item = Self>) -> Self {
        user("union_all");
        let mut x = X_EMPTY;
        for b in all {
            x = x_union(&x, &b.x);
        }
        TB::new(x)
    }
}
impl<T: Track, P: Pad> Volume for TB<T, P> {
    fn volume(&self) -> N64 {
        user("volume");
        n64((self.x.1[0] as f64 - self.x.0[0] as f64) * (self.x.1[1] as f64 - self.x.0[1] as f64))
    }
}

pub trait KeyLike: Eq + Clone + 'static {
    fn make(kid: usize, x: Ext) -> Self;
    fn id(&self) -> i64;
    fn x(&self) -> Ext;
    const NAME: &'static str;
}
pub struct TK<P> {
    kid: usize,
    x: Ext,
    t: Tag<b'k'>,
    p: P,
}
impl<P> PartialEq for TK<P> {
    fn eq(&self, o: &Self) -> bool {
        user("eq");
        self.kid == o.kid
    }
}
impl<P> Eq for TK<P> {}
impl<P: Pad> Clone for TK<P> {
    fn clone(&self) -> Self {
        TK { kid: self.kid, x: self.x, t: self.t.clone(), p: self.p.clone() }
    }
}
impl<P: Pad> KeyLike for TK<P> {
    fn make(kid: usize, x: Ext) -> Self {
        TK { kid, x, t: Tag::new(), p: P::pad() }
    }
    fn id(&self) -> i64 {
        self.t.get()
    }
    fn x(&self) -> Ext {
        self.x
    }
    const NAME: &'static str = P::NAME;
}
impl<T: Track, Q: Pad, P: Pad> Bounded<TB<T, Q>> for TK<P> {
    fn bounds(&self) -> TB<T, Q> {
        user("bounds");
        TB::new(self.x)
    }
}
/// A zero-sized key.
pub struct ZK;
const ZX: Ext = ([1, 1], [2, 3]);
impl PartialEq for ZK {
    fn eq(&self, _: &Self) -> bool {
        user("eq");
        true
    }
}
impl Eq for ZK {}
impl Clone for ZK {
    fn clone(&self) -> Self {
        user("clone");
        log(b'n', b'k', 0);
        ZK
    }
}
impl Drop for ZK {
    fn drop(&mut self) {
        log(b'd', b'k', 0);
        user("drop");
    }
}
impl KeyLike for ZK {
    fn make(_: usize, _: Ext) -> Self {
        ZK
    }
    fn id(&self) -> i64 {
        0
    }
    fn x(&self) -> Ext {
        ZX
    }
    const NAME: &'static str = "zero-sized ";
}
impl<T: Track, Q: Pad> Bounded<TB<T, Q>> for ZK {
    fn bounds(&self) -> TB<T, Q> {
        user("bounds");
        TB::new(ZX)
    }
}
pub trait ValLike: Clone + 'static {
    fn make() -> Self;
    fn id(&self) -> i64;
    const NAME: &'static str;
}
pub struct TV<P> {
    t: Tag<b'v'>,
    p: P,
}
impl<P: Pad> Clone for TV<P> {
    fn clone(&self) -> Self {
        TV { t: self.t.clone(), p: self.p.clone() }
    }
}
impl<P: Pad> ValLike for TV<P> {
    fn make() -> Self {
        TV { t: Tag::new(), p: P::pad() }
    }
    fn id(&self) -> i64 {
        self.t.get()
    }
    const NAME: &'static str = P::NAME;
}
pub struct ZV;
impl Clone for ZV {
    fn clone(&self) -> Self {
        user("clone");
        log(b'n', b'v', 0);
        ZV
    }
}
impl Drop for ZV {
    fn drop(&mut self) {
        log(b'd', b'v', 0);
        user("drop");
    }
}
impl ValLike for ZV {
    fn make() -> Self {
        ZV
    }
    fn id(&self) -> i64 {
        0
    }
    const NAME: &'static str = "zero-sized ";
}

// Queries
#[derive(Clone, Copy)]
struct Near(Ext);
impl<T: Track, P: Pad, K: KeyLike> SpatialFilter<TB<T, P>, K> for Near {
    fn test_bounds(&self, b: &TB<T, P>) -> bool {
        user("filter");
        x_meets(&self.0, &b.x)
    }
    fn test_key(&self, k: &K) -> bool {
        user("filter");
        x_meets(&self.0, &k.x())
    }
}
struct Both;
impl Clone for Both {
    fn clone(&self) -> Self {
        user("clone of a filter");
        Both
    }
}
impl<T: Track, P: Pad, K: KeyLike> JoinFilter<TB<T, P>, TB<T, P>, K, K> for Both {
    fn test_bounds(&self, a: &TB<T, P>, b: &TB<T, P>) -> bool {
        user("join filter");
        x_meets(&a.x, &b.x)
    }
    fn test_key(&self, a: &K, b: &K) -> bool {
        user("join filter");
        x_meets(&a.x(), &b.x())
    }
}
fn away(x: i32, b: &Ext) -> i32 {
    (b.0[0] - x).max(x - b.1[0]).max(0)
}
#[derive(Clone, Copy)]
struct From(i32);
impl<T: Track, P: Pad, K: KeyLike> Ranking<TB<T, P>, K> for From {
    type Metric = i32;
    fn bounds_min(&self, b: &TB<T, P>) -> i32 {
        user("ranking");
        away(self.0, &b.x)
    }
    fn rank_key(&self, k: &K) -> i32 {
        user("ranking");
        away(self.0, &k.x())
    }
}
#[derive(Clone, Copy)]
struct Within(i32, i32);
impl<T: Track, P: Pad, K: KeyLike> Ranking<TB<T, P>, K> for Within {
    type Metric = Option<i32>;
    fn bounds_min(&self, b: &TB<T, P>) -> Option<i32> {
        user("ranking");
        Some(away(self.0, &b.x)).filter(|d| *d <= self.1)
    }
    fn rank_key(&self, k: &K) -> Option<i32> {
        user("ranking");
        Some(away(self.0, &k.x())).filter(|d| *d <= self.1)
    }
}

// ---------------------------------------------------------------------------------------------

type Tree<T, P, K, V> = RTree<TB<T, P>, K, V>;

#[derive(Default)]
struct Step {
    give: Vec<i64>,
    back: Vec<i64>,
    tree: Vec<(usize, Vec<[i64; 2]>)>,
    gone: Vec<usize>,
    fault: bool,
}

struct Hist<T: Track, P: Pad, K: KeyLike, V: ValLike> {
    id: String,
    ev: Vec<String>,
    trees: Vec<Option<Tree<T, P, K, V>>>,
    keys: Vec<Ext>,
    /// Keys to look for, which belong to the program.
    probes: Vec<K>,
    calls: u64,
    struck: &'static str,
}
impl<T: Track, P: Pad, K: KeyLike + Bounded<TB<T, P>>, V: ValLike> Hist<T, P, K, V> {
    fn new(rng: &mut Rng, id: String, cfg: (usize, usize), trees: usize) -> Self {
        table().reset();
        LOG.with(|l| l.borrow_mut().clear());
        NEXT.with(|n| n.set(1));
        let nk = 2 + rng.below(12);
        let side = *rng.pick(&[4, 8, 20]);
        let mut keys = vec![];
        for _ in 0..nk {
            let a = [rng.below(side) as i32, rng.below(side) as i32];
            let w = [rng.below(4) as i32, rng.below(4) as i32];
            keys.push((a, [a[0] + w[0], a[1] + w[1]]));
        }
        let probes = keys.iter().enumerate().map(|(i, x)| K::make(i, *x)).collect();
        let mut h = Hist { id, ev: vec![], trees: vec![], keys, probes, calls: 0, struck: "" };
        for i in 0..trees {
            let mut t = None;
            h.step(&format!("new {i}"), "new", |_, st| {
                t = Some(RTree::new(RTreeConfig { max_children: cfg.0, min_children: cfg.1 }));
                st.tree.push((i, vec![]));
            });
            h.trees.push(t);
        }
        h
    }
    fn key(&self, kid: usize) -> K {
        K::make(kid, self.keys[kid])
    }
    /// One step: `f` runs library code. A panic ends it.
    fn step(&mut self, what: &str, op: &str, f: impl FnOnce(&mut Self, &mut Step)) -> bool {
        crate::watch::note(|| format!("{} step {} {what}", self.id, self.ev.len()));
        CALLS.with(|c| c.set(0));
        STRUCK.with(|c| c.set(""));
        let mut st = Step::default();
        crate::watch::GUARDED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let ok = catch_unwind(AssertUnwindSafe(|| on(|| f(self, &mut st)))).is_ok();
        crate::watch::GUARDED.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        FATAL.with(|f| f.set(u64::MAX));
        self.calls = CALLS.with(|c| c.get());
        self.struck = STRUCK.with(|c| c.get());
        st.fault = !ok;
        self.emit(op, what, st);
        ok
    }
    fn emit(&mut self, op: &str, what: &str, st: Step) {
        let t = table();
        t.check_all();
        let mut heap = String::new();
        let mut torn = vec![];
        for i in 0..t.e {
            let (k, id, size, align) = t.events[i];
            if k == b't' {
                torn.push(id);
            } else {
                let _ = write!(heap, "{}[\"{}\",{id},{},{align}]", if heap.is_empty() { "" } else { "," }, k as char, size.min(1 << 30));
            }
        }
        t.e = 0;
        let log: Vec<String> = LOG.with(|l| {
            l.borrow_mut().drain(..).map(|(w, k, i)| format!("[\"{}\",\"{}\",{i}]", w as char, k as char)).collect()
        });
        let tree: Vec<String> = st.tree.iter().map(|(i, es)| format!("[{i},{es:?}]")).collect();
        self.ev.push(format!(
            "{{\"op\":\"{op}\",\"what\":\"{what}\",\"give\":{:?},\"back\":{:?},\"log\":[{}],\"heap\":[{heap}],\"torn\":{torn:?},\"tree\":[{}],\"gone\":{:?},\"fault\":{}}}",
            st.give, st.back, log.join(","), tree.join(","), st.gone, st.fault
        ));
    }
    /// Iterates a tree: part of a step.
    fn entries(&self, i: usize) -> Vec<[i64; 2]> {
        let t = self.trees[i].as_ref().unwrap();
        let mut it = t.iter();
        let mut n = 0;
        let mut es: Vec<[i64; 2]> = off(|| Vec::with_capacity(64));
        while let Some((k, v)) = it.next() {
            off(|| es.push([k.id(), v.id()]));
            n += 1;
            if n > 10_000 {
                break;
            }
        }
        es
    }
    /// After a panic: what the tree contains belongs to the step that panicked.
    fn survey(&mut self, i: usize) -> bool {
        let at = self.ev.len() - 1;
        match catch_unwind(AssertUnwindSafe(|| on(|| self.entries(i)))) {
            Ok(es) => {
                let e = self.ev[at].replace("\"tree\":[]", &format!("\"tree\":[[{i},{es:?}]]"));
                self.ev[at] = e;
                self.step("iterated after a panic", "see", |h, st| h.see(i, st));
                true
            }
            Err(_) => {
                self.emit("stuck", "the tree cannot be iterated", Step::default());
                std::mem::forget(self.trees[i].take());
                false
            }
        }
    }
    fn see(&mut self, i: usize, st: &mut Step) {
        let es = self.entries(i);
        off(|| st.tree.push((i, es)));
    }

    fn insert(&mut self, i: usize, kid: usize, unique: bool) -> bool {
        let (k, v) = (self.key(kid), V::make());
        let ids = [k.id(), v.id()];
        self.step(&format!("insert{} {i} {kid}", if unique { "_unique" } else { "" }), "insert", move |h, st| {
            off(|| st.give.extend(ids));
            let t = h.trees[i].as_mut().unwrap();
            if unique {
                if let Some(v) = t.insert_unique(k, v) {
                    off(|| {
                        st.back.push(v.id());
                        mute(|| drop(v));
                    })
                }
            } else {
                t.insert(k, v);
            }
            h.see(i, st);
        })
    }
    fn remove(&mut self, i: usize, kid: usize) -> bool {
        self.step(&format!("remove {i} {kid}"), "remove", |h, st| {
            let t = h.trees[i].as_mut().unwrap();
            if let Some(v) = t.remove(&h.probes[kid]) {
                off(|| {
                    st.back.push(v.id());
                    mute(|| drop(v));
                })
            }
            h.see(i, st);
        })
    }
    fn get(&mut self, i: usize, kid: usize, write: bool) -> bool {
        let mut v = Mine(Some(V::make()));
        let id = v.0.as_ref().unwrap().id();
        self.step(&format!("get{} {i} {kid}", if write { "_mut" } else { "" }), "get", move |h, st| {
            let t = h.trees[i].as_mut().unwrap();
            if write {
                match t.get_mut(&h.probes[kid]) {
                    Some(r) => off(|| {
                        st.give.push(id);
                        let old = std::mem::replace(r, v.0.take().unwrap());
                        st.back.push(old.id());
                        mute(|| drop(old));
                    }),
                    None => (),
                }
            } else {
                let _ = t.get(&h.probes[kid]).map(|v| v.id());
            }
            h.see(i, st);
        })
    }
    fn clone_to(&mut self, i: usize, j: usize) -> bool {
        if self.trees[j].is_some() {
            self.discard(j);
        }
        self.step(&format!("clone {i} to {j}"), "clone", |h, st| {
            let c = h.trees[i].as_ref().unwrap().clone();
            h.trees[j] = Some(c);
            h.see(i, st);
            h.see(j, st);
        })
    }
    fn discard(&mut self, i: usize) -> bool {
        let Some(t) = self.trees[i].take() else { return true };
        self.step(&format!("drop {i}"), "drop", move |_, st| {
            off(|| st.gone.push(i));
            drop(t);
        })
    }
    /// An iterator over mutable values that is dropped after `most` steps.
    fn walk_mut(&mut self, rng: &mut Rng, i: usize, kind: usize, most: usize) -> bool {
        let q = *rng.pick(&self.keys);
        let replace = rng.chance(1, 2);
        self.step(&format!("mutable walk {kind} of {i}, {most} steps"), "walk", |h, st| {
            let t = h.trees[i].as_mut().unwrap();
            macro_rules! walk {
                ($e:expr) => {{
                    let mut it = $e;
                    for _ in 0..most {
                        match it.next() {
                            Some((_, v)) => {
                                if replace {
                                    off(|| {
                                        let new = V::make();
                                        st.give.push(new.id());
                                        let old = std::mem::replace(v, new);
                                        st.back.push(old.id());
                                        mute(|| drop(old));
                                    });
                                }
                            }
                            None => break,
                        }
                    }
                }};
            }
            match kind {
                0 => walk!(t.iter_mut()),
                1 => walk!(t.filter_iter_mut::<K, _>(Near(q))),
                2 => walk!(t.iter_asc_by_mut(From(q.0[0]))),
                3 => walk!(t.filter_iter_asc_by_mut(Within(q.0[0], 3))),
                4 => walk!(t.min_by_mut(From(q.0[0])).into_iter()),
                _ => walk!(t.filter_min_by_mut(Within(q.0[0], 3)).into_iter()),
            }
            h.see(i, st);
        })
    }
    /// Several iterators over shared trees, used and dropped in any order.
    /// With `faults`, user-supplied operations panic now and then, and the iterators are used on.
    fn schedule(&mut self, rng: &mut Rng, i: usize, j: usize, steps: usize, faults: bool) -> usize {
        let mut panics = 0;
        let first = self.ev.len();
        let q = *rng.pick(&self.keys);
        // The trees are borrowed for the whole schedule, the recorder is not.
        let ti = self.trees[i].take().unwrap();
        let tj = if i == j { None } else { self.trees[j].take() };
        {
            let (a, b) = (&ti, tj.as_ref().unwrap_or(&ti));
            let mut s0 = None;
            let mut s1 = None;
            let mut s2 = None;
            let mut s3 = None;
            let mut s4 = None;
            let mut s5 = None;
            let mut inner = vec![];
            let favour = rng.below(7);
            for _ in 0..steps {
                let slot = if rng.chance(1, 2) { favour } else { rng.below(7) };
                let end = rng.chance(1, 6);
                let way = if rng.chance(1, 2) { 0 } else { rng.below(4) };
                if faults && rng.chance(1, 4) {
                    let n = rng.below(rng.clone().below(24) + 1) as u64;
                    FATAL.with(|f| f.set(n));
                }
                macro_rules! slot {
                    ($s:ident, $name:expr, $new:expr) => {{
                        if end && $s.is_some() {
                            self.step(concat!("drop ", $name), "step", |_, _| drop($s.take()));
                        } else if $s.is_none() {
                            self.step(concat!("new ", $name), "step", |_, _| $s = Some($new));
                        } else {
                            self.step(concat!("next of ", $name), "step", |_, _| {
                                let _ = one($s.as_mut().unwrap(), way);
                            });
                        }
                    }};
                }
                match slot {
                    0 => slot!(s0, "iter", a.iter()),
                    1 => slot!(s1, "filter_iter", a.filter_iter::<K, _>(Near(q))),
                    2 => slot!(s2, "iter_asc_by", b.iter_asc_by(From(q.0[0]))),
                    3 => slot!(s3, "filter_iter_asc_by", b.filter_iter_asc_by(Within(q.1[0], 4))),
                    4 => slot!(s4, "join", a.join::<_, _, _, K, K, _>(b, Both)),
                    5 => {
                        if end && s5.is_some() {
                            self.step("drop left_join", "step", |_, _| drop(s5.take()));
                        } else if s5.is_none() {
                            self.step("new left_join", "step", |_, _| s5 = Some(a.left_join::<_, _, _, K, K, _>(b, Both)));
                        } else {
                            self.step("next of left_join", "step", |_, _| {
                                if let Some((_, it)) = one(s5.as_mut().unwrap(), way) {
                                    off(|| inner.push(it));
                                }
                            });
                        }
                    }
                    _ => {
                        if !inner.is_empty() {
                            let n = rng.below(inner.len());
                            if end || inner.len() > 4 {
                                let it = inner.swap_remove(n);
                                self.step("drop the matches of left_join", "step", move |_, _| drop(it));
                            } else {
                                self.step("next of the matches of left_join", "step", |_, _| {
                                    let _ = one(&mut inner[n], way);
                                });
                            }
                        }
                    }
                }
            }
            // what is left, in some order
            let mut order: Vec<usize> = (0..7).collect();
            for i in (1..7).rev() {
                order.swap(i, rng.below(i + 1));
            }
            for s in order {
                self.step("drop the rest", "step", |_, _| match s {
                    0 => drop(s0.take()),
                    1 => drop(s1.take()),
                    2 => drop(s2.take()),
                    3 => drop(s3.take()),
                    4 => drop(s4.take()),
                    5 => drop(s5.take()),
                    _ => {
                        while let Some(it) = off(|| inner.pop()) {
                            drop(it);
                        }
                    }
                });
            }
        }
        FATAL.with(|f| f.set(u64::MAX));
        self.trees[i] = Some(ti);
        if let Some(t) = tj {
            self.trees[j] = Some(t);
        }
        for e in &self.ev[first..] {
            panics += e.ends_with("\"fault\":true}") as usize;
        }
        panics
    }
    /// A query from beginning to end, as one step.
    fn query(&mut self, i: usize, j: usize, kind: usize, way: usize, q: Ext) -> bool {
        self.step(&format!("query {kind} on {i} {j}, way {way}"), "query", |h, st| {
            {
                let a = h.trees[i].as_ref().unwrap();
                let b = h.trees[j].as_ref().unwrap();
                match kind {
                    0 => all(a.iter(), way, |_| ()),
                    1 => all(a.filter_iter::<K, _>(Near(q)), way, |_| ()),
                    2 => all(a.iter_asc_by(From(q.0[0])), way, |_| ()),
                    3 => all(a.filter_iter_asc_by(Within(q.0[0], 3)), way, |_| ()),
                    4 => all(a.join::<_, _, _, K, K, _>(b, Both), way, |_| ()),
                    5 => all(a.left_join::<_, _, _, K, K, _>(b, Both), way, |(_, m)| all(m, way / 2, |_| ())),
                    6 => {
                        let _ = a.min_by(From(q.0[0])).is_some();
                    }
                    _ => {
                        let _ = a.filter_min_by(Within(q.0[0], 2)).is_some();
                    }
                }
            }
            h.see(i, st);
        })
    }
    fn end(&mut self) -> bool {
        let mut ok = true;
        for i in 0..self.trees.len() {
            ok &= self.discard(i);
        }
        let probes = std::mem::take(&mut self.probes);
        mute(|| drop(probes));
        self.step("everything is gone", "end", |_, _| ());
        ok
    }
}

/// Draws everything, in one of several ways.
fn all<I: Iterator>(it: I, way: usize, put: impl FnMut(I::Item)) {
    draw(it, way, usize::MAX, 100_000, put);
}

/// C14: any history, every step recorded.
fn history<T: Track, P: Pad, K: KeyLike + Bounded<TB<T, P>>, V: ValLike>(rng: &mut Rng, id: String, thorough: bool) -> (String, usize, bool) {
    let cfg = config(rng);
    let id = format!("{id} bounds {}{}key {}value {}{cfg:?}", if T::TRACKED { "tracked " } else { "" }, P::NAME, K::NAME, V::NAME);
    let mut h: Hist<T, P, K, V> = Hist::new(rng, id, cfg, 2);
    h.trees.push(None);
    let n = *rng.pick(if thorough { &[5, 15, 40, 80] } else { &[5, 12, 25, 45] });
    let grow = rng.below(3);
    for _ in 0..n {
        let alive: Vec<usize> = (0..h.trees.len()).filter(|i| h.trees[*i].is_some()).collect();
        if alive.is_empty() {
            break;
        }
        let i = *rng.pick(&alive);
        let j = *rng.pick(&alive);
        let kid = rng.below(h.keys.len());
        let ok = match rng.below(30) {
            0..=7 => h.insert(i, kid, false),
            8..=11 => h.insert(i, kid, true),
            12..=16 if grow == 0 => h.remove(i, kid),
            12..=14 => h.remove(i, kid),
            15..=16 => h.insert(i, kid, false),
            17 => h.get(i, kid, false),
            18 => h.get(i, kid, true),
            19 => {
                let to = rng.below(h.trees.len());
                if to == i {
                    true
                } else {
                    h.clone_to(i, to)
                }
            }
            20 => rng.chance(2, 3) || h.discard(i),
            21 | 22 => {
                let (kind, most) = (rng.below(6), rng.below(8));
                h.walk_mut(rng, i, kind, most)
            }
            23..=25 => {
                let q = *rng.pick(&h.keys);
                let kind = rng.below(8);
                h.query(i, j, kind, rng.below(WAYS), q)
            }
            _ => {
                let steps = 4 + rng.below(if thorough { 60 } else { 24 });
                h.schedule(rng, i, j, steps, false);
                true
            }
        };
        if !ok {
            break;
        }
    }
    h.end();
    let full = table().full;
    (format!("{{\"id\":\"{}\",\"ev\":[{}]}}", h.id, h.ev.join(",")), h.ev.len(), full)
}

/// C16: a tree is built, and an operation panics on a clone of it, for every user-supplied
/// operation in it in turn.
fn faults<T: Track, P: Pad, K: KeyLike + Bounded<TB<T, P>>, V: ValLike>(rng: &mut Rng, id: String, thorough: bool, classes: &mut std::collections::BTreeSet<String>) -> (String, usize, bool, usize) {
    let cfg = config(rng);
    let id = format!("{id} bounds {}{}key {}value {}{cfg:?}", if T::TRACKED { "tracked " } else { "" }, P::NAME, K::NAME, V::NAME);
    let mut h: Hist<T, P, K, V> = Hist::new(rng, id, cfg, 2);
    h.trees.push(None);
    let n = *rng.pick(&[0, 1, 2, 3, 5, 8, 12, 18, 25]);
    let mut ok = true;
    for _ in 0..n {
        let kid = rng.below(h.keys.len());
        ok = ok && if rng.chance(1, 6) { h.remove(0, kid) } else { h.insert(0, kid, false) };
        if rng.chance(1, 3) {
            let kid = rng.below(h.keys.len());
            ok = ok && h.insert(1, kid, false);
        }
    }
    let op = rng.below(25);
    let kid = rng.below(h.keys.len());
    let q = *rng.pick(&h.keys);
    let (kind, most) = (rng.below(6), 1 + rng.below(30));
    let walk = rng.fork();
    let way = if rng.chance(1, 2) { 0 } else { rng.below(WAYS) };
    let run = |h: &mut Hist<T, P, K, V>| match op {
        0..=3 => h.insert(2, kid, false),
        4..=6 => h.insert(2, kid, true),
        7..=10 => h.remove(2, kid),
        11 => h.get(2, kid, false),
        12 => h.get(2, kid, true),
        13 | 14 => {
            // the clone itself
            let j = h.trees.len();
            h.trees.push(None);
            let r = h.step("clone 2", "clone", |h, _| {
                let c = h.trees[2].as_ref().unwrap().clone();
                h.trees[j] = Some(c);
            });
            r && h.step("clone 2, observed", "see", |h, st| h.see(j, st)) && h.discard(j)
        }
        15 | 16 => h.discard(2),
        17 => h.walk_mut(&mut walk.clone(), 2, kind, most),
        _ => h.query(2, if op == 18 { 2 } else { 0 }, kind, way, q),
    };
    let name = match op {
        0..=3 => "insert",
        4..=6 => "insert_unique",
        7..=10 => "remove",
        11 | 12 => "get",
        13 | 14 => "clone",
        15 | 16 => "drop",
        17 => "walk",
        _ => "query",
    };
    let mut panics = 0;
    if ok && op >= 22 {
        // iterators that are used on after panics
        h.clone_to(0, 2);
        for _ in 0..if thorough { 12 } else { 4 } {
            let steps = 4 + rng.below(if thorough { 60 } else { 24 });
            let j = rng.below(2) * 2;
            panics += h.schedule(rng, 2, j, steps, true);
            classes.insert(format!("schedule {}", h.struck));
            if !h.step("iterated after a schedule", "see", |h, st| h.see(2, st)) {
                h.emit("stuck", "the tree cannot be iterated", Step::default());
                break;
            }
        }
    } else if ok {
        // how many calls there are
        h.clone_to(0, 2);
        let all = run(&mut h);
        let calls = if h.ev.last().map_or(false, |e| e.contains("\"op\":\"drop\"")) && name == "clone" { 60 } else { h.calls };
        if all {
            let most = if thorough { 200 } else { 30 };
            let mut at: Vec<u64> = (0..calls).collect();
            while at.len() > most {
                at.swap_remove(rng.below(at.len()));
            }
            for n in at {
                if h.trees[2].is_none() {
                    h.clone_to(0, 2);
                }
                FATAL.with(|f| f.set(n));
                let done = run(&mut h);
                if !done {
                    panics += 1;
                    classes.insert(format!("{name} {}", h.struck));
                    // A tree can be iterated and dropped, and used again: that may well panic, but
                    // has no other consequences.
                    if h.trees[2].is_some() {
                        if !h.survey(2) {
                            break;
                        }
                        let more = if rng.chance(1, 2) { 0 } else { 1 + rng.below(4) };
                        for _ in 0..more {
                            if rng.chance(1, 3) {
                                let n = rng.below(calls as usize + 2) as u64;
                                FATAL.with(|f| f.set(n));
                            }
                            let kid = rng.below(h.keys.len());
                            let ok = match rng.below(8) {
                                0..=1 => h.insert(2, kid, false),
                                2 => h.insert(2, kid, true),
                                3..=5 => h.remove(2, kid),
                                6 => h.get(2, kid, false),
                                _ => h.query(2, 0, rng.below(6), rng.below(WAYS), q),
                            };
                            if !ok && !h.survey(2) {
                                h.end();
                                let full = table().full;
                                return (format!("{{\"id\":\"{}\",\"ev\":[{}]}}", h.id, h.ev.join(",")), h.ev.len(), full, panics);
                            }
                        }
                        if !h.discard(2) {
                            h.emit("stuck", "the tree cannot be dropped", Step::default());
                            break;
                        }
                    }
                } else {
                    h.discard(2);
                }
            }
        }
    }
    h.end();
    let full = table().full;
    (format!("{{\"id\":\"{}\",\"ev\":[{}]}}", h.id, h.ev.join(",")), h.ev.len(), full, panics)
}

pub fn run(a: &Args) {
    OWNER.store(ME.with(|x| x as *const u8 as usize), std::sync::atomic::Ordering::Relaxed);
    let mut rng = Rng::new(a.mine);
    let mut out = String::new();
    let (mut n, mut steps, mut skipped, mut panics) = (0, 0, 0, 0);
    let mut classes = std::collections::BTreeSet::new();
    let mut i = 0;
    while out.len() < a.budget && Instant::now() < a.until {
        i += 1;
        let id = format!("{}.{i}", a.mine);
        let r = &mut rng;
        macro_rules! world {
            ($f:ident $(, $x:expr)*) => {
                match r.below(10) {
                    0 | 1 => $f::<Tracked, (), TK<()>, TV<()>>(r, id, a.thorough $(, $x)*),
                    2 | 3 => $f::<(), (), TK<()>, TV<[u64; 9]>>(r, id, a.thorough $(, $x)*),
                    4 => $f::<(), (), TK<Wide>, TV<Odd>>(r, id, a.thorough $(, $x)*),
                    5 => $f::<(), (), TK<()>, ZV>(r, id, a.thorough $(, $x)*),
                    6 => $f::<(), (), ZK, ZV>(r, id, a.thorough $(, $x)*),
                    7 => $f::<(), (), ZK, TV<()>>(r, id, a.thorough $(, $x)*),
                    8 => $f::<Tracked, Wide, TK<Odd>, TV<()>>(r, id, a.thorough $(, $x)*),
                    _ => $f::<(), (), TK<()>, TV<()>>(r, id, a.thorough $(, $x)*),
                }
            };
        }
        let (line, s, full, p) = if a.prop == "C16" {
            world!(faults, &mut classes)
        } else {
            let (l, s, f) = world!(history);
            (l, s, f, 0)
        };
        if full {
            skipped += 1;
            continue;
        }
        n += 1;
        steps += s;
        panics += p;
        out.push_str(&line);
        out.push('\n');
    }
    std::fs::write(&a.out, &out).expect("write");
    println!(
        "{{\"cases\":{n},\"steps\":{steps},\"features\":{},\"histories\":{n},\"sent\":{steps},\"panics\":{panics},\"skipped\":{skipped}}}",
        classes.len()
    );
}
