//! Several threads at once: queries of one tree that is shared, and changes of trees that were
//! cloned from each other and go from thread to thread (C22).

use crate::queries::{filter_query, join_query, left_join_query, rank_query, sizes, slot, Lent, Query};
use crate::record::{opt_json, snap, Ent, Rec, Sink, Snap, V};
use crate::rng::Rng;
use crate::tree::{config, forest, guarded, Guarded, Tree};
use crate::worlds::{with_world, WithWorld, World, WORLDS};
use std::sync::Barrier;

/// Goes where the compiler might not let it go: what the compiler allows is judged elsewhere
/// (facts.rs), and all types here may be sent and shared.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

const READERS: usize = 4;

/// Looks up every key.
fn gets<W: World>(w: &W, t: &Tree<W>, s: &Snap) -> Query {
    let all: Vec<i32> = (1..=w.nkeys() as i32).collect();
    let r = guarded(|| {
        all.iter()
            .map(|k| {
                let key = w.key(*k as usize, 0);
                if k % 2 == 0 {
                    t.get::<W::K>(&key).map(|v| v.0)
                } else {
                    let q: &W::Q = std::borrow::Borrow::borrow(&key);
                    t.get::<W::Q>(q).map(|v| v.0)
                }
            })
            .collect::<Vec<_>>()
    });
    match r {
        Guarded::Ok(g) => Query {
            suspicious: all.iter().zip(&g).any(|(k, v)| s.first(*k).map(|e| e[2]) != *v),
            fields: format!(
                "\"op\":\"get\",\"s\":1,\"gets\":[{}]",
                all.iter().zip(&g).map(|(k, v)| format!("[{k},{}]", opt_json(*v))).collect::<Vec<_>>().join(",")
            ),
            class: "get".into(),
        },
        Guarded::Panicked => Query::panic(),
    }
}

/// What a thread saw: a query, and the tree afterwards if it made a clone or looked at all of it.
type Seen = (Query, Option<Snap>);

fn read<W: World>(w: &W, t: &Tree<W>, s: &Snap, rng: &mut Rng) -> Seen {
    match rng.below(7) {
        0 => (gets(w, t, s), None),
        1 => (filter_query(w, Lent::Shared(t), s, rng, "C07"), None),
        2 => (rank_query(w, Lent::Shared(t), s, rng, "C09"), None),
        3 => (join_query(w, t, s, w, t, s, 1, rng, "C11"), None),
        4 => (left_join_query(w, t, s, w, t, s, 1, rng, "C12"), None),
        how => {
            let r = guarded(|| if how == 5 { snap(w, &t.clone()) } else { snap(w, t) });
            match r {
                Guarded::Ok(x) => {
                    let suspicious = x.root != s.root || x.it != s.it || x.len != s.len;
                    let fields = if how == 5 {
                        "\"op\":\"clone\",\"s\":1,\"to\":2,\"gens\":[]".into()
                    } else {
                        "\"op\":\"look\",\"s\":1".to_string()
                    };
                    (Query { fields, suspicious, class: format!("look{how}") }, Some(x))
                }
                Guarded::Panicked => (Query::panic(), None),
            }
        }
    }
}

/// One tree on its way from thread to thread.
struct Traveller<W: World> {
    t: Option<Tree<W>>,
    pre: Snap,
    rec: Rec,
    rng: Rng,
    suspicious: bool,
}
fn sorted(v: &[Ent]) -> Vec<Ent> {
    let mut v = v.to_vec();
    v.sort();
    v
}
impl<W: World> Traveller<W> {
    fn go(&mut self, w: &W, steps: usize, ids: &mut i32) {
        for _ in 0..steps {
            let Some(t) = self.t.as_mut() else { return };
            *ids += 1;
            let kid = 1 + self.rng.below(w.nkeys());
            let e: Ent = [kid as i32, if w.has_ser() { *ids } else { 0 }, *ids];
            let what = self.rng.below(4);
            let first = self.pre.first(e[0]);
            let r = guarded(|| match what {
                0 | 1 => {
                    t.insert(w.key(kid, e[1]), V::new(e[2]));
                    (format!("\"op\":\"insert\",\"s\":1,\"e\":{e:?}"), None, snap(w, t))
                }
                2 => {
                    let r = t.insert_unique(w.key(kid, e[1]), V::new(e[2])).map(|v| v.0);
                    (format!("\"op\":\"insert_unique\",\"s\":1,\"e\":{e:?},\"res\":{}", opt_json(r)), r, snap(w, t))
                }
                _ => {
                    let r = t.remove::<W::K>(&w.key(kid, 0)).map(|v| v.0);
                    (format!("\"op\":\"remove\",\"s\":1,\"k\":{kid},\"res\":{},\"gets\":[]", opt_json(r)), r, snap(w, t))
                }
            });
            match r {
                Guarded::Ok((fields, res, post)) => {
                    let mut want = sorted(&self.pre.it);
                    match (what, first) {
                        (2, Some(f)) => {
                            let i = want.iter().position(|x| *x == f).unwrap();
                            want[i][2] = e[2];
                        }
                        (3, Some(f)) => want.retain(|x| *x != f),
                        (3, None) => {}
                        _ => want.push(e),
                    }
                    self.suspicious |= (what >= 2 && res != first.map(|f| f[2]))
                        || sorted(&want) != sorted(&post.it)
                        || post.len != post.it.len() as i64;
                    self.rec.event(fields, Some(&[(1, &post)]));
                    self.pre = post;
                }
                Guarded::Panicked => {
                    self.suspicious = true;
                    self.rec.event(Query::panic().fields, None);
                    std::mem::forget(self.t.take());
                    return;
                }
            }
        }
    }
}

struct Case<'a> {
    rng: Rng,
    sink: &'a mut Sink,
    id: String,
}
impl WithWorld for Case<'_> {
    type Out = ();
    fn run<W: World>(mut self, w: W) {
        let (n, _) = sizes(&mut self.rng, true);
        let cfg = config(&mut self.rng);
        let id = format!("{}/{}/{}-{}", self.id, w.name(), cfg.0, cfg.1);
        crate::watch::note(|| id.clone());
        let slots = [slot(&w, cfg), slot(&w, cfg)];
        let Some((t, s)) = forest(&w, &mut self.rng, cfg, n) else {
            let mut r = Rec::new(id, &slots[..1], vec![]);
            r.event(Query::panic().fields, None);
            self.sink.put("panic".into(), true, r);
            return;
        };
        // readers
        let shared = Force((&w, &t, &s));
        let gate = Barrier::new(READERS);
        let rngs: Vec<Rng> = (0..READERS).map(|_| self.rng.fork()).collect();
        let seen: Vec<Force<Vec<Seen>>> = std::thread::scope(|scope| {
            let (shared, gate) = (&shared, &gate);
            let hs: Vec<_> = rngs
                .into_iter()
                .map(|mut rng| {
                    scope.spawn(move || {
                        let (w, t, s) = *shared.get();
                        gate.wait();
                        Force((0..5).map(|_| read(w, t, s, &mut rng)).collect::<Vec<_>>())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("a reader panicked outside the library")).collect()
        });
        for (i, Force(qs)) in seen.into_iter().enumerate() {
            for (j, (q, post)) in qs.into_iter().enumerate() {
                let mut r = Rec::new(format!("{id}/r{i}.{j}"), &slots, vec![2]);
                r.alt = true;
                r.init(&[(1, &s)]);
                let clone = q.fields.starts_with("\"op\":\"clone\"");
                match &post {
                    Some(x) if clone => r.event(q.fields, Some(&[(1, &s), (2, x)])),
                    Some(x) => r.event(q.fields, Some(&[(1, x)])),
                    None => r.event(q.fields, None),
                }
                self.sink.put(q.class, q.suspicious, r);
            }
        }
        crate::watch::tick();
        // clones of one tree, changed at the same time; the threads exchange them half way
        let mut all: Vec<Force<Traveller<W>>> = vec![];
        let mut trees = vec![];
        for _ in 1..READERS {
            match guarded(|| t.clone()) {
                Guarded::Ok(u) => trees.push(u),
                Guarded::Panicked => return,
            }
        }
        trees.push(t);
        for (i, t) in trees.into_iter().enumerate() {
            let mut rec = Rec::new(format!("{id}/t{i}"), &slots[..1], vec![]);
            rec.init(&[(1, &s)]);
            all.push(Force(Traveller { t: Some(t), pre: s.clone(), rec, rng: self.rng.fork(), suspicious: false }));
        }
        for round in 0..2 {
            let w = Force(&w);
            let gate = Barrier::new(all.len());
            std::thread::scope(|scope| {
                let (w, gate) = (&w, &gate);
                for (i, tr) in all.iter_mut().enumerate() {
                    scope.spawn(move || {
                        gate.wait();
                        let mut ids = 1_000 + 1_000 * round + 100 * i as i32;
                        tr.get_mut().go(w.get(), 5, &mut ids);
                    });
                }
            });
            all.rotate_left(1);
            crate::watch::tick();
        }
        for (i, Force(tr)) in all.into_iter().enumerate() {
            let Traveller { t, rec, suspicious, .. } = tr;
            self.sink.put(format!("travel{i} {}", n.min(4)), suspicious, rec);
            // dropped by this thread, not by the one that changed it
            drop(t);
        }
    }
}

pub fn drive(seed: u64, sink: &mut Sink, cases: usize, until: std::time::Instant) {
    let mut rng = Rng::new(seed ^ 0x7468);
    for i in 0..cases {
        if std::time::Instant::now() > until || sink.suspects() >= 6 {
            break;
        }
        let which = rng.below(WORLDS);
        let (_, k) = sizes(&mut rng, true);
        let case = Case { rng: rng.fork(), sink, id: format!("c{seed}.{i}") };
        with_world(which, &mut rng.fork(), k, case);
    }
}
