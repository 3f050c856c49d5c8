//! The ways in which a user may draw from an iterator. Every way must give the same entries.

pub const WAYS: usize = 8;

/// What an iterator said about itself: (yielded before, lower bound, upper bound or -1).
pub type Hint = (usize, i64, i64);

pub struct Drawn {
    pub end: bool,
    pub hints: Vec<Hint>,
}

fn small(x: usize) -> i64 {
    x.min(1_000_000) as i64
}
pub fn hint<I: Iterator>(it: &I, n: usize) -> Hint {
    let (lo, hi) = it.size_hint();
    (n, small(lo), hi.map_or(-1, small))
}

/// The next item, drawn in one of several ways.
pub fn one<I: Iterator>(it: &mut I, way: usize) -> Option<I::Item> {
    match way % 4 {
        0 => it.next(),
        1 => it.nth(0),
        2 => it.find(|_| true),
        _ => it.by_ref().take(1).last(),
    }
}

/// The same end as that of a call that does not return.
fn endless() -> ! {
    eprintln!("an iteration does not end");
    std::process::exit(97)
}

/// Draws at most `most` items; an iteration that was to go to its end is cut off at `cap`.
pub fn draw<I: Iterator>(
    it: I,
    way: usize,
    most: usize,
    cap: usize,
    mut put: impl FnMut(I::Item),
) -> Drawn {
    let mut it = it;
    let mut n = 0;
    let mut hints = vec![hint(&it, 0)];
    let upto = most.min(cap);
    match way % WAYS {
        // by value, in one go
        4 if most > cap => {
            it.for_each(|x| {
                n += 1;
                if n <= cap {
                    put(x);
                } else if n > 10 * cap + 1_000_000 {
                    endless();
                }
            });
            return Drawn { end: n <= cap, hints };
        }
        5 if most > cap => {
            let all: Vec<I::Item> = it.take(cap + 1).collect();
            let end = all.len() <= cap;
            all.into_iter().take(cap).for_each(put);
            return Drawn { end, hints };
        }
        // the first few one by one, the rest in one go
        6 if most > cap => {
            for _ in 0..3 {
                match it.next() {
                    Some(x) => put(x),
                    None => return Drawn { end: true, hints },
                }
                n += 1;
            }
            hints.push(hint(&it, n));
            it.fold((), |(), x| {
                n += 1;
                if n <= cap {
                    put(x);
                } else if n > 10 * cap + 1_000_000 {
                    endless();
                }
            });
            return Drawn { end: n <= cap, hints };
        }
        w => {
            let mut end = false;
            while n < upto {
                match one(&mut it, if w == 7 { n } else { w }) {
                    Some(x) => put(x),
                    None => {
                        end = true;
                        break;
                    }
                }
                n += 1;
                if n == 1 || n == 5 {
                    hints.push(hint(&it, n));
                }
            }
            if end {
                // a finished iterator stays finished
                for i in 0..2 {
                    if let Some(x) = one(&mut it, i) {
                        put(x);
                    }
                }
            }
            Drawn { end, hints }
        }
    }
}

pub fn hints_json(h: &[Hint]) -> String {
    let v: Vec<String> = h.iter().map(|(n, lo, hi)| format!("[{n},{lo},{hi}]")).collect();
    format!("[{}]", v.join(","))
}
/// Roughly what the specification demands.
pub fn hints_ok(h: &[Hint], n: usize, end: bool) -> bool {
    let n = n as i64;
    h.iter().all(|(k, lo, hi)| {
        let k = *k as i64;
        (!end || k + lo <= n) && (*hi == -1 || k + hi >= n)
    })
}

/// Another way to draw: j items one by one, then (1) nth(k) and the rest, (2) last(), (3) every
/// k-th item, (4) skip(k), (5) the last by reduce(). 0: not at all.
#[derive(Clone, Copy, PartialEq)]
pub struct Part {
    pub kind: usize,
    pub j: usize,
    pub k: usize,
}
pub const NO_PART: Part = Part { kind: 0, j: 0, k: 1 };

impl Part {
    pub fn pick(rng: &mut crate::rng::Rng, n: usize) -> Part {
        let some = |rng: &mut crate::rng::Rng| if rng.chance(1, 2) { rng.below(4) } else { rng.below(n + 2) };
        let kind = 1 + rng.below(5);
        let j = if rng.chance(1, 2) { 0 } else { some(rng) };
        let k = some(rng);
        Part { kind, j, k: if kind == 3 { k + 1 } else { k } }
    }
    /// The positions, from 1, of the items seen when there are n.
    pub fn seen(&self, n: usize) -> Vec<usize> {
        let Part { kind, j, k } = *self;
        (1..=n)
            .filter(|i| {
                *i <= j
                    || match kind {
                        1 | 4 => *i > j + k,
                        3 => (i - j - 1) % k == 0,
                        _ => *i == n,
                    }
            })
            .collect()
    }
    pub fn json(&self, got: &str) -> String {
        format!("[{},{},{},{got}]", [0, 1, 2, 3, 1, 2][self.kind], self.j, self.k)
    }
    pub fn draw<I: Iterator>(&self, mut it: I, cap: usize, put: &mut dyn FnMut(I::Item)) {
        for _ in 0..self.j {
            match it.next() {
                Some(x) => put(x),
                None => return,
            }
        }
        match self.kind {
            1 => {
                if let Some(x) = it.nth(self.k) {
                    put(x);
                    it.take(cap).for_each(put);
                }
            }
            2 => it.last().into_iter().for_each(put),
            3 => it.step_by(self.k).take(cap).for_each(put),
            4 => it.skip(self.k).take(cap).collect::<Vec<_>>().into_iter().for_each(put),
            5 => it.reduce(|_, b| b).into_iter().for_each(put),
            _ => (),
        }
    }
    /// Roughly what the specification demands of what was got, when `all` is there to be had.
    pub fn ok<T: Clone + Eq + std::hash::Hash>(&self, got: &[T], all: &[T]) -> bool {
        let (g, a): (std::collections::HashSet<_>, std::collections::HashSet<_>) =
            (got.iter().collect(), all.iter().collect());
        g.len() == got.len() && g.is_subset(&a) && got.len() == self.seen(all.len()).len()
    }
}
