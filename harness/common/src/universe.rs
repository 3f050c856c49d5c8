//! The boxes of the keys of a history.

use crate::rng::Rng;
use crate::snap::IBox;

/// The boxes of the keys of one universe, in f64 (exact for all scalars used).
#[derive(Clone)]
pub struct Universe {
    pub d: usize,
    pub boxes: Vec<(Vec<f64>, Vec<f64>)>,
    pub palette: Vec<f64>,
    pub kboxes: Vec<IBox>,
}

impl Universe {
    pub fn new(d: usize, boxes: Vec<(Vec<f64>, Vec<f64>)>) -> Self {
        let mut palette: Vec<f64> = boxes.iter().flat_map(|b| b.0.iter().chain(b.1.iter())).cloned().collect();
        palette.sort_by(|a, b| a.partial_cmp(b).unwrap());
        palette.dedup();
        let mut u = Universe { d, boxes, palette, kboxes: vec![] };
        u.kboxes = u.boxes.iter().map(|b| u.project(&b.0, &b.1)).collect();
        u
    }
    pub fn rank(&self, x: f64) -> i32 {
        let below = self.palette.partition_point(|p| *p < x);
        if below < self.palette.len() && self.palette[below] == x {
            2 * (below as i32 + 1)
        } else {
            2 * below as i32 + 1
        }
    }
    pub fn project(&self, lo: &[f64], hi: &[f64]) -> IBox {
        // an empty box stays one, even between two neighbouring numbers
        let apart = |i: usize| lo[i] > hi.get(i).cloned().unwrap_or(f64::MAX) && self.rank(lo[i]) == self.rank(hi[i]);
        (
            (0..lo.len()).map(|i| self.rank(lo[i]) + apart(i) as i32).collect(),
            (0..hi.len()).map(|i| self.rank(hi[i]) - (i < lo.len() && apart(i)) as i32).collect(),
        )
    }
    /// Random boxes. `lo..=hi` is the range of the scalar.
    pub fn random(rng: &mut Rng, d: usize, n: usize, lo: f64, hi: f64, points: bool) -> Universe {
        let scheme = rng.below(6);
        // the pool of coordinates
        let pool: Vec<f64> = match scheme {
            0 | 1 => {
                let m = 3 + rng.below(8);
                (0..m).map(|i| (i as f64 * if scheme == 0 { 1.0 } else { 3.0 }).min(hi)).collect()
            }
            2 => (0..6 + rng.below(10))
                .map(|_| {
                    let span = hi.min(1000.0) - lo.max(-1000.0);
                    (lo.max(-1000.0) + (rng.below(span as usize + 1)) as f64).floor()
                })
                .collect(),
            3 => {
                // extremes of the scalar
                let mut v = vec![lo, hi];
                for _ in 0..2 + rng.below(6) {
                    let x = rng.below(6) as f64;
                    v.push(match rng.below(3) {
                        0 if lo + x > lo || x == 0.0 => lo + x,
                        1 if hi - x < hi || x == 0.0 => hi - x,
                        _ => x.min(hi),
                    });
                }
                v
            }
            _ => (0..12 + rng.below(20)).map(|i| (i as f64).min(hi)).collect(),
        };
        let shape = rng.below(8);
        // what the boxes of a crowd have in common
        let (least, most) = pool.iter().fold((hi, lo), |m, x| (m.0.min(*x), m.1.max(*x)));
        let centre = *rng.pick(&pool);
        let mut boxes: Vec<(Vec<f64>, Vec<f64>)> = vec![];
        while boxes.len() < n {
            if !boxes.is_empty() && !points && rng.chance(1, 12) {
                let b = rng.pick(&boxes).clone();
                boxes.push(b);
                continue;
            }
            let kind = match shape {
                _ if points => 0,
                4 => 1 + rng.below(3),
                // most of them contain the centre
                5 | 6 if rng.chance(9, 10) => 4,
                // few are long
                7 if rng.chance(9, 10) => 2 * rng.below(2),
                _ => rng.below(4),
            };
            let long = if shape == 7 && kind != 0 && kind != 2 { rng.below(d) } else { d };
            let mut a = vec![];
            let mut b = vec![];
            for dim in 0..d {
                let mut x = *rng.pick(&pool);
                let y = match kind {
                    _ if dim == long => {
                        x = least;
                        most
                    }
                    4 => {
                        x = x.min(centre);
                        rng.pick(&pool).max(centre)
                    }
                    0 => x,
                    1 => *rng.pick(&pool),
                    2 => {
                        // a short side
                        let mut s = pool.clone();
                        s.sort_by(|p, q| p.partial_cmp(q).unwrap());
                        let i = s.iter().position(|p| *p == x).unwrap();
                        s[(i + rng.below(3)).min(s.len() - 1)]
                    }
                    _ => {
                        if rng.chance(1, 2) {
                            x
                        } else {
                            *rng.pick(&pool)
                        }
                    }
                };
                a.push(x.min(y));
                b.push(x.max(y));
            }
            boxes.push((a, b));
        }
        Universe::new(d, boxes)
    }
}
