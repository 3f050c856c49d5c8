pub use rtcommon::{dbg, rng};
pub mod draw;
pub mod facts;
pub mod geo;
pub mod own;
pub mod queries;
pub mod record;
pub mod threads;
pub mod total;
pub mod tree;
pub mod watch;
pub mod worlds;

use std::time::{Duration, Instant};

/// PROP SEED TIER OUT BUDGET SECONDS PART PARTS
pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub mine: u64,
    pub thorough: bool,
    pub out: String,
    pub budget: usize,
    pub half: Instant,
    pub until: Instant,
    pub part: (usize, usize),
}
impl Args {
    pub fn start() -> Args {
        let a: Vec<String> = std::env::args().collect();
        if std::env::var("RT_PROBE").is_ok() {
            record::USE_PROBE.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        let seed: u64 = a[2].parse().unwrap();
        let secs: f64 = a[6].parse().unwrap();
        let part: (usize, usize) = (a[7].parse().unwrap(), a[8].parse().unwrap());
        watch::quiet_panics();
        watch::start(30, &a[4]);
        let now = Instant::now();
        Args {
            prop: a[1].clone(),
            seed,
            mine: seed.wrapping_mul(1000).wrapping_add(part.0 as u64),
            thorough: a[3] == "thorough",
            out: a[4].clone(),
            budget: a[5].parse().unwrap(),
            half: now + Duration::from_secs_f64(secs / 2.0),
            until: now + Duration::from_secs_f64(secs),
            part,
        }
    }
    pub fn finish(&self, sink: record::Sink, explored: (usize, bool)) {
        let (cases, steps, features) = (sink.cases, sink.steps, sink.features());
        let suspects = sink.suspects();
        let (n, sent) = sink.write(&self.out, self.budget).expect("write");
        println!(
            "{{\"cases\":{cases},\"steps\":{steps},\"features\":{features},\"histories\":{n},\"sent\":{sent},\"suspects\":{suspects},\"arrangements\":{},\"complete\":{}}}",
            explored.0, explored.1
        );
    }
}
