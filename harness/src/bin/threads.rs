//! Trees used by several threads (C22).
use rtharness::{record::Sink, threads, Args};

fn main() {
    let a = Args::start();
    let mut sink = Sink::new(a.mine, if a.thorough { 400 } else { 40 });
    threads::drive(a.mine, &mut sink, 1_000_000, a.until);
    a.finish(sink, (0, true));
}
