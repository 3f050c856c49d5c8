//! Filtered and ranked queries (C07..C10).
use rtharness::{queries, record::Sink, Args};

fn main() {
    let a = Args::start();
    let mut sink = Sink::new(a.mine, if a.thorough { 400 } else { 40 });
    queries::drive(&a.prop, a.mine, &mut sink, 1_000_000, a.until);
    a.finish(sink, (0, true));
}
