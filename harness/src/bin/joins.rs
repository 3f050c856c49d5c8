//! Joins and left joins (C08, C11, C12).
use rtharness::{queries, record::Sink, Args};

fn main() {
    let a = Args::start();
    let mut sink = Sink::new(a.mine, if a.thorough { 400 } else { 40 });
    queries::drive_joins(&a.prop, a.mine, &mut sink, 1_000_000, a.until);
    a.finish(sink, (0, true));
}
