//! Histories of operations (C01..C06, C13, C15).
use rtharness::{tree, record::Sink, Args};

fn main() {
    let a = Args::start();
    let mut sink = Sink::new(a.mine, if a.thorough { 400 } else { 40 });
    let explored = tree::explore(&a.prop, a.seed, &mut sink, a.thorough, a.part, a.half);
    tree::drive(&a.prop, a.mine, &mut sink, 1_000_000, a.until);
    a.finish(sink, explored);
}
