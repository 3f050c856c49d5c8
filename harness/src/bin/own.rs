//! Ownership (C14, C16).
#[global_allocator]
static ALLOC: rtharness::own::Tracker = rtharness::own::Tracker;

fn main() {
    let a = rtharness::Args::start();
    rtharness::own::run(&a);
}
