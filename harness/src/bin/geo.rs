//! Geometry (C17..C20).
fn main() {
    let a = rtharness::Args::start();
    rtharness::geo::run(&a);
}
