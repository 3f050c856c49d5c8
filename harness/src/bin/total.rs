//! Whether everything returns (C21).
fn main() {
    let a = rtharness::Args::start();
    rtharness::total::run(&a);
}
