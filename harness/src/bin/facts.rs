//! What the compiler lets threads do (C22).
use rtharness::{facts, Args};

fn main() {
    let a = Args::start();
    let facts = facts::facts();
    let mut lines = String::new();
    let (mut n, mut steps) = (0, 0);
    for (i, c) in facts.chunks(8).enumerate() {
        if i % a.part.1 == a.part.0 {
            lines.push_str(&format!("{{\"id\":\"facts {i}\",\"ev\":[{}]}}\n", c.join(",")));
            n += 1;
            steps += c.len();
        }
    }
    std::fs::write(&a.out, lines).expect("write");
    println!("{{\"cases\":{steps},\"steps\":{steps},\"features\":{n},\"histories\":{n},\"sent\":{steps},\"arrangements\":0,\"complete\":true}}");
}
