//! Executes behaviours of the specification (spec/GenRTree) with the real library.
//! RT_REPLAY names a file with a behaviour per line: id max min nkeys (lo lo hi hi)* (op slot key)*
use rtharness::{record::Sink, rng::Rng, tree, worlds, Args};

fn main() {
    let a = Args::start();
    let mut sink = Sink::new(a.mine, 10_000);
    let text = std::fs::read_to_string(std::env::var("RT_REPLAY").expect("RT_REPLAY")).expect("behaviours");
    let mut rng = Rng::new(a.mine);
    let mut lines: Vec<&str> = text.lines().collect();
    lines.truncate(1_000_000);
    for (n, line) in lines.iter().enumerate() {
        if std::time::Instant::now() > a.until {
            break;
        }
        let t: Vec<i64> = line.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
        let id = line.split_whitespace().next().unwrap().to_string();
        let nkeys = t[2] as usize;
        let boxes: Vec<Vec<i64>> = t[3..3 + 4 * nkeys].chunks(4).map(|c| c.to_vec()).collect();
        let ops: Vec<(i64, usize, usize)> =
            t[3 + 4 * nkeys..].chunks(3).map(|c| (c[0], c[1] as usize, c[2] as usize)).collect();
        rtharness::watch::note(|| id.clone());
        let b = tree::Behaviour { prop: &a.prop, sink: &mut sink, id, cfg: (t[0] as usize, t[1] as usize), ops, rng: rng.fork() };
        worlds::with_boxes(n, &boxes, b);
    }
    a.finish(sink, (0, true));
}
