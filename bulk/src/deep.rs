//! Trees of boxes around each other, in a thread with a stack of the usual size.
//! MAX MIN N STACK_KIB; ends normally, or the process is ended by a signal.
//!
//! The recursion of the library is as deep as the tree is high. With a minimum of at least two
//! children that is logarithmic. With a minimum of one each of these boxes makes the tree one
//! level higher.
use rusty_rtree::bounds::{SAABB, AABB};
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};

fn main() {
    let a: Vec<usize> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (max, min, n, kib) = (a[0], a[1], a[2], a[3]);
    let run = move || {
        let key = |i: usize| -> SAABB<i32, 2> { AABB { min: SVec([-(i as i32); 2]), max: SVec([i as i32; 2]) } };
        let mut t: RTree<SAABB<i32, 2>, SAABB<i32, 2>, usize> = RTree::new(RTreeConfig { max_children: max, min_children: min });
        for i in 0..n {
            t.insert(key(i), i);
        }
        let c = t.clone();
        assert_eq!(c.iter().count(), n);
        for i in 0..100 {
            assert_eq!(t.remove(&key(n - 1 - i)), Some(n - 1 - i));
        }
        assert_eq!(t.len() + 100, n);
    };
    std::thread::Builder::new().stack_size(kib * 1024).spawn(run).unwrap().join().expect("the thread panicked");
}
