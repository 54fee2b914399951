//! Z07: swiss-table maps and sets answer exactly like a hash map.
use musli_zerocopy::swiss as store;
macro_rules! lens {
    ($what:expr, $map:expr, $bound:expr, $n:expr) => {
        ensure!($map.len() == $n, "{}: len() is {} after {} insertions", $what, $map.len(), $n);
        ensure!($bound.len() == $n, "{}: bound len() is {} after {} insertions", $what, $bound.len(), $n);
        ensure!($map.is_empty() == ($n == 0) && $bound.is_empty() == ($n == 0), "{}: is_empty() is wrong for {} entries", $what, $n);
    };
}
include!("../maps.rs");
fn main() {
    let mut g = Groups::new();
    all(&mut g);
    vh::rt::main(g);
}
