//! Z06: perfect-hash maps and sets answer exactly like a hash map.
use musli_zerocopy::phf as store;
macro_rules! lens {
    ($what:expr, $map:expr, $bound:expr, $n:expr) => {
        let _ = (&$map, &$bound);
    };
}
include!("../maps.rs");
fn main() {
    let mut g = Groups::new();
    all(&mut g);
    vh::rt::main(g);
}
