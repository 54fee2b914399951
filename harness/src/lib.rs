pub mod rng;
pub mod rt;
pub mod num;
#[cfg(feature = "lean")]
pub mod model;
#[cfg(feature = "lean")]
pub mod shape;
#[cfg(feature = "lean")]
pub mod quota;
#[cfg(feature = "lean")]
pub mod jsonref;
#[cfg(feature = "zc")]
pub mod zc;

#[global_allocator]
static ALLOC: rt::counting::Counting = rt::counting::Counting;

/// Equality of JSON documents: 1.0 and 1 are the same number.
#[cfg(feature = "serl")]
pub fn json_eq(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value as J;
    match (a, b) {
        (J::Number(a), J::Number(b)) => a == b || ((a.is_f64() || b.is_f64()) && a.as_f64() == b.as_f64()),
        (J::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| json_eq(a, b)),
        (J::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| json_eq(v, w))),
        (a, b) => a == b,
    }
}
