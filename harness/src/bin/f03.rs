//! F03: self-descriptive data keeps its structure through the dynamic value.
use musli::alloc::System;
use musli::value::{self, Value};
use musli::{Decode, Encode};
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{self, Case, Groups, R};
use vh::shape::{self, Cfg, Plan, Shape, Walk};
use vh::{ensure, fail};

type Val = Value<System>;

fn int_u(v: &Val, want: u128, n: &mut u64) -> R {
    *n += 1;
    match (v, value::decode::<u128>(v)) {
        (Value::Number(..), Ok(g)) if g == want => Ok(()),
        (_, g) => Err(format!("{v:?} ({g:?}) stands for the number {want}")),
    }
}
fn int_i(v: &Val, want: i128, n: &mut u64) -> R {
    *n += 1;
    match (v, value::decode::<i128>(v)) {
        (Value::Number(..), Ok(g)) if g == want => Ok(()),
        (_, g) => Err(format!("{v:?} ({g:?}) stands for the number {want}")),
    }
}

/// Compare the dynamic value with what was encoded.
fn same(json: bool, s: &Shape, v: &Val, n: &mut u64) -> R {
    let bad = || Err(format!("{} became {v:?}", show(s)));
    *n += 1;
    match (s, v) {
        (Shape::Empty, Value::Unit) => Ok(()),
        (Shape::None, Value::Option(None)) => Ok(()),
        // JSON writes both as null and marks no options.
        (Shape::Empty | Shape::None, Value::Unit | Value::Option(None)) if json => Ok(()),
        (Shape::Some(s), v) if json => same(json, s, v, n),
        (Shape::Some(s), Value::Option(Some(v))) => same(json, s, v, n),
        (Shape::Bool(a), Value::Bool(b)) if a == b => Ok(()),
        (Shape::Char(a), Value::Char(b)) if a == b && !json => Ok(()),
        (Shape::Char(a), Value::String(b)) if json && b.as_str() == a.to_string() => Ok(()),
        (Shape::U8(a), v) => int_u(v, *a as u128, n),
        (Shape::U16(a), v) => int_u(v, *a as u128, n),
        (Shape::U32(a), v) => int_u(v, *a as u128, n),
        (Shape::U64(a), v) => int_u(v, *a as u128, n),
        (Shape::U128(a), v) => int_u(v, *a, n),
        (Shape::Usize(a), v) => int_u(v, *a as u128, n),
        (Shape::I8(a), v) => int_i(v, *a as i128, n),
        (Shape::I16(a), v) => int_i(v, *a as i128, n),
        (Shape::I32(a), v) => int_i(v, *a as i128, n),
        (Shape::I64(a), v) => int_i(v, *a as i128, n),
        (Shape::I128(a), v) => int_i(v, *a, n),
        (Shape::Isize(a), v) => int_i(v, *a as i128, n),
        (Shape::F32(a), Value::Number(..)) => match value::decode::<f32>(v) {
            Ok(g) if g.to_bits() == *a => Ok(()),
            g => Err(format!("f32 {} ({a:#x}) became {v:?} ({g:?})", f32::from_bits(*a))),
        },
        (Shape::F64(a), Value::Number(..)) => match value::decode::<f64>(v) {
            Ok(g) if g.to_bits() == *a => Ok(()),
            g => Err(format!("f64 {} ({a:#x}) became {v:?} ({g:?})", f64::from_bits(*a))),
        },
        (Shape::Str(a), Value::String(b)) if a == b.as_str() => Ok(()),
        (Shape::Bytes(a), Value::Bytes(b)) if a[..] == b[..] && !json => Ok(()),
        (Shape::Array(a), Value::Bytes(b)) if a[..] == b[..] && !json => Ok(()),
        (Shape::Bytes(a), Value::Sequence(b)) if json && a.len() == b.len() => a.iter().zip(b.iter()).try_for_each(|(a, b)| int_u(b, *a as u128, n)),
        (Shape::Array(a), Value::Sequence(b)) if json && a.len() == b.len() => a.iter().zip(b.iter()).try_for_each(|(a, b)| int_u(b, *a as u128, n)),
        (Shape::Seq(a), Value::Sequence(b)) if a.len() == b.len() => a.iter().zip(b.iter()).try_for_each(|(a, b)| same(json, a, b, n)),
        (Shape::Pack(a), Value::Sequence(b)) if json && a.len() == b.len() => a.iter().zip(b.iter()).try_for_each(|(a, b)| same(json, a, b, n)),
        // A pack carries no kinds: its bytes are all there is.
        (Shape::Pack(_), Value::Bytes(b)) if !json => {
            let want = shape::reference(Kind::Packed, s, PACK.get().unwrap()).map_err(|()| "reference".to_string())?;
            if want[..] == b[..] { Ok(()) } else { bad() }
        }
        (Shape::Map(a), Value::Map(b)) if a.len() == b.len() => a.iter().zip(b.iter()).try_for_each(|((ak, av), (bk, bv))| {
            key(json, ak, bk, n)?;
            same(json, av, bv, n)
        }),
        (Shape::Variant(t, d), Value::Variant(b)) if !json => {
            same(json, t, &b.0, n)?;
            same(json, d, &b.1, n)
        }
        (Shape::Variant(t, d), Value::Map(b)) if json && b.len() == 1 => {
            key(json, t, &b[0].0, n)?;
            same(json, d, &b[0].1, n)
        }
        _ => bad(),
    }
}
thread_local! { static PACK: std::cell::Cell<Option<shape::Lay>> = const { std::cell::Cell::new(None) }; }

/// Keys are strings in JSON; numbers are written as their decimal digits.
fn key(json: bool, s: &Shape, v: &Val, n: &mut u64) -> R {
    match (s, v) {
        (Shape::U32(a), Value::String(b)) if json && b.as_str() == a.to_string() => Ok(()),
        _ => same(json, s, v, n),
    }
}

fn tree<F: Fmt>(c: &mut Case<'_>, lay: shape::Lay) -> R {
    let json = F::KIND == Kind::Json;
    PACK.set(Some(lay));
    let pack = c.rng.chance(1, 4);
    let cfg = Cfg { depth: if c.rng.chance(1, 10) { 6 } else { 4 }, json, pack, ..Cfg::ALL };
    let s = shape::gen(&mut c.rng, cfg, 0);
    let b = F::to_vec(&s).map_err(|e| format!("{}: encoding {}: {e}", F::NAME, show(&s)))?;
    c.seen_bytes(&b);
    c.sample(|| format!("{s:?}"));
    let v: Val = match F::from_slice(&b) {
        Ok(v) => v,
        Err(e) => fail!("{}: reading {} into a value failed: {e}; bytes {}", F::NAME, show(&s), hex(&b)),
    };
    let mut n = 0;
    if let Err(e) = same(json, &s, &v, &mut n) {
        fail!("{}: reading {} into a value: {e}; bytes {}", F::NAME, show(&s), hex(&b));
    }
    c.events("nodes of dynamic values compared", n);
    // Writing the value again gives data which reads back as the same value and as the original.
    let again = F::to_vec(&v).map_err(|e| format!("{}: encoding the value {v:?}: {e}", F::NAME))?;
    let w: Val = F::from_slice(&again).map_err(|e| format!("{}: reading back the value of {}: {e}", F::NAME, show(&s)))?;
    let mut n = 0;
    if let Err(e) = same(json, &s, &w, &mut n) {
        fail!("{}: reading {} through a value and back: {e}; bytes {} then {}", F::NAME, show(&s), hex(&b), hex(&again));
    }
    if !s.has_pack() || json {
        let plan = Plan::new(Rng::new(1), 0, 0);
        let (r, plan) = shape::with_walk(vec![s.clone()], plan, || F::from_slice::<Walk>(&again));
        if let Err(e) = r {
            fail!("{}: {} written through a value cannot be read: {e}; bytes {} then {}", F::NAME, show(&s), hex(&b), hex(&again));
        }
        if let Some(m) = plan.mismatch {
            fail!("{}: {} written through a value: {m}; bytes {} then {}", F::NAME, show(&s), hex(&b), hex(&again));
        }
        c.event("trees read from a rewritten value");
    }
    if !json {
        ensure!(b == again, "{}: {} written through a value: {}", F::NAME, show(&s), differ(&b, &again));
        c.event("rewritten values byte for byte");
    }
    if !json && !s.has_pack() {
        let plan = Plan::new(Rng::new(1), 0, 0);
        let (r, plan) = shape::with_walk(vec![s.clone()], plan, || value::decode::<Walk>(&v));
        if let Err(e) = r {
            fail!("{}: the value of {} cannot be decoded: {e}", F::NAME, show(&s));
        }
        if let Some(m) = plan.mismatch {
            fail!("{}: decoding the value of {}: {m}", F::NAME, show(&s));
        }
        c.event("trees decoded from a value");
    }
    Ok(())
}

/// JSON text from an independent writer, read into a value.
fn json_text(c: &mut Case<'_>) -> R {
    let s = shape::gen(&mut c.rng, Cfg { depth: 4, json: true, ..Cfg::ALL }, 0);
    let b = Json::to_vec(&s)?;
    let j: serde_json::Value = match serde_json::from_slice(&b) {
        Ok(j) => j,
        // Numbers outside what the other library holds.
        Err(_) => return Ok(()),
    };
    // The same document in other clothes: pretty-printed.
    let pretty = serde_json::to_string_pretty(&j).unwrap();
    let v: Val = Json::from_slice(pretty.as_bytes()).map_err(|e| format!("json: reading {pretty} into a value: {e}"))?;
    let w: Val = Json::from_slice(serde_json::to_string(&j).unwrap().as_bytes())?;
    ensure!(v == w, "json: {pretty} gives different values with and without white space");
    let mut n = 0;
    if let Err(e) = same_json(&j, &v, &mut n) {
        fail!("json: {pretty}: {e}");
    }
    let again = Json::to_vec(&v)?;
    let k: serde_json::Value = serde_json::from_slice(&again).map_err(|e| format!("json: {} is not JSON: {e}", String::from_utf8_lossy(&again)))?;
    ensure!(vh::json_eq(&k, &j), "json: {pretty} became {} through a value", String::from_utf8_lossy(&again));
    c.seen_bytes(&again);
    c.events("nodes compared with serde_json", n);
    Ok(())
}
fn same_json(j: &serde_json::Value, v: &Val, n: &mut u64) -> R {
    use serde_json::Value as J;
    *n += 1;
    match (j, v) {
        (J::Null, Value::Unit | Value::Option(None)) => Ok(()),
        (J::Bool(a), Value::Bool(b)) if a == b => Ok(()),
        (J::Number(a), v) if a.is_u64() => int_u(v, a.as_u64().unwrap() as u128, n),
        (J::Number(a), v) if a.is_i64() => int_i(v, a.as_i64().unwrap() as i128, n),
        (J::Number(a), Value::Number(..)) => {
            let g = value::decode::<f64>(v).map_err(|e| format!("{a} became {v:?}: {e}"))?;
            if Some(g.to_bits()) == a.as_f64().map(|a| a.to_bits()) { Ok(()) } else { Err(format!("{a} became {v:?}")) }
        }
        (J::String(a), Value::String(b)) if a == b.as_str() => Ok(()),
        (J::Array(a), Value::Sequence(b)) if a.len() == b.len() => a.iter().zip(b.iter()).try_for_each(|(a, b)| same_json(a, b, n)),
        (J::Object(a), Value::Map(b)) if a.len() == b.len() => a.iter().zip(b.iter()).try_for_each(|((k, a), (bk, b))| {
            match bk {
                Value::String(s) if s.as_str() == k => {}
                _ => return Err(format!("key {k:?} became {bk:?}")),
            }
            same_json(a, b, n)
        }),
        _ => Err(format!("{j} became {v:?}")),
    }
}

/// Typed values through the dynamic value, by every route.
fn typed<F: Fmt, T>(c: &mut Case<'_>, direct: u8) -> R
where
    T: Gen + PartialEq + std::fmt::Debug + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    T: for<'de> Decode<'de, musli::mode::Binary, System> + for<'de> Decode<'de, musli::mode::Text, System>,
{
    let x = T::gen(&mut c.rng, 0);
    let b = F::to_vec(&x)?;
    c.seen_bytes(&b);
    let v: Val = F::from_slice(&b).map_err(|e| format!("{}: {} into a value: {e}", F::NAME, show(&x)))?;
    let again = F::to_vec(&v)?;
    match F::from_slice::<T>(&again) {
        Ok(y) => ensure!(x == y, "{}: {} became {} through a value", F::NAME, show(&x), show(&y)),
        Err(e) => fail!("{}: {} through a value {v:?}: {e}", F::NAME, show(&x)),
    }
    c.event("typed values through a rewritten value");
    if direct > 0 {
        let r = if direct == 2 {
            let cx = musli::context::new();
            value::decode_with::<_, T, musli::mode::Text>(&cx, &v).map_err(|e| format!("{e:?}"))
        } else {
            value::decode::<T>(&v).map_err(|e| e.to_string())
        };
        match r {
            Ok(y) => ensure!(x == y, "{}: {} became {} decoded from the value", F::NAME, show(&x), show(&y)),
            Err(e) => fail!("{}: {} decoded from the value {v:?}: {e}", F::NAME, show(&x)),
        }
        c.event("typed values decoded from the value");
    }
    Ok(())
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Doc {
    id: u64,
    title: String,
    tags: Vec<Option<String>>,
    parts: Vec<Part>,
    map: std::collections::BTreeMap<String, i64>,
    num: (i8, u128, f64, f32),
    c: char,
    nested: Option<Box<Doc>>,
    unit: (),
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum Part {
    Empty,
    Text { body: String },
    Pair { left: i32, right: Option<u8> },
    #[musli(transparent)]
    Raw(Vec<u8>),
}
impl Gen for Part {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Part::Empty,
            1 => Part::Text { body: Gen::gen(r, d) },
            2 => Part::Pair { left: Gen::gen(r, d), right: Gen::gen(r, d) },
            _ => Part::Raw(Gen::gen(r, d)),
        }
    }
}
impl Gen for Doc {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Doc {
            id: Gen::gen(r, d), title: Gen::gen(r, d), tags: Gen::gen(r, d + 1), parts: Gen::gen(r, d + 1), map: Gen::gen(r, d + 1),
            num: Gen::gen(r, d), c: Gen::gen(r, d), nested: if d < 2 && r.chance(1, 3) { Some(Box::new(Doc::gen(r, d + 1))) } else { None }, unit: (),
        }
    }
}

fn main() {
    let mut g = Groups::new();
    macro_rules! trees { ($($f:ty, $l:expr);* $(;)?) => { $( g.add(format!("tree/{}", <$f>::NAME), |c| tree::<$f>(c, $l)); )* } }
    trees!(
        Descriptive, shape::lay(true, true, 0);
        DescriptiveText, shape::lay(true, true, 0);
        DescriptiveFixed, shape::lay(false, true, 8);
        pdesc::FB4, shape::lay(false, false, 8);
        pdesc::VB4, shape::lay(true, false, 8);
        Json, shape::Lay::DEF;
        JsonBinary, shape::Lay::DEF;
    );
    g.add("text/json", json_text);
    macro_rules! types { ($($f:ty, $d:literal);* $(;)?) => { $(
        g.add(format!("doc/{}", <$f>::NAME), |c| typed::<$f, Doc>(c, $d));
        g.add(format!("parts/{}", <$f>::NAME), |c| typed::<$f, Vec<Part>>(c, $d));
        g.add(format!("numbers/{}", <$f>::NAME), |c| typed::<$f, Vec<(u8, i16, u32, i64, u128, i128, f32, f64)>>(c, 1));
        g.add(format!("collections/{}", <$f>::NAME), |c| typed::<$f, (Vec<std::collections::BTreeMap<String, Vec<Option<i32>>>>, std::collections::VecDeque<String>, [Option<bool>; 3])>(c, 2));
    )* } }
    types!(Descriptive, 1; DescriptiveFixed, 1; pdesc::FB0, 1; Json, 2; JsonBinary, 0; DescriptiveText, 2);
    rt::main(g);
}
