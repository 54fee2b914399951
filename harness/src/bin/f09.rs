//! F09: every way of supplying input decodes identically and stops at the same byte.
use musli::alloc::System;
use musli::reader::{Reader, SliceReader};
use musli::{Decode, Encode};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{Case, Groups, R};
use vh::shape::{self, Cfg, Plan};
use vh::{ensure, fail, model};

/// How one way of decoding ended.
struct Way {
    name: &'static str,
    /// The value rendered, or the message.
    out: Result<String, String>,
    /// How many bytes of the input were consumed, where it can be told.
    used: Option<usize>,
    /// Messages of a limited reader differ.
    worded: bool,
}

trait Ways: Fmt {
    fn ways<T: for<'de> Decode<'de, Self::Mode, System> + Debug>(b: &[u8], r: &mut Rng) -> Vec<Way>;
}

fn done<T: Debug>(v: Result<T, impl std::fmt::Display>) -> Result<String, String> {
    v.map(|v| format!("{v:?}")).map_err(|e| e.to_string())
}

macro_rules! binary_ways {
    ($($f:ty, $enc:expr);* $(;)?) => { $(impl Ways for $f {
        fn ways<T: for<'de> Decode<'de, Self::Mode, System> + Debug>(b: &[u8], r: &mut Rng) -> Vec<Way> {
            let mut v = vec![Way { name: "from_slice", out: done($enc.from_slice::<T>(b)), used: None, worded: true }];
            let mut w = |name, out, used, worded| v.push(Way { name, out, used, worded });
            w("decode(&[u8])", done($enc.decode::<_, T>(b)), None, true);
            let mut s = b;
            let out = done($enc.decode::<_, T>(&mut s));
            w("decode(&mut &[u8])", out, Some(b.len() - s.len()), true);
            let mut s = b;
            let out = done($enc.decode::<_, T>(&mut &mut s));
            w("decode(&mut &mut &[u8])", out, Some(b.len() - s.len()), true);
            let mut s = SliceReader::new(b);
            let out = done($enc.decode::<_, T>(&mut s));
            w("decode(&mut SliceReader)", out, Some(b.len() - s.remaining()), true);
            // A limit over a longer input.
            let mut long = b.to_vec();
            let extra = r.below(20);
            long.extend(r.bytes(extra));
            let mut s = Reader::limit(&long[..], b.len());
            let out = done($enc.decode::<_, T>(&mut s));
            w("decode(&mut Limit<&[u8]>)", out, Some(b.len() - s.remaining()), false);
            let mut s = SliceReader::new(&long).limit(b.len());
            let out = done($enc.decode::<_, T>(&mut s));
            w("decode(&mut Limit<SliceReader>)", out, Some(b.len() - s.remaining()), false);
            let mut s = SliceReader::new(&long).limit(b.len() + 1000).limit(b.len());
            let out = done($enc.decode::<_, T>(&mut s));
            w("decode(&mut Limit<Limit<SliceReader>>)", out, Some(b.len() - s.remaining()), false);
            // Elsewhere in memory.
            let n = r.below(9);
            let mut moved = r.bytes(n);
            moved.extend_from_slice(b);
            let mut s = &moved[n..];
            let out = done($enc.decode::<_, T>(&mut s));
            w("decode(&mut &[u8]) at another address", out, Some(b.len() - s.len()), true);
            let cx = musli::context::new().with_error::<musli::storage::Error>();
            let mut s = b;
            let out = done($enc.decode_with::<_, _, T>(&cx, &mut s));
            w("decode_with(&mut &[u8])", out, Some(b.len() - s.len()), true);
            let cx = musli::context::new().with_error::<musli::storage::Error>();
            w("from_slice_with", done($enc.from_slice_with::<_, T>(&cx, b)), None, true);
            if let Ok(s) = std::str::from_utf8(b) {
                w("from_str", done($enc.from_str::<T>(s)), None, true);
                let cx = musli::context::new().with_error::<musli::storage::Error>();
                w("from_str_with", done($enc.from_str_with::<_, T>(&cx, s)), None, true);
            }
            v
        }
    })* };
}
binary_ways! {
    Storage, musli::storage::Encoding::new();
    Wire, musli::wire::Encoding::new();
    Descriptive, musli::descriptive::Encoding::new();
    Packed, musli::packed::Encoding::new();
    StorageFixedBe, musli::storage::Encoding::new().with_options::<O_FIXED_BE>();
    WireFixed, musli::wire::Encoding::new().with_options::<O_FIXED>();
    DescriptiveFixed, musli::descriptive::Encoding::new().with_options::<O_FIXED>();
    WireText, musli::wire::Encoding::new().with_mode::<musli::mode::Text>();
}
macro_rules! json_ways {
    ($($f:ty, $enc:expr);* $(;)?) => { $(impl Ways for $f {
        fn ways<T: for<'de> Decode<'de, Self::Mode, System> + Debug>(b: &[u8], r: &mut Rng) -> Vec<Way> {
            let mut v = vec![Way { name: "from_slice", out: done($enc.from_slice::<T>(b)), used: None, worded: true }];
            let mut w = |name, out, used, worded| v.push(Way { name, out, used, worded });
            w("decode(&[u8])", done($enc.decode::<_, T>(b)), None, true);
            let mut s = b;
            let out = done($enc.decode::<_, T>(&mut s));
            w("decode(&mut &[u8])", out, Some(b.len() - s.len()), true);
            let n = r.below(9);
            let mut moved = r.bytes(n);
            moved.extend_from_slice(b);
            let mut s = &moved[n..];
            let out = done($enc.decode::<_, T>(&mut s));
            w("decode(&mut &[u8]) at another address", out, Some(b.len() - s.len()), true);
            let cx = musli::context::new().with_error::<musli::json::Error>();
            let mut s = b;
            let out = done($enc.decode_with::<_, _, T>(&cx, &mut s));
            w("decode_with(&mut &[u8])", out, Some(b.len() - s.len()), true);
            let cx = musli::context::new().with_error::<musli::json::Error>();
            w("from_slice_with", done($enc.from_slice_with::<_, T>(&cx, b)), None, true);
            if let Ok(s) = std::str::from_utf8(b) {
                w("from_str", done($enc.from_str::<T>(s)), None, true);
                w("decode(&str)", done($enc.decode::<_, T>(s)), None, true);
                let mut t = s;
                let out = done($enc.decode::<_, T>(&mut t));
                // The string that remains is one, wherever reading stopped.
                assert!(std::str::from_utf8(t.as_bytes()).is_ok(), "the rest {:?} of a string is not valid UTF-8", t.as_bytes());
                assert!(s.ends_with(t), "{t:?} is not the rest of {s:?}");
                w("decode(&mut &str)", out, Some(b.len() - t.len()), true);
                let cx = musli::context::new().with_error::<musli::json::Error>();
                w("from_str_with", done($enc.from_str_with::<_, T>(&cx, s)), None, true);
            }
            v
        }
    })* };
}
json_ways! {
    Json, musli::json::Encoding::new();
    JsonBinary, musli::json::Encoding::new().with_mode::<musli::mode::Binary>();
}

fn compare(c: &mut Case<'_>, b: &[u8], v: &[Way], name: &str) -> Result<bool, String> {
    let first = &v[0];
    let mut used = None;
    for w in v {
        match (&first.out, &w.out) {
            (Ok(a), Ok(b)) if a == b => {}
            (Err(a), Err(b)) if !w.worded || a == b => {}
            _ => fail!("{name}: {} gives {:?}, {} gives {:?}; bytes {}", first.name, first.out, w.name, w.out, hex(b)),
        }
        if first.out.is_ok() {
            if let (Some(n), Some((m, other))) = (w.used, used) {
                ensure!(n == m, "{name}: {} consumes {n} bytes, {other} {m}; bytes {}", w.name, hex(b));
            }
            if let Some(n) = w.used {
                used = Some((n, w.name));
            }
        }
        c.event("ways compared");
    }
    c.event(if first.out.is_ok() { "inputs decoded every way" } else { "inputs refused every way" });
    Ok(first.out.is_ok())
}

/// Valid, truncated and damaged input.
fn inputs<F: Ways, T>(c: &mut Case<'_>) -> R
where
    T: Gen + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System> + Debug,
{
    let v = T::gen(&mut c.rng, 0);
    let good = F::to_vec(&v)?;
    for k in 0..4 {
        let mut b = good.clone();
        match k {
            0 => {}
            1 => {
                let n = c.rng.below(12);
                b.extend(c.rng.bytes(n));
            }
            2 => b.truncate(c.rng.below(b.len() + 1)),
            _ => {
                for _ in 0..1 + c.rng.below(3) {
                    if b.is_empty() {
                        break;
                    }
                    let n = b.len();
                    let at = c.rng.below(n);
                    match c.rng.below(4) {
                        0 => b[at] ^= 1 << c.rng.below(8),
                        1 => b[at] = c.rng.u32() as u8,
                        2 => {
                            b.remove(at);
                        }
                        _ => b.insert(at, c.rng.u32() as u8),
                    }
                }
            }
        }
        c.seen_bytes(&b);
        c.sample(|| format!("{} {}", F::NAME, hex(&b)));
        let w = F::ways::<T>(&b, &mut c.rng);
        let ok = compare(c, &b, &w, F::NAME)?;
        if k == 0 {
            ensure!(ok, "{}: {} is refused: {:?}", F::NAME, hex(&b), w[0].out);
            for w in &w {
                ensure!(w.used.is_none_or(|n| n == b.len()), "{}: {} consumes {:?} of {} bytes", F::NAME, w.name, w.used, b.len());
            }
        }
    }
    Ok(())
}

/// Many values in one buffer, read back one after another.
fn streams<F: Ways>(c: &mut Case<'_>) -> R
where
    shape::Shape: Encode<F::Mode>,
    shape::Walk: for<'de> Decode<'de, F::Mode, System>,
{
    let json = F::KIND == Kind::Json;
    let cfg = match F::KIND {
        Kind::Json => Cfg { depth: 2, ..Cfg::JSON },
        Kind::Packed => Cfg { depth: 2, pack: true, ..Cfg::ALL },
        _ => Cfg { depth: 2, ..Cfg::ALL },
    };
    let n = 2 + c.rng.below(8);
    let mut buf = Vec::new();
    let mut ends = Vec::new();
    let mut values = Vec::new();
    for _ in 0..n {
        let v = if F::KIND == Kind::Packed { shape::gen_pack(&mut c.rng, cfg) } else { shape::gen(&mut c.rng, cfg, 0) };
        F::encode(&mut buf, &v)?;
        ends.push(buf.len());
        if json {
            buf.extend_from_slice(*c.rng.pick(&[&b" "[..], b"\n", b"\t", b"\r\n", b"  "]));
        }
        values.push(v);
    }
    c.seen_bytes(&buf);
    let mut a = &buf[..];
    for (v, end) in values.iter().zip(&ends) {
        let (got, plan) = shape::with_walk(vec![v.clone()], Plan::new(Rng::new(1), 0, 0), || F::advance::<shape::Walk>(&mut a));
        if let Err(e) = got {
            fail!("{}: {} in a stream: {e}", F::NAME, show(v));
        }
        if let Some(m) = plan.mismatch {
            fail!("{}: {} in a stream: {m}", F::NAME, show(v));
        }
        let at = buf.len() - a.len();
        ensure!(at == *end, "{}: {} in a stream ends at {at} instead of {end}", F::NAME, show(v));
        c.event("values read from a stream");
    }
    Ok(())
}
fn typed_streams<F: Ways, T, U, V>(c: &mut Case<'_>) -> R
where
    T: Gen + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System> + Debug + PartialEq,
    U: Gen + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System> + Debug + PartialEq,
    V: Gen + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System> + Debug + PartialEq,
{
    let mut buf = Vec::new();
    let mut list: Vec<(u8, Box<dyn std::any::Any>, usize)> = Vec::new();
    for _ in 0..2 + c.rng.below(6) {
        macro_rules! put {
            ($k:expr, $t:ty) => {{
                let v = <$t>::gen(&mut c.rng, 1);
                F::encode(&mut buf, &v)?;
                list.push(($k, Box::new(format!("{v:?}")), buf.len()));
            }};
        }
        match c.rng.below(3) {
            0 => put!(0, T),
            1 => put!(1, U),
            _ => put!(2, V),
        }
        if F::KIND == Kind::Json {
            buf.push(b'\n');
        }
    }
    c.seen_bytes(&buf);
    let mut a = &buf[..];
    for (k, v, end) in &list {
        let want = v.downcast_ref::<String>().unwrap();
        let got = match k {
            0 => F::advance::<T>(&mut a).map(|v| format!("{v:?}")),
            1 => F::advance::<U>(&mut a).map(|v| format!("{v:?}")),
            _ => F::advance::<V>(&mut a).map(|v| format!("{v:?}")),
        };
        ensure!(got.as_ref() == Ok(want), "{}: {} in a stream is read as {got:?}", F::NAME, show(want));
        let at = buf.len() - a.len();
        ensure!(at == *end, "{}: {} in a stream ends at {at} instead of {end}", F::NAME, show(want));
        c.event("values read from a stream");
    }
    Ok(())
}

#[derive(Debug, PartialEq, Encode, Decode)]
struct Strings<'a> {
    s: &'a str,
    o: Option<&'a str>,
    v: Vec<&'a str>,
    m: BTreeMap<&'a str, &'a str>,
    c: Cow<'a, str>,
    t: (&'a str, u8),
}
#[derive(Debug, PartialEq, Encode, Decode)]
struct Both<'a> {
    #[musli(bytes)]
    b: &'a [u8],
    s: Strings<'a>,
    #[musli(bytes)]
    c: Cow<'a, [u8]>,
    e: Choice<'a>,
    h: HashMap<&'a str, Choice<'a>>,
}
#[derive(Debug, PartialEq, Encode, Decode)]
enum Choice<'a> {
    S(&'a str),
    #[musli(transparent)]
    T(&'a str),
    N { x: &'a str, y: u32 },
}

fn strings<'a>(pool: &'a [String], r: &mut Rng) -> Strings<'a> {
    let p = |r: &mut Rng| pool[r.below(pool.len())].as_str();
    Strings { s: p(r), o: r.bool().then(|| p(r)), v: (0..r.below(4)).map(|_| p(r)).collect(), m: (0..r.below(4)).map(|_| (p(r), p(r))).collect(), c: Cow::Borrowed(p(r)), t: (p(r), 1) }
}
fn choice<'a>(pool: &'a [String], r: &mut Rng) -> Choice<'a> {
    let p = |r: &mut Rng| pool[r.below(pool.len())].as_str();
    match r.below(3) {
        0 => Choice::S(p(r)),
        1 => Choice::T(p(r)),
        _ => Choice::N { x: p(r), y: r.u32() },
    }
}
fn within(part: &[u8], all: &[u8]) -> bool {
    let (a, b) = (all.as_ptr_range(), part.as_ptr_range());
    part.is_empty() || (a.start <= b.start && b.end <= a.end)
}
fn inside_choice(v: &Choice<'_>, b: &[u8]) -> bool {
    match v {
        Choice::S(s) | Choice::T(s) | Choice::N { x: s, .. } => within(s.as_bytes(), b),
    }
}
fn inside(v: &Strings<'_>, b: &[u8]) -> bool {
    let s = |s: &str| within(s.as_bytes(), b);
    s(v.s) && v.o.is_none_or(s) && v.v.iter().all(|v| s(v)) && v.m.iter().all(|(k, v)| s(k) && s(v)) && s(v.t.0) && matches!(v.c, Cow::Borrowed(v) if s(v))
}

/// Borrowed data refers to the input.
fn borrowed<F: Fmt<Mode = musli::mode::Binary>>(c: &mut Case<'_>) -> R {
    let pool: Vec<String> = (0..6).map(|_| gen_string(&mut c.rng)).collect();
    let bytes = gen_bytes(&mut c.rng);
    let v = Both { b: &bytes, s: strings(&pool, &mut c.rng), c: Cow::Borrowed(&bytes[..bytes.len() / 2]), e: choice(&pool, &mut c.rng), h: (0..c.rng.below(3)).map(|_| (pool[c.rng.below(6)].as_str(), choice(&pool, &mut c.rng))).collect() };
    let b = F::to_vec(&v)?;
    c.seen_bytes(&b);
    let g: Both<'_> = F::from_slice(&b).map_err(|e| format!("{}: {}: {e}", F::NAME, show(&v)))?;
    ensure!(g == v, "{}: {} is read as {}", F::NAME, show(&v), show(&g));
    ensure!(inside(&g.s, &b), "{}: borrowed strings do not point into the input: {}", F::NAME, show(&g.s));
    ensure!(within(g.b, &b) && matches!(g.c, Cow::Borrowed(v) if within(v, &b)), "{}: borrowed bytes do not point into the input: {}", F::NAME, show(&g));
    ensure!(inside_choice(&g.e, &b) && g.h.iter().all(|(k, v)| within(k.as_bytes(), &b) && inside_choice(v, &b)), "{}: borrowed strings do not point into the input: {}", F::NAME, show(&g));
    c.event("borrowed data found in the input");
    let mut s = &b[..];
    let g: Both<'_> = F::advance(&mut s)?;
    ensure!(g == v && inside(&g.s, &b), "{}: {} read by advancing gives {}", F::NAME, show(&v), show(&g));
    Ok(())
}
/// JSON strings without escapes can be borrowed, others cannot.
fn borrowed_json(c: &mut Case<'_>) -> R {
    let plain = |s: String| s.chars().filter(|c| *c >= ' ' && *c != '"' && *c != '\\').collect::<String>();
    let pool: Vec<String> = (0..6).map(|_| plain(gen_string(&mut c.rng))).collect();
    let v = strings(&pool, &mut c.rng);
    let t = musli::json::to_string(&v).map_err(|e| e.to_string())?;
    c.seen_bytes(t.as_bytes());
    let g: Strings<'_> = musli::json::from_str(&t).map_err(|e| format!("{t}: {e}"))?;
    ensure!(g == v, "{t} is read as {}", show(&g));
    ensure!(inside(&g, t.as_bytes()), "{t}: borrowed strings do not point into the input: {}", show(&g));
    c.event("borrowed data found in the input");
    let mut s = t.as_str();
    let g: Strings<'_> = musli::json::decode(&mut s).map_err(|e| format!("{t} by advancing: {e}"))?;
    ensure!(g == v && s.is_empty() && inside(&g, t.as_bytes()), "{t} read by advancing gives {}, leaving {s:?}", show(&g));
    // Something has to be unescaped.
    let mut s = pool[0].clone();
    s.insert(s.char_indices().map(|(i, _)| i).nth(c.rng.below(s.chars().count() + 1)).unwrap_or(0), *c.rng.pick(&['"', '\\', '\n', '\t', '\u{1}']));
    let t = musli::json::to_string(&(s.as_str(), 5u8)).map_err(|e| e.to_string())?;
    let g: Result<(&str, u8), _> = musli::json::from_str(&t);
    ensure!(g.is_err(), "{t} has an escape, but was borrowed as {g:?}");
    let (g, n): (Cow<'_, str>, u8) = musli::json::from_str(&t).map_err(|e| format!("{t}: {e}"))?;
    ensure!(g == s && n == 5, "{t} is read as {g:?} and {n}");
    c.event("escaped strings copied");
    Ok(())
}

// No hash maps: the rendering has to be the same every time.
type Most = (Prims, Strs, Nested, PackedS, Fielded, (Vec<PackedPad>, Vec<Transparent>));

// Enums for which the input is read more than once.
model! { #[musli(untagged)] enum Untagged { #[musli(name_all = "name")] Text { text: String, n: u32 }, #[musli(name_all = "name")] Deep { deep: Vec<Option<i64>> }, #[musli(name_all = "name")] Bare { n: u32 } } }
model! { #[musli(tag(value = "type", type = str), name_all = "name")] enum Tagged { #[musli(name_all = "name")] One { x: u32, s: String }, #[musli(name_all = "name")] Two { y: Option<i64> }, Three [] } }
model! { #[musli(tag(value = "t", type = str), content(value = "c", type = str), name_all = "name")] enum Adjacent { #[musli(name_all = "name")] One { x: u32, s: String }, Two(Vec<i16>), Three(String) } }

fn main() {
    let mut g = Groups::new();
    type Mix = (u32, Option<String>, Vec<i64>, En);
    macro_rules! all {
        ($($f:ident)*) => { $(
            g.add(concat!("inputs/everything/", stringify!($f)), inputs::<$f, Most>);
            g.add(concat!("inputs/mix/", stringify!($f)), inputs::<$f, Mix>);
            g.add(concat!("inputs/nested/", stringify!($f)), inputs::<$f, Nested>);
            g.add(concat!("inputs/map/", stringify!($f)), inputs::<$f, BTreeMap<String, Vec<Option<u16>>>>);
            g.add(concat!("inputs/text/", stringify!($f)), inputs::<$f, (String, char, f64, bool)>);
            // The others have no way to look ahead.
            if matches!(<$f as Fmt>::KIND, Kind::Descriptive | Kind::Json) {
                g.add(concat!("inputs/tagged/", stringify!($f)), inputs::<$f, (Tagged, u8, Adjacent, String, Tagged)>);
            }
            if !matches!(<$f as Fmt>::KIND, Kind::Storage) {
                g.add(concat!("inputs/untagged/", stringify!($f)), inputs::<$f, (Vec<Untagged>, u32, Untagged)>);
            }
            g.add(concat!("streams/", stringify!($f)), streams::<$f>);
            g.add(concat!("typed streams/", stringify!($f)), typed_streams::<$f, Nested2, Vec<(u8, i64)>, String>);
            g.add(concat!("scalar streams/", stringify!($f)), typed_streams::<$f, i64, f64, Option<bool>>);
        )* };
    }
    all!(Storage Wire Descriptive Json StorageFixedBe WireFixed DescriptiveFixed WireText JsonBinary);
    g.add("inputs/packed", inputs::<Packed, (u32, String, Vec<u16>, [u8; 3], char, Option<u64>)>);
    g.add("streams/packed", streams::<Packed>);
    g.add("typed streams/packed", typed_streams::<Packed, PackedS, Vec<(u8, i64)>, String>);
    g.add("borrowed/storage", borrowed::<Storage>);
    g.add("borrowed/wire", borrowed::<Wire>);
    g.add("borrowed/descriptive", borrowed::<Descriptive>);
    g.add("borrowed/storage fixed", borrowed::<StorageFixed>);
    g.add("borrowed/wire fixed", borrowed::<WireFixed>);
    g.add("borrowed/json", borrowed_json);
    vh::rt::main(g);
}
