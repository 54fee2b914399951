//! F10: serde types survive the serde bridge in every format.
use musli::{Allocator, Decode, Decoder, Encode, Encoder};
use serde::de::{self, DeserializeOwned, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::{self, Debug};
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{Case, Groups, R};
use vh::{ensure, fail};

/// The bridge.
#[derive(Debug, Clone, PartialEq)]
struct W<T>(T);
impl<M: 'static, T: Serialize> Encode<M> for W<T> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        musli::serde::encode(&self.0, e)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M: 'static, A: Allocator, T: Deserialize<'de>> Decode<'de, M, A> for W<T> {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        musli::serde::decode(d).map(W)
    }
}

// ---------------------------------------------------------------------------
// Derived types
// ---------------------------------------------------------------------------

macro_rules! smodel {
    ($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        $(#[$m])*
        struct $n { $($(#[$fm])* $f: $t),* }
        impl Gen for $n { #[allow(unused)] fn gen(r: &mut Rng, d: usize) -> Self { $n { $($f: Gen::gen(r, d + 1)),* } } }
    };
    ($(#[$m:meta])* tuple $n:ident ( $($(#[$fm:meta])* $t:ty),* $(,)? )) => {
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        $(#[$m])*
        struct $n ( $($(#[$fm])* $t),* );
        impl Gen for $n { #[allow(unused)] fn gen(r: &mut Rng, d: usize) -> Self { $n ( $(<$t as Gen>::gen(r, d + 1)),* ) } }
    };
    ($(#[$m:meta])* enum $n:ident { $($(#[$vm:meta])* $v:ident $body:tt),* $(,)? }) => {
        smodel!(@enum [$(#[$m])*] $n [] [] $($(#[$vm])* $v $body,)*);
    };
    (@enum [$($m:tt)*] $n:ident [$($out:tt)*] [$($arms:tt)*] $(#[$vm:meta])* $v:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }, $($rest:tt)*) => {
        smodel!(@enum [$($m)*] $n [$($out)* $(#[$vm])* $v { $($(#[$fm])* $f: $t),* },]
            [$($arms)* (|r: &mut Rng, d: usize| { let _ = (&r, d); $n::$v { $($f: Gen::gen(r, d + 1)),* } }),] $($rest)*);
    };
    (@enum [$($m:tt)*] $n:ident [$($out:tt)*] [$($arms:tt)*] $(#[$vm:meta])* $v:ident ( $($(#[$fm:meta])* $t:ty),* $(,)? ), $($rest:tt)*) => {
        smodel!(@enum [$($m)*] $n [$($out)* $(#[$vm])* $v ( $($(#[$fm])* $t),* ),]
            [$($arms)* (|r: &mut Rng, d: usize| { let _ = (&r, d); $n::$v ( $(<$t as Gen>::gen(r, d + 1)),* ) }),] $($rest)*);
    };
    (@enum [$($m:tt)*] $n:ident [$($out:tt)*] [$($arms:tt)*] $(#[$vm:meta])* $v:ident [], $($rest:tt)*) => {
        smodel!(@enum [$($m)*] $n [$($out)* $(#[$vm])* $v,]
            [$($arms)* (|r: &mut Rng, d: usize| { let _ = (&r, d); $n::$v }),] $($rest)*);
    };
    (@enum [$($m:tt)*] $n:ident [$($out:tt)*] [$($arms:tt)*]) => {
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        $($m)*
        enum $n { $($out)* }
        impl Gen for $n {
            fn gen(r: &mut Rng, d: usize) -> Self {
                let arms: &[fn(&mut Rng, usize) -> $n] = &[$($arms)*];
                let i = r.below(arms.len());
                arms[i](r, d)
            }
        }
    };
}

/// JSON has no other floats.
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
struct F(f64);
impl Gen for F {
    fn gen(r: &mut Rng, _: usize) -> Self {
        F(gen_f64_finite(r))
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
struct F4(f32);
impl Gen for F4 {
    fn gen(r: &mut Rng, _: usize) -> Self {
        F4(gen_f32_finite(r))
    }
}
/// Read by its own description, a whole number in JSON is an integer (see [`whole_floats`]).
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
struct Small(f64);
impl Gen for Small {
    fn gen(r: &mut Rng, _: usize) -> Self {
        let v = gen_f64_finite(r);
        Small(if v.fract() == 0.0 && v.abs() > 9e15 { r.u32() as f64 } else { v })
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
#[serde(transparent)]
struct Part(f64);
impl Gen for Part {
    fn gen(r: &mut Rng, _: usize) -> Self {
        let v = gen_f64_finite(r);
        Part(if v.fract() == 0.0 { r.u32() as f64 + 0.5 } else { v })
    }
}
#[derive(Debug, Clone, PartialEq)]
struct Blob(Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Vec<u8>, E> {
                Ok(v.to_vec())
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
                let mut v = Vec::new();
                while let Some(b) = a.next_element()? {
                    v.push(b);
                }
                Ok(v)
            }
        }
        d.deserialize_byte_buf(V).map(Blob)
    }
}
impl Gen for Blob {
    fn gen(r: &mut Rng, _: usize) -> Self {
        Blob(gen_bytes(r))
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
struct Nothing;
impl Gen for Nothing {
    fn gen(_: &mut Rng, _: usize) -> Self {
        Nothing
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Dur(std::time::Duration);
impl Gen for Dur {
    fn gen(r: &mut Rng, _: usize) -> Self {
        Dur(std::time::Duration::new(r.edge_bits() as u64, r.below(1_000_000_000) as u32))
    }
}
smodel! { struct Ints { a: u8, b: u16, c: u32, d: u64, e: u128, f: i8, g: i16, h: i32, i: i64, j: i128, k: usize, l: isize, m: bool, n: char } }
smodel! { struct Floats { a: f32, b: f64, c: Vec<f32>, d: Option<f64> } }
smodel! { struct Kinds { u: (), n: Nothing, o: Option<String>, t: (u8, String, F), nt: NewT, ts: TupS, a: [i16; 3], v: Vec<Option<i64>>, m: BTreeMap<String, Vec<u8>>, k: BTreeMap<i32, F>, b: Blob, s: String, c: Cow<'static, str>, bs: Box<str>, f: F4, bx: Box<Option<u32>> } }
smodel! { tuple NewT(u64) }
smodel! { tuple TupS(u8, String, Option<i32>) }
smodel! { enum Units { A [], B [], #[serde(rename = "the third")] C [] } }
smodel! { enum Ext { N(NewT), #[serde(rename = "say \"hi\"")] T(u8, String), S { x: Option<u32>, y: Vec<i8> }, E {}, Z(Vec<F>), O(Option<String>), Deep(Box<Kinds>) } }
smodel! { struct Holds { a: Units, b: Ext, c: Vec<Ext>, d: Option<Units>, e: Result<u8, String>, f: BTreeMap<String, Units> } }
smodel! { #[serde(rename_all = "kebab-case", deny_unknown_fields)] struct Attrs { first_field: u32, #[serde(rename = "naïve \"key\"\n")] second: String, #[serde(default, skip_serializing_if = "Option::is_none")] third_field: Option<i64>, #[serde(default, skip_serializing_if = "Vec::is_empty")] fourth: Vec<u16>, #[serde(with = "as_text")] num: u64 } }
mod as_text {
    use super::*;
    pub fn serialize<S: Serializer>(v: &u64, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("{}:{:x}", v, v))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<u64, D::Error> {
        let s = String::deserialize(d)?;
        let (a, b) = s.split_once(':').ok_or_else(|| de::Error::custom("no colon"))?;
        let (a, b) = (a.parse::<u64>().map_err(de::Error::custom)?, u64::from_str_radix(b, 16).map_err(de::Error::custom)?);
        (a == b).then_some(a).ok_or_else(|| de::Error::custom("numbers differ"))
    }
}
smodel! { struct Stds { d: Dur, ip: std::net::IpAddr, sa: std::net::SocketAddrV4, r: std::ops::Range<u32>, ri: std::ops::RangeInclusive<i8>, nz: std::num::NonZeroU32, w: Wr, vd: VecDeque<u8>, bs: BTreeSet<String>, p: std::marker::PhantomData<u8>, q: Text } }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Wr(std::num::Wrapping<u16>);
impl Gen for Wr {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Wr(Gen::gen(r, d))
    }
}
/// Different for people and machines.
#[derive(Debug, Clone, PartialEq)]
struct Text(u32);
impl Serialize for Text {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            s.collect_str(&self.0)
        } else {
            s.serialize_u32(self.0)
        }
    }
}
impl<'de> Deserialize<'de> for Text {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if d.is_human_readable() {
            String::deserialize(d)?.parse().map(Text).map_err(de::Error::custom)
        } else {
            u32::deserialize(d).map(Text)
        }
    }
}
impl Gen for Text {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Text(Gen::gen(r, d))
    }
}
// These read their input as it describes itself.
smodel! { #[serde(tag = "type")] enum Internal { A { x: u32, y: Option<String> }, B(InnerB), C [], D { list: Vec<InnerB>, f: Small } } }
smodel! { struct InnerB { p: i64, q: Vec<String>, r: BTreeMap<String, i32>, o: Option<InnerC>, t: (u8, char) } }
smodel! { struct InnerC { z: bool, y: u64, x: i8, w: Small } }
smodel! { #[serde(tag = "t", content = "c")] enum Adj { A { x: u32, y: Option<String> }, B(InnerB), C [], T(u8, String) } }
smodel! { #[serde(untagged)] enum Unt { A { x: u32, y: i8 }, B(InnerB), T(u8, String), Num(i64), Flt(Part), S(String), L(Vec<u16>) } }
smodel! { struct SelfDescribed { a: Internal, b: Adj, c: Unt, d: Vec<Unt>, e: Option<Internal>, n: u8 } }
smodel! { struct Flat { a: u32, #[serde(flatten)] rest: InnerB } }

// Between fields of musli's own.
#[derive(Debug, PartialEq, Encode, Decode)]
struct Between {
    a: u32,
    #[musli(with = musli::serde)]
    b: Kinds,
    c: Option<String>,
    #[musli(with = musli::serde)]
    d: Ext,
    #[musli(with = musli::serde)]
    e: Vec<Holds>,
    f: Vec<i64>,
    #[musli(with = musli::serde)]
    g: Stds,
}
impl Gen for Between {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Between { a: Gen::gen(r, d), b: Gen::gen(r, d), c: Gen::gen(r, d), d: Gen::gen(r, d), e: Gen::gen(r, d + 2), f: Gen::gen(r, d), g: Gen::gen(r, d) }
    }
}

fn round<F: Fmt, T: Gen + Serialize + DeserializeOwned + Debug + PartialEq>(c: &mut Case<'_>) -> R {
    let v = W(T::gen(&mut c.rng, 0));
    let mut b = F::to_vec(&v).map_err(|e| format!("{}: {} is refused: {e}", F::NAME, show(&v)))?;
    c.seen_bytes(&b);
    c.sample(|| format!("{} {}", F::NAME, show(&v)));
    let end = b.len();
    b.extend_from_slice(if F::KIND == Kind::Json { b" 5" } else { &[1, 2, 3] });
    let mut s = &b[..];
    let g = F::advance::<W<T>>(&mut s).map_err(|e| format!("{}: {} is encoded as {} and refused: {e}", F::NAME, show(&v), hex(&b)))?;
    ensure!(g == v, "{}: {} becomes {}", F::NAME, show(&v), show(&g));
    ensure!(b.len() - s.len() == end, "{}: {} leaves {} of {end} bytes unread", F::NAME, show(&v), s.len() as isize - (b.len() - end) as isize);
    c.event("values returned equal");
    Ok(())
}
fn between<F: Fmt>(c: &mut Case<'_>) -> R
where
    Between: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, musli::alloc::System>,
{
    let v = Between::gen(&mut c.rng, 0);
    let b = F::to_vec(&v).map_err(|e| format!("{}: {} is refused: {e}", F::NAME, show(&v)))?;
    c.seen_bytes(&b);
    let g = F::from_slice::<Between>(&b).map_err(|e| format!("{}: {} is encoded as {} and refused: {e}", F::NAME, show(&v), hex(&b)))?;
    ensure!(g == v, "{}: {} becomes {}", F::NAME, show(&v), show(&g));
    c.event("values within musli types");
    Ok(())
}
fn through_value<T: Gen + Serialize + DeserializeOwned + Debug + PartialEq>(c: &mut Case<'_>) -> R {
    let v = W(T::gen(&mut c.rng, 0));
    let x = musli::value::encode(&v).map_err(|e| format!("value: {} is refused: {e}", show(&v)))?;
    c.seen_bytes(format!("{x:?}").as_bytes());
    let g: W<T> = musli::value::decode(&x).map_err(|e| format!("value: {} becomes {} and is refused: {e}", show(&v), show(&x)))?;
    ensure!(g == v, "value: {} becomes {}", show(&v), show(&g));
    c.event("values returned equal");
    // And as data of the format which keeps all of it.
    let b = musli::descriptive::to_vec(&x).map_err(|e| e.to_string())?;
    let g: W<T> = musli::descriptive::from_slice(&b).map_err(|e| format!("value: {} written as {} is refused: {e}", show(&v), hex(&b)))?;
    ensure!(g == v, "value: {} becomes {} when written", show(&v), show(&g));
    Ok(())
}

/// Unit variants are a map to nothing, which serde_json understands but does not write.
fn json<T: Gen + Serialize + DeserializeOwned + Debug + PartialEq, const UNITS: bool>(c: &mut Case<'_>) -> R {
    let v = T::gen(&mut c.rng, 0);
    let t = musli::json::to_string(&W(&v)).map_err(|e| format!("{} is refused: {e}", show(&v)))?;
    c.seen_bytes(t.as_bytes());
    let g: T = serde_json::from_str(&t).map_err(|e| format!("{} is written as {t}, which serde_json refuses: {e}", show(&v)))?;
    ensure!(g == v, "{} is written as {t}, which serde_json reads as {}", show(&v), show(&g));
    c.event("texts read by serde_json");
    let g: W<T> = musli::json::from_str(&t).map_err(|e| format!("{} is written as {t} and refused: {e}", show(&v)))?;
    ensure!(g.0 == v, "{} is written as {t} and read as {}", show(&v), show(&g));
    if !UNITS {
        let theirs: Option<serde_json::Value> = serde_json::to_string(&v).ok().and_then(|t| serde_json::from_str(&t).ok());
        if let Some(theirs) = theirs {
            let ours: serde_json::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            ensure!(vh::json_eq(&ours, &theirs), "{} is written as {t} but serde_json writes {theirs}", show(&v));
            c.event("texts equal in meaning");
        }
        let theirs = if c.rng.bool() { serde_json::to_string(&v) } else { serde_json::to_string_pretty(&v) }.map_err(|e| e.to_string())?;
        let g: W<T> = musli::json::from_str(&theirs).map_err(|e| format!("{} is written by serde_json as {theirs} and refused: {e}", show(&v)))?;
        ensure!(g.0 == v, "{} is written by serde_json as {theirs} and read as {}", show(&v), show(&g));
        c.event("texts of serde_json read");
    }
    Ok(())
}
/// There is no room for a map of unknown length, and no wrong answer either.
fn flat<F: Fmt>(c: &mut Case<'_>) -> R {
    let v = W(Flat::gen(&mut c.rng, 0));
    match F::to_vec(&v) {
        Err(e) => ensure!(e.contains("known lengths"), "{}: {} is refused with {e:?}", F::NAME, show(&v)),
        Ok(b) => {
            let g = F::from_slice::<W<Flat>>(&b);
            ensure!(g.as_ref() == Ok(&v), "{}: {} becomes {}", F::NAME, show(&v), show(&g));
        }
    }
    // What serde_json flattened can be read.
    let t = serde_json::to_string(&v.0).map_err(|e| e.to_string())?;
    let g: W<Flat> = musli::json::from_str(&t).map_err(|e| format!("{t} is refused: {e}"))?;
    ensure!(g == v, "{t} is read as {}", show(&g));
    c.event("flattened structs");
    Ok(())
}
#[derive(Debug, PartialEq, Serialize, Deserialize)]
struct Borrows<'a> {
    a: &'a str,
    #[serde(borrow)]
    b: Cow<'a, str>,
    c: Option<&'a str>,
    d: Vec<&'a str>,
    e: HashMap<&'a str, u8>,
}
fn borrows<F: Fmt>(c: &mut Case<'_>) -> R {
    let pool: Vec<String> = (0..5).map(|_| gen_string(&mut c.rng).chars().filter(|c| *c >= ' ' && *c != '"' && *c != '\\').collect()).collect();
    let p = |r: &mut Rng| pool[r.below(5)].as_str();
    let r = &mut c.rng;
    let v = W(Borrows { a: p(r), b: Cow::Borrowed(p(r)), c: r.bool().then(|| p(r)), d: (0..r.below(4)).map(|_| p(r)).collect(), e: (0..r.below(4)).map(|_| (p(r), 1)).collect() });
    let b = F::to_vec(&v)?;
    c.seen_bytes(&b);
    let g: W<Borrows<'_>> = F::from_slice(&b).map_err(|e| format!("{}: {}: {e}", F::NAME, show(&v)))?;
    ensure!(g == v, "{}: {} becomes {}", F::NAME, show(&v), show(&g));
    let all = b.as_ptr_range();
    for s in [g.0.a, &*g.0.b].into_iter().chain(g.0.c).chain(g.0.d.iter().copied()).chain(g.0.e.keys().copied()) {
        ensure!(s.is_empty() || all.contains(&s.as_ptr()), "{}: {s:?} is not borrowed from the input", F::NAME);
    }
    c.event("borrowed strings returned");
    Ok(())
}

// ---------------------------------------------------------------------------
// Random trees, by hand
// ---------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
enum N {
    Unit,
    UnitStruct,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// Through `collect_str`.
    Disp(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<N>),
    Newtype(Box<N>),
    UnitVariant(usize),
    NewtypeVariant(usize, Box<N>),
    Seq(Vec<N>),
    Tuple(Vec<N>),
    TupleStruct(Vec<N>),
    TupleVariant(usize, Vec<N>),
    Map(Vec<(N, N)>),
    Struct(Vec<(usize, N)>),
    StructVariant(usize, Vec<(usize, N)>),
    /// An implementation that gives up.
    Fail,
}
const NAMES: [&str; 12] = ["a", "b_c", "", "naïve", "say \"hi\"", "new\nline", "7", "a much longer name which takes more than one length byte in any of the formats, surely", "null", "type", "ключ", "-1"];
const SORRY: &str = "sorry: \"the implementation\" gave up\n";

#[derive(Clone, Copy)]
struct Limits {
    json: bool,
    big: bool,
    variants: bool,
}
fn names(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..NAMES.len()).collect();
    r.shuffle(&mut v);
    v.truncate(n);
    v
}
/// In JSON nothing and none are the same.
fn null(n: &N) -> bool {
    match n {
        N::Unit | N::UnitStruct | N::None => true,
        N::Some(n) | N::Newtype(n) => null(n),
        _ => false,
    }
}
fn gen(r: &mut Rng, l: Limits, d: usize) -> N {
    let top = if d >= 4 { 21 } else { 34 };
    let sub = |r: &mut Rng| gen(r, l, d + 1);
    let some = |r: &mut Rng| {
        let n = clen(r, d);
        (0..n).map(|_| gen(r, l, d + 1)).collect::<Vec<_>>()
    };
    let variant = |r: &mut Rng| r.below(NAMES.len());
    loop {
        return match r.below(top) {
            0 => N::Unit,
            1 => N::UnitStruct,
            2 => N::Bool(r.bool()),
            3 => N::I8(Gen::gen(r, 0)),
            4 => N::I16(Gen::gen(r, 0)),
            5 => N::I32(Gen::gen(r, 0)),
            6 => N::I64(Gen::gen(r, 0)),
            7 if l.big => N::I128(Gen::gen(r, 0)),
            8 => N::U8(Gen::gen(r, 0)),
            9 => N::U16(Gen::gen(r, 0)),
            10 => N::U32(Gen::gen(r, 0)),
            11 => N::U64(Gen::gen(r, 0)),
            12 if l.big => N::U128(Gen::gen(r, 0)),
            13 => N::F32(gen_f32_finite(r)),
            14 => N::F64(gen_f64_finite(r)),
            15 => N::Char(gen_char(r)),
            16 => N::Str(gen_string(r)),
            17 => N::Disp(gen_string(r)),
            18 => N::Bytes(gen_bytes(r)),
            19 => N::None,
            20 if l.variants => N::UnitVariant(variant(r)),
            21 | 22 => {
                let n = sub(r);
                if l.json && null(&n) {
                    continue;
                }
                N::Some(Box::new(n))
            }
            23 => N::Newtype(Box::new(sub(r))),
            24 if l.variants => N::NewtypeVariant(variant(r), Box::new(sub(r))),
            25 | 26 => N::Seq(some(r)),
            27 => N::Tuple(some(r)),
            28 => N::TupleStruct(some(r)),
            29 if l.variants => N::TupleVariant(variant(r), some(r)),
            30 => {
                let n = clen(r, d);
                let kind = r.below(5);
                // Keys all differ.
                let mut keys = Vec::new();
                for _ in 0..n {
                    let k = match kind {
                        0 => N::I64(Gen::gen(r, 0)),
                        1 => N::U8(Gen::gen(r, 0)),
                        2 => N::U64(Gen::gen(r, 0)),
                        _ => N::Str(gen_string(r)),
                    };
                    if !keys.contains(&k) {
                        keys.push(k);
                    }
                }
                N::Map(keys.into_iter().map(|k| (k, sub(r))).collect())
            }
            31 | 32 => {
                let n = clen(r, d).min(NAMES.len());
                N::Struct(names(r, n).into_iter().map(|k| (k, sub(r))).collect())
            }
            33 if l.variants => {
                let n = clen(r, d).min(NAMES.len());
                N::StructVariant(variant(r), names(r, n).into_iter().map(|k| (k, sub(r))).collect())
            }
            _ => continue,
        };
    }
}
/// Replaces the node at a random place.
fn spoil(r: &mut Rng, n: &mut N) {
    let go = |r: &mut Rng, v: &mut N| spoil(r, v);
    match n {
        N::Some(n) | N::Newtype(n) | N::NewtypeVariant(_, n) if r.chance(4, 5) => go(r, n),
        N::Seq(v) | N::Tuple(v) | N::TupleStruct(v) | N::TupleVariant(_, v) if !v.is_empty() && r.chance(9, 10) => {
            let i = r.below(v.len());
            go(r, &mut v[i])
        }
        N::Map(v) if !v.is_empty() && r.chance(9, 10) => {
            let i = r.below(v.len());
            go(r, &mut v[i].1)
        }
        N::Struct(v) | N::StructVariant(_, v) if !v.is_empty() && r.chance(9, 10) => {
            let i = r.below(v.len());
            go(r, &mut v[i].1)
        }
        n => *n = N::Fail,
    }
}
fn count(n: &N) -> u64 {
    1 + match n {
        N::Some(n) | N::Newtype(n) | N::NewtypeVariant(_, n) => count(n),
        N::Seq(v) | N::Tuple(v) | N::TupleStruct(v) | N::TupleVariant(_, v) => v.iter().map(count).sum(),
        N::Map(v) => v.iter().map(|v| count(&v.1)).sum(),
        N::Struct(v) | N::StructVariant(_, v) => v.iter().map(|v| count(&v.1)).sum(),
        _ => 0,
    }
}
fn unit_variants(n: &N) -> bool {
    match n {
        N::UnitVariant(_) => true,
        N::Some(n) | N::Newtype(n) | N::NewtypeVariant(_, n) => unit_variants(n),
        N::Seq(v) | N::Tuple(v) | N::TupleStruct(v) | N::TupleVariant(_, v) => v.iter().any(unit_variants),
        N::Map(v) => v.iter().any(|v| unit_variants(&v.1)),
        N::Struct(v) | N::StructVariant(_, v) => v.iter().any(|v| unit_variants(&v.1)),
        _ => false,
    }
}

impl Serialize for N {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            N::Unit => s.serialize_unit(),
            N::UnitStruct => s.serialize_unit_struct("U"),
            N::Bool(v) => s.serialize_bool(*v),
            N::I8(v) => s.serialize_i8(*v),
            N::I16(v) => s.serialize_i16(*v),
            N::I32(v) => s.serialize_i32(*v),
            N::I64(v) => s.serialize_i64(*v),
            N::I128(v) => s.serialize_i128(*v),
            N::U8(v) => s.serialize_u8(*v),
            N::U16(v) => s.serialize_u16(*v),
            N::U32(v) => s.serialize_u32(*v),
            N::U64(v) => s.serialize_u64(*v),
            N::U128(v) => s.serialize_u128(*v),
            N::F32(v) => s.serialize_f32(*v),
            N::F64(v) => s.serialize_f64(*v),
            N::Char(v) => s.serialize_char(*v),
            N::Str(v) => s.serialize_str(v),
            N::Disp(v) => {
                // In several parts.
                let mut at = v.len() / 2;
                while !v.is_char_boundary(at) {
                    at -= 1;
                }
                s.collect_str(&format_args!("{}{}", &v[..at], &v[at..]))
            }
            N::Bytes(v) => s.serialize_bytes(v),
            N::None => s.serialize_none(),
            N::Some(v) => s.serialize_some(&**v),
            N::Newtype(v) => s.serialize_newtype_struct("N", &**v),
            N::UnitVariant(k) => s.serialize_unit_variant("E", *k as u32, NAMES[*k]),
            N::NewtypeVariant(k, v) => s.serialize_newtype_variant("E", *k as u32, NAMES[*k], &**v),
            N::Seq(v) => {
                let mut s = s.serialize_seq(Some(v.len()))?;
                for v in v {
                    s.serialize_element(v)?;
                }
                s.end()
            }
            N::Tuple(v) => {
                let mut s = s.serialize_tuple(v.len())?;
                for v in v {
                    s.serialize_element(v)?;
                }
                s.end()
            }
            N::TupleStruct(v) => {
                let mut s = s.serialize_tuple_struct("T", v.len())?;
                for v in v {
                    s.serialize_field(v)?;
                }
                s.end()
            }
            N::TupleVariant(k, v) => {
                let mut s = s.serialize_tuple_variant("E", *k as u32, NAMES[*k], v.len())?;
                for v in v {
                    s.serialize_field(v)?;
                }
                s.end()
            }
            N::Map(v) => {
                let mut s = s.serialize_map(Some(v.len()))?;
                for (i, (k, v)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        s.serialize_entry(k, v)?;
                    } else {
                        s.serialize_key(k)?;
                        s.serialize_value(v)?;
                    }
                }
                s.end()
            }
            N::Struct(v) => {
                let mut s = s.serialize_struct("S", v.len())?;
                for (k, v) in v {
                    s.serialize_field(NAMES[*k], v)?;
                }
                s.end()
            }
            N::StructVariant(k, v) => {
                let mut s = s.serialize_struct_variant("E", *k as u32, NAMES[*k], v.len())?;
                for (k, v) in v {
                    s.serialize_field(NAMES[*k], v)?;
                }
                s.end()
            }
            N::Fail => Err(serde::ser::Error::custom(SORRY)),
        }
    }
}

/// How a tree is read back.
struct How {
    /// The tree that is expected, and the part to be read next.
    rng: Rng,
    /// In 16: reading a part as it describes itself.
    any: usize,
    /// In 16: ignoring a part.
    ignore: usize,
    /// In 16: leaving a collection early.
    stop: usize,
    wrong: Option<String>,
    seen: u64,
    as_any: u64,
    skipped: u64,
}
thread_local! { static HOW: RefCell<Option<(N, How)>> = const { RefCell::new(None) }; }
struct Read<'a>(&'a N, &'a RefCell<How>);

fn wrong<E: de::Error>(h: &RefCell<How>, what: String) -> E {
    h.borrow_mut().wrong.get_or_insert(what.clone());
    E::custom(what)
}

impl<'de> DeserializeSeed<'de> for Read<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let (any, ignore) = {
            let mut h = self.1.borrow_mut();
            h.seen += 1;
            let (a, i) = (h.any, h.ignore);
            (h.rng.chance(a, 16), h.rng.chance(i, 16))
        };
        let v = See(self.0, self.1, "");
        if matches!(self.0, N::Fail) {
            return Err(de::Error::custom(SORRY));
        }
        if ignore {
            self.1.borrow_mut().skipped += 1;
            IgnoredAny::deserialize(d)?;
            return Ok(());
        }
        let variant = matches!(self.0, N::UnitVariant(_) | N::NewtypeVariant(..) | N::TupleVariant(..) | N::StructVariant(..));
        let other = matches!(self.0, N::Newtype(_));
        if any && !variant && !other {
            self.1.borrow_mut().as_any += 1;
            return d.deserialize_any(v);
        }
        match self.0 {
            N::Unit => d.deserialize_unit(v),
            N::UnitStruct => d.deserialize_unit_struct("U", v),
            N::Bool(_) => d.deserialize_bool(v),
            N::I8(_) => d.deserialize_i8(v),
            N::I16(_) => d.deserialize_i16(v),
            N::I32(_) => d.deserialize_i32(v),
            N::I64(_) => d.deserialize_i64(v),
            N::I128(_) => d.deserialize_i128(v),
            N::U8(_) => d.deserialize_u8(v),
            N::U16(_) => d.deserialize_u16(v),
            N::U32(_) => d.deserialize_u32(v),
            N::U64(_) => d.deserialize_u64(v),
            N::U128(_) => d.deserialize_u128(v),
            N::F32(_) => d.deserialize_f32(v),
            N::F64(_) => d.deserialize_f64(v),
            N::Char(_) => d.deserialize_char(v),
            N::Str(_) => d.deserialize_str(v),
            N::Disp(_) => d.deserialize_string(v),
            N::Bytes(b) if b.len() % 2 == 0 => d.deserialize_bytes(v),
            N::Bytes(_) => d.deserialize_byte_buf(v),
            N::None | N::Some(_) => d.deserialize_option(v),
            N::Newtype(_) => d.deserialize_newtype_struct("N", v),
            N::UnitVariant(_) | N::NewtypeVariant(..) | N::TupleVariant(..) | N::StructVariant(..) => d.deserialize_enum("E", &NAMES, v),
            N::Seq(_) => d.deserialize_seq(v),
            N::Tuple(n) => d.deserialize_tuple(n.len(), v),
            N::TupleStruct(n) => d.deserialize_tuple_struct("T", n.len(), v),
            N::Map(_) => d.deserialize_map(v),
            N::Struct(_) => d.deserialize_struct("S", &NAMES, v),
            N::Fail => unreachable!(),
        }
    }
}
struct See<'a>(&'a N, &'a RefCell<How>, &'static str);
impl See<'_> {
    fn bad<E: de::Error, T: Debug>(&self, got: T) -> Result<(), E> {
        Err(wrong(self.1, format!("{} is read as {}", show(self.0), show(&got))))
    }
    fn int<E: de::Error>(&self, neg: bool, mag: u128) -> Result<(), E> {
        use vh::num::Int;
        let v = Int::new(neg, mag);
        let s = |v: i128| Int::new(v < 0, v.unsigned_abs());
        let want = match *self.0 {
            N::I8(v) => s(v.into()),
            N::I16(v) => s(v.into()),
            N::I32(v) => s(v.into()),
            N::I64(v) => s(v.into()),
            N::I128(v) => s(v),
            N::U8(v) => s(v.into()),
            N::U16(v) => s(v.into()),
            N::U32(v) => s(v.into()),
            N::U64(v) => s(v.into()),
            N::U128(v) => Int::new(false, v),
            // A float without a fraction, in JSON.
            N::F64(f) if f as i128 as f64 == f && s(f as i128) == v => return Ok(()),
            N::F64(f) if (mag as f64 * if neg { -1.0 } else { 1.0 }) == f => return Ok(()),
            N::F32(f) if (mag as f32 * if neg { -1.0 } else { 1.0 }) == f => return Ok(()),
            _ => return self.bad(v),
        };
        if v == want {
            Ok(())
        } else {
            self.bad(v)
        }
    }
    fn null<E: de::Error>(&self, what: &'static str) -> Result<(), E> {
        if null(self.0) {
            Ok(())
        } else {
            self.bad(what)
        }
    }
}
macro_rules! see_int {
    ($($f:ident $t:ty),*) => { $(fn $f<E: de::Error>(self, v: $t) -> Result<(), E> {
        #[allow(unused_comparisons)]
        self.int(v < 0, if v < 0 { (v as i128).unsigned_abs() } else { v as u128 })
    })* };
}
impl<'de> Visitor<'de> for See<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} {}", show(self.0), self.2)
    }
    see_int!(visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64, visit_i128 i128, visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64, visit_u128 u128);
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<(), E> {
        match self.0 {
            N::Bool(w) if *w == v => Ok(()),
            _ => self.bad(v),
        }
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<(), E> {
        match self.0 {
            N::F32(w) if *w == v => Ok(()),
            N::F64(w) if *w == v as f64 => Ok(()),
            _ => self.bad(v),
        }
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<(), E> {
        match self.0 {
            N::F64(w) if *w == v => Ok(()),
            N::F32(w) if *w == v as f32 => Ok(()),
            _ => self.bad(v),
        }
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<(), E> {
        match self.0 {
            N::Char(w) if *w == v => Ok(()),
            _ => self.bad(v),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        match self.0 {
            N::Str(w) | N::Disp(w) if w == v => Ok(()),
            N::Char(w) if v.chars().eq([*w]) => Ok(()),
            // A key of a JSON object.
            N::I64(w) if v == w.to_string() => Ok(()),
            N::U64(w) if v == w.to_string() => Ok(()),
            N::U8(w) if v == w.to_string() => Ok(()),
            _ => self.bad(v),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<(), E> {
        match self.0 {
            N::Bytes(w) if w == v => Ok(()),
            _ => self.bad(v),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        self.null("nothing")
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.null("none")
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.0 {
            N::Some(v) => Read(v, self.1).deserialize(d),
            _ => self.bad("something"),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        match self.0 {
            N::Newtype(v) => Read(v, self.1).deserialize(d),
            _ => self.bad("a newtype"),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let bytes;
        let v = match (self.0, self.2) {
            (N::Seq(v) | N::Tuple(v) | N::TupleStruct(v), "") | (N::TupleVariant(_, v), "tuple") => v,
            (N::Bytes(b), "") => {
                bytes = b.iter().map(|b| N::U8(*b)).collect();
                &bytes
            }
            _ => return self.bad("a sequence"),
        };
        if let Some(n) = a.size_hint() {
            if n > v.len() {
                return self.bad(format!("a sequence of {n}"));
            }
        }
        for (i, n) in v.iter().enumerate() {
            let stop = {
                let mut h = self.1.borrow_mut();
                let n = h.stop;
                h.rng.chance(n, 16)
            };
            if stop {
                self.1.borrow_mut().skipped += 1;
                return Ok(());
            }
            if a.next_element_seed(Read(n, self.1))?.is_none() {
                return self.bad(format!("a sequence of {i}"));
            }
        }
        // Derived types do not ask for more than they have fields.
        if matches!(self.0, N::Seq(_)) || self.1.borrow_mut().rng.bool() {
            if a.next_element::<IgnoredAny>()?.is_some() {
                return self.bad("a longer sequence");
            }
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let list;
        let inner;
        let v: &[(N, N)] = match (self.0, self.2) {
            (N::Map(v), "") => v,
            (N::Struct(v), "") | (N::StructVariant(_, v), "struct") => {
                list = v.iter().map(|(k, v)| (N::Str(NAMES[*k].into()), v.clone())).collect::<Vec<_>>();
                &list
            }
            // What is optional in JSON leaves no trace.
            (N::Some(v), "") => {
                inner = See(v, self.1, "");
                return inner.visit_map(a);
            }
            _ => return self.bad("a map"),
        };
        for (i, (k, n)) in v.iter().enumerate() {
            let (stop, skip) = {
                let mut h = self.1.borrow_mut();
                let (s, k) = (h.stop, h.ignore);
                (h.rng.chance(s, 16), h.rng.chance(k, 16))
            };
            if stop {
                self.1.borrow_mut().skipped += 1;
                return Ok(());
            }
            if a.next_key_seed(Key(k, self.1))?.is_none() {
                return self.bad(format!("a map of {i}"));
            }
            if skip {
                self.1.borrow_mut().skipped += 1;
                a.next_value::<IgnoredAny>()?;
            } else {
                a.next_value_seed(Read(n, self.1))?;
            }
        }
        if a.next_key::<String>()?.is_some() {
            return self.bad("a longer map");
        }
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let k = match self.0 {
            N::UnitVariant(k) | N::NewtypeVariant(k, _) | N::TupleVariant(k, _) | N::StructVariant(k, _) => *k,
            _ => return self.bad("a variant"),
        };
        let name = N::Str(NAMES[k].into());
        let ((), a) = a.variant_seed(Ident(&name, self.1))?;
        match self.0 {
            N::UnitVariant(_) => a.unit_variant(),
            N::NewtypeVariant(_, v) => a.newtype_variant_seed(Read(v, self.1)),
            N::TupleVariant(_, v) => a.tuple_variant(v.len(), See(self.0, self.1, "tuple")),
            _ => a.struct_variant(&NAMES, See(self.0, self.1, "struct")),
        }
    }
}
struct Key<'a>(&'a N, &'a RefCell<How>);
impl<'de> DeserializeSeed<'de> for Key<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let ident = matches!(self.0, N::Str(_)) && self.1.borrow_mut().rng.bool();
        if ident {
            return Ident(self.0, self.1).deserialize(d);
        }
        // Keys are not ignored: their values are.
        let any = {
            let mut h = self.1.borrow_mut();
            let n = h.any;
            h.rng.chance(n, 16)
        };
        let v = See(self.0, self.1, "");
        if any {
            return d.deserialize_any(v);
        }
        match self.0 {
            N::I64(_) => d.deserialize_i64(v),
            N::U8(_) => d.deserialize_u8(v),
            N::U64(_) => d.deserialize_u64(v),
            _ => d.deserialize_string(v),
        }
    }
}
struct Ident<'a>(&'a N, &'a RefCell<How>);
impl<'de> DeserializeSeed<'de> for Ident<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_identifier(See(self.0, self.1, ""))
    }
}

#[derive(Debug)]
struct Tree;
impl<'de> Deserialize<'de> for Tree {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (n, how) = HOW.with(|h| h.borrow_mut().take()).unwrap();
        let how = RefCell::new(how);
        let r = Read(&n, &how).deserialize(d);
        HOW.with(|h| *h.borrow_mut() = Some((n, how.into_inner())));
        r.map(|()| Tree)
    }
}
fn read_as<T>(n: &N, how: How, f: impl FnOnce() -> T) -> (T, How) {
    HOW.with(|h| *h.borrow_mut() = Some((n.clone(), how)));
    let r = f();
    (r, HOW.with(|h| h.borrow_mut().take()).unwrap().1)
}
fn how(r: &mut Rng, any: usize, skip: usize) -> How {
    let pick = |r: &mut Rng, n: usize| if r.bool() { 0 } else { r.below(n + 1) };
    How { any: pick(r, any), ignore: pick(r, skip), stop: pick(r, skip), rng: Rng::new(r.u64()), wrong: None, seen: 0, as_any: 0, skipped: 0 }
}

fn trees<F: Fmt>(c: &mut Case<'_>) -> R {
    let describes = matches!(F::KIND, Kind::Json | Kind::Descriptive);
    let skips = !matches!(F::KIND, Kind::Storage);
    // What an optional map or sequence looks like in JSON.
    let l = Limits { json: F::KIND == Kind::Json, big: true, variants: true };
    let (n, b) = loop {
        let n = gen(&mut c.rng, l, 0);
        let b = F::to_vec(&W(&n)).map_err(|e| format!("{}: {} is refused: {e}", F::NAME, show(&n)))?;
        if b.len() < 1 << 16 {
            break (n, b);
        }
    };
    c.seen_bytes(&b);
    c.sample(|| format!("{} {}", F::NAME, show(&n)));
    for k in 0..3 {
        // In JSON something optional cannot be told from what it holds.
        let any = if k == 0 || !describes || F::KIND == Kind::Json && optional(&n) { 0 } else { 16 };
        let (r, h) = read_as(&n, how(&mut c.rng, any, if k == 1 && skips { 8 } else { 0 }), || {
            let mut s = &b[..];
            F::advance::<W<Tree>>(&mut s).map(|_| b.len() - s.len())
        });
        if let Some(w) = h.wrong {
            fail!("{}: {} as {}: {w}", F::NAME, show(&n), hex(&b));
        }
        match r {
            Err(e) => fail!("{}: {} as {} is refused: {e}", F::NAME, show(&n), hex(&b)),
            Ok(at) => ensure!(at == b.len(), "{}: {} ends at {at} of {}", F::NAME, show(&n), b.len()),
        }
        c.events("nodes read", h.seen);
        c.events("nodes read as they describe themselves", h.as_any);
        c.events("parts ignored", h.skipped);
    }
    // Implementations which fail.
    let mut bad = n.clone();
    spoil(&mut c.rng, &mut bad);
    match F::to_vec(&W(&bad)) {
        Ok(b) => fail!("{}: {} fails, but is written as {}", F::NAME, show(&bad), hex(&b)),
        Err(e) => ensure!(e.contains(SORRY), "{}: {} fails with {e:?}", F::NAME, show(&bad)),
    }
    let (r, h) = read_as(&bad, how(&mut c.rng, 0, 0), || F::from_slice::<W<Tree>>(&b));
    if let Some(w) = h.wrong {
        fail!("{}: {} as {}: {w}", F::NAME, show(&bad), hex(&b));
    }
    match r {
        Ok(_) => fail!("{}: {} fails, but is read", F::NAME, show(&bad)),
        Err(e) => ensure!(e.contains(SORRY), "{}: reading {} fails with {e:?}", F::NAME, show(&bad)),
    }
    // A context tells the same.
    let cx = musli::context::new().with_capture::<String>().with_trace();
    let e = F::to_vec_with(&cx, &W(&bad));
    ensure!(e.is_err() && cx.errors().any(|e| e.to_string().contains(SORRY)), "{}: the context does not report the failure of {}", F::NAME, show(&bad));
    c.event("failures surfaced");
    // So do failures of the format.
    if b.len() > 1 {
        let at = c.rng.below(b.len());
        let (r, h) = read_as(&n, how(&mut c.rng, 0, 0), || F::from_slice::<W<Tree>>(&b[..at]));
        if F::KIND != Kind::Json || !number(&n) {
            ensure!(r.is_err() || h.wrong.is_some(), "{}: {} bytes of {} are enough for {}", F::NAME, at, b.len(), show(&n));
        }
        if let Err(e) = r {
            ensure!(!e.contains("Captured error"), "{}: the message is {e:?}", F::NAME);
        }
        c.event("input cut short");
    }
    Ok(())
}
fn number(n: &N) -> bool {
    match n {
        N::Some(n) | N::Newtype(n) => number(n),
        N::I8(_) | N::I16(_) | N::I32(_) | N::I64(_) | N::I128(_) | N::U8(_) | N::U16(_) | N::U32(_) | N::U64(_) | N::U128(_) | N::F32(_) | N::F64(_) => true,
        _ => false,
    }
}
fn optional(n: &N) -> bool {
    match n {
        N::None | N::Some(_) => true,
        N::Newtype(n) | N::NewtypeVariant(_, n) => optional(n),
        N::Seq(v) | N::Tuple(v) | N::TupleStruct(v) | N::TupleVariant(_, v) => v.iter().any(optional),
        N::Map(v) => v.iter().any(|v| optional(&v.1)),
        N::Struct(v) | N::StructVariant(_, v) => v.iter().any(|v| optional(&v.1)),
        _ => false,
    }
}
fn tree_meaning(c: &mut Case<'_>) -> R {
    let l = Limits { json: true, big: false, variants: true };
    let n = gen(&mut c.rng, l, 0);
    let t = musli::json::to_string(&W(&n)).map_err(|e| format!("{} is refused: {e}", show(&n)))?;
    c.seen_bytes(t.as_bytes());
    let (r, h) = read_as(&n, how(&mut c.rng, 0, 0), || serde_json::from_str::<Tree>(&t));
    if let Some(w) = h.wrong {
        fail!("{} is written as {t}, and serde_json finds that {w}", show(&n));
    }
    if let Err(e) = r {
        fail!("{} is written as {t}, which serde_json refuses: {e}", show(&n));
    }
    c.event("texts read by serde_json");
    if !unit_variants(&n) {
        let ours: serde_json::Value = serde_json::from_str(&t).map_err(|e| format!("{t}: {e}"))?;
        let text = serde_json::to_string(&n).map_err(|e| e.to_string())?;
        let theirs: serde_json::Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        ensure!(vh::json_eq(&ours, &theirs), "{} is written as {t}, but by serde_json as {text}", show(&n));
        c.event("texts equal in meaning");
        let (r, h) = read_as(&n, how(&mut c.rng, 0, 4), || musli::json::from_str::<W<Tree>>(&text));
        if let Some(w) = h.wrong {
            fail!("{} is written by serde_json as {text}: {w}", show(&n));
        }
        if let Err(e) = r {
            fail!("{} is written by serde_json as {text} and refused: {e}", show(&n));
        }
        c.event("texts of serde_json read");
    }
    c.events("nodes read", count(&n));
    Ok(())
}
/// A sequence that does not say how long it is.
struct Unsized(Vec<u32>);
impl Serialize for Unsized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(self.0.iter().filter(|_| true))
    }
}
fn unsized_seq<F: Fmt>(c: &mut Case<'_>) -> R {
    let v: Vec<u32> = Gen::gen(&mut c.rng, 0);
    c.seen_bytes(format!("{v:?}").as_bytes());
    match F::to_vec(&W(Unsized(v.clone()))) {
        Err(_) => ensure!(F::KIND != Kind::Json, "json does not need lengths"),
        Ok(b) => {
            let g = F::from_slice::<W<Vec<u32>>>(&b);
            ensure!(g.as_ref().is_ok_and(|g| g.0 == v), "{}: {v:?} without a length becomes {g:?}", F::NAME);
        }
    }
    c.event("sequences of unknown length");
    Ok(())
}

smodel! { #[serde(tag = "type")] enum Whole { A { w: F } } }
smodel! { #[serde(untagged)] enum Either { I(i64), F(F) } }
/// Whole floats in JSON as seen by types which ask what there is.
fn whole_floats(c: &mut Case<'_>) -> R {
    let v = gen_f64_finite(&mut c.rng);
    let v = F(if c.rng.bool() { v.trunc() } else { v });
    c.seen(v.0.to_bits());
    let whole = v.0.fract() == 0.0 && v.0.abs() < 3.5e38 && !(v.0 == 0.0 && v.0.is_sign_negative());
    let a = W(Whole::A { w: v });
    let t = musli::json::to_string(&a).map_err(|e| e.to_string())?;
    match musli::json::from_str::<W<Whole>>(&t) {
        Ok(g) => ensure!(g == a, "{t} is read as {g:?}"),
        Err(e) if whole && v.0.abs() >= 9.2e18 && e.to_string().contains("128") => c.known("json-whole-floats"),
        Err(e) => fail!("{t} is refused: {e}"),
    }
    let a = W(Either::F(v));
    let t = musli::json::to_string(&a).map_err(|e| e.to_string())?;
    match musli::json::from_str::<W<Either>>(&t) {
        Ok(g) if g == a => {}
        Ok(W(Either::I(i))) if whole && i as f64 == v.0 => c.known("json-whole-floats"),
        Err(_) if whole && v.0.abs() >= 9.2e18 => c.known("json-whole-floats"),
        g => fail!("{t} is read as {g:?}"),
    }
    // Formats which mark their types tell.
    round_one::<Descriptive, _>(&a)?;
    c.event("floats read as they describe themselves");
    Ok(())
}
fn round_one<F: Fmt, T: Serialize + DeserializeOwned + Debug + PartialEq>(v: &W<T>) -> R {
    let b = F::to_vec(v)?;
    let g = F::from_slice::<W<T>>(&b).map_err(|e| format!("{}: {}: {e}", F::NAME, show(v)))?;
    ensure!(g == *v, "{}: {} becomes {}", F::NAME, show(v), show(&g));
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    macro_rules! all {
        ($($f:ident)*) => { $(
            g.add(concat!("round/integers/", stringify!($f)), round::<$f, Ints>);
            g.add(concat!("round/kinds/", stringify!($f)), round::<$f, Kinds>);
            g.add(concat!("round/enums/", stringify!($f)), round::<$f, Holds>);
            g.add(concat!("round/external/", stringify!($f)), round::<$f, Vec<(Ext, Units)>>);
            g.add(concat!("round/attributes/", stringify!($f)), round::<$f, Vec<Attrs>>);
            g.add(concat!("round/standard/", stringify!($f)), round::<$f, Stds>);
            g.add(concat!("between/", stringify!($f)), between::<$f>);
            g.add(concat!("borrowed/", stringify!($f)), borrows::<$f>);
            for i in 0..4 { g.add(format!("trees/{}/{i}", stringify!($f)), trees::<$f>); }
            g.add(concat!("flattened/", stringify!($f)), flat::<$f>);
            g.add(concat!("unknown lengths/", stringify!($f)), unsized_seq::<$f>);
        )* };
    }
    all!(Storage Wire Descriptive Json StorageFixedBe WireFixed DescriptiveText WireText JsonBinary);
    macro_rules! some {
        ($($f:ident)*) => { $(
            g.add(concat!("round/internal/", stringify!($f)), round::<$f, Vec<Internal>>);
            g.add(concat!("round/adjacent/", stringify!($f)), round::<$f, Vec<Adj>>);
            g.add(concat!("round/untagged/", stringify!($f)), round::<$f, Vec<Unt>>);
            g.add(concat!("round/self-described/", stringify!($f)), round::<$f, SelfDescribed>);
        )* };
    }
    some!(Descriptive DescriptiveText DescriptiveFixed Json JsonBinary);
    g.add("round/floats/Storage", round::<Storage, Floats>);
    g.add("round/floats/Wire", round::<Wire, Floats>);
    g.add("round/floats/Descriptive", round::<Descriptive, Floats>);
    g.add("round/floats/StorageFixedBe", round::<StorageFixedBe, Floats>);
    g.add("value/integers", through_value::<Ints>);
    g.add("value/floats", through_value::<Floats>);
    g.add("value/kinds", through_value::<Kinds>);
    g.add("value/enums", through_value::<Holds>);
    g.add("value/external", through_value::<Vec<(Ext, Units)>>);
    g.add("value/attributes", through_value::<Vec<Attrs>>);
    g.add("value/standard", through_value::<Stds>);
    g.add("value/internal", through_value::<Vec<Internal>>);
    g.add("value/adjacent", through_value::<Vec<Adj>>);
    g.add("value/untagged", through_value::<Vec<Unt>>);
    g.add("json/integers", json::<Ints, false>);
    g.add("json/kinds", json::<Kinds, false>);
    g.add("json/enums", json::<Holds, true>);
    g.add("json/external", json::<Vec<Ext>, false>);
    g.add("json/attributes", json::<Vec<Attrs>, false>);
    g.add("json/standard", json::<Stds, false>);
    g.add("json/internal", json::<Vec<Internal>, false>);
    g.add("json/adjacent", json::<Vec<Adj>, true>);
    g.add("json/untagged", json::<Vec<Unt>, false>);
    g.add("json/self-described", json::<SelfDescribed, true>);
    g.add("json/whole floats", whole_floats);
    for i in 0..4 {
        g.add(format!("json/trees/{i}"), tree_meaning);
    }
    vh::rt::main(g);
}
