//! F15: self-describing data is never read as something of another kind.
//!
//! A value of any shape is read as types which may or may not match it. What
//! each type has to make of it is computed from the shape, independently: the
//! value, a refusal, or either of them where nothing is promised.
use musli::alloc::{Allocator, System};
use musli::de::{AsDecoder, Decoder};
use musli::options::Options;
use musli::value::Value as Dynamic;
use musli::Decode;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Debug;
use vh::model::{self, hex, Fmt};
use vh::rng::Rng;
use vh::rt::{self, Case, Groups, R};
use vh::shape::{self, Cfg, Shape as S};
use vh::{ensure, fail};

/// Where it is read from.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Way {
    Desc,
    /// Descriptive bytes by way of a dynamic value.
    Value,
    Json,
    /// JSON text by way of a dynamic value.
    JsonValue,
}
use Way::*;
impl Way {
    fn json(self) -> bool {
        matches!(self, Json | JsonValue)
    }
}

/// What a type makes of a shape.
#[derive(Debug)]
enum Exp<T> {
    Is(T),
    Refused,
    Any,
}
use Exp::*;

impl<T> Exp<T> {
    fn map<U>(self, f: impl FnOnce(T) -> U) -> Exp<U> {
        match self {
            Is(v) => Is(f(v)),
            Refused => Refused,
            Any => Any,
        }
    }
}
/// All of them, where the first which isn't a value decides.
fn all<T, U>(it: impl IntoIterator<Item = Exp<T>>, f: impl FnOnce(Vec<T>) -> U) -> Exp<U> {
    let mut out = Vec::new();
    let mut any = false;
    for e in it {
        match e {
            Is(v) => out.push(v),
            // Something which might be refused ahead makes no difference.
            Refused => return Refused,
            Any => any = true,
        }
    }
    if any {
        Any
    } else {
        Is(f(out))
    }
}

trait Kind: Sized + Debug {
    fn mean(s: &S, f: Way) -> Exp<Self>;
    /// Read as the key of a map.
    fn key(s: &S, f: Way) -> Exp<Self> {
        match f {
            Json | JsonValue => Refused,
            _ => Self::mean(s, f),
        }
    }
    /// A shape which is likely to match.
    fn like(r: &mut Rng, f: Way) -> S;
}

fn whole(s: &S) -> Option<Result<u128, i128>> {
    fn i(v: i128) -> Result<u128, i128> {
        u128::try_from(v).map_err(|_| v)
    }
    Some(match *s {
        S::U8(v) => Ok(v.into()),
        S::U16(v) => Ok(v.into()),
        S::U32(v) => Ok(v.into()),
        S::U64(v) => Ok(v.into()),
        S::U128(v) => Ok(v),
        S::Usize(v) => Ok(v as u128),
        S::I8(v) => i(v.into()),
        S::I16(v) => i(v.into()),
        S::I32(v) => i(v.into()),
        S::I64(v) => i(v.into()),
        S::I128(v) => i(v),
        S::Isize(v) => i(v as i128),
        _ => return None,
    })
}
fn gen_int(r: &mut Rng) -> S {
    match r.below(12) {
        0 => S::I8(r.u8() as i8),
        1 => S::I16(r.edge_bits() as i16),
        2 => S::I32(r.edge_bits() as i32),
        3 => S::I64(r.edge_bits() as i64),
        4 => S::I128(r.edge_bits() as i128),
        5 => S::U16(r.edge_bits() as u16),
        6 => S::U32(r.edge_bits() as u32),
        7 => S::U64(r.edge_bits() as u64),
        8 => S::U128(r.edge_bits()),
        9 => S::Usize(r.edge_bits() as usize),
        10 => S::Isize(r.edge_bits() as isize),
        _ => S::U8(r.u8()),
    }
}

/// Those beyond the range of an i128 might be one of an u128.
fn from_float(v: f64) -> Exp<i128> {
    if v.fract() != 0.0 || !v.is_finite() {
        Refused
    } else if v.abs() < 1e38 {
        Is(v as i128)
    } else {
        Any
    }
}
macro_rules! ints {
    ($($t:ty)*) => {
        $(impl Kind for $t {
            fn mean(s: &S, f: Way) -> Exp<Self> {
                match whole(s) {
                    Some(Ok(v)) => v.try_into().map_or(Refused, Is),
                    Some(Err(v)) => v.try_into().map_or(Refused, Is),
                    None => match s {
                        // The text of a float may start with an integer, or be one.
                        S::F32(_) | S::F64(_) if f.json() => Any,
                        // A number which is the same.
                        S::F32(v) if f == Value => from_float(f32::from_bits(*v).into()).and(|v| v.try_into().map_or(Refused, Is)),
                        S::F64(v) if f == Value => from_float(f64::from_bits(*v)).and(|v| v.try_into().map_or(Refused, Is)),
                        S::Some(s) if f.json() => Self::mean(s, f),
                        _ => Refused,
                    },
                }
            }
            fn key(s: &S, f: Way) -> Exp<Self> {
                if !f.json() {
                    return Self::mean(s, f);
                }
                if let S::Str(s) = s {
                    if s.trim() != s {
                        return Any;
                    }
                    let digits = s.strip_prefix('-').unwrap_or(s);
                    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
                        return if s.bytes().all(|b| b.is_ascii_digit() || b"+-.eE".contains(&b)) && !s.is_empty() { Any } else { Refused };
                    }
                    if digits.len() > 1 && digits.starts_with('0') || s == "-0" {
                        return Any;
                    }
                    return s.parse().map_or(Refused, Is);
                }
                match whole(s) {
                    Some(_) => Self::mean(s, f),
                    None => Refused,
                }
            }
            fn like(r: &mut Rng, _: Way) -> S {
                match r.below(4) {
                    0 => S::U8(r.below(128) as u8),
                    1 => S::I64(<$t>::MAX as i64),
                    _ => gen_int(r),
                }
            }
        })*
    };
}
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

impl Kind for bool {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        match s {
            S::Bool(v) => Is(*v),
            S::Some(s) if f.json() => Self::mean(s, f),
            _ => Refused,
        }
    }
    fn key(s: &S, f: Way) -> Exp<Self> {
        match s {
            S::Str(s) if f.json() => match &s[..] {
                "true" | "false" => Any,
                _ => Refused,
            },
            _ if f.json() => Refused,
            _ => Self::mean(s, f),
        }
    }
    fn like(r: &mut Rng, _: Way) -> S {
        S::Bool(r.bool())
    }
}
impl Kind for char {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        match s {
            S::Char(v) => Is(*v),
            S::Str(s) if f != Desc => {
                let mut it = s.chars();
                match (it.next(), it.next()) {
                    (Some(c), None) => Is(c),
                    _ => Refused,
                }
            }
            S::Some(s) if f.json() => Self::mean(s, f),
            _ => Refused,
        }
    }
    fn like(r: &mut Rng, _: Way) -> S {
        S::Char(model::gen_char(r))
    }
}
mod finite {
    pub use vh::model::{gen_f32_finite as f32, gen_f64_finite as f64};
}
macro_rules! floats {
    ($($t:ident $v:ident $o:ident $oo:ident)*) => {
        $(impl Kind for $t {
            fn mean(s: &S, f: Way) -> Exp<Self> {
                match s {
                    S::$v(v) => Is(<$t>::from_bits(*v)),
                    // The other width.
                    S::$o(v) if f == Value => Is(<$oo>::from_bits(*v) as $t),
                    S::$o(_) if f.json() => Any,
                    S::Some(s) if f.json() => Self::mean(s, f),
                    _ if f == Desc => Refused,
                    _ => match whole(s) {
                        Some(Ok(v)) => Is(v as $t),
                        Some(Err(v)) => Is(v as $t),
                        None => Refused,
                    },
                }
            }
            fn like(r: &mut Rng, f: Way) -> S {
                S::$v((if f.json() { finite::$t(r) } else { $t::from_bits(r.u64() as _) }).to_bits())
            }
        })*
    };
}
floats!(f32 F32 F64 f64 f64 F64 F32 f32);

impl Kind for String {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        match s {
            S::Str(v) => Is(v.clone()),
            S::Char(c) if f.json() => Is(c.to_string()),
            S::Some(s) if f.json() => Self::mean(s, f),
            _ => Refused,
        }
    }
    fn key(s: &S, f: Way) -> Exp<Self> {
        match whole(s) {
            Some(Ok(v)) if f.json() => Is(v.to_string()),
            Some(Err(v)) if f.json() => Is(v.to_string()),
            _ => Self::mean(s, f),
        }
    }
    fn like(r: &mut Rng, _: Way) -> S {
        S::Str(model::gen_string(r))
    }
}
impl Kind for Box<str> {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        String::mean(s, f).map(Into::into)
    }
    fn like(r: &mut Rng, f: Way) -> S {
        String::like(r, f)
    }
}
impl Kind for () {
    fn mean(_: &S, _: Way) -> Exp<Self> {
        // Whatever is there is ignored.
        Any
    }
    fn like(_: &mut Rng, _: Way) -> S {
        S::Empty
    }
}
impl<T: Kind> Kind for Option<T> {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        match s {
            S::None => Is(None),
            S::Some(s) => T::mean(s, f).map(Some),
            S::Empty if f != Desc => Is(None),
            s if f != Desc => T::mean(s, f).map(Some),
            _ => Refused,
        }
    }
    fn like(r: &mut Rng, f: Way) -> S {
        if r.bool() {
            return S::None;
        }
        let s = T::like(r, f);
        S::Some(Box::new(if f.json() && matches!(s, S::None | S::Some(_) | S::Empty) { S::Bool(true) } else { s }))
    }
}

fn items<T: Kind>(s: &S, f: Way) -> Exp<Vec<T>> {
    match s {
        S::Seq(v) => all(v.iter().map(|s| T::mean(s, f)), |v| v),
        S::Pack(v) if f.json() => all(v.iter().map(|s| T::mean(s, f)), |v| v),
        S::Bytes(v) if f.json() => all(v.iter().map(|s| T::mean(&S::U8(*s), f)), |v| v),
        S::Array(v) if f.json() => all(v.iter().map(|s| T::mean(&S::U8(*s), f)), |v| v),
        S::Some(s) if f.json() => items(s, f),
        _ => Refused,
    }
}
fn gen_items<T: Kind>(r: &mut Rng, f: Way) -> S {
    S::Seq((0..r.below(5)).map(|_| T::like(r, f)).collect())
}
macro_rules! seqs {
    ($($t:ident)*) => {
        $(impl<T: Kind + Ord> Kind for $t<T> {
            fn mean(s: &S, f: Way) -> Exp<Self> {
                items::<T>(s, f).map(|v| v.into_iter().collect())
            }
            fn like(r: &mut Rng, f: Way) -> S {
                gen_items::<T>(r, f)
            }
        })*
    };
}
seqs!(VecDeque BTreeSet);
impl<T: Kind> Kind for Vec<T> {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        items::<T>(s, f)
    }
    fn like(r: &mut Rng, f: Way) -> S {
        gen_items::<T>(r, f)
    }
}
impl<T: Kind, const N: usize> Kind for [T; N] {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        items::<T>(s, f).and(|v| v.try_into().map_or(Refused, Is))
    }
    fn like(r: &mut Rng, f: Way) -> S {
        S::Seq((0..N).map(|_| T::like(r, f)).collect())
    }
}
impl<T> Exp<T> {
    fn and<U>(self, f: impl FnOnce(T) -> Exp<U>) -> Exp<U> {
        match self {
            Is(v) => f(v),
            Refused => Refused,
            Any => Any,
        }
    }
}

fn entries<K: Kind, V: Kind>(s: &S, f: Way) -> Exp<Vec<(K, V)>> {
    match s {
        S::Map(v) => all(v.iter().map(|(k, v)| pair::<K, V>(k, v, f)), |v| v),
        S::Variant(k, v) if f.json() => pair(k, v, f).map(|p| vec![p]),
        S::Some(s) if f.json() => entries(s, f),
        _ => Refused,
    }
}
fn pair<K: Kind, V: Kind>(k: &S, v: &S, f: Way) -> Exp<(K, V)> {
    match (K::key(k, f), V::mean(v, f)) {
        (Is(k), Is(v)) => Is((k, v)),
        (Refused, _) | (_, Refused) => Refused,
        _ => Any,
    }
}
fn gen_key(r: &mut Rng, f: Way, like: S) -> S {
    if !f.json() {
        return like;
    }
    match like {
        S::Str(_) => like,
        s => match whole(&s) {
            Some(Ok(v)) if r.bool() => S::Str(v.to_string()),
            Some(Err(v)) if r.bool() => S::Str(v.to_string()),
            Some(_) => s,
            None => S::Str((*r.pick(&["true", "false", "", "1", "x"])).into()),
        },
    }
}
fn gen_entries<K: Kind, V: Kind>(r: &mut Rng, f: Way) -> S {
    S::Map(
        (0..r.below(5))
            .map(|_| {
                let k = K::like(r, f);
                (gen_key(r, f, k), V::like(r, f))
            })
            .collect(),
    )
}
impl<K: Kind + Ord, V: Kind> Kind for BTreeMap<K, V> {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        entries::<K, V>(s, f).map(|v| v.into_iter().collect())
    }
    fn like(r: &mut Rng, f: Way) -> S {
        gen_entries::<K, V>(r, f)
    }
}

macro_rules! tuples {
    ($(($($t:ident)*))*) => {
        $(impl<$($t: Kind),*> Kind for ($($t,)*) {
            #[allow(non_snake_case, unused_assignments)]
            fn mean(s: &S, f: Way) -> Exp<Self> {
                let b: Vec<S>;
                let v = match s {
                    S::Pack(v) if f.json() => v,
                    // The content of a pack isn't marked by its kinds.
                    S::Pack(_) => return Any,
                    S::Seq(v) => v,
                    S::Bytes(v) if f.json() => {
                        b = v.iter().map(|v| S::U8(*v)).collect();
                        &b
                    }
                    S::Array(v) if f.json() => {
                        b = v.iter().map(|v| S::U8(*v)).collect();
                        &b
                    }
                    S::Some(s) if f.json() => return Self::mean(s, f),
                    _ => return Refused,
                };
                let mut it = v.iter();
                $(let $t = match it.next() { Some(s) => $t::mean(s, f), None => return Refused };)*
                match ($($t,)*) {
                    ($(Is($t),)*) => Is(($($t,)*)),
                    ($($t,)*) => if false $(|| matches!($t, Refused))* { Refused } else { Any },
                }
            }
            fn like(r: &mut Rng, f: Way) -> S {
                S::Pack(vec![$($t::like(r, f)),*])
            }
        })*
    };
}
tuples!((A) (A B) (A B C));

/// Raw bytes.
#[derive(Debug, PartialEq)]
struct Raw(Vec<u8>);
impl<'de, M, A: Allocator> Decode<'de, M, A> for Raw {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.decode_unsized(|b: &[u8]| Ok(Raw(b.to_vec())))
    }
}
fn bytes(s: &S, f: Way) -> Exp<Vec<u8>> {
    match s {
        S::Bytes(v) => Is(v.clone()),
        S::Array(v) => Is(v.to_vec()),
        S::Pack(_) if !f.json() => Any,
        _ if f != Desc => items(s, f),
        _ => Refused,
    }
}
fn gen_bytes(r: &mut Rng, n: usize) -> S {
    if n == 4 && r.bool() {
        return S::Array([r.u8(), r.u8(), r.u8(), r.u8()]);
    }
    S::Bytes((0..n).map(|_| r.u8()).collect())
}
impl Kind for Raw {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        bytes(s, f).map(Raw)
    }
    fn like(r: &mut Rng, _: Way) -> S {
        let n = r.below(8);
        gen_bytes(r, n)
    }
}
/// An array of bytes.
#[derive(Debug, PartialEq, Decode)]
#[musli(transparent)]
struct Arr<const N: usize>(#[musli(bytes)] [u8; N]);
impl<const N: usize> Kind for Arr<N> {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        bytes(s, f).and(|v| v.try_into().map_or(Refused, |v| Is(Arr(v))))
    }
    fn like(r: &mut Rng, _: Way) -> S {
        let n = if r.chance(1, 4) { r.below(6) } else { N };
        gen_bytes(r, n)
    }
}

#[derive(Debug, PartialEq, Decode)]
#[musli(name_all = "name")]
struct Rec {
    #[musli(default)]
    a: u16,
    b: Vec<i8>,
    #[musli(default)]
    c: Option<String>,
}
/// The fields of a structure.
fn fields<'a>(s: &'a S, f: Way) -> Exp<Vec<(String, &'a S)>> {
    match s {
        S::Map(v) => all(v.iter().map(|(k, v)| String::key(k, f).map(|k| (k, v))), |v| v),
        S::Variant(k, v) if f.json() => String::key(k, f).map(|k| vec![(k, &**v)]),
        S::Some(s) if f.json() => fields(s, f),
        _ => Refused,
    }
}
impl Kind for Rec {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        let v = match fields(s, f) {
            Is(v) => v,
            Refused => return Refused,
            Any => return Any,
        };
        let (mut a, mut b, mut c) = (Is(0), None, Is(None));
        let mut any = false;
        for (k, s) in v {
            // A repeated field: the last is taken, and the others have to be readable.
            let e = match &k[..] {
                "a" => {
                    a = u16::mean(s, f);
                    matches!(a, Refused)
                }
                "b" => {
                    let e = Vec::mean(s, f);
                    any |= matches!(e, Any);
                    let no = matches!(e, Refused);
                    b = Some(e);
                    no
                }
                "c" => {
                    c = Option::mean(s, f);
                    matches!(c, Refused)
                }
                _ => continue,
            };
            any |= matches!(a, Any) || matches!(c, Any);
            if e {
                return Refused;
            }
        }
        let Some(b) = b else { return Refused };
        match (a, b, c) {
            (Is(a), Is(b), Is(c)) if !any => Is(Rec { a, b, c }),
            _ => Any,
        }
    }
    fn like(r: &mut Rng, f: Way) -> S {
        let mut v = Vec::new();
        for _ in 0..r.below(5) {
            let k = *r.pick(&["a", "b", "c", "b", "x", "bb"]);
            let s = match k {
                "a" => u16::like(r, f),
                "b" => Vec::<i8>::like(r, f),
                "c" => Option::<String>::like(r, f),
                _ => any_shape(r, f),
            };
            v.push((S::Str(k.into()), s));
        }
        S::Map(v)
    }
}
#[derive(Debug, PartialEq, Decode)]
#[musli(name_all = "name")]
enum Choice {
    Unit,
    #[musli(transparent)]
    Wrap(u32),
    Tuple(i8, #[musli(default)] Option<bool>),
    #[musli(name_all = "name")]
    Named {
        b: Vec<i8>,
    },
}
impl Kind for Choice {
    fn mean(s: &S, f: Way) -> Exp<Self> {
        let one;
        let (k, s) = match s {
            S::Variant(k, s) => (&**k, &**s),
            S::Map(v) if f.json() => match &v[..] {
                [(k, s)] => (k, s),
                _ => return Refused,
            },
            S::Some(s) if f.json() => return Self::mean(s, f),
            // The name alone.
            S::Str(_) if f.json() => return Any,
            _ => return Refused,
        };
        let k = match String::key(k, f) {
            Is(k) => k,
            Refused => return Refused,
            Any => return Any,
        };
        match &k[..] {
            "Unit" => match s {
                S::Map(v) => {
                    // Nothing is known, everything is skipped.
                    _ = v;
                    Any
                }
                _ => Any,
            },
            "Wrap" => u32::mean(s, f).map(Choice::Wrap),
            "Tuple" => {
                let v = match s {
                    S::Map(v) => v,
                    S::Variant(a, b) if f.json() => {
                        one = vec![((**a).clone(), (**b).clone())];
                        &one
                    }
                    _ if f.json() => return Any,
                    _ => return Refused,
                };
                let (mut a, mut b) = (None, Is(None));
                let mut any = false;
                for (k, s) in v {
                    match usize::key(k, f) {
                        Is(0) => {
                            let e = i8::mean(s, f);
                            if matches!(e, Refused) {
                                return Refused;
                            }
                            any |= matches!(e, Any);
                            a = Some(e);
                        }
                        Is(1) => {
                            b = Option::mean(s, f);
                            if matches!(b, Refused) {
                                return Refused;
                            }
                            any |= matches!(b, Any);
                        }
                        Is(_) => (),
                        // A name of another kind.
                        Refused if !f.json() => return Refused,
                        _ => return Any,
                    }
                }
                match (a, b) {
                    (None, _) => Refused,
                    (Some(Is(a)), Is(b)) if !any => Is(Choice::Tuple(a, b)),
                    _ => Any,
                }
            }
            "Named" => match fields(s, f) {
                Is(v) => {
                    let mut b = Refused;
                    for (k, s) in v {
                        if k == "b" {
                            let e = Vec::mean(s, f);
                            match (&e, &b) {
                                (Refused, _) => return Refused,
                                (_, Any) => (),
                                _ => b = e,
                            }
                        }
                    }
                    b.map(|b| Choice::Named { b })
                }
                Refused => Refused,
                Any => Any,
            },
            _ => Refused,
        }
    }
    fn like(r: &mut Rng, f: Way) -> S {
        let k = *r.pick(&["Unit", "Wrap", "Tuple", "Named", "Tuple", "Other"]);
        let v = match k {
            "Unit" => S::Map(Vec::new()),
            "Wrap" => u32::like(r, f),
            "Tuple" => S::Map(
                (0..r.below(4))
                    .map(|_| match r.below(3) {
                        0 => (S::U8(0), i8::like(r, f)),
                        1 => (S::Usize(1), Option::<bool>::like(r, f)),
                        _ => (S::U32(2 + r.u32() / 2), any_shape(r, f)),
                    })
                    .collect(),
            ),
            "Named" => Rec::like(r, f),
            _ => any_shape(r, f),
        };
        S::Variant(Box::new(S::Str(k.into())), Box::new(v))
    }
}
fn cfg(f: Way, depth: usize) -> Cfg {
    Cfg { depth, ..if f.json() { Cfg::JSON } else { Cfg::ALL } }
}
fn any_shape(r: &mut Rng, f: Way) -> S {
    shape::gen(r, cfg(f, 2), 0)
}

/// Replace something inside.
fn disturb(s: &mut S, r: &mut Rng, f: Way, key: bool) {
    let deep = r.chance(3, 4);
    match s {
        S::Some(s) if deep => {
            disturb(s, r, f, false);
            if f.json() && matches!(**s, S::None | S::Some(_) | S::Empty) {
                **s = S::Bool(false);
            }
        }
        S::Seq(v) if deep && !v.is_empty() => {
            let i = r.below(v.len());
            disturb(&mut v[i], r, f, false)
        }
        S::Map(v) if deep && !v.is_empty() => {
            let i = r.below(v.len());
            if r.chance(1, 4) {
                disturb(&mut v[i].0, r, f, true)
            } else {
                disturb(&mut v[i].1, r, f, false)
            }
        }
        S::Variant(k, v) if deep => {
            if r.chance(1, 5) {
                disturb(k, r, f, true)
            } else {
                disturb(v, r, f, false)
            }
        }
        s => {
            *s = if key {
                if f.json() && r.bool() {
                    S::Str((*r.pick(&["", "-", "-0", "007", "1.5", "1e3", "12 ", " 1", "+1", "256", "-129", "99999999999999999999", "0x1", "true", "1a", "\u{660}"])).into())
                } else {
                    shape::gen_key(r, cfg(f, 1))
                }
            } else {
                match r.below(8) {
                    0 => S::None,
                    1 => S::Empty,
                    2 => gen_int(r),
                    3 => S::Seq(vec![]),
                    4 => S::Map(vec![]),
                    _ => shape::gen(r, cfg(f, 1), 0),
                }
            }
        }
    }
}

fn kinds<T>(c: &mut Case<'_>) -> R
where
    T: Kind + for<'a> Decode<'a, musli::mode::Binary, System> + for<'a> Decode<'a, musli::mode::Text, System>,
{
    let f = *c.rng.pick(&[Desc, Value, Json, JsonValue]);
    let mut s = if c.rng.chance(1, 6) { any_shape(&mut c.rng, f) } else { T::like(&mut c.rng, f) };
    for _ in 0..*c.rng.pick(&[0, 1, 1, 1, 2, 5]) {
        disturb(&mut s, &mut c.rng, f, false);
    }
    c.sample(|| format!("{f:?} {s:?}"));
    let b = if f.json() { model::Json::to_vec(&s)? } else { model::Descriptive::to_vec(&s)? };
    c.seen_bytes(&b);
    let got: Result<T, String> = match f {
        Desc => model::Descriptive::from_slice(&b),
        Json => model::Json::from_slice(&b),
        JsonValue => {
            let v: Dynamic<System> = model::Json::from_slice(&b)?;
            // Otherwise, the keys are texts.
            const OPT: Options = musli::options::new().map_keys_as_numbers().build();
            let cx = musli::context::new();
            let d = v.as_decoder::<OPT, _, musli::mode::Text>(&cx);
            d.as_decoder().and_then(|d| d.decode()).map_err(|_| String::new())
        }
        Value => {
            let v: Dynamic<System> = model::Descriptive::from_slice(&b)?;
            musli::value::decode(&v).map_err(|e| e.to_string())
        }
    };
    let t = std::any::type_name::<T>();
    let show = if f.json() { String::from_utf8_lossy(&b).into_owned() } else { hex(&b) };
    match (T::mean(&s, f), got) {
        (Is(a), Ok(b)) => {
            ensure!(format!("{a:?}") == format!("{b:?}"), "{f:?}: {s:?} was read as {b:?} ({t}) instead of {a:?} from {show}");
            c.event(["descriptive values of a matching kind read", "dynamic values of a matching kind read", "JSON values of a matching kind read", "dynamic JSON values of a matching kind read"][f as usize]);
        }
        (Refused, Err(_)) => c.event(["descriptive values of another kind refused", "dynamic values of another kind refused", "JSON values of another kind refused", "dynamic JSON values of another kind refused"][f as usize]),
        (Any, _) => c.event("unconstrained"),
        (Is(a), Err(e)) => fail!("{f:?}: {s:?} should be read as {a:?} ({t}), but: {e} from {show}"),
        (Refused, Ok(v)) => fail!("{f:?}: {s:?} was read as {v:?} ({t}) from {show}"),
    }
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    macro_rules! add {
        ($($t:ty;)*) => { $(g.add(format!("kinds/{}", stringify!($t).replace(' ', "")), kinds::<$t>);)* };
    }
    add! {
        u8; u16; u32; u64; u128; usize; i8; i16; i32; i64; i128; isize;
        f32; f64; bool; char; String; Box<str>; Raw; Arr<4>; Arr<0>; Arr<5>;
        Option<u32>; Option<String>; Option<Vec<bool>>; Vec<u16>; Vec<i64>; Vec<Option<char>>; Vec<Vec<String>>; [i16; 3]; [String; 2];
        VecDeque<bool>; BTreeSet<i32>; (u8,); (u32, String); (String, Vec<u8>, bool); Vec<(i8, bool)>;
        BTreeMap<String, u32>; BTreeMap<u8, String>; BTreeMap<i16, bool>; BTreeMap<u128, f64>; BTreeMap<i128, Vec<u8>>; BTreeMap<u32, Option<i32>>;
        BTreeMap<i64, Rec>; BTreeMap<usize, Choice>; BTreeMap<isize, u8>; BTreeMap<u16, char>; BTreeMap<u64, i8>; BTreeMap<i8, u64>; BTreeMap<i32, ()>;
        BTreeMap<String, BTreeMap<String, Vec<u8>>>; BTreeMap<bool, u8>; Rec; Vec<Rec>; Option<Rec>; Choice; Vec<Choice>; Option<Choice>;
    }
    rt::main(g);
}
