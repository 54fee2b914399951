//! F14: the derive attributes produce the documented representation.
//!
//! Every derived type here has a twin written by hand: the shape which the
//! documentation of its attributes gives for a value. What is encoded must be
//! the encoding of the shape (and, for the binary formats, what an independent
//! writer makes of the shape), and the shape with fields moved, absent or
//! renamed must decode to the value which the attributes imply, or be refused.
//! Types which have a serde equivalent are compared with serde_json as well.
#![allow(clippy::large_enum_variant, unreachable_patterns)]
use musli::alloc::System;
use musli::mode::Text;
use musli::{Context, Decode, Decoder, Encode, Encoder};
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{self, Case, Groups, R};
use vh::shape::{self, Cfg, Lay, Shape};
use vh::ensure;
use Shape as Sh;

// --- shapes of values ---------------------------------------------------------

/// The shape of a value in a mode.
trait S {
    fn s(&self, text: bool) -> Shape;
}
macro_rules! prim {
    ($($t:ty: $v:ident => $e:expr;)*) => { $(impl S for $t { fn s(&self, _: bool) -> Shape { let $v = self; $e } })* };
}
prim! {
    u8: v => Sh::U8(*v);
    u16: v => Sh::U16(*v);
    u32: v => Sh::U32(*v);
    u64: v => Sh::U64(*v);
    i8: v => Sh::I8(*v);
    i32: v => Sh::I32(*v);
    i64: v => Sh::I64(*v);
    bool: v => Sh::Bool(*v);
    char: v => Sh::Char(*v);
    usize: v => Sh::Usize(*v);
    String: v => Sh::Str(v.clone());
    str: v => Sh::Str(v.into());
}
impl<T: S> S for Option<T> {
    fn s(&self, t: bool) -> Shape {
        match self {
            None => Sh::None,
            Some(v) => Sh::Some(Box::new(v.s(t))),
        }
    }
}
impl<T: S + ?Sized> S for Box<T> {
    fn s(&self, t: bool) -> Shape {
        (**self).s(t)
    }
}
impl<T: S> S for Vec<T> {
    fn s(&self, t: bool) -> Shape {
        Sh::Seq(self.iter().map(|v| v.s(t)).collect())
    }
}
impl<T: S> S for BTreeMap<String, T> {
    fn s(&self, t: bool) -> Shape {
        Sh::Map(self.iter().map(|(k, v)| (Sh::Str(k.clone()), v.s(t))).collect())
    }
}

fn st(s: &str) -> Shape {
    Sh::Str(s.into())
}
/// The name of a field or variant.
fn k(text: bool, name: &str, index: usize) -> Shape {
    if text {
        st(name)
    } else {
        Sh::Usize(index)
    }
}
fn map(v: Vec<(Shape, Shape)>) -> Shape {
    Sh::Map(v)
}
fn var(tag: Shape, v: Shape) -> Shape {
    Sh::Variant(Box::new(tag), Box::new(v))
}

/// What is decoded if something is different.
enum Then<T> {
    Value(T),
    Refused,
    /// Not specified.
    Unknown,
}

/// A type which is documented by its shape.
trait Doc: S + Clone + PartialEq + Debug + Sized {
    fn arb(r: &mut Rng) -> Self;
    /// The value which comes back.
    fn back(&self) -> Self {
        self.clone()
    }
    /// A field which is absent.
    fn without(&self, _text: bool, _key: &Shape) -> Then<Self> {
        Then::Unknown
    }
    /// Other shapes which are the same value, or another one, or refused (None).
    fn other(&self, _text: bool, _r: &mut Rng) -> Option<(Shape, Option<Self>)> {
        None
    }
    /// Can what is encoded be decoded.
    const BACK: bool = true;
    /// Are there maps whose fields may move.
    const FIELDS: bool = true;
    /// Adjacently tagged: the tag comes before the content.
    const ADJACENT: bool = false;
}

trait Arb: Sized {
    fn a(r: &mut Rng) -> Self;
}
impl<T: Gen> Arb for T {
    fn a(r: &mut Rng) -> Self {
        T::gen(r, 2)
    }
}
fn vec<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> T) -> Vec<T> {
    (0..r.below(4)).map(|_| f(r)).collect()
}
fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.bool() {
        Some(f(r))
    } else {
        None
    }
}

// --- name styles ---------------------------------------------------------------

/// The words of an identifier.
fn words(s: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for part in s.split('_') {
        if part.is_empty() {
            continue;
        }
        let mut cur = String::new();
        for c in part.chars() {
            if c.is_uppercase() && !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            cur.extend(c.to_lowercase());
        }
        out.push(cur);
    }
    out
}
fn style(style: &str, ident: &str) -> String {
    let w = words(ident);
    let cap = |s: &String| -> String { s[..1].to_uppercase() + &s[1..] };
    match style {
        "name" => ident.into(),
        "PascalCase" => w.iter().map(cap).collect(),
        "camelCase" => w.iter().enumerate().map(|(i, s)| if i == 0 { s.clone() } else { cap(s) }).collect(),
        "snake_case" => w.join("_"),
        "SCREAMING_SNAKE_CASE" => w.join("_").to_uppercase(),
        "kebab-case" => w.join("-"),
        "SCREAMING-KEBAB-CASE" => w.join("-").to_uppercase(),
        _ => unreachable!(),
    }
}

macro_rules! styled {
    ($($st:ident $en:ident $style:literal;)*) => {
        $(
        #[derive(Debug, Clone, PartialEq, Encode, Decode)]
        #[musli(name_all = $style)]
        struct $st {
            one: u8,
            second_field: String,
            the_third_field2: u32,
            http2_url_x: Option<u16>,
            r#type: i32,
            _lead: bool,
        }
        impl S for $st {
            fn s(&self, t: bool) -> Shape {
                let n = |i: &str| st(&style($style, i));
                map(vec![
                    (n("one"), self.one.s(t)),
                    (n("second_field"), self.second_field.s(t)),
                    (n("the_third_field2"), self.the_third_field2.s(t)),
                    (n("http2_url_x"), self.http2_url_x.s(t)),
                    (n("type"), self.r#type.s(t)),
                    (n("_lead"), self._lead.s(t)),
                ])
            }
        }
        impl Doc for $st {
            fn arb(r: &mut Rng) -> Self {
                Self { one: Arb::a(r), second_field: Arb::a(r), the_third_field2: Arb::a(r), http2_url_x: opt(r, Arb::a), r#type: Arb::a(r), _lead: Arb::a(r) }
            }
            fn without(&self, _: bool, _: &Shape) -> Then<Self> {
                Then::Refused
            }
        }
        #[derive(Debug, Clone, PartialEq, Encode, Decode)]
        #[musli(name_all = $style)]
        enum $en {
            One(u8),
            SecondVariant { a_field: u32, b: String },
            #[musli(name_all = $style)]
            HttpXY { a_field: u32, b: String },
            #[musli(Binary, name = "other")]
            #[musli(Text, name = "OTHER")]
            AnOther,
            #[musli(name_all = "index")]
            Idx { a: u8, b: $st },
        }
        impl S for $en {
            fn s(&self, t: bool) -> Shape {
                let n = |i: &str| st(&style($style, i));
                match self {
                    $en::One(v) => var(n("One"), map(vec![(Sh::Usize(0), v.s(t))])),
                    $en::SecondVariant { a_field, b } => var(n("SecondVariant"), map(vec![(k(t, "a_field", 0), a_field.s(t)), (k(t, "b", 1), b.s(t))])),
                    $en::HttpXY { a_field, b } => var(n("HttpXY"), map(vec![(n("a_field"), a_field.s(t)), (n("b"), b.s(t))])),
                    $en::AnOther => var(st(if t { "OTHER" } else { "other" }), map(vec![])),
                    $en::Idx { a, b } => var(n("Idx"), map(vec![(Sh::Usize(0), a.s(t)), (Sh::Usize(1), b.s(t))])),
                }
            }
        }
        impl Doc for $en {
            fn arb(r: &mut Rng) -> Self {
                match r.below(5) {
                    0 => Self::One(Arb::a(r)),
                    1 => Self::SecondVariant { a_field: Arb::a(r), b: Arb::a(r) },
                    2 => Self::HttpXY { a_field: Arb::a(r), b: Arb::a(r) },
                    3 => Self::AnOther,
                    _ => Self::Idx { a: Arb::a(r), b: Doc::arb(r) },
                }
            }
            fn without(&self, _: bool, _: &Shape) -> Then<Self> {
                Then::Refused
            }
            fn other(&self, _: bool, r: &mut Rng) -> Option<(Shape, Option<Self>)> {
                let n = *r.pick(&["Another", "AnOther", "OneX", "", "0"]);
                if $style == "name" && n == "AnOther" {
                    return None;
                }
                Some((var(st(n), map(vec![])), None))
            }
        }
        )*
    };
}
styled! {
    StName EnName "name";
    StPascal EnPascal "PascalCase";
    StCamel EnCamel "camelCase";
    StSnake EnSnake "snake_case";
    StScream EnScream "SCREAMING_SNAKE_CASE";
    StKebab EnKebab "kebab-case";
    StScreamKebab EnScreamKebab "SCREAMING-KEBAB-CASE";
}

// --- names -----------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Plain {
    one: u8,
    two_words: String,
    r#type: Vec<i32>,
}
impl S for Plain {
    fn s(&self, t: bool) -> Shape {
        map(vec![(k(t, "one", 0), self.one.s(t)), (k(t, "two_words", 1), self.two_words.s(t)), (k(t, "type", 2), self.r#type.s(t))])
    }
}
impl Doc for Plain {
    fn arb(r: &mut Rng) -> Self {
        Plain { one: Arb::a(r), two_words: Arb::a(r), r#type: vec(r, Arb::a) }
    }
    fn without(&self, _: bool, _: &Shape) -> Then<Self> {
        Then::Refused
    }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Text, name_all = "index")]
#[musli(Binary, name_all = "camelCase")]
struct Swapped {
    one_two: u8,
    #[musli(Text, name = 9)]
    #[musli(Binary, name = "x")]
    three: bool,
    #[musli(Text, skip)]
    four: u32,
    five: char,
}
impl S for Swapped {
    fn s(&self, t: bool) -> Shape {
        let mut v = vec![
            (if t { Sh::Usize(0) } else { st("oneTwo") }, self.one_two.s(t)),
            (if t { Sh::Usize(9) } else { st("x") }, self.three.s(t)),
        ];
        if !t {
            v.push((st("four"), self.four.s(t)));
        }
        v.push((if t { Sh::Usize(3) } else { st("five") }, self.five.s(t)));
        map(v)
    }
}
impl Doc for Swapped {
    fn arb(r: &mut Rng) -> Self {
        Swapped { one_two: Arb::a(r), three: Arb::a(r), four: 0, five: Arb::a(r) }
    }
    fn without(&self, _: bool, _: &Shape) -> Then<Self> {
        Then::Refused
    }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = usize))]
struct Gaps {
    #[musli(name = 1000)]
    a: u8,
    #[musli(name = 7)]
    b: u8,
    // NB: the index of the field.
    c: u8,
    #[musli(name = 0)]
    d: u8,
}
impl S for Gaps {
    fn s(&self, t: bool) -> Shape {
        map(vec![(Sh::Usize(1000), self.a.s(t)), (Sh::Usize(7), self.b.s(t)), (Sh::Usize(2), self.c.s(t)), (Sh::Usize(0), self.d.s(t))])
    }
}
impl Doc for Gaps {
    fn arb(r: &mut Rng) -> Self {
        Gaps { a: Arb::a(r), b: Arb::a(r), c: Arb::a(r), d: Arb::a(r) }
    }
    fn without(&self, _: bool, _: &Shape) -> Then<Self> {
        Then::Refused
    }
}

macro_rules! typed {
    ($name:ident, $t:ty, $ctor:ident, $a:expr, $b:expr, $c:expr) => {
        #[derive(Debug, Clone, PartialEq, Encode, Decode)]
        #[musli(name(type = $t))]
        enum $name {
            #[musli(name = $a)]
            A,
            #[musli(name = $b, name(type = $t))]
            B {
                #[musli(name = $c)]
                x: u32,
                #[musli(name = $a)]
                y: bool,
                #[musli(name = $b)]
                z: String,
            },
            #[musli(name = $c)]
            C(Box<$name>),
        }
        impl S for $name {
            fn s(&self, t: bool) -> Shape {
                match self {
                    $name::A => var(Sh::$ctor($a), map(vec![])),
                    $name::B { x, y, z } => var(Sh::$ctor($b), map(vec![(Sh::$ctor($c), x.s(t)), (Sh::$ctor($a), y.s(t)), (Sh::$ctor($b), z.s(t))])),
                    $name::C(v) => var(Sh::$ctor($c), map(vec![(Sh::Usize(0), v.s(t))])),
                }
            }
        }
        impl Doc for $name {
            fn arb(r: &mut Rng) -> Self {
                match r.below(3) {
                    0 => Self::A,
                    1 => Self::B { x: Arb::a(r), y: Arb::a(r), z: Arb::a(r) },
                    _ => Self::C(Box::new(Self::arb(r))),
                }
            }
            fn without(&self, _: bool, _: &Shape) -> Then<Self> {
                Then::Refused
            }
        }
    };
}
typed!(TypedU8, u8, U8, 0, 255, 7);
typed!(TypedU32, u32, U32, 1, 70000, u32::MAX);
typed!(TypedU64, u64, U64, 5, 1 << 40, 300);
typed!(TypedI8, i8, I8, -128, 3, 0);
typed!(TypedI64, i64, I64, -5, 5, i64::MIN);
typed!(TypedChar, char, Char, 'a', 'é', '\u{1F600}');
typed!(TypedU16, u16, U16, 1, 2, 3);

/// Names which are bytes.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = [u8], format_with = dbg))]
struct ByteNames {
    #[musli(name = b"")]
    a: u8,
    #[musli(name = b"x\xff")]
    b: String,
    #[musli(name = b"box\0")]
    c: Option<u8>,
}
fn dbg<T: Debug + ?Sized>(v: &T) -> String {
    format!("{v:?}")
}
impl S for ByteNames {
    fn s(&self, t: bool) -> Shape {
        let n = |v: &[u8]| Sh::Bytes(v.to_vec());
        map(vec![(n(b""), self.a.s(t)), (n(b"x\xff"), self.b.s(t)), (n(b"box\0"), self.c.s(t))])
    }
}
impl Doc for ByteNames {
    fn arb(r: &mut Rng) -> Self {
        ByteNames { a: Arb::a(r), b: Arb::a(r), c: opt(r, Arb::a) }
    }
    fn without(&self, _: bool, _: &Shape) -> Then<Self> {
        Then::Refused
    }
}

macro_rules! byte_tags {
    ($name:ident, [$($attr:tt)*], $content:expr) => {
        #[derive(Debug, Clone, PartialEq, Encode, Decode)]
        #[musli(name(type = str), $($attr)*)]
        enum $name {
            #[musli(name = "A", name(type = [u8], format_with = dbg))]
            A {
                #[musli(name = b"x\xff")]
                x: u8,
                #[musli(name = b"", default)]
                y: u32,
            },
            #[musli(name = "")]
            B,
        }
        impl S for $name {
            fn s(&self, t: bool) -> Shape {
                let b = |v: &[u8]| Sh::Bytes(v.to_vec());
                let (tag, rest) = match self {
                    $name::A { x, y } => (st("A"), vec![(b(b"x\xff"), x.s(t)), (b(b""), y.s(t))]),
                    $name::B => (st(""), vec![]),
                };
                let mut v = vec![(b(b"tag"), tag)];
                if $content {
                    v.push((b(b"content"), map(rest)));
                } else {
                    v.extend(rest);
                }
                map(v)
            }
        }
        impl Doc for $name {
            const ADJACENT: bool = $content;
            fn arb(r: &mut Rng) -> Self {
                if r.bool() {
                    $name::A { x: Arb::a(r), y: Arb::a(r) }
                } else {
                    $name::B
                }
            }
            fn without(&self, _: bool, key: &Shape) -> Then<Self> {
                match self {
                    $name::A { x, .. } if !$content && *key == Sh::Bytes(vec![]) => Then::Value($name::A { x: *x, y: 0 }),
                    _ => Then::Refused,
                }
            }
        }
    };
}
byte_tags!(ByteTag, [tag(value = b"tag", type = [u8], format_with = dbg)], false);
byte_tags!(ByteAdj, [tag(value = b"tag", type = [u8], format_with = dbg), content(value = b"content", type = [u8], format_with = dbg)], true);

/// A name of a type of its own.
#[derive(Debug, PartialEq, Eq, Encode, Decode)]
#[musli(packed)]
struct Version(u8, u8);
impl std::fmt::Display for Version {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}.{}", self.0, self.1)
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = Version))]
struct Versioned {
    #[musli(name = Version(1, 0))]
    a: u8,
    #[musli(name = Version(0, 1))]
    b: String,
    #[musli(name = Version(1, 1), default)]
    c: u32,
}
impl S for Versioned {
    fn s(&self, t: bool) -> Shape {
        let n = |a, b| Sh::Pack(vec![Sh::U8(a), Sh::U8(b)]);
        map(vec![(n(1, 0), self.a.s(t)), (n(0, 1), self.b.s(t)), (n(1, 1), self.c.s(t))])
    }
}
impl Doc for Versioned {
    fn arb(r: &mut Rng) -> Self {
        Versioned { a: Arb::a(r), b: Arb::a(r), c: Arb::a(r) }
    }
    fn without(&self, _: bool, key: &Shape) -> Then<Self> {
        if *key == Sh::Pack(vec![Sh::U8(1), Sh::U8(1)]) {
            Then::Value(Versioned { c: 0, ..self.clone() })
        } else {
            Then::Refused
        }
    }
}

// --- structs of every kind ---------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Unit;
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct NoFields {}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct NoTuple();
macro_rules! empties {
    ($($t:ident: $v:expr;)*) => { $(
        impl S for $t { fn s(&self, _: bool) -> Shape { map(vec![]) } }
        impl Doc for $t { fn arb(_: &mut Rng) -> Self { $v } }
    )* };
}
empties! { Unit: Unit; NoFields: NoFields {}; NoTuple: NoTuple(); }

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Tup(u8, String, Unit, #[musli(default)] Option<u32>);
impl S for Tup {
    fn s(&self, t: bool) -> Shape {
        map(vec![(Sh::Usize(0), self.0.s(t)), (Sh::Usize(1), self.1.s(t)), (Sh::Usize(2), self.2.s(t)), (Sh::Usize(3), self.3.s(t))])
    }
}
impl Doc for Tup {
    fn arb(r: &mut Rng) -> Self {
        Tup(Arb::a(r), Arb::a(r), Unit, opt(r, Arb::a))
    }
    fn without(&self, _: bool, key: &Shape) -> Then<Self> {
        if *key == Sh::Usize(3) {
            Then::Value(Tup(self.0, self.1.clone(), Unit, None))
        } else {
            Then::Refused
        }
    }
}
/// A tuple whose fields are named.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = str))]
struct NamedTup(#[musli(name = "first")] u8, #[musli(name = "second")] String);
impl S for NamedTup {
    fn s(&self, t: bool) -> Shape {
        map(vec![(st("first"), self.0.s(t)), (st("second"), self.1.s(t))])
    }
}
impl Doc for NamedTup {
    fn arb(r: &mut Rng) -> Self {
        NamedTup(Arb::a(r), Arb::a(r))
    }
    fn without(&self, _: bool, _: &Shape) -> Then<Self> {
        Then::Refused
    }
}

// --- transparent -----------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(transparent)]
struct Tr<T>(T);
impl<T: S> S for Tr<T> {
    fn s(&self, t: bool) -> Shape {
        self.0.s(t)
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(transparent)]
struct TrSkip {
    #[musli(skip)]
    before: u32,
    inner: Plain,
    #[musli(skip, default = forty_two)]
    after: u32,
}
fn forty_two() -> u32 {
    42
}
impl S for TrSkip {
    fn s(&self, t: bool) -> Shape {
        self.inner.s(t)
    }
}
impl Doc for TrSkip {
    fn arb(r: &mut Rng) -> Self {
        TrSkip { before: Arb::a(r), inner: Doc::arb(r), after: Arb::a(r) }
    }
    fn back(&self) -> Self {
        TrSkip { before: 0, inner: self.inner.clone(), after: 42 }
    }
    fn without(&self, _: bool, _: &Shape) -> Then<Self> {
        Then::Refused
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(Binary, transparent)]
struct TrMode {
    inner: Tr<Option<String>>,
}
impl S for TrMode {
    fn s(&self, t: bool) -> Shape {
        if t {
            map(vec![(st("inner"), self.inner.s(t))])
        } else {
            self.inner.s(t)
        }
    }
}
impl Doc for TrMode {
    fn arb(r: &mut Rng) -> Self {
        TrMode { inner: Tr(opt(r, Arb::a)) }
    }
    fn without(&self, text: bool, _: &Shape) -> Then<Self> {
        if text {
            Then::Refused
        } else {
            Then::Unknown
        }
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum TrVar {
    #[musli(transparent)]
    P(Plain),
    #[musli(transparent)]
    N(u32),
    #[musli(transparent)]
    S { only: String },
    #[musli(transparent)]
    Sk(#[musli(skip)] u8, Tr<Tr<bool>>),
    Normal(u32),
}
impl S for TrVar {
    fn s(&self, t: bool) -> Shape {
        match self {
            TrVar::P(v) => var(k(t, "P", 0), v.s(t)),
            TrVar::N(v) => var(k(t, "N", 1), v.s(t)),
            TrVar::S { only } => var(k(t, "S", 2), only.s(t)),
            TrVar::Sk(_, v) => var(k(t, "Sk", 3), v.s(t)),
            TrVar::Normal(v) => var(k(t, "Normal", 4), map(vec![(Sh::Usize(0), v.s(t))])),
        }
    }
}
impl Doc for TrVar {
    fn arb(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => TrVar::P(Doc::arb(r)),
            1 => TrVar::N(Arb::a(r)),
            2 => TrVar::S { only: Arb::a(r) },
            3 => TrVar::Sk(Arb::a(r), Tr(Tr(Arb::a(r)))),
            _ => TrVar::Normal(Arb::a(r)),
        }
    }
    fn back(&self) -> Self {
        match self {
            TrVar::Sk(_, v) => TrVar::Sk(0, v.clone()),
            v => v.clone(),
        }
    }
    fn without(&self, _: bool, _: &Shape) -> Then<Self> {
        Then::Refused
    }
}

// --- packed ------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(packed)]
struct Pk {
    a: u32,
    b: String,
    c: Tr<u8>,
    #[musli(bytes)]
    d: Vec<u8>,
    #[musli(packed)]
    e: (u8, u16),
    f: bool,
    g: [u8; 2],
}
impl S for Pk {
    fn s(&self, t: bool) -> Shape {
        Sh::Pack(vec![
            self.a.s(t),
            self.b.s(t),
            self.c.s(t),
            Sh::Bytes(self.d.clone()),
            Sh::Pack(vec![self.e.0.s(t), self.e.1.s(t)]),
            self.f.s(t),
            Sh::Seq(self.g.iter().map(|v| v.s(t)).collect()),
        ])
    }
}
impl Doc for Pk {
    const FIELDS: bool = false;
    fn arb(r: &mut Rng) -> Self {
        let n = r.below(20);
        Pk { a: Arb::a(r), b: Arb::a(r), c: Tr(Arb::a(r)), d: r.bytes(n), e: (Arb::a(r), Arb::a(r)), f: Arb::a(r), g: [r.u8(), r.u8()] }
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(packed)]
struct PkTup(u8, i64, char);
impl S for PkTup {
    fn s(&self, t: bool) -> Shape {
        Sh::Pack(vec![self.0.s(t), self.1.s(t), self.2.s(t)])
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct PkFields {
    #[musli(packed)]
    tuple: (u32, String, i8),
    #[musli(packed)]
    array: [u16; 3],
    #[musli(Binary, packed)]
    list: [u32; 2],
    #[musli(packed)]
    one: (bool,),
    pk: PkTup,
    plain: (u8, String),
}
impl S for PkFields {
    fn s(&self, t: bool) -> Shape {
        map(vec![
            (k(t, "tuple", 0), Sh::Pack(vec![self.tuple.0.s(t), self.tuple.1.s(t), self.tuple.2.s(t)])),
            (k(t, "array", 1), Sh::Pack(self.array.iter().map(|v| v.s(t)).collect())),
            (k(t, "list", 2), if t { Sh::Seq(self.list.iter().map(|v| v.s(t)).collect()) } else { Sh::Pack(self.list.iter().map(|v| v.s(t)).collect()) }),
            (k(t, "one", 3), Sh::Pack(vec![self.one.0.s(t)])),
            (k(t, "pk", 4), self.pk.s(t)),
            (k(t, "plain", 5), Sh::Seq(vec![self.plain.0.s(t), self.plain.1.s(t)])),
        ])
    }
}
impl Doc for PkFields {
    fn arb(r: &mut Rng) -> Self {
        PkFields { tuple: (Arb::a(r), Arb::a(r), Arb::a(r)), array: [Arb::a(r), Arb::a(r), Arb::a(r)], list: [Arb::a(r), Arb::a(r)], one: (Arb::a(r),), pk: PkTup(Arb::a(r), Arb::a(r), Arb::a(r)), plain: (Arb::a(r), Arb::a(r)) }
    }
    fn without(&self, _: bool, _: &Shape) -> Then<Self> {
        Then::Refused
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum PkVar {
    #[musli(packed)]
    A(u32, String),
    #[musli(packed)]
    B { x: PkTup, y: bool },
    #[musli(Binary, packed)]
    C { x: u8 },
    D,
}
impl S for PkVar {
    fn s(&self, t: bool) -> Shape {
        match self {
            PkVar::A(a, b) => var(k(t, "A", 0), Sh::Pack(vec![a.s(t), b.s(t)])),
            PkVar::B { x, y } => var(k(t, "B", 1), Sh::Pack(vec![x.s(t), y.s(t)])),
            PkVar::C { x } => var(k(t, "C", 2), if t { map(vec![(st("x"), x.s(t))]) } else { Sh::Pack(vec![x.s(t)]) }),
            PkVar::D => var(k(t, "D", 3), map(vec![])),
        }
    }
}
impl Doc for PkVar {
    fn arb(r: &mut Rng) -> Self {
        match r.below(4) {
            0 => PkVar::A(Arb::a(r), Arb::a(r)),
            1 => PkVar::B { x: PkTup(Arb::a(r), Arb::a(r), Arb::a(r)), y: Arb::a(r) },
            2 => PkVar::C { x: Arb::a(r) },
            _ => PkVar::D,
        }
    }
}

// --- bytes ---------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Bts {
    #[musli(bytes)]
    vec: Vec<u8>,
    #[musli(bytes)]
    deque: VecDeque<u8>,
    #[musli(bytes)]
    boxed: Box<[u8]>,
    #[musli(bytes)]
    array: [u8; 4],
    plain: Vec<u8>,
    #[musli(Binary, bytes)]
    mode: Vec<u8>,
}
impl S for Bts {
    fn s(&self, t: bool) -> Shape {
        map(vec![
            (k(t, "vec", 0), Sh::Bytes(self.vec.clone())),
            (k(t, "deque", 1), Sh::Bytes(self.deque.iter().copied().collect())),
            (k(t, "boxed", 2), Sh::Bytes(self.boxed.to_vec())),
            (k(t, "array", 3), Sh::Array(self.array)),
            (k(t, "plain", 4), self.plain.s(t)),
            (k(t, "mode", 5), if t { self.mode.s(t) } else { Sh::Bytes(self.mode.clone()) }),
        ])
    }
}
impl Doc for Bts {
    fn arb(r: &mut Rng) -> Self {
        let mut deque: VecDeque<u8> = gen_bytes(r).into();
        // Make it wrap around.
        let n = if deque.is_empty() { 0 } else { r.below(deque.len()) };
        deque.rotate_left(n);
        for _ in 0..n.min(4) {
            let v = deque.pop_front().unwrap();
            deque.push_back(v);
        }
        Bts { vec: gen_bytes(r), deque, boxed: gen_bytes(r).into(), array: [r.u8(), r.u8(), r.u8(), r.u8()], plain: gen_bytes(r), mode: gen_bytes(r) }
    }
    fn without(&self, _: bool, _: &Shape) -> Then<Self> {
        Then::Refused
    }
}

// --- skip and default --------------------------------------------------------------

fn is_big(v: &u32) -> bool {
    *v > 1000
}
fn seventeen() -> u32 {
    17
}
fn some_text() -> Option<String> {
    Some("default".into())
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Skips {
    req: u8,
    #[musli(skip)]
    gone: String,
    #[musli(skip, default = forty_two)]
    gone2: u32,
    #[musli(default)]
    def: u32,
    #[musli(default = seventeen)]
    def17: u32,
    #[musli(default = some_text)]
    text: Option<String>,
    #[musli(skip_encoding_if = is_big, default = seventeen)]
    big: u32,
    #[musli(skip_encoding_if = Option::is_none, default)]
    none: Option<u8>,
    #[musli(Text, skip_encoding_if = String::is_empty)]
    #[musli(Text, default)]
    only_text: String,
    #[musli(skip_encoding_if = Vec::is_empty)]
    needed: Vec<u8>,
    #[musli(encode_only, skip)]
    #[musli(decode_only, default = forty_two)]
    not_encoded: u32,
    last: Option<u8>,
}
impl Skips {
    fn wanted(&self, t: bool, all: bool) -> Shape {
        let mut v = vec![(k(t, "req", 0), self.req.s(t)), (k(t, "def", 3), self.def.s(t)), (k(t, "def17", 4), self.def17.s(t)), (k(t, "text", 5), self.text.s(t))];
        if all || !is_big(&self.big) {
            v.push((k(t, "big", 6), self.big.s(t)));
        }
        if all || self.none.is_some() {
            v.push((k(t, "none", 7), self.none.s(t)));
        }
        if all || !t || !self.only_text.is_empty() {
            v.push((k(t, "only_text", 8), self.only_text.s(t)));
        }
        if all || !self.needed.is_empty() {
            v.push((k(t, "needed", 9), self.needed.s(t)));
        }
        if all {
            v.push((k(t, "not_encoded", 10), self.not_encoded.s(t)));
        }
        v.push((k(t, "last", 11), self.last.s(t)));
        map(v)
    }
}
impl S for Skips {
    fn s(&self, t: bool) -> Shape {
        self.wanted(t, false)
    }
}
impl Doc for Skips {
    fn arb(r: &mut Rng) -> Self {
        Skips {
            req: Arb::a(r),
            gone: Arb::a(r),
            gone2: Arb::a(r),
            def: Arb::a(r),
            def17: Arb::a(r),
            text: opt(r, Arb::a),
            big: r.below(2000) as u32,
            none: opt(r, Arb::a),
            only_text: if r.bool() { String::new() } else { Arb::a(r) },
            needed: vec![r.u8()],
            not_encoded: Arb::a(r),
            last: opt(r, Arb::a),
        }
    }
    fn back(&self) -> Self {
        Skips { gone: String::new(), gone2: 42, big: if is_big(&self.big) { 17 } else { self.big }, not_encoded: 42, ..self.clone() }
    }
    fn without(&self, t: bool, key: &Shape) -> Then<Self> {
        let b = self.back();
        let is = |n, i| *key == k(t, n, i);
        if is("def", 3) {
            Then::Value(Skips { def: 0, ..b })
        } else if is("def17", 4) {
            Then::Value(Skips { def17: 17, ..b })
        } else if is("text", 5) {
            Then::Value(Skips { text: some_text(), ..b })
        } else if is("big", 6) {
            Then::Value(Skips { big: 17, ..b })
        } else if is("none", 7) {
            Then::Value(Skips { none: None, ..b })
        } else if is("only_text", 8) && t {
            Then::Value(Skips { only_text: String::new(), ..b })
        } else {
            Then::Refused
        }
    }
    fn other(&self, t: bool, r: &mut Rng) -> Option<(Shape, Option<Self>)> {
        if r.bool() {
            // What is not encoded is still decoded.
            Some((self.wanted(t, true), Some(Skips { big: self.big, not_encoded: self.not_encoded, ..self.back() })))
        } else {
            // And what isn't there although it's needed is refused.
            let v = Skips { needed: vec![], ..self.clone() };
            Some((v.s(t), None))
        }
    }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum SkipVar {
    Named {
        #[musli(skip_encoding_if = Option::is_none, default)]
        a: Option<u8>,
        #[musli(skip)]
        b: u32,
        #[musli(skip_encoding_if = is_big, default = seventeen)]
        c: u32,
        d: bool,
    },
    Tuple(#[musli(skip_encoding_if = Option::is_none, default)] Option<u8>, #[musli(skip)] String, u8, #[musli(skip_encoding_if = is_big, default = seventeen)] u32),
    All {
        #[musli(skip_encoding_if = Option::is_none, default)]
        a: Option<Box<SkipVar>>,
    },
}
impl S for SkipVar {
    fn s(&self, t: bool) -> Shape {
        match self {
            SkipVar::Named { a, b: _, c, d } => {
                let mut v = vec![];
                if a.is_some() {
                    v.push((k(t, "a", 0), a.s(t)));
                }
                if !is_big(c) {
                    v.push((k(t, "c", 2), c.s(t)));
                }
                v.push((k(t, "d", 3), d.s(t)));
                var(k(t, "Named", 0), map(v))
            }
            SkipVar::Tuple(a, _, b, c) => {
                let mut v = vec![];
                if a.is_some() {
                    v.push((Sh::Usize(0), a.s(t)));
                }
                v.push((Sh::Usize(2), b.s(t)));
                if !is_big(c) {
                    v.push((Sh::Usize(3), c.s(t)));
                }
                var(k(t, "Tuple", 1), map(v))
            }
            SkipVar::All { a } => var(k(t, "All", 2), map(a.iter().map(|v| (k(t, "a", 0), Sh::Some(Box::new(v.s(t))))).collect())),
        }
    }
}
impl Doc for SkipVar {
    fn arb(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => SkipVar::Named { a: opt(r, Arb::a), b: Arb::a(r), c: r.below(2000) as u32, d: Arb::a(r) },
            1 => SkipVar::Tuple(opt(r, Arb::a), Arb::a(r), Arb::a(r), r.below(2000) as u32),
            _ => SkipVar::All { a: opt(r, |r| Box::new(Self::arb(r))) },
        }
    }
    fn back(&self) -> Self {
        match self {
            SkipVar::Named { a, b: _, c, d } => SkipVar::Named { a: *a, b: 0, c: if is_big(c) { 17 } else { *c }, d: *d },
            SkipVar::Tuple(a, _, b, c) => SkipVar::Tuple(*a, String::new(), *b, if is_big(c) { 17 } else { *c }),
            SkipVar::All { a } => SkipVar::All { a: a.as_ref().map(|a| Box::new(a.back())) },
        }
    }
    fn without(&self, t: bool, key: &Shape) -> Then<Self> {
        match (self.back(), key) {
            (SkipVar::Named { b, c, d, .. }, key) if *key == k(t, "a", 0) => Then::Value(SkipVar::Named { a: None, b, c, d }),
            (SkipVar::Named { a, b, d, .. }, key) if *key == k(t, "c", 2) => Then::Value(SkipVar::Named { a, b, c: 17, d }),
            (SkipVar::Tuple(_, b, c, d), Sh::Usize(0)) => Then::Value(SkipVar::Tuple(None, b, c, d)),
            (SkipVar::Tuple(a, b, c, _), Sh::Usize(3)) => Then::Value(SkipVar::Tuple(a, b, c, 17)),
            (SkipVar::All { .. }, _) => Then::Value(SkipVar::All { a: None }),
            _ => Then::Refused,
        }
    }
}

// --- with ----------------------------------------------------------------------------

mod hexed {
    use super::*;
    pub fn encode<E: Encoder>(v: &u32, e: E) -> Result<(), E::Error> {
        e.collect_string(&format_args!("{v:08x}"))
    }
    pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<u32, D::Error> {
        let cx = d.cx();
        d.decode_unsized(|s: &str| u32::from_str_radix(s, 16).map_err(|e| cx.custom(e)))
    }
}
mod generic {
    use super::*;
    pub fn encode<E: Encoder, T: Encode<E::Mode>>(v: &Wrapper<T>, e: E) -> Result<(), E::Error> {
        e.encode(&v.0)
    }
    pub fn decode<'de, D: Decoder<'de>, T: Decode<'de, D::Mode, D::Allocator>>(d: D) -> Result<Wrapper<T>, D::Error> {
        Ok(Wrapper(d.decode()?))
    }
}
#[derive(Debug, Clone, PartialEq)]
struct Wrapper<T>(T);
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct With {
    #[musli(with = self::hexed)]
    a: u32,
    #[musli(Text, with = self::hexed)]
    b: u32,
    #[musli(with = self::generic)]
    c: Wrapper<Vec<String>>,
    #[musli(with = self::hexed, default = seventeen, skip_encoding_if = is_big)]
    d: u32,
}
impl S for With {
    fn s(&self, t: bool) -> Shape {
        let h = |v: u32| Sh::Str(format!("{v:08x}"));
        let mut v = vec![(k(t, "a", 0), h(self.a)), (k(t, "b", 1), if t { h(self.b) } else { self.b.s(t) }), (k(t, "c", 2), self.c.0.s(t))];
        if !is_big(&self.d) {
            v.push((k(t, "d", 3), h(self.d)));
        }
        map(v)
    }
}
impl Doc for With {
    fn arb(r: &mut Rng) -> Self {
        With { a: Arb::a(r), b: Arb::a(r), c: Wrapper(vec(r, Arb::a)), d: r.below(2000) as u32 }
    }
    fn back(&self) -> Self {
        With { d: if is_big(&self.d) { 17 } else { self.d }, ..self.clone() }
    }
    fn without(&self, t: bool, key: &Shape) -> Then<Self> {
        if *key == k(t, "d", 3) {
            Then::Value(With { d: 17, ..self.clone() })
        } else {
            Then::Refused
        }
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(packed)]
struct WithPacked {
    a: u32,
    #[musli(with = self::hexed)]
    b: u32,
    c: u32,
}
impl S for WithPacked {
    fn s(&self, t: bool) -> Shape {
        Sh::Pack(vec![self.a.s(t), Sh::Str(format!("{:08x}", self.b)), self.c.s(t)])
    }
}
impl Doc for WithPacked {
    const FIELDS: bool = false;
    fn arb(r: &mut Rng) -> Self {
        WithPacked { a: Arb::a(r), b: Arb::a(r), c: Arb::a(r) }
    }
}

// --- enums -----------------------------------------------------------------------------

/// Only the name is written if there is nothing else.
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(Text, name_all = "kebab-case")]
enum Units {
    FirstOne,
    #[musli(Binary, name = 100)]
    #[musli(Text, name = "2nd")]
    Second,
    #[musli(Binary, name = 5)]
    Third,
}
impl S for Units {
    fn s(&self, t: bool) -> Shape {
        match self {
            Units::FirstOne => k(t, "first-one", 0),
            Units::Second => k(t, "2nd", 100),
            Units::Third => k(t, "third", 5),
        }
    }
}
impl Doc for Units {
    fn arb(r: &mut Rng) -> Self {
        *r.pick(&[Units::FirstOne, Units::Second, Units::Third])
    }
    fn other(&self, t: bool, r: &mut Rng) -> Option<(Shape, Option<Self>)> {
        Some((if t { st(r.pick(&["FirstOne", "second", ""])) } else { Sh::Usize(*r.pick(&[1, 2, 3, 99])) }, None))
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
enum UnitsDefault {
    A,
    #[musli(Binary, pattern = 3..=5)]
    #[musli(Text, pattern = ("b" | "B2"))]
    B,
    #[musli(default)]
    Else,
}
impl S for UnitsDefault {
    fn s(&self, t: bool) -> Shape {
        match self {
            UnitsDefault::A => k(t, "A", 0),
            UnitsDefault::B => k(t, "B", 1),
            UnitsDefault::Else => k(t, "Else", 2),
        }
    }
}
impl Doc for UnitsDefault {
    fn arb(r: &mut Rng) -> Self {
        *r.pick(&[UnitsDefault::A, UnitsDefault::Else])
    }
    /// NB: a pattern takes the place of the name, and the first one counts.
    fn back(&self) -> Self {
        *self
    }
    fn other(&self, t: bool, r: &mut Rng) -> Option<(Shape, Option<Self>)> {
        if t {
            let n = *r.pick(&["b", "B2", "B", "zz", "", "a"]);
            Some((st(n), Some(if n == "b" || n == "B2" { UnitsDefault::B } else { UnitsDefault::Else })))
        } else {
            let n = r.below(8);
            Some((Sh::Usize(n), Some(match n {
                0 => UnitsDefault::A,
                3..=5 => UnitsDefault::B,
                _ => UnitsDefault::Else,
            })))
        }
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum Default1 {
    A(u8),
    #[musli(Binary, pattern = (1 | 3 | 10..=20))]
    #[musli(Text, pattern = ("b" | "bb"), name = "b")]
    B {
        #[musli(Binary, pattern = 0..=3)]
        #[musli(Text, pattern = ("x" | "ex" | ""))]
        x: u32,
    },
    #[musli(default)]
    Unknown,
    // Never reached: the patterns above win.
    #[musli(Binary, name = 3)]
    #[musli(Text, name = "bb")]
    Never(u8),
}
impl S for Default1 {
    fn s(&self, t: bool) -> Shape {
        match self {
            Default1::A(v) => var(k(t, "A", 0), map(vec![(Sh::Usize(0), v.s(t))])),
            Default1::B { x } => var(k(t, "b", 1), map(vec![(k(t, "x", 0), x.s(t))])),
            Default1::Unknown => var(k(t, "Unknown", 2), map(vec![])),
            Default1::Never(_) => unreachable!(),
        }
    }
}
impl Doc for Default1 {
    fn arb(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Default1::A(Arb::a(r)),
            1 => Default1::B { x: Arb::a(r) },
            _ => Default1::Unknown,
        }
    }
    fn back(&self) -> Self {
        self.clone()
    }
    fn other(&self, t: bool, r: &mut Rng) -> Option<(Shape, Option<Self>)> {
        let x = r.u32();
        if r.bool() {
            let tag = if t { st(r.pick(&["b", "bb"])) } else { Sh::Usize(*r.pick(&[1, 3, 10, 13, 20])) };
            let key = if t { st(r.pick(&["x", "ex", ""])) } else { Sh::Usize(r.below(4)) };
            Some((var(tag, map(vec![(key, x.s(t))])), Some(Default1::B { x })))
        } else {
            let tag = if t { st(r.pick(&["c", "B", "bbb", ""])) } else { Sh::Usize(*r.pick(&[4, 9, 21, 1000])) };
            let body = shape::gen(r, Cfg { depth: 2, arrays: false, ..Cfg::JSON }, 0);
            Some((var(tag, body), Some(Default1::Unknown)))
        }
    }
}

macro_rules! tagged {
    ($name:ident, [$($attr:tt)*], $text:expr, $tag:expr) => {
        #[derive(Debug, Clone, PartialEq, Encode, Decode)]
        #[musli($($attr)*)]
        enum $name {
            Unit,
            #[musli(name_all = "name")]
            Empty {},
            #[musli(name_all = "name")]
            Named {
                a: u32,
                #[musli(skip_encoding_if = Option::is_none, default)]
                b: Option<String>,
                #[musli(skip)]
                c: u8,
                list: Vec<$name>,
            },
            #[musli(transparent)]
            Inner(InnerSt),
        }
        impl S for $name {
            fn s(&self, t: bool) -> Shape {
                let n = |name: &str, i: usize| if $text || t { st(name) } else { Sh::Usize(i) };
                let (tag, rest) = match self {
                    $name::Unit => (n("Unit", 0), vec![]),
                    $name::Empty {} => (n("Empty", 1), vec![]),
                    $name::Named { a, b, c: _, list } => {
                        let mut v = vec![(st("a"), a.s(t))];
                        if b.is_some() {
                            v.push((st("b"), b.s(t)));
                        }
                        v.push((st("list"), list.s(t)));
                        (n("Named", 2), v)
                    }
                    $name::Inner(v) => (n("Inner", 3), match v.s(t) {
                        Sh::Map(m) => m,
                        _ => unreachable!(),
                    }),
                };
                map(std::iter::once(($tag, tag)).chain(rest).collect())
            }
        }
        impl Doc for $name {
            fn arb(r: &mut Rng) -> Self {
                match r.below(4) {
                    0 => $name::Unit,
                    1 => $name::Empty {},
                    2 => $name::Named { a: Arb::a(r), b: opt(r, Arb::a), c: Arb::a(r), list: (0..r.below(3)).map(|_| if r.bool() { $name::Unit } else { $name::Inner(InnerSt::arb(r)) }).collect() },
                    _ => $name::Inner(InnerSt::arb(r)),
                }
            }
            fn back(&self) -> Self {
                match self.clone() {
                    $name::Named { a, b, c: _, list } => $name::Named { a, b, c: 0, list },
                    v => v,
                }
            }
            fn without(&self, _: bool, key: &Shape) -> Then<Self> {
                match self.back() {
                    $name::Named { a, b: _, c, list } if *key == st("b") => Then::Value($name::Named { a, b: None, c, list }),
                    $name::Inner(v) if *key == st("z") => Then::Value($name::Inner(InnerSt { z: None, ..v })),
                    _ => Then::Refused,
                }
            }
        }
    };
}
/// With fields named by strings in each mode.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
struct InnerSt {
    x: u8,
    y: String,
    #[musli(skip_encoding_if = Option::is_none, default)]
    z: Option<u16>,
}
impl S for InnerSt {
    fn s(&self, t: bool) -> Shape {
        let mut v = vec![(st("x"), self.x.s(t)), (st("y"), self.y.s(t))];
        if self.z.is_some() {
            v.push((st("z"), self.z.s(t)));
        }
        map(v)
    }
}
impl InnerSt {
    fn arb(r: &mut Rng) -> Self {
        InnerSt { x: Arb::a(r), y: Arb::a(r), z: opt(r, Arb::a) }
    }
}
tagged!(Internal, [tag = "type"], false, st("type"));
tagged!(InternalNames, [tag(value = "t", type = str), name_all = "name"], true, st("t"));

/// A numeric tag.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = usize), tag = 10)]
enum NumericTag {
    #[musli(name = 1, name(type = usize))]
    A { a: u8, b: String },
    #[musli(name = 2)]
    B,
}
impl S for NumericTag {
    fn s(&self, t: bool) -> Shape {
        match self {
            NumericTag::A { a, b } => map(vec![(Sh::Usize(10), Sh::Usize(1)), (Sh::Usize(0), a.s(t)), (Sh::Usize(1), b.s(t))]),
            NumericTag::B => map(vec![(Sh::Usize(10), Sh::Usize(2))]),
        }
    }
}
impl Doc for NumericTag {
    fn arb(r: &mut Rng) -> Self {
        if r.bool() {
            NumericTag::A { a: Arb::a(r), b: Arb::a(r) }
        } else {
            NumericTag::B
        }
    }
    fn without(&self, _: bool, _: &Shape) -> Then<Self> {
        Then::Refused
    }
}

macro_rules! adjacent {
    ($name:ident, [$($attr:tt)*], $tag:expr, $content:expr, $vname:expr) => {
        #[derive(Debug, Clone, PartialEq, Encode, Decode)]
        #[musli($($attr)*)]
        enum $name {
            Unit,
            Named {
                a: u32,
                #[musli(skip_encoding_if = Option::is_none, default)]
                b: Option<String>,
                #[musli(skip_encoding_if = is_big, default = seventeen)]
                c: u32,
                #[musli(skip)]
                d: u32,
            },
            Tup(u8, Vec<$name>),
            #[musli(transparent)]
            Tr(u32),
        }
        impl S for $name {
            fn s(&self, t: bool) -> Shape {
                let n = |name: &str, i: usize| -> Shape { let f: fn(bool, &str, usize) -> Shape = $vname; f(t, name, i) };
                let (tag, body) = match self {
                    $name::Unit => (n("Unit", 0), map(vec![])),
                    $name::Named { a, b, c, d: _ } => {
                        let mut v = vec![(k(t, "a", 0), a.s(t))];
                        if b.is_some() {
                            v.push((k(t, "b", 1), b.s(t)));
                        }
                        if !is_big(c) {
                            v.push((k(t, "c", 2), c.s(t)));
                        }
                        (n("Named", 1), map(v))
                    }
                    $name::Tup(a, b) => (n("Tup", 2), map(vec![(Sh::Usize(0), a.s(t)), (Sh::Usize(1), b.s(t))])),
                    $name::Tr(v) => (n("Tr", 3), v.s(t)),
                };
                map(vec![($tag, tag), ($content, body)])
            }
        }
        impl Doc for $name {
            const ADJACENT: bool = true;
            fn without(&self, _: bool, _: &Shape) -> Then<Self> {
                Then::Refused
            }
            fn arb(r: &mut Rng) -> Self {
                match r.below(4) {
                    0 => $name::Unit,
                    1 => $name::Named { a: Arb::a(r), b: opt(r, Arb::a), c: r.below(2000) as u32, d: Arb::a(r) },
                    2 => $name::Tup(Arb::a(r), (0..r.below(3)).map(|_| if r.bool() { $name::Unit } else { $name::Tr(r.u32()) }).collect()),
                    _ => $name::Tr(Arb::a(r)),
                }
            }
            fn back(&self) -> Self {
                match self.clone() {
                    $name::Named { a, b, c, d: _ } => $name::Named { a, b, c: if is_big(&c) { 17 } else { c }, d: 0 },
                    v => v,
                }
            }
        }
    };
}
adjacent!(Adj, [tag = "type", content = "data"], st("type"), st("data"), k);
adjacent!(AdjNames, [tag = "type", content = "data", name_all = "SCREAMING_SNAKE_CASE"], st("type"), st("data"), |_, n, _| st(&n.to_uppercase()));
adjacent!(AdjNum, [tag(value = 10, type = u16), content(value = 20, type = u16), name(type = usize)], Sh::U16(10), Sh::U16(20), |_, _, i| Sh::Usize(i));

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(untagged)]
enum Un {
    #[musli(name_all = "name")]
    Person { name: String, age: u32 },
    #[musli(transparent)]
    Plain(NamedTup),
    #[musli(name_all = "name")]
    Opt {
        must: bool,
        #[musli(skip_encoding_if = Option::is_none, default)]
        may: Option<u8>,
    },
}
impl S for Un {
    fn s(&self, t: bool) -> Shape {
        match self {
            Un::Person { name, age } => map(vec![(st("name"), name.s(t)), (st("age"), age.s(t))]),
            Un::Plain(v) => v.s(t),
            Un::Opt { must, may } => {
                let mut v = vec![(st("must"), must.s(t))];
                if may.is_some() {
                    v.push((st("may"), may.s(t)));
                }
                map(v)
            }
        }
    }
}
impl Doc for Un {
    fn arb(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => Un::Person { name: Arb::a(r), age: Arb::a(r) },
            1 => Un::Plain(Doc::arb(r)),
            _ => Un::Opt { must: Arb::a(r), may: opt(r, Arb::a) },
        }
    }
    fn without(&self, _: bool, key: &Shape) -> Then<Self> {
        match self {
            Un::Opt { must, .. } if *key == st("may") => Then::Value(Un::Opt { must: *must, may: None }),
            _ => Then::Refused,
        }
    }
}

// --- one direction -----------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
struct OneWay {
    a: u8,
    #[musli(encode_only, name = "out")]
    #[musli(decode_only, name = "in")]
    b: String,
    #[musli(Text, decode_only, name = "last")]
    c: u32,
}
impl S for OneWay {
    fn s(&self, t: bool) -> Shape {
        map(vec![(st("a"), self.a.s(t)), (st("out"), self.b.s(t)), (st("c"), self.c.s(t))])
    }
}
impl Doc for OneWay {
    const BACK: bool = false;
    const FIELDS: bool = false;
    fn arb(r: &mut Rng) -> Self {
        OneWay { a: Arb::a(r), b: Arb::a(r), c: Arb::a(r) }
    }
    fn other(&self, t: bool, _: &mut Rng) -> Option<(Shape, Option<Self>)> {
        Some((map(vec![(st("a"), self.a.s(t)), (st("in"), self.b.s(t)), (st(if t { "last" } else { "c" }), self.c.s(t))]), Some(self.clone())))
    }
}


// --- known findings -------------------------------------------------------------

/// An internally tagged enum whose fields have names of another type than the tag.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "type")]
enum TagMixed {
    A { x: u32, y: String },
    B,
}
/// An internally tagged enum containing a pack.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "type", name_all = "name")]
enum TagPack {
    #[musli(name_all = "name")]
    A {
        #[musli(packed)]
        p: (u8, u8),
    },
}
/// What is documented to work but doesn't.
fn known(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let adj = Adj::arb(r);
    let mixed = if r.bool() { TagMixed::A { x: r.u32(), y: Arb::a(r) } } else { TagMixed::B };
    let pack = TagPack::A { p: (Arb::a(r), Arb::a(r)) };
    macro_rules! adjacent {
        ($($f:ident $t:expr;)*) => { $({
            let mut s = adj.s($t);
            fields(&mut s).unwrap().reverse();
            match $f::from_slice::<Adj>(&$f::to_vec(&s)?) {
                Ok(d) => ensure!(d == adj.back(), "{}: {s:?} became {d:?}", $f::NAME),
                Err(_) => c.known("adjacent-tag-after-content"),
            }
            c.event("adjacent tags after their content");
        })* };
    }
    adjacent! { Json true; JsonBinary false; Descriptive false; DescriptiveText true; }
    macro_rules! back {
        ($v:expr, $id:expr, $($f:ident)*) => { $({
            let b = $f::to_vec(&$v)?;
            match $f::from_slice(&b) {
                Ok(d) => ensure!($v == d, "{}: {:?} became {d:?}", $f::NAME, $v),
                Err(_) => c.known($id),
            }
            c.seen_bytes(&b);
            c.event("internal tags beside other names and packs");
        })* };
    }
    if mixed == TagMixed::B {
        // Nothing but the tag.
        let b = Descriptive::to_vec(&mixed)?;
        ensure!(Descriptive::from_slice::<TagMixed>(&b)? == mixed, "{mixed:?}");
    } else {
        back!(mixed, "internal-tag-of-another-type", Descriptive JsonBinary);
    }
    let b = DescriptiveText::to_vec(&mixed)?;
    ensure!(DescriptiveText::from_slice::<TagMixed>(&b)? == mixed, "{mixed:?}");
    let b = Json::to_vec(&mixed)?;
    ensure!(Json::from_slice::<TagMixed>(&b)? == mixed, "{mixed:?}");
    back!(pack, "tagged-json-pack", Json JsonBinary);
    let b = Descriptive::to_vec(&pack)?;
    ensure!(Descriptive::from_slice::<TagPack>(&b)? == pack, "{pack:?}");
    Ok(())
}

// --- modes ---------------------------------------------------------------------------

pub enum Third {}
pub mod fourth {
    pub enum Mode {}
}
use fourth::Mode as Fourth;
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Third, name_all = "PascalCase")]
#[musli(mode = fourth::Mode, name_all = "SCREAMING-KEBAB-CASE")]
#[musli(Binary)]
#[musli(Text)]
struct Moded {
    #[musli(mode = Third, name = "ALPHA")]
    #[musli(mode = fourth::Mode, name = "aleph", skip)]
    #[musli(Binary, name = 40)]
    alpha: u8,
    #[musli(mode = Third, skip)]
    beta: u8,
    #[musli(Text, skip)]
    gamma_ray: String,
    #[musli(mode = Third, packed)]
    #[musli(mode = fourth::Mode, default)]
    delta: (u8, u8),
    #[musli(Text, name = "nest")]
    nested: MNested,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(mode = Third, packed)]
#[musli(mode = fourth::Mode)]
#[musli(Binary)]
#[musli(Text)]
struct MNested {
    x: u8,
    y: u16,
}
impl Moded {
    fn shape(&self, mode: u8) -> Shape {
        let p = |a: &dyn S| a.s(false);
        let n = &self.nested;
        match mode {
            0 => map(vec![
                (Sh::Usize(40), p(&self.alpha)),
                (Sh::Usize(1), p(&self.beta)),
                (Sh::Usize(2), p(&self.gamma_ray)),
                (Sh::Usize(3), Sh::Seq(vec![p(&self.delta.0), p(&self.delta.1)])),
                (Sh::Usize(4), map(vec![(Sh::Usize(0), p(&n.x)), (Sh::Usize(1), p(&n.y))])),
            ]),
            1 => map(vec![
                (st("alpha"), p(&self.alpha)),
                (st("beta"), p(&self.beta)),
                (st("delta"), Sh::Seq(vec![p(&self.delta.0), p(&self.delta.1)])),
                (st("nest"), map(vec![(st("x"), p(&n.x)), (st("y"), p(&n.y))])),
            ]),
            3 => map(vec![
                (st("BETA"), p(&self.beta)),
                (st("GAMMA-RAY"), p(&self.gamma_ray)),
                (st("DELTA"), Sh::Seq(vec![p(&self.delta.0), p(&self.delta.1)])),
                (st("NESTED"), map(vec![(Sh::Usize(0), p(&n.x)), (Sh::Usize(1), p(&n.y))])),
            ]),
            _ => map(vec![
                (st("ALPHA"), p(&self.alpha)),
                (st("GammaRay"), p(&self.gamma_ray)),
                (st("Delta"), Sh::Pack(vec![p(&self.delta.0), p(&self.delta.1)])),
                (st("Nested"), Sh::Pack(vec![p(&n.x), p(&n.y)])),
            ]),
        }
    }
    fn back(&self, mode: u8) -> Self {
        match mode {
            0 => self.clone(),
            1 => Self { gamma_ray: String::new(), ..self.clone() },
            3 => Self { alpha: 0, ..self.clone() },
            _ => Self { beta: 0, ..self.clone() },
        }
    }
}
vh::fmt_type!(StorageThird, Storage, Third, O_DEF, "storage/third", musli::storage::Encoding::new().with_mode::<Third>());
vh::fmt_type!(WireThird, Wire, Third, O_DEF, "wire/third", musli::wire::Encoding::new().with_mode::<Third>());
vh::fmt_type!(DescriptiveThird, Descriptive, Third, O_DEF, "descriptive/third", musli::descriptive::Encoding::new().with_mode::<Third>());
vh::fmt_type!(JsonThird, Json, Third, O_DEF, "json/third", musli::json::Encoding::new().with_mode::<Third>());
vh::fmt_type!(StorageFourth, Storage, Fourth, O_DEF, "storage/fourth", musli::storage::Encoding::new().with_mode::<Fourth>());
vh::fmt_type!(WireFourth, Wire, Fourth, O_DEF, "wire/fourth", musli::wire::Encoding::new().with_mode::<Fourth>());
vh::fmt_type!(DescriptiveFourth, Descriptive, Fourth, O_DEF, "descriptive/fourth", musli::descriptive::Encoding::new().with_mode::<Fourth>());
vh::fmt_type!(JsonFourth, Json, Fourth, O_DEF, "json/fourth", musli::json::Encoding::new().with_mode::<Fourth>());

/// One type in the four modes which it has.
fn modes(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let v = Moded { alpha: Arb::a(r), beta: Arb::a(r), gamma_ray: Arb::a(r), delta: (Arb::a(r), Arb::a(r)), nested: MNested { x: Arb::a(r), y: Arb::a(r) } };
    macro_rules! one {
        ($f:ident, $mode:expr) => {{
            let want = v.shape($mode);
            let b = $f::to_vec(&v).map_err(|e| format!("{}: {v:?}: {e}", $f::NAME))?;
            let w = $f::to_vec(&want)?;
            ensure!(b == w, "{}: {v:?} is encoded like {want:?} should not be: {}", $f::NAME, differ(&b, &w));
            let d: Moded = $f::from_slice(&b).map_err(|e| format!("{}: {v:?}: {e}", $f::NAME))?;
            ensure!(d == v.back($mode), "{}: {v:?} came back as {d:?}", $f::NAME);
            c.seen_bytes(&b);
            c.event("values in one of several modes");
        }};
    }
    one!(Storage, 0);
    one!(Wire, 0);
    one!(Descriptive, 0);
    one!(JsonBinary, 0);
    one!(StorageText, 1);
    one!(WireText, 1);
    one!(DescriptiveText, 1);
    one!(Json, 1);
    one!(StorageThird, 2);
    one!(WireThird, 2);
    one!(DescriptiveThird, 2);
    one!(JsonThird, 2);
    one!(StorageFourth, 3);
    one!(WireFourth, 3);
    one!(DescriptiveFourth, 3);
    one!(JsonFourth, 3);
    Ok(())
}

// --- twins in serde --------------------------------------------------------------

/// Types whose attributes have an equivalent in serde.
mod twins {
    use super::{opt, vec};
    use musli::{Decode, Encode};
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;
    use std::fmt::Debug;
    use vh::rng::Rng;

    struct Arb;
    trait Short: Sized {
        fn short(r: &mut Rng) -> Self;
    }
    macro_rules! short {
        ($($t:ty)*) => { $(impl Short for $t { fn short(r: &mut Rng) -> Self { super::Arb::a(r) } })* };
    }
    short! { u8 u16 u32 i32 i64 bool char }
    impl Short for String {
        fn short(r: &mut Rng) -> Self {
            (0..r.below(5)).map(|_| char::short(r)).collect()
        }
    }
    impl Arb {
        fn a<T: Short>(r: &mut Rng) -> T {
            T::short(r)
        }
    }

    pub trait Twin: Clone + PartialEq + Debug {
        fn arb(r: &mut Rng, depth: usize) -> Self;
    }
    impl<T: Twin> Twin for Box<T> {
        fn arb(r: &mut Rng, d: usize) -> Self {
            Box::new(T::arb(r, d))
        }
    }
    fn is_zero(v: &u32) -> bool {
        *v == 0
    }
    fn forty_two() -> i64 {
        42
    }
    fn some<T: Twin>(r: &mut Rng, d: usize) -> Vec<T> {
        if d == 0 {
            return Vec::new();
        }
        vec(r, |r| T::arb(r, d - 1))
    }

    #[derive(Debug, Clone, PartialEq, Encode, Decode, Serialize, Deserialize)]
    #[musli(Text, name_all = "camelCase")]
    #[serde(rename_all = "camelCase")]
    pub struct Flat {
        pub first_field: u8,
        #[musli(default)]
        #[serde(default)]
        pub opt_text: Option<String>,
        #[musli(Text, name = "the list")]
        #[serde(rename = "the list")]
        pub list: Vec<i32>,
        #[musli(skip)]
        #[serde(skip)]
        pub hidden: u32,
        #[musli(default, skip_encoding_if = is_zero)]
        #[serde(default, skip_serializing_if = "is_zero")]
        pub maybe_zero: u32,
        #[musli(default = forty_two)]
        #[serde(default = "forty_two")]
        pub forty_two: i64,
        pub r#match: bool,
    }
    impl Twin for Flat {
        fn arb(r: &mut Rng, _: usize) -> Self {
            Flat { first_field: Arb::a(r), opt_text: opt(r, Arb::a), list: vec(r, Arb::a), hidden: 0, maybe_zero: if r.bool() { 0 } else { Arb::a(r) }, forty_two: if r.bool() { 42 } else { Arb::a(r) }, r#match: Arb::a(r) }
        }
    }
    #[derive(Debug, Clone, PartialEq, Encode, Decode, Serialize, Deserialize)]
    pub struct Deep {
        pub flat: Flat,
        pub keyed: BTreeMap<u32, bool>,
        pub named: BTreeMap<String, Flat>,
        pub pair: (u8, String),
        pub three: [u16; 3],
        pub ch: char,
        #[musli(default)]
        #[serde(default)]
        pub inner: Option<Box<Deep>>,
        pub ext: Vec<Ext>,
        pub int: Vec<Int>,
        pub adj: Vec<Adj>,
        pub unt: Vec<Unt>,
        pub style: Vec<Style>,
        pub tr: Tr,
    }
    impl Twin for Deep {
        fn arb(r: &mut Rng, d: usize) -> Self {
            Deep {
                flat: Twin::arb(r, d),
                keyed: vec(r, |r| (Arb::a(r), Arb::a(r))).into_iter().collect(),
                named: vec(r, |r| (Arb::a(r), Twin::arb(r, d))).into_iter().collect(),
                pair: (Arb::a(r), Arb::a(r)),
                three: [Arb::a(r), Arb::a(r), Arb::a(r)],
                ch: Arb::a(r),
                inner: if d > 0 && r.below(3) == 0 { Some(Twin::arb(r, d - 1)) } else { None },
                ext: some(r, d),
                int: some(r, d),
                adj: some(r, d),
                unt: some(r, d),
                style: some(r, d),
                tr: Tr(Twin::arb(r, d)),
            }
        }
    }
    #[derive(Debug, Clone, PartialEq, Encode, Decode, Serialize, Deserialize)]
    #[musli(transparent)]
    #[serde(transparent)]
    pub struct Tr(pub Flat);
    impl Twin for Tr {
        fn arb(r: &mut Rng, d: usize) -> Self {
            Tr(Twin::arb(r, d))
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Encode, Decode, Serialize, Deserialize)]
    #[musli(Text, name_all = "SCREAMING_SNAKE_CASE")]
    #[serde(rename_all = "SCREAMING_SNAKE_CASE")]
    pub enum Style {
        OneThing,
        #[musli(Text, name = "2")]
        #[serde(rename = "2")]
        Another,
        Last,
    }
    impl Twin for Style {
        fn arb(r: &mut Rng, _: usize) -> Self {
            *r.pick(&[Style::OneThing, Style::Another, Style::Last])
        }
    }
    macro_rules! tagged {
        ($name:ident [$($attr:tt)*]) => {
            #[derive(Debug, Clone, PartialEq, Encode, Decode, Serialize, Deserialize)]
            $($attr)*
            pub enum $name {
                EmptyOne {},
                NamedOne {
                    a: u8,
                    #[musli(default)]
                    #[serde(default)]
                    opt: Option<u32>,
                    #[musli(Text, name = "B")]
                    #[serde(rename = "B")]
                    b: String,
                },
                #[musli(Text, name_all = "kebab-case")]
                #[serde(rename_all = "kebab-case")]
                StyledOne {
                    the_list: Vec<u8>,
                    #[musli(default, skip_encoding_if = is_zero)]
                    #[serde(default, skip_serializing_if = "is_zero")]
                    or_zero: u32,
                },
                #[musli(Text, transparent, name = "tr")]
                #[musli(Binary, transparent)]
                #[serde(rename = "tr")]
                Wrapped(Flat),
                Nested { next: Vec<$name>, style: Style },
            }
            impl Twin for $name {
                fn arb(r: &mut Rng, d: usize) -> Self {
                    match r.below(5) {
                        0 => Self::EmptyOne {},
                        1 => Self::NamedOne { a: Arb::a(r), opt: opt(r, Arb::a), b: Arb::a(r) },
                        2 => Self::StyledOne { the_list: vec(r, Arb::a), or_zero: if r.bool() { 0 } else { Arb::a(r) } },
                        3 => Self::Wrapped(Twin::arb(r, d)),
                        _ => Self::Nested { next: some(r, d), style: Twin::arb(r, d) },
                    }
                }
            }
        };
    }
    tagged!(Ext [#[musli(Text, name_all = "kebab-case")] #[serde(rename_all = "kebab-case")]]);
    tagged!(Int [#[musli(Text, tag = "type", name_all = "PascalCase")] #[serde(tag = "type", rename_all = "PascalCase")]]);
    tagged!(Adj [#[musli(Text, tag = "t", content = "z", name_all = "snake_case")] #[serde(tag = "t", content = "z", rename_all = "snake_case")]]);

    /// Decides by its fields, and the first one counts.
    #[derive(Debug, Clone, PartialEq, Encode, Decode, Serialize, Deserialize)]
    #[musli(untagged)]
    #[serde(untagged)]
    pub enum Unt {
        Both { x: u8, y: u8 },
        #[musli(transparent)]
        Seq(Vec<u32>),
        #[musli(transparent)]
        One(One),
        Text { x: String },
        Deep { x: Box<Unt> },
        #[musli(transparent)]
        Tagged(Int),
        #[musli(transparent)]
        Num(i64),
        #[musli(transparent)]
        Str(String),
    }
    #[derive(Debug, Clone, PartialEq, Encode, Decode, Serialize, Deserialize)]
    pub struct One {
        pub x: u16,
    }
    impl Twin for Unt {
        fn arb(r: &mut Rng, d: usize) -> Self {
            match r.below(if d == 0 { 7 } else { 8 }) {
                0 => Unt::Both { x: Arb::a(r), y: Arb::a(r) },
                1 => Unt::One(One { x: Arb::a(r) }),
                2 => Unt::Text { x: Arb::a(r) },
                3 => Unt::Tagged(Twin::arb(r, d)),
                4 => Unt::Seq(vec(r, Arb::a)),
                5 => Unt::Num(Arb::a(r)),
                6 => Unt::Str(Arb::a(r)),
                _ => Unt::Deep { x: Twin::arb(r, d - 1) },
            }
        }
    }
    #[derive(Debug, Clone, PartialEq, Encode, Decode, Serialize, Deserialize)]
    pub struct Generic<T, U> {
        pub a: T,
        pub b: Vec<U>,
        pub c: Vec<Generic<U, T>>,
    }
    impl Twin for Generic<Ext, Style> {
        fn arb(r: &mut Rng, d: usize) -> Self {
            Generic { a: Twin::arb(r, d), b: vec(r, |r| Twin::arb(r, d)), c: vec(r, |r| Generic { a: Twin::arb(r, d), b: vec(r, |r| Twin::arb(r, d)), c: Vec::new() }) }
        }
    }
}

/// Change something about a JSON value.
fn mutate(r: &mut Rng, v: &mut serde_json::Value) {
    use serde_json::Value as J;
    // Go down.
    if r.below(4) != 0 {
        match v {
            J::Array(a) if !a.is_empty() => {
                let i = r.below(a.len());
                return mutate(r, &mut a[i]);
            }
            J::Object(o) if !o.is_empty() => {
                let i = r.below(o.len());
                let (k, v) = o.iter_mut().nth(i).unwrap();
                if k == "type" || k == "t" {
                    // NB: serde also takes the index of a variant.
                    *v = J::from(*r.pick(&["tr", "Tr", "TR", "EmptyOne", "empty_one", "NestedOne", "Nested", ""]));
                    return;
                }
                return mutate(r, v);
            }
            _ => {}
        }
    }
    let scalar = |r: &mut Rng| match r.below(7) {
        0 => J::Null,
        1 => J::Bool(r.bool()),
        2 => J::from(r.u64() >> r.below(64)),
        3 => J::from((r.u64() >> r.below(64)) as i64),
        4 => J::from(*r.pick(&["", "2", "x", "one-thing", "LAST", "\u{e9}\n\""])),
        5 => J::from(r.below(70_000)),
        _ => serde_json::json!({}),
    };
    match v {
        J::Array(a) if !a.is_empty() && r.bool() => {
            // NB: a tuple may be longer in musli.
            a.pop();
        }
        J::Object(o) => {
            let key = if o.is_empty() { None } else { o.keys().nth(r.below(o.len())).cloned() };
            match r.below(4) {
                0 => {
                    if let Some(k) = key {
                        o.remove(&k);
                    }
                }
                1 => {
                    let v = if r.bool() { scalar(r) } else { serde_json::json!([{"x": [null, "]}"], "": {}}, -1]) };
                    o.insert((*r.pick(&["zzz", "a", "x", "y", "B", "", "next", "\"", "forty_two", "the list"])).into(), v);
                }
                2 => {
                    // Rename.
                    if let Some(k) = key {
                        let v = o.remove(&k).unwrap();
                        let k = if r.bool() { k.to_uppercase() } else { format!("{k} ") };
                        o.insert(k, v);
                    }
                }
                _ => *v = scalar(r),
            }
        }
        v => *v = scalar(r),
    }
}
fn twin<T>(c: &mut Case<'_>) -> R
where
    T: twins::Twin + Encode<Text> + for<'de> Decode<'de, Text, System> + serde::Serialize + serde::de::DeserializeOwned,
{
    let depth = 1 + c.rng.below(3);
    let v = T::arb(&mut c.rng, depth);
    let musli = musli::json::to_string(&v).map_err(|e| format!("{v:?}: {e}"))?;
    let mut serde = serde_json::to_value(&v).map_err(|e| format!("{v:?}: {e}"))?;
    let got: serde_json::Value = serde_json::from_str(&musli).map_err(|e| format!("{musli}: {e}"))?;
    ensure!(got == serde, "{v:?} is {musli} and not {serde}");
    c.event("values which are the same JSON as with serde");
    // NB: alternatives may overlap, then it's another one.
    let back: T = musli::json::from_str(&musli).map_err(|e| format!("{musli}: {e}"))?;
    let same: T = serde_json::from_str(&musli).map_err(|e| format!("{musli}: {e}"))?;
    ensure!(back == same, "{v:?}: {musli} became {back:?} and not {same:?}");
    for n in 0..6 {
        let text = serde.to_string();
        let want = serde_json::from_str::<T>(&text);
        let got = musli::json::from_str::<T>(&text);
        match (want, got) {
            (Ok(w), Ok(g)) => {
                ensure!(w == g, "{text} became {g:?} and not {w:?}");
                c.event("JSON texts which both read");
            }
            (Err(_), Err(_)) => c.event("JSON texts which both refuse"),
            (w, g) => return Err(format!("{text}: {g:?}, but serde has {w:?}")),
        }
        if n > 0 {
            c.seen_bytes(text.as_bytes());
        }
        mutate(&mut c.rng, &mut serde);
    }
    Ok(())
}

// --- the check -------------------------------------------------------------------------

/// What follows a value, so that reading too little or too much shows.
const AFTER: u32 = 0x5eed;
fn after(s: &Shape) -> Shape {
    Sh::Seq(vec![s.clone(), Sh::U32(AFTER)])
}
fn followed<T: Debug>((v, n): (T, u32)) -> Result<T, String> {
    if n == AFTER {
        Ok(v)
    } else {
        panic!("what follows {v:?} was not read correctly: {n}")
    }
}

/// A format for a type.
struct Ops<T> {
    name: &'static str,
    kind: Kind,
    text: bool,
    /// Decode through a buffered value.
    value: bool,
    enc: fn(&T) -> Result<Vec<u8>, String>,
    shape: fn(&Shape) -> Result<Vec<u8>, String>,
    dec: fn(&[u8]) -> Result<T, String>,
}
type Value = musli::value::Value<System>;
macro_rules! ops {
    ($t:ty) => {
        [
            ops!(@ $t, Storage, false),
            ops!(@ $t, StorageText, true),
            ops!(@ $t, Wire, false),
            ops!(@ $t, WireText, true),
            ops!(@ $t, Descriptive, false),
            ops!(@ $t, DescriptiveText, true),
            ops!(@ $t, Json, true),
            ops!(@ $t, JsonBinary, false),
            Ops::<$t> {
                name: "value",
                value: true,
                dec: |b| {
                    let v: Value = Descriptive::from_slice(b)?;
                    musli::value::decode::<($t, u32)>(&v).map_err(|e| e.to_string()).and_then(followed)
                },
                ..ops!(@ $t, Descriptive, false)
            },
            Ops::<$t> {
                name: "value/text",
                value: true,
                dec: |b| {
                    let v: Value = DescriptiveText::from_slice(b)?;
                    let cx = musli::context::new().with_error::<musli::value::Error>();
                    musli::value::decode_with::<_, ($t, u32), Text>(&cx, &v).map_err(|e| e.to_string()).and_then(followed)
                },
                ..ops!(@ $t, DescriptiveText, true)
            },
            Ops::<$t> {
                name: "value/json",
                value: true,
                dec: |b| {
                    let v: Value = Json::from_slice(b)?;
                    let cx = musli::context::new().with_error::<musli::value::Error>();
                    musli::value::decode_with::<_, ($t, u32), Text>(&cx, &v).map_err(|e| e.to_string()).and_then(followed)
                },
                ..ops!(@ $t, Json, true)
            },
        ]
    };
    (@ $t:ty, $f:ident, $text:expr) => {
        Ops::<$t> { name: $f::NAME, kind: $f::KIND, text: $text, value: false, enc: |v| $f::to_vec(&(v, AFTER)), shape: |v| $f::to_vec(&after(v)), dec: |b| $f::from_slice::<($t, u32)>(b).and_then(followed) }
    };
}

/// The fields which may move.
fn fields(s: &mut Shape) -> Option<&mut Vec<(Shape, Shape)>> {
    match s {
        Sh::Map(v) => Some(v),
        Sh::Variant(_, v) => match &mut **v {
            Sh::Map(v) => Some(v),
            _ => None,
        },
        _ => None,
    }
}
/// Something which JSON can't express once it's buffered.
fn keys(s: &Shape) -> bool {
    let key = |k: &Shape| !matches!(k, Sh::Str(_));
    match s {
        Sh::Map(v) => v.iter().any(|(k, v)| key(k) || keys(v)),
        Sh::Variant(k, v) => key(k) || keys(v),
        Sh::Seq(v) => v.iter().any(keys),
        Sh::Some(v) => keys(v),
        Sh::Pack(_) => true,
        _ => false,
    }
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = r.below(i + 1);
        v.swap(i, j);
    }
}

#[derive(PartialEq)]
enum Dec {
    Full,
    /// It may be refused, but not be something else.
    May,
    Never,
}
fn check<T: Doc>(c: &mut Case<'_>, o: &Ops<T>, dec: Dec) -> R {
    let v = T::arb(&mut c.rng);
    let want = v.s(o.text);
    let at = |what: &str| format!("{} {what}", o.name);
    let b = (o.enc)(&v).map_err(|e| format!("{}: {v:?}: {e}", at("encode")))?;
    let w = (o.shape)(&want).map_err(|e| format!("{}: {want:?}: {e}", at("shape")))?;
    ensure!(b == w, "{}: {v:?} is not encoded as {want:?}: {}", at("encode"), differ(&b, &w));
    if o.kind != Kind::Json {
        let w = shape::reference(o.kind, &after(&want), Lay::DEF).map_err(|()| at("reference"))?;
        ensure!(b == w, "{}: {v:?} is not encoded as documented ({want:?}): {}", at("encode"), differ(&b, &w));
    }
    c.event("values encoded as documented");
    c.seen_bytes(&b);
    c.sample(|| format!("{} {v:?} is {want:?}", o.name));
    // Buffered JSON has neither numbers as keys (unless it is buffered by a
    // tagged enum) nor packs.
    if dec == Dec::Never {
        return Ok(());
    }
    if dec == Dec::May || o.name == "value/json" && keys(&want) {
        // Unsupported: refused, or the value.
        match (o.dec)(&b) {
            Ok(d) => ensure!(d == v.back(), "{}: {v:?} came back as {d:?}", at("unsupported")),
            Err(_) => c.event("unsupported combinations refused"),
        }
        return Ok(());
    }
    let d = (o.dec)(&b);
    if T::BACK {
        let d = d.map_err(|e| format!("{}: {v:?} is {want:?}: {e}", at("decode")))?;
        ensure!(d == v.back(), "{}: {v:?} ({want:?}) came back as {d:?}", at("decode"));
        c.event("values decoded");
    } else {
        ensure!(d.is_err(), "{}: {v:?} ({want:?}) came back as {d:?}", at("decode"));
    }
    if T::FIELDS {
        let mut moved = want.clone();
        if let Some(f) = fields(&mut moved) {
            if !T::ADJACENT {
                shuffle(&mut c.rng, f);
            }
            let b = (o.shape)(&moved)?;
            let d = (o.dec)(&b).map_err(|e| format!("{}: {moved:?}: {e}", at("moved fields")))?;
            ensure!(d == v.back(), "{}: {moved:?} came back as {d:?}", at("moved fields"));
            c.event("values with fields moved");
        }
        let n = fields(&mut moved).map_or(0, |f| f.len());
        if n > 0 {
            let i = c.rng.below(n);
            let mut less = moved.clone();
            let (key, _) = fields(&mut less).unwrap().remove(i);
            let b = (o.shape)(&less)?;
            let got = (o.dec)(&b);
            match v.without(o.text, &key) {
                Then::Value(w) => {
                    ensure!(got.as_ref() == Ok(&w), "{}: without {key:?}, {less:?} became {got:?} and not {w:?}", at("absent field"));
                    c.event("absent fields with a default");
                }
                Then::Refused => {
                    ensure!(got.is_err(), "{}: without {key:?}, {less:?} became {got:?}", at("absent field"));
                    c.event("absent fields refused");
                }
                Then::Unknown => {}
            }
        }
        if o.kind != Kind::Storage && n > 0 {
            let mut more = moved.clone();
            let f = fields(&mut more).unwrap();
            let key = match &f[0].0 {
                Sh::Str(_) => st(c.rng.pick(&["zzz", "unknown field", "ä"])),
                Sh::Usize(_) => Sh::Usize(*c.rng.pick(&[77, 300, 100_000])),
                Sh::U8(_) => Sh::U8(77),
                Sh::U16(_) => Sh::U16(777),
                Sh::U32(_) => Sh::U32(777),
                Sh::U64(_) => Sh::U64(777),
                Sh::I8(_) => Sh::I8(77),
                Sh::I64(_) => Sh::I64(-777),
                Sh::Char(_) => Sh::Char('z'),
                Sh::Bytes(_) => Sh::Bytes(vec![9; 2]),
                Sh::Pack(_) => Sh::Pack(vec![Sh::U8(9), Sh::U8(9)]),
                _ => return Ok(()),
            };
            let cfg = if o.kind == Kind::Json { Cfg { pack: !o.value, ..Cfg::JSON } } else { Cfg::ALL };
            let val = shape::gen(&mut c.rng, cfg, 0);
            let i = c.rng.below(n + 1);
            f.insert(i, (key, val));
            let b = (o.shape)(&more)?;
            let d = (o.dec)(&b).map_err(|e| format!("{}: {more:?}: {e}", at("unknown field")))?;
            ensure!(d == v.back(), "{}: {more:?} became {d:?}", at("unknown field"));
            c.event("unknown fields skipped");
        }
    }
    if let Some((s, want)) = v.other(o.text, &mut c.rng) {
        // Skipping isn't supported in storage.
        let b = (o.shape)(&s).map_err(|e| format!("{}: {s:?}: {e}", at("other shape")))?;
        let got = (o.dec)(&b);
        match want {
            Some(w) => {
                if o.kind == Kind::Storage && got.is_err() {
                    c.event("other shapes without skipping");
                } else {
                    ensure!(got.as_ref() == Ok(&w), "{}: {s:?} became {got:?} and not {w:?}", at("other shape"));
                    c.event("other shapes of a value");
                }
            }
            None => {
                ensure!(got.is_err(), "{}: {s:?} became {got:?}", at("other shape"));
                c.event("other shapes refused");
            }
        }
    }
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    macro_rules! add {
        ($($t:ident $not:expr;)*) => { $(
            g.add(stringify!($t), |c| {
                let not: &[&str] = &$not;
                for o in ops!($t) {
                    // "-x": not at all, "!x": it cannot be decoded.
                    if not.iter().any(|n| n.strip_prefix('-') == Some(o.name)) {
                        continue;
                    }
                    // "~x": it's only encoded.
                    let dec = !not.iter().any(|n| n.strip_prefix('!') == Some(o.name) || *n == "!");
                    let not_read = not.iter().any(|n| n.strip_prefix('~') == Some(o.name));
                    check(c, &o, if not_read { Dec::Never } else if dec { Dec::Full } else { Dec::May })?;
                }
                Ok(())
            });
        )* };
    }
    add! {
        StName []; StPascal []; StCamel []; StSnake []; StScream []; StKebab []; StScreamKebab [];
        EnName []; EnPascal []; EnCamel []; EnSnake []; EnScream []; EnKebab []; EnScreamKebab [];
        Plain []; Swapped []; Gaps [];
        TypedU8 []; TypedU32 []; TypedU64 []; TypedI8 []; TypedI64 []; TypedChar ["-json", "-json/binary", "-value/json"]; TypedU16 [];
        ByteTag ["-json", "-json/binary", "-value/json", "!storage", "!storage/text", "!wire", "!wire/text"];
        ByteAdj ["-json", "-json/binary", "-value/json"];
        ByteNames ["-json", "-json/binary", "-value/json"]; Versioned ["-json", "-json/binary", "-value/json"];
        Unit []; NoFields []; NoTuple []; Tup []; NamedTup [];
        TrSkip []; TrMode []; TrVar [];
        Pk []; PkFields []; PkVar [];
        Bts []; Skips []; SkipVar []; With []; WithPacked [];
        Units []; UnitsDefault []; Default1 [];
        Internal ["!storage", "!storage/text", "!wire", "!wire/text"]; InternalNames ["!storage", "!storage/text", "!wire", "!wire/text"]; NumericTag ["!storage", "!storage/text", "!wire", "!wire/text"];
        Adj []; AdjNames []; AdjNum []; Un ["~storage", "~storage/text"];
        OneWay [];
    }
    g.add("modes", modes);
    g.add("known", known);
    g.add("serde/Flat", twin::<twins::Flat>);
    g.add("serde/Deep", twin::<twins::Deep>);
    g.add("serde/Ext", twin::<twins::Ext>);
    g.add("serde/Int", twin::<twins::Int>);
    g.add("serde/Adj", twin::<twins::Adj>);
    g.add("serde/Unt", twin::<twins::Unt>);
    g.add("serde/Generic", twin::<twins::Generic<twins::Ext, twins::Style>>);
    rt::main(g);
}
