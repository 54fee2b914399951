//! F12: encoded bytes are exactly those of the documented layouts.
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::ops::{Range, RangeInclusive};
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{self, Case, Groups, R};
use vh::shape::{self, Cfg, Lay, Plan, Shape, Walk};
use vh::{ensure, fail};
use musli::{Decode, Encode};

/// The layout named by an option label.
fn lay_of(name: &str) -> Lay {
    // The preset of the packed format: fixed in the native byte order.
    if name == "packed" {
        return Lay { var: false, le: cfg!(target_endian = "little"), len: 8 };
    }
    let len = if name.contains("len8") { 1 } else if name.contains("len16") { 2 } else if name.contains("len32") { 4 } else if name.contains("len64") || name.contains("64") { 8 } else { 0 };
    Lay { var: !name.contains("/fix"), le: !name.contains("be"), len }
}

fn max_of(l: Lay) -> u128 {
    match l.len {
        1 => 255,
        2 => 65535,
        4 => u32::MAX as u128,
        _ => u64::MAX as u128,
    }
}

fn tree<F: Fmt<Mode = musli::mode::Binary>>(c: &mut Case<'_>) -> R {
    let l = lay_of(F::NAME);
    let cfg = Cfg { max_len: if c.rng.chance(1, 20) { u128::MAX } else { max_of(l) }, ..Cfg::ALL };
    let v = shape::gen(&mut c.rng, cfg, 0);
    c.sample(|| format!("{v:?}"));
    let want = shape::reference(F::KIND, &v, l);
    let got = F::to_vec(&v);
    let want = match (want, got) {
        (Ok(w), Ok(g)) => {
            ensure!(w == g, "{}: {} was not encoded as the layout says ({})", F::NAME, show(&v), vh::model::differ(&g, &w));
            w
        }
        (Err(()), Err(_)) => {
            c.event("lengths refused by a fixed width");
            return Ok(());
        }
        (Ok(_), Err(e)) => fail!("{}: {} could not be encoded: {e}", F::NAME, show(&v)),
        (Err(()), Ok(g)) => fail!("{}: {} holds a length beyond the configured width but was encoded as {}", F::NAME, show(&v), hex(&g)),
    };
    c.seen_bytes(&want);
    c.events("nodes compared with the layout", v.nodes() as u64);
    // The layout is also what the decoder reads (packed options have no marker).
    if F::KIND != Kind::Packed {
        let plan = Plan::new(Rng::new(1), 0, 0);
        let (r, plan) = shape::with_walk(vec![v.clone()], plan, || F::from_slice::<Walk>(&want));
        if let Err(e) = r {
            fail!("{}: the documented layout of {} was refused: {e}; bytes {}", F::NAME, show(&v), hex(&want));
        }
        if let Some(m) = plan.mismatch {
            fail!("{}: the documented layout of {} was misread: {m}; bytes {}", F::NAME, show(&v), hex(&want));
        }
        c.event("reference bytes decoded");
    }
    Ok(())
}

/// The data model of a value.
trait To {
    /// The shape of the outermost value.
    fn top(&self) -> Shape {
        self.to()
    }
    fn to(&self) -> Shape;
}
macro_rules! to { ($($t:ty => $v:ident $(as $a:ty)?),* $(,)?) => { $(impl To for $t { fn to(&self) -> Shape { Shape::$v((*self).clone() $(as $a)?) } })* } }
to!(bool => Bool, char => Char, u8 => U8, u16 => U16, u32 => U32, u64 => U64, u128 => U128, i8 => I8, i16 => I16, i32 => I32, i64 => I64, i128 => I128, usize => Usize, isize => Isize, String => Str);
impl To for f32 { fn to(&self) -> Shape { Shape::F32(self.to_bits()) } }
impl To for f64 { fn to(&self) -> Shape { Shape::F64(self.to_bits()) } }
impl To for () {
    fn to(&self) -> Shape { if FINDING.get() { Shape::Pack(vec![]) } else { Shape::Empty } }
    fn top(&self) -> Shape { Shape::Empty }
}
impl To for std::num::NonZeroU32 { fn to(&self) -> Shape { self.get().to() } }
impl To for std::num::NonZeroI16 { fn to(&self) -> Shape { self.get().to() } }
impl<T: To> To for Box<T> { fn to(&self) -> Shape { (**self).to() } }
impl<T: To> To for std::rc::Rc<T> { fn to(&self) -> Shape { (**self).to() } }
impl<T: To> To for Option<T> { fn to(&self) -> Shape { match self { None => Shape::None, Some(v) => Shape::Some(Box::new(v.to())) } } }
impl<T: To> To for Vec<T> { fn to(&self) -> Shape { Shape::Seq(self.iter().map(To::to).collect()) } }
impl<T: To> To for VecDeque<T> { fn to(&self) -> Shape { Shape::Seq(self.iter().map(To::to).collect()) } }
impl<T: To> To for BTreeSet<T> { fn to(&self) -> Shape { Shape::Seq(self.iter().map(To::to).collect()) } }
impl<K: To, V: To> To for BTreeMap<K, V> { fn to(&self) -> Shape { Shape::Map(self.iter().map(|(k, v)| (k.to(), v.to())).collect()) } }
thread_local! {
    /// Describe `()` standing inside other values the way the recorded finding
    /// `units-lose-their-length` has it.
    static FINDING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl<T: To, const N: usize> To for [T; N] {
    fn to(&self) -> Shape { Shape::Seq(self.iter().map(To::to).collect()) }
}
impl<A: To> To for (A,) { fn to(&self) -> Shape { Shape::Seq(vec![self.0.to()]) } }
impl<A: To, B: To> To for (A, B) { fn to(&self) -> Shape { Shape::Seq(vec![self.0.to(), self.1.to()]) } }
impl<A: To, B: To, C: To> To for (A, B, C) { fn to(&self) -> Shape { Shape::Seq(vec![self.0.to(), self.1.to(), self.2.to()]) } }
impl<T: To> To for Range<T> { fn to(&self) -> Shape { Shape::Seq(vec![self.start.to(), self.end.to()]) } }
impl<T: To> To for RangeInclusive<T> { fn to(&self) -> Shape { Shape::Seq(vec![self.start().to(), self.end().to()]) } }
impl To for std::net::Ipv4Addr { fn to(&self) -> Shape { Shape::Array(self.octets()) } }
impl To for std::ffi::CString { fn to(&self) -> Shape { Shape::Bytes(self.as_bytes_with_nul().to_vec()) } }
impl<T: To, E: To> To for Result<T, E> {
    fn to(&self) -> Shape {
        match self {
            Ok(v) => variant(0, v.to()),
            Err(v) => variant(1, v.to()),
        }
    }
}

fn fields(v: Vec<Shape>) -> Shape {
    Shape::Map(v.into_iter().enumerate().map(|(i, v)| (Shape::Usize(i), v)).collect())
}
fn variant(i: usize, v: Shape) -> Shape {
    Shape::Variant(Box::new(Shape::Usize(i)), Box::new(v))
}

macro_rules! gens { ($t:ident { $($f:ident),* }) => { impl Gen for $t { fn gen(r: &mut Rng, d: usize) -> Self { $(let $f = Gen::gen(r, d + 1);)* $t { $($f),* } } } }; }

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Named {
    a: u8,
    b: Vec<u32>,
    c: Option<i64>,
    d: String,
    e: f64,
}
gens!(Named { a, b, c, d, e });
impl To for Named {
    fn to(&self) -> Shape {
        fields(vec![self.a.to(), self.b.to(), self.c.to(), self.d.to(), self.e.to()])
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Tuple(u16, bool, Inner);
impl Gen for Tuple { fn gen(r: &mut Rng, d: usize) -> Self { Tuple(Gen::gen(r, d), Gen::gen(r, d), Gen::gen(r, d)) } }
impl To for Tuple { fn to(&self) -> Shape { fields(vec![self.0.to(), self.1.to(), self.2.to()]) } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(transparent)]
struct Inner {
    only: i32,
}
gens!(Inner { only });
impl To for Inner { fn to(&self) -> Shape { self.only.to() } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(packed)]
struct Pk {
    a: u8,
    b: u64,
    c: i16,
    d: char,
}
gens!(Pk { a, b, c, d });
impl To for Pk { fn to(&self) -> Shape { Shape::Pack(vec![self.a.to(), self.b.to(), self.c.to(), self.d.to()]) } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Unit;
impl Gen for Unit { fn gen(_: &mut Rng, _: usize) -> Self { Unit } }
impl To for Unit { fn to(&self) -> Shape { fields(vec![]) } }
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum En {
    A,
    B { x: u32, y: bool },
    C(String),
    D(u8, i64),
    #[musli(transparent)]
    E(u128),
    #[musli(Binary, name = 300)]
    F,
}
impl Gen for En {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(6) {
            0 => En::A,
            1 => En::B { x: Gen::gen(r, d), y: Gen::gen(r, d) },
            2 => En::C(Gen::gen(r, d)),
            3 => En::D(Gen::gen(r, d), Gen::gen(r, d)),
            4 => En::E(Gen::gen(r, d)),
            _ => En::F,
        }
    }
}
impl To for En {
    fn to(&self) -> Shape {
        match self {
            En::A => variant(0, fields(vec![])),
            En::B { x, y } => variant(1, fields(vec![x.to(), y.to()])),
            En::C(s) => variant(2, fields(vec![s.to()])),
            En::D(a, b) => variant(3, fields(vec![a.to(), b.to()])),
            En::E(v) => variant(4, v.to()),
            En::F => variant(300, fields(vec![])),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
struct ByName {
    first: u8,
    second_field: Option<u16>,
}
gens!(ByName { first, second_field });
impl To for ByName {
    fn to(&self) -> Shape {
        Shape::Map(vec![(Shape::Str("first".into()), self.first.to()), (Shape::Str("second_field".into()), self.second_field.to())])
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name(type = u16))]
struct Typed {
    #[musli(name = 7)]
    a: u8,
    #[musli(name = 60000)]
    b: i8,
    #[musli(skip_encoding_if = String::is_empty, default, name = 2)]
    c: String,
}
gens!(Typed { a, b, c });
impl To for Typed {
    fn to(&self) -> Shape {
        let mut v = vec![(Shape::U16(7), self.a.to()), (Shape::U16(60000), self.b.to())];
        if !self.c.is_empty() {
            v.push((Shape::U16(2), self.c.to()));
        }
        Shape::Map(v)
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Raw {
    #[musli(bytes)]
    a: Vec<u8>,
    #[musli(packed)]
    b: (u8, u32),
}
impl Gen for Raw { fn gen(r: &mut Rng, d: usize) -> Self { Raw { a: gen_bytes(r), b: (Gen::gen(r, d), Gen::gen(r, d)) } } }
impl To for Raw {
    fn to(&self) -> Shape {
        fields(vec![Shape::Bytes(self.a.clone()), Shape::Pack(vec![self.b.0.to(), self.b.1.to()])])
    }
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Arr {
    a: [u16; 2],
    b: (),
    c: [[i8; 2]; 2],
    d: Vec<[u8; 3]>,
}
gens!(Arr { a, b, c, d });
impl To for Arr {
    fn to(&self) -> Shape {
        fields(vec![self.a.top(), self.b.top(), self.c.top(), self.d.top()])
    }
}

/// Whether values are laid out as they are in memory, so that the bitwise paths are taken.
fn native_fixed(kind: Kind, l: Lay) -> bool {
    matches!(kind, Kind::Storage | Kind::Packed) && !l.var && l.le == cfg!(target_endian = "little")
}

fn typed<F: Fmt<Mode = musli::mode::Binary>, T>(c: &mut Case<'_>) -> R
where
    T: To + Gen + Clone + std::fmt::Debug + Encode<musli::mode::Binary>,
{
    let l = lay_of(F::NAME);
    let v = T::gen(&mut c.rng, 0);
    let s = v.top();
    c.sample(|| format!("{v:?}"));
    let want = shape::reference(F::KIND, &s, l);
    let got = F::to_vec(&v);
    match (want, got) {
        (Ok(w), Ok(g)) => {
            if w != g && native_fixed(F::KIND, l) {
                FINDING.set(true);
                let alt = v.top();
                FINDING.set(false);
                if shape::reference(F::KIND, &alt, l).is_ok_and(|a| a == g) {
                    c.known("units-lose-their-length");
                    c.seen_bytes(&g);
                    return Ok(());
                }
            }
            ensure!(w == g, "{}: {} was not encoded as the layout says ({})", F::NAME, show(&v), vh::model::differ(&g, &w));
            let again = F::to_vec(&v.clone())?;
            ensure!(again == g, "{}: encoding {} twice gave {} and {}", F::NAME, show(&v), hex(&g), hex(&again));
            c.seen_bytes(&g);
            c.event("typed values compared with the layout");
        }
        (Err(()), Err(_)) => c.event("lengths refused by a fixed width"),
        (w, g) => fail!("{}: {}: the layout says {:?}, encoding gave {:?}", F::NAME, show(&v), w.map(|b| hex(&b)), g.map(|b| hex(&b))),
    }
    Ok(())
}

macro_rules! tree_one { ($f:ty, ($g:ident)) => { $g.add(format!("tree/{}", <$f>::NAME), tree::<$f>); }; }
macro_rules! typed_one { ($f:ty, ($g:ident, $label:literal, $t:ty)) => { $g.add(format!("typed/{}/{}", <$f>::NAME, $label), typed::<$f, $t>); }; }
macro_rules! typed_def { ($g:ident, $($label:literal: $t:ty,)*) => { $(
    typed_one!(Storage, ($g, $label, $t));
    typed_one!(Wire, ($g, $label, $t));
    typed_one!(Descriptive, ($g, $label, $t));
    typed_one!(Packed, ($g, $label, $t));
    typed_one!(StorageFixed, ($g, $label, $t));
    typed_one!(StorageFixedBe, ($g, $label, $t));
    typed_one!(WireFixed, ($g, $label, $t));
)* } }

type Mix = (Named, Vec<En>, (Tuple, [u32; 3], Vec<Pk>));

fn main() {
    let mut g = Groups::new();
    vh::each_option!(tree_one, pstorage, g);
    vh::each_option!(tree_one, pwire, g);
    vh::each_option!(tree_one, pdesc, g);
    vh::each_option!(tree_one, ppacked, g);
    vh::each_option!(typed_one, pstorage, g, "mix", Mix);
    vh::each_option!(typed_one, pwire, g, "mix", Mix);
    vh::each_option!(typed_one, pdesc, g, "mix", Mix);
    vh::each_option!(typed_one, ppacked, g, "mix", Mix);
    typed_def!(g,
        "u32s": Vec<u32>, "u8s": Vec<u8>, "chars": Vec<char>, "bools": VecDeque<bool>, "units": Vec<()>,
        "arrays": [[u16; 2]; 3], "tuples": (u8, (i64,), (bool, char, String)), "option": Option<Option<u64>>,
        "map": BTreeMap<String, Vec<i32>>, "map of ints": BTreeMap<u16, Option<bool>>, "set": BTreeSet<i128>,
        "result": Result<u32, String>, "range": (Range<u8>, RangeInclusive<i32>), "nonzero": (std::num::NonZeroU32, std::num::NonZeroI16),
        "ip": Vec<std::net::Ipv4Addr>, "cstring": std::ffi::CString, "boxes": (Box<u64>, std::rc::Rc<Option<String>>),
        "named": Named, "tuple struct": Vec<Tuple>, "enum": Vec<En>, "packed": (Pk, Vec<Pk>), "unit struct": (Unit, Unit), "by name": ByName,
        "typed names": Typed, "bytes": Raw, "floats": Vec<(f32, f64)>, "sizes": Vec<(usize, isize)>, "arrays inside": (u8, [u32; 3], ()), "arrays in fields": Vec<Arr>, "deque": VecDeque<u32>,
    );
    rt::main(g);
}
