//! F14: every type of F01, inside each kind of position the derives buffer or retry.
use musli::{Decode, Encode};
use std::collections::*;
use std::fmt::Debug;
use vh::model::*;
use vh::rt::{self, Case, Groups, R};
use vh::{ensure, fail};

fn one<F: Fmt, T>(c: &mut Case<'_>, what: &str, v: &T) -> R
where
    T: Debug + PartialEq + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, musli::alloc::System>,
{
    let b = F::to_vec(v).map_err(|e| format!("{} {what}: encoding failed: {e}; value {}", F::NAME, show(v)))?;
    c.seen_bytes(&b);
    let w: T = match F::from_slice(&b) {
        Ok(w) => w,
        Err(e) => fail!("{} {what}: decoding failed: {e}; value {} bytes {}", F::NAME, show(v), hex(&b)),
    };
    ensure!(*v == w, "{} {what}: {} became {} via {}", F::NAME, show(v), show(&w), hex(&b));
    c.event("round trips in a buffered position");
    Ok(())
}

fn val<T>(c: &mut Case<'_>, what: &str, v: &T) -> R
where
    T: Debug + PartialEq + Encode<musli::mode::Binary> + for<'de> Decode<'de, musli::mode::Binary, musli::alloc::System>,
{
    let e = musli::value::encode(v).map_err(|e| format!("value {what}: encoding failed: {e}; value {}", show(v)))?;
    let w: T = musli::value::decode(&e).map_err(|e| format!("value {what}: decoding failed: {e}; value {} as {:?}", show(v), e_dbg(&e)))?;
    ensure!(*v == w, "value {what}: {} became {} via {}", show(v), show(&w), e_dbg(&e));
    c.event("round trips in a buffered position");
    Ok(())
}

fn e_dbg(e: &impl Debug) -> String {
    format!("{e:?}").chars().take(400).collect()
}

/// The types whose encoding has a pack in it.
const PACKS: &[&str] = &["sockv4", "sockv6", "sock", "packed", "packed bits", "packed pad", "packed bool", "vec packed", "vec packed pad", "vec packed bool", "fielded", "everything"];

/// Maps keyed by untagged enums and by transparent wrappers, where the key must stay what it was written as.
mod keys {
    use super::*;
    #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Encode, Decode)]
    #[musli(untagged)]
    pub enum NumStr {
        #[musli(transparent)]
        N(u32),
        #[musli(transparent)]
        S(String),
    }
    #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Encode, Decode)]
    #[musli(untagged)]
    pub enum SignedStr {
        #[musli(transparent)]
        U(u8),
        #[musli(transparent)]
        I(i64),
        #[musli(transparent)]
        S(String),
    }
    #[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Encode, Decode)]
    #[musli(transparent)]
    pub struct Id(u64);
    impl Gen for NumStr {
        fn gen(r: &mut vh::rng::Rng, d: usize) -> Self {
            // A text that reads as a number is the number.
            if r.bool() { NumStr::N(Gen::gen(r, d)) } else { NumStr::S(format!("k{}", String::gen(r, d))) }
        }
    }
    impl Gen for SignedStr {
        fn gen(r: &mut vh::rng::Rng, d: usize) -> Self {
            match r.below(3) {
                0 => SignedStr::U(Gen::gen(r, d)),
                1 => {
                    let v: i64 = Gen::gen(r, d);
                    if (0..256).contains(&v) { SignedStr::U(v as u8) } else { SignedStr::I(v) }
                }
                _ => SignedStr::S(format!("k{}", String::gen(r, d))),
            }
        }
    }
    impl Gen for Id {
        fn gen(r: &mut vh::rng::Rng, d: usize) -> Self {
            Id(Gen::gen(r, d))
        }
    }
}

macro_rules! reg {
    ($g:ident, $name:literal, $t:ty $(, eq = $eq:expr)? $(, no = [$($no:ident),*])?) => {{
        #[derive(Debug, PartialEq, Encode, Decode)]
        #[musli(tag = "type", name_all = "name")]
        enum Int {
            #[musli(name_all = "name")]
            A { v: $t, n: u8 },
            #[musli(name_all = "name")]
            B { w: $t },
            #[musli(name_all = "name")]
            C { x: u8 },
            #[musli(name_all = "name")]
            D { x: u8, l: Vec<$t>, m: BTreeMap<String, $t> },
        }

        #[derive(Debug, PartialEq, Encode, Decode)]
        #[musli(tag = "t", content = "c", name_all = "name")]
        enum Adj {
            #[musli(name_all = "name")]
            A { v: $t, n: u8 },
            #[musli(name_all = "name")]
            B { w: $t },
            #[musli(name_all = "name")]
            C { x: u8 },
            #[musli(name_all = "name")]
            D { x: u8, l: Vec<$t>, m: BTreeMap<String, $t> },
        }

        /// The first two alternatives never fit: one has another number of fields, one another name.
        #[derive(Debug, PartialEq, Encode, Decode)]
        #[musli(untagged, name_all = "name")]
        enum Unt {
            #[musli(name_all = "name")]
            Never { v: $t, n: u8, absent: u8 },
            #[musli(name_all = "name")]
            Other { other: $t, n: u8 },
            #[musli(name_all = "name")]
            A { v: $t, n: u8 },
        }
        #[allow(unused)]
        impl Int {
            fn make(r: &mut vh::rng::Rng) -> Self {
                match r.below(5) {
                    4 => Int::D { x: r.u64() as u8, l: (0..r.below(3)).map(|_| <$t as Gen>::gen(r, 2)).collect(), m: (0..r.below(3)).map(|_| (Gen::gen(r, 2), <$t as Gen>::gen(r, 2))).collect() },
                    0 => Int::B { w: <$t as Gen>::gen(r, 1) },
                    1 => Int::C { x: r.u64() as u8 },
                    _ => Int::A { v: <$t as Gen>::gen(r, 1), n: r.u64() as u8 },
                }
            }
        }
        impl Adj {
            fn make(r: &mut vh::rng::Rng) -> Self {
                match r.below(5) {
                    4 => Adj::D { x: r.u64() as u8, l: (0..r.below(3)).map(|_| <$t as Gen>::gen(r, 2)).collect(), m: (0..r.below(3)).map(|_| (Gen::gen(r, 2), <$t as Gen>::gen(r, 2))).collect() },
                    0 => Adj::B { w: <$t as Gen>::gen(r, 1) },
                    1 => Adj::C { x: r.u64() as u8 },
                    _ => Adj::A { v: <$t as Gen>::gen(r, 1), n: r.u64() as u8 },
                }
            }
        }
        let no: &[&str] = &[$($(stringify!($no)),*)?];
        let _ = no;
        $g.add(concat!("wrapped/", $name), move |c| {
            let v = Int::make(&mut c.rng);
            c.sample(|| format!("{v:?}"));
            let text = !no.contains(&"text");
            // Known: a JSON array is not decoded as a pack out of an internally tagged enum.
            let packs = PACKS.contains(&$name);
            if text && !packs { one::<Json, _>(c, "tagged", &v)?; }
            if !packs { one::<JsonBinary, _>(c, "tagged", &v)?; }
            one::<Descriptive, _>(c, "tagged", &v)?;
            if text { one::<DescriptiveText, _>(c, "tagged", &v)?; }
            val(c, "tagged", &v)?;
            let v = Adj::make(&mut c.rng);
            if text { one::<Json, _>(c, "adjacent", &v)?; }
            one::<Descriptive, _>(c, "adjacent", &v)?;
            // Only a format which describes itself can tell the alternatives of the keys apart.
            let plain = !$name.starts_with("keys");
            if plain { one::<Storage, _>(c, "adjacent", &v)?; }
            if plain { one::<Wire, _>(c, "adjacent", &v)?; }
            val(c, "adjacent", &v)?;
            let v = Unt::A { v: <$t as Gen>::gen(&mut c.rng, 1), n: c.rng.u64() as u8 };
            if text { one::<Json, _>(c, "untagged", &v)?; }
            one::<Descriptive, _>(c, "untagged", &v)?;
            if plain { one::<Storage, _>(c, "untagged", &v)?; }
            if plain { one::<Wire, _>(c, "untagged", &v)?; }
            val(c, "untagged", &v)?;
            Ok(())
        });
    }};
}

fn main() {
    let mut g = Groups::new();
    include!("../f01_types.rs");
    reg!(g, "keys num str", BTreeMap<keys::NumStr, u8>);
    reg!(g, "keys signed", BTreeMap<keys::SignedStr, Vec<u8>>);
    reg!(g, "keys id", BTreeMap<keys::Id, Option<bool>>);
    reg!(g, "keys nested", BTreeMap<keys::Id, BTreeMap<keys::NumStr, BTreeMap<String, keys::NumStr>>>);
    rt::main(g);
}
