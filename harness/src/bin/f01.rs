//! F01: decode(encode(v)) == v, consuming exactly what was produced.
use std::collections::*;
use std::fmt::Debug;
use vh::model::*;
use vh::rt::{self, Case, Groups, R};
use vh::{ensure, fail};

/// Round trip through one format.
fn rt_one<F: Fmt, T>(c: &mut Case<'_>, v: &T, eq: impl Fn(&T, &T) -> bool) -> R
where
    T: Debug + musli::Encode<F::Mode> + for<'de> musli::Decode<'de, F::Mode, musli::alloc::System>,
{
    let b = match F::to_vec(v) {
        Ok(b) => b,
        Err(e) => {
            // Only a length that the configured width cannot express may be refused.
            if max_len(F::OPT) < u64::MAX as u128 && (e.contains("out of bounds")) {
                c.event("encode refused: length exceeds configured width");
                return Ok(());
            }
            fail!("{}: encoding failed: {e}; value {}", F::NAME, show(v));
        }
    };
    c.seen_bytes(&b);
    c.events("bytes encoded", b.len() as u64);
    let w: T = match F::from_slice(&b) {
        Ok(w) => w,
        Err(e) => fail!("{}: decoding failed: {e}; value {} bytes {}", F::NAME, show(v), hex(&b)),
    };
    ensure!(eq(v, &w), "{}: decoded value differs: {} became {} via {}", F::NAME, show(v), show(&w), hex(&b));
    // Exact consumption, with a suffix that is a plausible continuation.
    let mut ext = b.clone();
    let tail: Vec<u8> = if F::KIND == Kind::Json { b",\"x\":[1]}".to_vec() } else { c.rng.bytes(6) };
    // A packed trailing option is decided by the end of the input, so only an exact input is meaningful.
    if F::KIND != Kind::Packed {
        ext.extend_from_slice(&tail);
        let mut rd = &ext[..];
        let w2: T = match F::advance(&mut rd) {
            Ok(w) => w,
            Err(e) => fail!("{}: decoding with a suffix failed: {e}; value {} bytes {}", F::NAME, show(v), hex(&ext)),
        };
        ensure!(eq(v, &w2), "{}: value differs when followed by other bytes: {} became {}", F::NAME, show(v), show(&w2));
        ensure!(rd == &tail[..], "{}: consumed {} bytes of an encoding of {} bytes; value {} bytes {}", F::NAME, ext.len() - rd.len(), b.len(), show(v), hex(&b));
    }
    c.event("round trips");
    Ok(())
}

fn rt_value<T>(c: &mut Case<'_>, v: &T, eq: impl Fn(&T, &T) -> bool) -> R
where
    T: Debug + musli::Encode<musli::mode::Binary> + for<'de> musli::Decode<'de, musli::mode::Binary, musli::alloc::System>,
{
    let val = musli::value::encode(v).map_err(|e| format!("value: encode failed: {e}; {}", show(v)))?;
    let w: T = musli::value::decode(&val).map_err(|e| format!("value: decode failed: {e}; {}", show(v)))?;
    ensure!(eq(v, &w), "value: decoded value differs: {} became {}", show(v), show(&w));
    c.event("dynamic value round trips");
    Ok(())
}

/// The nine format/mode pairs at default options, plus fixed, plus the dynamic value.
macro_rules! reg {
    ($g:ident, $name:literal, $t:ty $(, no = [$($no:ident),*])?) => { reg!(@ $g, $name, $t, |a: &$t, b: &$t| a == b, [$($($no),*)?]) };
    ($g:ident, $name:literal, $t:ty, eq = $eq:expr $(, no = [$($no:ident),*])?) => { reg!(@ $g, $name, $t, $eq, [$($($no),*)?]) };
    (@ $g:ident, $name:literal, $t:ty, $eq:expr, [$($no:ident),*]) => {{
        let no: &[&str] = &[$(stringify!($no)),*];
        let _ = no;
        $g.add($name, move |c| {
            let v = <$t as Gen>::gen(&mut c.rng, 0);
            c.sample(|| format!("{:?}", v));
            let e = $eq;
            let _ = &e;
            if !no.contains(&"bin") {
                rt_one::<Storage, _>(c, &v, e)?;
                rt_one::<Wire, _>(c, &v, e)?;
                rt_one::<StorageFixed, _>(c, &v, e)?;
                if !no.contains(&"bintext") { rt_one::<StorageText, _>(c, &v, e)?; rt_one::<WireText, _>(c, &v, e)?; }
                rt_one::<Descriptive, _>(c, &v, e)?;
                if !no.contains(&"bintext") { rt_one::<DescriptiveText, _>(c, &v, e)?; }
            }
            if !no.contains(&"json") { if !no.contains(&"text") { rt_one::<Json, _>(c, &v, e)?; } rt_one::<JsonBinary, _>(c, &v, e)?; }
            if !no.contains(&"packed") { rt_one::<Packed, _>(c, &v, e)?; }
            if !no.contains(&"value") { rt_value(c, &v, e)?; }
            Ok(())
        });
    }};
}

macro_rules! opt_one {
    ($f:ty, ($g:ident, $label:literal, $t:ty)) => {
        $g.add(format!("opt/{}/{}", <$f>::NAME, $label), |c| {
            let v = <$t as Gen>::gen(&mut c.rng, 0);
            rt_one::<$f, _>(c, &v, |a: &$t, b: &$t| a == b)
        });
    };
}

/// The same value in the collections of the library and in the standard ones.
mod owned {
    use super::*;
    use musli::alloc::System;
    use musli::{Decode, Encode};
    use vh::model::Gen;
    type AString = musli::alloc::String<System>;
    type AVec<T> = musli::alloc::Vec<T, System>;

    #[derive(Debug, PartialEq, Encode)]
    pub struct Std {
        s: String,
        #[musli(bytes)]
        b: Vec<u8>,
        v: Vec<String>,
        n: Vec<u32>,
        o: Option<String>,
        m: BTreeMap<String, Vec<String>>,
        e: Sum<String, Vec<i16>>,
        #[musli(packed)]
        p: (String, u8),
    }
    #[derive(Debug, PartialEq, Encode, Decode)]
    pub enum Sum<S, V> {
        S(S),
        V {
            v: V,
        },
    }
    #[derive(Debug, Decode)]
    pub struct Own<A: musli::Allocator> {
        s: musli::alloc::String<A>,
        #[musli(bytes)]
        b: musli::alloc::Vec<u8, A>,
        v: musli::alloc::Vec<musli::alloc::String<A>, A>,
        n: musli::alloc::Vec<u32, A>,
        o: Option<musli::alloc::String<A>>,
        m: BTreeMap<String, musli::alloc::Vec<musli::alloc::String<A>, A>>,
        e: Sum<musli::alloc::String<A>, musli::alloc::Vec<i16, A>>,
        #[musli(packed)]
        p: (musli::alloc::String<A>, u8),
    }
    #[derive(Encode)]
    pub struct Back<'a> {
        s: &'a AString,
        #[musli(bytes)]
        b: &'a [u8],
        v: &'a AVec<AString>,
        n: &'a AVec<u32>,
        o: &'a Option<AString>,
        m: &'a BTreeMap<String, AVec<AString>>,
        e: &'a Sum<AString, AVec<i16>>,
        #[musli(packed)]
        p: (&'a AString, u8),
    }
    impl Own<System> {
        fn std(&self) -> Std {
            let s = |s: &AString| s.as_str().to_string();
            let vs = |v: &AVec<AString>| v.iter().map(s).collect::<Vec<_>>();
            Std {
                s: s(&self.s),
                b: self.b.to_vec(),
                v: vs(&self.v),
                n: self.n.to_vec(),
                o: self.o.as_ref().map(s),
                m: self.m.iter().map(|(k, v)| (k.clone(), vs(v))).collect(),
                e: match &self.e {
                    Sum::S(v) => Sum::S(s(v)),
                    Sum::V { v } => Sum::V { v: v.to_vec() },
                },
                p: (s(&self.p.0), self.p.1),
            }
        }
    }
    pub fn run<F: Fmt>(c: &mut Case<'_>) -> R
    where
        Std: Encode<F::Mode>,
        for<'a> Back<'a>: Encode<F::Mode>,
        Own<System>: for<'de> Decode<'de, F::Mode, System>,
    {
        let r = &mut c.rng;
        let v = Std { s: Gen::gen(r, 0), b: Gen::gen(r, 0), v: Gen::gen(r, 1), n: Gen::gen(r, 0), o: Gen::gen(r, 0), m: Gen::gen(r, 1), e: if r.bool() { Sum::S(Gen::gen(r, 0)) } else { Sum::V { v: Gen::gen(r, 0) } }, p: (Gen::gen(r, 0), r.u64() as u8) };
        let b = F::to_vec(&v)?;
        c.seen_bytes(&b);
        let w: Own<System> = F::from_slice(&b).map_err(|e| format!("{}: {e}; {} bytes {}", F::NAME, show(&v), hex(&b)))?;
        let x = w.std();
        ensure!(v == x, "{}: {} became {} via {}", F::NAME, show(&v), show(&x), hex(&b));
        let a = F::to_vec(&Back { s: &w.s, b: &w.b, v: &w.v, n: &w.n, o: &w.o, m: &w.m, e: &w.e, p: (&w.p.0, w.p.1) })?;
        ensure!(a == b, "{}: {} is encoded as {}, but as {} out of the collections of the library", F::NAME, show(&v), hex(&b), hex(&a));
        c.event("round trips into the collections of the library");
        Ok(())
    }
    pub fn value(c: &mut Case<'_>) -> R {
        let v = (String::gen(&mut c.rng, 0), Vec::<String>::gen(&mut c.rng, 0));
        let e = musli::value::encode(&v).map_err(|e| e.to_string())?;
        let w: (AString, AVec<AString>) = musli::value::decode(&e).map_err(|e| e.to_string())?;
        ensure!(w.0.as_str() == v.0 && w.1.iter().map(|s| s.as_str()).eq(v.1.iter().map(|s| s.as_str())), "{} became {} via a dynamic value", show(&v), show(&w));
        c.event("round trips into the collections of the library");
        Ok(())
    }
}

fn main() {
    let mut g = Groups::new();
    include!("../f01_types.rs");
    vh::each_option!(opt_one, pstorage, g, "core", OptCore);
    vh::each_option!(opt_one, pwire, g, "core", OptCore);
    vh::each_option!(opt_one, pdesc, g, "core", OptCore);
    vh::each_option!(opt_one, ppacked, g, "packeds", (PackedS, Vec<PackedBits>, Vec<char>, Vec<bool>, Vec<i32>, Vec<std::num::NonZeroU32>));
    macro_rules! own {
        ($($f:ident)*) => { $(g.add(concat!("allocated/", stringify!($f)), owned::run::<$f>);)* };
    }
    own!(Storage Wire Descriptive Json StorageFixed StorageText WireText DescriptiveText JsonBinary);
    g.add("allocated/value", owned::value);
    rt::main(g);
}
