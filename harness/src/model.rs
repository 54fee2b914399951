//! Formats, generators and model types shared by the format checks.
use crate::rng::Rng;
use musli::mode::{Binary, Text};
use musli::options::{self, ByteOrder, Float, Integer, Options, Width};
use musli::{Decode, Encode};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::Debug;

// ---------------------------------------------------------------------------
// Formats
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Storage,
    Wire,
    Descriptive,
    Json,
    Packed,
}

/// A format with its options fixed.
pub trait Fmt: 'static + Send + Sync {
    type Mode: 'static;
    const NAME: &'static str;
    const KIND: Kind;
    const OPT: Options;
    fn to_vec<T: ?Sized + Encode<Self::Mode>>(v: &T) -> Result<Vec<u8>, String>;
    fn from_slice<'de, T: Decode<'de, Self::Mode, musli::alloc::System>>(b: &'de [u8]) -> Result<T, String>;
    /// Decode by advancing the slice.
    fn advance<'de, T: Decode<'de, Self::Mode, musli::alloc::System>>(b: &mut &'de [u8]) -> Result<T, String>;
    /// Decode from one of the other readers the format accepts (`how` picks it).
    fn via_reader<'de, T: Decode<'de, Self::Mode, musli::alloc::System>>(b: &'de [u8], how: usize) -> Result<T, String>;
    fn encode<W: musli::writer::IntoWriter, T: ?Sized + Encode<Self::Mode>>(w: W, v: &T) -> Result<W::Ok, String>;
    fn to_slice<T: ?Sized + Encode<Self::Mode>>(out: &mut [u8], v: &T) -> Result<usize, String>;
    fn to_fixed<const N: usize, T: ?Sized + Encode<Self::Mode>>(v: &T) -> Result<musli::FixedBytes<N>, String>;
    fn to_writer<W: std::io::Write, T: ?Sized + Encode<Self::Mode>>(w: W, v: &T) -> Result<(), String>;
    fn encode_with<C: musli::Context, W: musli::writer::IntoWriter, T: ?Sized + Encode<Self::Mode>>(cx: C, w: W, v: &T) -> Result<W::Ok, C::Error>;
    fn to_slice_with<C: musli::Context, T: ?Sized + Encode<Self::Mode>>(cx: C, out: &mut [u8], v: &T) -> Result<usize, C::Error>;
    fn to_vec_with<C: musli::Context, T: ?Sized + Encode<Self::Mode>>(cx: C, v: &T) -> Result<Vec<u8>, C::Error>;
    fn to_fixed_with<C: musli::Context, const N: usize, T: ?Sized + Encode<Self::Mode>>(cx: C, v: &T) -> Result<musli::FixedBytes<N>, C::Error>;
    fn to_writer_with<C: musli::Context, W: std::io::Write, T: ?Sized + Encode<Self::Mode>>(cx: C, w: W, v: &T) -> Result<(), C::Error>;
    fn from_slice_with<'de, C: musli::Context, T: Decode<'de, Self::Mode, C::Allocator>>(cx: C, b: &'de [u8]) -> Result<T, C::Error>;
    fn advance_with<'de, C: musli::Context, T: Decode<'de, Self::Mode, C::Allocator>>(cx: C, b: &mut &'de [u8]) -> Result<T, C::Error>;
    fn from_str<'de, T: Decode<'de, Self::Mode, musli::alloc::System>>(b: &'de str) -> Result<T, String>;
}

#[macro_export]
macro_rules! via_reader {
    (Json, $enc:expr, $b:expr, $how:expr) => {{
        let mut r = $b;
        match $how % 2 {
            0 => $enc.decode(&mut r).map_err(|e| e.to_string()),
            _ => $enc.decode($b).map_err(|e| e.to_string()),
        }
    }};
    ($kind:ident, $enc:expr, $b:expr, $how:expr) => {{
        use musli::reader::{Reader, SliceReader};
        let b = $b;
        match $how % 5 {
            0 => {
                let mut r = SliceReader::new(b);
                let out = $enc.decode(&mut r).map_err(|e| e.to_string());
                if r.remaining() > b.len() || r.as_slice().as_ptr_range().end != b.as_ptr_range().end {
                    return Err("VIOLATION: the rest of a slice reader is not a suffix of its input".into());
                }
                out
            }
            1 => $enc.decode(&mut SliceReader::new(b).limit(b.len())).map_err(|e| e.to_string()),
            2 => $enc.decode(&mut Reader::limit(b, b.len() / 2)).map_err(|e| e.to_string()),
            3 => $enc.decode(&mut Reader::limit(b, usize::MAX)).map_err(|e| e.to_string()),
            _ => $enc.decode(&mut SliceReader::new(b).limit(usize::MAX)).map_err(|e| e.to_string()),
        }
    }};
}

#[macro_export]
macro_rules! fmt_type {
    ($name:ident, $kind:ident, $mode:ty, $opt:expr, $label:expr, $enc:expr) => {
        pub struct $name;
        impl $crate::model::Fmt for $name {
            type Mode = $mode;
            const NAME: &'static str = $label;
            const KIND: $crate::model::Kind = $crate::model::Kind::$kind;
            const OPT: musli::Options = $opt;
            fn to_vec<T: ?Sized + musli::Encode<$mode>>(v: &T) -> Result<Vec<u8>, String> {
                $enc.to_vec(v).map_err(|e| e.to_string())
            }
            fn from_slice<'de, T: musli::Decode<'de, $mode, musli::alloc::System>>(b: &'de [u8]) -> Result<T, String> {
                $enc.from_slice(b).map_err(|e| e.to_string())
            }
            fn advance<'de, T: musli::Decode<'de, $mode, musli::alloc::System>>(b: &mut &'de [u8]) -> Result<T, String> {
                $enc.decode(b).map_err(|e| e.to_string())
            }
            fn via_reader<'de, T: musli::Decode<'de, $mode, musli::alloc::System>>(b: &'de [u8], how: usize) -> Result<T, String> {
                $crate::via_reader!($kind, $enc, b, how)
            }
            fn encode<W: musli::writer::IntoWriter, T: ?Sized + musli::Encode<$mode>>(w: W, v: &T) -> Result<W::Ok, String> {
                $enc.encode(w, v).map_err(|e| e.to_string())
            }
            fn to_slice<T: ?Sized + musli::Encode<$mode>>(out: &mut [u8], v: &T) -> Result<usize, String> {
                $enc.to_slice(out, v).map_err(|e| e.to_string())
            }
            fn to_fixed<const N: usize, T: ?Sized + musli::Encode<$mode>>(v: &T) -> Result<musli::FixedBytes<N>, String> {
                $enc.to_fixed_bytes::<N, T>(v).map_err(|e| e.to_string())
            }
            fn to_writer<W: std::io::Write, T: ?Sized + musli::Encode<$mode>>(w: W, v: &T) -> Result<(), String> {
                $enc.to_writer(w, v).map_err(|e| e.to_string())
            }
            fn encode_with<C: musli::Context, W: musli::writer::IntoWriter, T: ?Sized + musli::Encode<$mode>>(cx: C, w: W, v: &T) -> Result<W::Ok, C::Error> {
                $enc.encode_with(cx, w, v)
            }
            fn to_slice_with<C: musli::Context, T: ?Sized + musli::Encode<$mode>>(cx: C, out: &mut [u8], v: &T) -> Result<usize, C::Error> {
                $enc.to_slice_with(cx, out, v)
            }
            fn to_vec_with<C: musli::Context, T: ?Sized + musli::Encode<$mode>>(cx: C, v: &T) -> Result<Vec<u8>, C::Error> {
                $enc.to_vec_with(cx, v)
            }
            fn to_fixed_with<C: musli::Context, const N: usize, T: ?Sized + musli::Encode<$mode>>(cx: C, v: &T) -> Result<musli::FixedBytes<N>, C::Error> {
                $enc.to_fixed_bytes_with::<C, N, T>(cx, v)
            }
            fn to_writer_with<C: musli::Context, W: std::io::Write, T: ?Sized + musli::Encode<$mode>>(cx: C, w: W, v: &T) -> Result<(), C::Error> {
                $enc.to_writer_with(cx, w, v)
            }
            fn from_slice_with<'de, C: musli::Context, T: musli::Decode<'de, $mode, C::Allocator>>(cx: C, b: &'de [u8]) -> Result<T, C::Error> {
                $enc.from_slice_with(cx, b)
            }
            fn advance_with<'de, C: musli::Context, T: musli::Decode<'de, $mode, C::Allocator>>(cx: C, b: &mut &'de [u8]) -> Result<T, C::Error> {
                $enc.decode_with(cx, b)
            }
            fn from_str<'de, T: musli::Decode<'de, $mode, musli::alloc::System>>(b: &'de str) -> Result<T, String> {
                $enc.from_str(b).map_err(|e| e.to_string())
            }
        }
    };
}

pub const fn opt(int: Integer, bo: ByteOrder, w: Width) -> Options {
    options::new().integer(int).float(Float::Integer).byte_order(bo).pointer(w).build()
}
/// All-fixed options, including floats: the ones the bitwise fast path needs.
pub const fn fixed(bo: ByteOrder, w: Width) -> Options {
    options::new().fixed().byte_order(bo).pointer(w).build()
}

pub const O_DEF: Options = options::new().build();
pub const O_FIXED: Options = fixed(ByteOrder::Little, Width::U64);
pub const O_FIXED_BE: Options = fixed(ByteOrder::Big, Width::U64);

fmt_type!(Storage, Storage, Binary, O_DEF, "storage", musli::storage::Encoding::new());
fmt_type!(Wire, Wire, Binary, O_DEF, "wire", musli::wire::Encoding::new());
fmt_type!(Descriptive, Descriptive, Binary, O_DEF, "descriptive", musli::descriptive::Encoding::new());
fmt_type!(Json, Json, Text, O_DEF, "json", musli::json::Encoding::new());
fmt_type!(Packed, Packed, Binary, O_FIXED, "packed", musli::packed::Encoding::new());
fmt_type!(StorageText, Storage, Text, O_DEF, "storage/text", musli::storage::Encoding::new().with_mode::<Text>());
fmt_type!(WireText, Wire, Text, O_DEF, "wire/text", musli::wire::Encoding::new().with_mode::<Text>());
fmt_type!(DescriptiveText, Descriptive, Text, O_DEF, "descriptive/text", musli::descriptive::Encoding::new().with_mode::<Text>());
fmt_type!(JsonBinary, Json, Binary, O_DEF, "json/binary", musli::json::Encoding::new().with_mode::<Binary>());
fmt_type!(StorageFixed, Storage, Binary, O_FIXED, "storage/fixed-le64", musli::storage::Encoding::new().with_options::<O_FIXED>());
fmt_type!(StorageFixedBe, Storage, Binary, O_FIXED_BE, "storage/fixed-be64", musli::storage::Encoding::new().with_options::<O_FIXED_BE>());
fmt_type!(WireFixed, Wire, Binary, O_FIXED, "wire/fixed-le64", musli::wire::Encoding::new().with_options::<O_FIXED>());
fmt_type!(DescriptiveFixed, Descriptive, Binary, O_FIXED, "descriptive/fixed-le64", musli::descriptive::Encoding::new().with_options::<O_FIXED>());
fmt_type!(PackedBe, Packed, Binary, O_FIXED_BE, "packed/fixed-be64", musli::packed::Encoding::new().with_options::<O_FIXED_BE>());

/// Apply `$m!(Type)` for the whole option product of one format.
#[macro_export]
macro_rules! option_product {
    ($m:ident, $modname:ident, $kind:ident, $path:path) => {
        pub mod $modname {
            use musli::mode::Binary;
            use musli::options::{ByteOrder, Integer, Width};
            use $crate::model::{fixed, opt};
            use $path as fm;
            $crate::option_product!(@one VL0, $kind, opt(Integer::Variable, ByteOrder::Little, Width::Variable), "var-le-lenvar");
            $crate::option_product!(@one VL1, $kind, opt(Integer::Variable, ByteOrder::Little, Width::U8), "var-le-len8");
            $crate::option_product!(@one VL2, $kind, opt(Integer::Variable, ByteOrder::Little, Width::U16), "var-le-len16");
            $crate::option_product!(@one VL3, $kind, opt(Integer::Variable, ByteOrder::Little, Width::U32), "var-le-len32");
            $crate::option_product!(@one VL4, $kind, opt(Integer::Variable, ByteOrder::Little, Width::U64), "var-le-len64");
            $crate::option_product!(@one VB0, $kind, opt(Integer::Variable, ByteOrder::Big, Width::Variable), "var-be-lenvar");
            $crate::option_product!(@one VB1, $kind, opt(Integer::Variable, ByteOrder::Big, Width::U8), "var-be-len8");
            $crate::option_product!(@one VB2, $kind, opt(Integer::Variable, ByteOrder::Big, Width::U16), "var-be-len16");
            $crate::option_product!(@one VB3, $kind, opt(Integer::Variable, ByteOrder::Big, Width::U32), "var-be-len32");
            $crate::option_product!(@one VB4, $kind, opt(Integer::Variable, ByteOrder::Big, Width::U64), "var-be-len64");
            $crate::option_product!(@one FL0, $kind, fixed(ByteOrder::Little, Width::Variable), "fix-le-lenvar");
            $crate::option_product!(@one FL1, $kind, fixed(ByteOrder::Little, Width::U8), "fix-le-len8");
            $crate::option_product!(@one FL2, $kind, fixed(ByteOrder::Little, Width::U16), "fix-le-len16");
            $crate::option_product!(@one FL3, $kind, fixed(ByteOrder::Little, Width::U32), "fix-le-len32");
            $crate::option_product!(@one FL4, $kind, fixed(ByteOrder::Little, Width::U64), "fix-le-len64");
            $crate::option_product!(@one FB0, $kind, fixed(ByteOrder::Big, Width::Variable), "fix-be-lenvar");
            $crate::option_product!(@one FB1, $kind, fixed(ByteOrder::Big, Width::U8), "fix-be-len8");
            $crate::option_product!(@one FB2, $kind, fixed(ByteOrder::Big, Width::U16), "fix-be-len16");
            $crate::option_product!(@one FB3, $kind, fixed(ByteOrder::Big, Width::U32), "fix-be-len32");
            $crate::option_product!(@one FB4, $kind, fixed(ByteOrder::Big, Width::U64), "fix-be-len64");
        }
    };
    (@one $n:ident, $kind:ident, $o:expr, $l:expr) => {
        $crate::fmt_type!($n, $kind, Binary, $o, concat!(stringify!($kind), "/", $l), fm::Encoding::new().with_options::<{ $o }>());
    };
}
option_product!(m, pstorage, Storage, musli::storage);
option_product!(m, pwire, Wire, musli::wire);
option_product!(m, pdesc, Descriptive, musli::descriptive);
option_product!(m, ppacked, Packed, musli::packed);

#[macro_export]
macro_rules! each_option {
    ($m:ident, $modname:ident, $($args:tt)*) => {
        $crate::each_option!(@go $m, $modname, ($($args)*), VL0 VL1 VL2 VL3 VL4 VB0 VB1 VB2 VB3 VB4 FL0 FL1 FL2 FL3 FL4 FB0 FB1 FB2 FB3 FB4);
    };
    (@go $m:ident, $modname:ident, $args:tt, $($n:ident)*) => {
        $( $m!($crate::model::$modname::$n, $args); )*
    };
}

/// Largest length the options can express.
pub fn max_len(o: Options) -> u128 {
    match (o >> 12) & 7 {
        1 => u8::MAX as u128,
        2 => u16::MAX as u128,
        3 => u32::MAX as u128,
        _ => u64::MAX as u128,
    }
}

// ---------------------------------------------------------------------------
// Generators
// ---------------------------------------------------------------------------

pub trait Gen: Sized {
    fn gen(r: &mut Rng, d: usize) -> Self;
}

macro_rules! gen_int {
    ($($t:ty),*) => { $(impl Gen for $t { fn gen(r: &mut Rng, _: usize) -> Self {
        let b = r.edge_bits();
        if r.bool() { b as $t } else { (b as $t).wrapping_neg() }
    } })* };
}
gen_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);

macro_rules! gen_nz {
    ($($t:ident, $p:ty);*) => { $(impl Gen for std::num::$t { fn gen(r: &mut Rng, d: usize) -> Self {
        loop { if let Some(v) = Self::new(<$p>::gen(r, d)) { return v } }
    } })* };
}
gen_nz!(NonZeroU8,u8; NonZeroU16,u16; NonZeroU32,u32; NonZeroU64,u64; NonZeroU128,u128; NonZeroUsize,usize;
        NonZeroI8,i8; NonZeroI16,i16; NonZeroI32,i32; NonZeroI64,i64; NonZeroI128,i128; NonZeroIsize,isize);

/// Any finite or infinite float bit pattern but NaN (those are compared by bits elsewhere).
impl Gen for f32 {
    fn gen(r: &mut Rng, _: usize) -> Self {
        loop {
            let v = gen_f32_finite(r);
            if !v.is_nan() {
                return v;
            }
        }
    }
}
impl Gen for f64 {
    fn gen(r: &mut Rng, _: usize) -> Self {
        loop {
            let v = gen_f64_finite(r);
            if !v.is_nan() {
                return v;
            }
        }
    }
}
/// Finite floats with hard cases.
pub fn gen_f32_finite(r: &mut Rng) -> f32 {
    loop {
        let v = match r.below(6) {
            0 => *r.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.1, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1e-45, 16777216.0, 16777217.0]),
            1 => f32::from_bits(r.below(1 << 23) as u32),
            2 => (r.below(2_000_001) as f32 - 1_000_000.0) / 100.0,
            3 => r.below(1 << 26) as f32,
            _ => f32::from_bits(r.u32()),
        };
        if v.is_finite() {
            return v;
        }
    }
}
pub fn gen_f64_finite(r: &mut Rng) -> f64 {
    loop {
        let v = match r.below(6) {
            0 => *r.pick(&[0.0f64, -0.0, 1.0, -1.0, 0.1, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324, 9007199254740992.0, 9007199254740993.0, 2.2250738585072011e-308, 1e22, 1e23]),
            1 => f64::from_bits(r.u64() >> 12),
            2 => (r.below(2_000_001) as f64 - 1_000_000.0) / 100.0,
            3 => r.edge_bits() as u64 as f64,
            _ => f64::from_bits(r.u64()),
        };
        if v.is_finite() {
            return v;
        }
    }
}

impl Gen for bool {
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.bool()
    }
}
impl Gen for () {
    fn gen(_: &mut Rng, _: usize) -> Self {}
}
impl Gen for char {
    fn gen(r: &mut Rng, _: usize) -> Self {
        gen_char(r)
    }
}
pub fn gen_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(8) {
            0 => r.below(0x20) as u32,
            1 | 2 | 3 => 0x20 + r.below(0x60) as u32,
            4 => *r.pick(&[0x22, 0x5c, 0x2f, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x2028, 0x2029, 0]),
            5 => r.below(0x800) as u32,
            6 => r.below(0x10000) as u32,
            _ => r.below(0x110000) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}
pub fn gen_string(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0 => 0,
        1..=7 => r.below(8),
        8 | 9 => r.below(40),
        10 => *r.pick(&[62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257]),
        _ => r.below(700),
    };
    // Long runs of plain ASCII with the odd special character exercise chunked scanners.
    let plain = r.bool();
    (0..n).map(|_| if plain && !r.chance(1, 20) { (b'a' + r.below(26) as u8) as char } else { gen_char(r) }).collect()
}
pub fn gen_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1..=7 => r.below(8),
        8 | 9 => r.below(40),
        10 => *r.pick(&[62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 257]),
        _ => r.below(700),
    };
    r.bytes(n)
}
impl Gen for String {
    fn gen(r: &mut Rng, _: usize) -> Self {
        gen_string(r)
    }
}
impl Gen for Box<str> {
    fn gen(r: &mut Rng, _: usize) -> Self {
        gen_string(r).into()
    }
}
impl Gen for Cow<'static, str> {
    fn gen(r: &mut Rng, _: usize) -> Self {
        Cow::Owned(gen_string(r))
    }
}
impl Gen for std::ffi::CString {
    fn gen(r: &mut Rng, _: usize) -> Self {
        let mut b = gen_bytes(r);
        b.retain(|&x| x != 0);
        std::ffi::CString::new(b).unwrap()
    }
}
impl Gen for std::ffi::OsString {
    fn gen(r: &mut Rng, _: usize) -> Self {
        use std::os::unix::ffi::OsStringExt;
        std::ffi::OsString::from_vec(gen_bytes(r))
    }
}
impl Gen for std::path::PathBuf {
    fn gen(r: &mut Rng, d: usize) -> Self {
        std::ffi::OsString::gen(r, d).into()
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.chance(1, 3) {
            None
        } else {
            Some(T::gen(r, d))
        }
    }
}
impl<T: Gen, E: Gen> Gen for Result<T, E> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.bool() {
            Ok(T::gen(r, d))
        } else {
            Err(E::gen(r, d))
        }
    }
}
pub fn clen(r: &mut Rng, d: usize) -> usize {
    if d >= 3 {
        return r.below(2);
    }
    match r.below(20) {
        0..=2 => 0,
        3..=15 => r.below(5),
        16..=18 => r.below(12),
        _ => *r.pick(&[15, 16, 31, 62, 63, 64, 65, 127, 128, 130]),
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..clen(r, d)).map(|_| T::gen(r, d + 1)).collect()
    }
}
impl<T: Gen> Gen for Box<[T]> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Vec::<T>::gen(r, d).into()
    }
}
impl<T: Gen> Gen for VecDeque<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        // Wrap around so that both slices are populated.
        let mut v: VecDeque<T> = VecDeque::with_capacity(8);
        let n = clen(r, d);
        for _ in 0..n {
            let x = T::gen(r, d + 1);
            if r.bool() {
                v.push_back(x)
            } else {
                v.push_front(x)
            }
        }
        v
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..clen(r, d)).map(|_| T::gen(r, d + 1)).collect()
    }
}
impl<T: Gen + Eq + std::hash::Hash> Gen for HashSet<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..clen(r, d)).map(|_| T::gen(r, d + 1)).collect()
    }
}
impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..clen(r, d)).map(|_| (K::gen(r, d + 1), V::gen(r, d + 1))).collect()
    }
}
impl<K: Gen + Eq + std::hash::Hash, V: Gen> Gen for HashMap<K, V> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        (0..clen(r, d)).map(|_| (K::gen(r, d + 1), V::gen(r, d + 1))).collect()
    }
}
macro_rules! gen_ptr {
    ($($p:ident),*) => { $(impl<T: Gen> Gen for $p<T> { fn gen(r: &mut Rng, d: usize) -> Self { $p::new(T::gen(r, d)) } })* };
}
use std::num::Wrapping;
use std::rc::Rc;
use std::sync::Arc;
gen_ptr!(Box, Rc, Arc);
impl<T: Gen> Gen for Wrapping<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Wrapping(T::gen(r, d))
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(r: &mut Rng, d: usize) -> Self {
        std::array::from_fn(|_| T::gen(r, d + 1))
    }
}
impl<T> Gen for std::marker::PhantomData<T> {
    fn gen(_: &mut Rng, _: usize) -> Self {
        std::marker::PhantomData
    }
}
macro_rules! gen_tuple {
    ($($n:ident)*) => { impl<$($n: Gen),*> Gen for ($($n,)*) { fn gen(r: &mut Rng, d: usize) -> Self { ($($n::gen(r, d + 1),)*) } } };
}
gen_tuple!(A);
gen_tuple!(A B);
gen_tuple!(A B C);
gen_tuple!(A B C D);
gen_tuple!(A B C D E);
gen_tuple!(A B C D E F);
gen_tuple!(A B C D E F G H);
gen_tuple!(A B C D E F G H I J K L);
impl<T: Gen> Gen for std::ops::Range<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        T::gen(r, d)..T::gen(r, d)
    }
}
impl<T: Gen> Gen for std::ops::RangeInclusive<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        T::gen(r, d)..=T::gen(r, d)
    }
}
impl<T: Gen> Gen for std::ops::RangeFrom<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        T::gen(r, d)..
    }
}
impl<T: Gen> Gen for std::ops::RangeTo<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        ..T::gen(r, d)
    }
}
impl<T: Gen> Gen for std::ops::RangeToInclusive<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        ..=T::gen(r, d)
    }
}
impl Gen for std::ops::RangeFull {
    fn gen(_: &mut Rng, _: usize) -> Self {
        ..
    }
}
impl Gen for std::net::Ipv4Addr {
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.u32().into()
    }
}
impl Gen for std::net::Ipv6Addr {
    fn gen(r: &mut Rng, _: usize) -> Self {
        r.edge_bits().into()
    }
}
impl Gen for std::net::IpAddr {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.bool() {
            std::net::Ipv4Addr::gen(r, d).into()
        } else {
            std::net::Ipv6Addr::gen(r, d).into()
        }
    }
}
impl Gen for std::net::SocketAddrV4 {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Self::new(Gen::gen(r, d), Gen::gen(r, d))
    }
}
impl Gen for std::net::SocketAddrV6 {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Self::new(Gen::gen(r, d), Gen::gen(r, d), Gen::gen(r, d), Gen::gen(r, d))
    }
}
impl Gen for std::net::SocketAddr {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.bool() {
            std::net::SocketAddrV4::gen(r, d).into()
        } else {
            std::net::SocketAddrV6::gen(r, d).into()
        }
    }
}

// ---------------------------------------------------------------------------
// Derived model types
// ---------------------------------------------------------------------------

/// Declares a type with Gen; field types must be Gen.
#[macro_export]
macro_rules! model {
    ($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, musli::Encode, musli::Decode)]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
        impl $crate::model::Gen for $n {
            #[allow(unused)]
            fn gen(r: &mut $crate::rng::Rng, d: usize) -> Self { $n { $($f: $crate::model::Gen::gen(r, d + 1)),* } }
        }
    };
    ($(#[$m:meta])* tuple $n:ident ( $($(#[$fm:meta])* $t:ty),* $(,)? )) => {
        #[derive(Debug, Clone, PartialEq, musli::Encode, musli::Decode)]
        $(#[$m])*
        pub struct $n ( $($(#[$fm])* pub $t),* );
        impl $crate::model::Gen for $n {
            #[allow(unused)]
            fn gen(r: &mut $crate::rng::Rng, d: usize) -> Self { $n ( $(<$t as $crate::model::Gen>::gen(r, d + 1)),* ) }
        }
    };
    ($(#[$m:meta])* enum $n:ident { $($(#[$vm:meta])* $v:ident $body:tt),* $(,)? }) => {
        $crate::model!(@enum [$(#[$m])*] $n [] [] $($(#[$vm])* $v $body,)*);
    };
    (@enum [$($m:tt)*] $n:ident [$($out:tt)*] [$($arms:tt)*] $(#[$vm:meta])* $v:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }, $($rest:tt)*) => {
        $crate::model!(@enum [$($m)*] $n [$($out)* $(#[$vm])* $v { $($(#[$fm])* $f: $t),* },]
            [$($arms)* (|r: &mut $crate::rng::Rng, d: usize| { let _ = (&r, d); $n::$v { $($f: $crate::model::Gen::gen(r, d + 1)),* } }),] $($rest)*);
    };
    (@enum [$($m:tt)*] $n:ident [$($out:tt)*] [$($arms:tt)*] $(#[$vm:meta])* $v:ident ( $($(#[$fm:meta])* $t:ty),* $(,)? ), $($rest:tt)*) => {
        $crate::model!(@enum [$($m)*] $n [$($out)* $(#[$vm])* $v ( $($(#[$fm])* $t),* ),]
            [$($arms)* (|r: &mut $crate::rng::Rng, d: usize| { let _ = (&r, d); $n::$v ( $(<$t as $crate::model::Gen>::gen(r, d + 1)),* ) }),] $($rest)*);
    };
    (@enum [$($m:tt)*] $n:ident [$($out:tt)*] [$($arms:tt)*] $(#[$vm:meta])* $v:ident [], $($rest:tt)*) => {
        $crate::model!(@enum [$($m)*] $n [$($out)* $(#[$vm])* $v,]
            [$($arms)* (|r: &mut $crate::rng::Rng, d: usize| { let _ = (&r, d); $n::$v }),] $($rest)*);
    };
    (@enum [$($m:tt)*] $n:ident [$($out:tt)*] [$($arms:tt)*]) => {
        #[derive(Debug, Clone, PartialEq, musli::Encode, musli::Decode)]
        $($m)*
        pub enum $n { $($out)* }
        impl $crate::model::Gen for $n {
            fn gen(r: &mut $crate::rng::Rng, d: usize) -> Self {
                let arms: &[fn(&mut $crate::rng::Rng, usize) -> $n] = &[$($arms)*];
                let i = r.below(arms.len());
                arms[i](r, d)
            }
        }
    };
}

model! { struct Prims { a: u8, b: u16, c: u32, d: u64, e: u128, f: i8, g: i16, h: i32, i: i64, j: i128, k: usize, l: isize, m: bool, n: char, o: f32, p: f64 } }
model! { struct Strs { s: String, b: Box<str>, o: Option<String>, #[musli(bytes)] bytes: Vec<u8>, #[musli(bytes)] dq: VecDeque<u8>, #[musli(bytes)] arr: [u8; 5], v: Vec<String>, u: () } }
model! { struct Nested { x: Option<Box<Nested2>>, y: Vec<Nested2>, m: BTreeMap<String, Nested2>, e: En, t: Tup } }
model! { struct Nested2 { a: u32, #[musli(Binary, name = 9)] b: String, e: Option<En> } }
model! { tuple Tup(u32, String, Option<u8>) }
model! { tuple Unit0() }
model! { enum En { A [], B { x: u32, y: String }, C(u64, Vec<u8>), D(Box<Nested3>), E(), F {} } }
model! { struct Nested3 { v: Vec<u16>, o: Option<i64> } }
model! { #[musli(packed)] struct PackedS { a: u32, b: u16, c: String, d: Vec<u32>, e: [u8; 3], f: (u8, u64), g: bool, h: char } }
model! { #[musli(packed)] #[repr(C)] struct PackedBits { a: u32, b: u16, c: u16, d: u64 } }
model! { #[musli(packed)] #[repr(C)] struct PackedPad { a: u8, b: u32, c: u16 } }
model! { #[musli(packed)] struct PackedBool { a: u32, b: bool, c: u8, d: u16 } }
model! { #[musli(transparent)] struct Transparent { inner: Vec<u32> } }
model! { #[musli(transparent)] tuple TransparentU(u64) }
model! { struct Fielded { #[musli(packed)] tuple: (u32, u64), #[musli(packed)] array: [u32; 4], #[musli(skip_encoding_if = Option::is_none)] #[musli(default)] opt: Option<String>, last: u8 } }
model! { struct Empty {} }
model! { #[musli(name_all = "name")] struct Named { first_name: String, last_name: Option<String>, n: i64 } }
model! { #[musli(name_all = "kebab-case")] enum NamedE { FirstOne { some_field: u32 }, SecondOne(String), ThirdOne [] } }
model! { struct Colls { a: Vec<i32>, b: VecDeque<u32>, c: BTreeSet<i16>, d: HashSet<u64>, e: BTreeMap<u32, String>, f: HashMap<String, i32>, g: Vec<Vec<u8>>, h: Vec<Option<bool>>, i: Vec<(u8, i64)>, j: Vec<()> } }

// One value exercising nearly everything; used for option products.
// The shapes option combinations act on, kept small: it is instantiated for every combination.
model! { struct OptCore { a: u8, b: i16, c: u32, d: i64, e: u128, f: usize, g: isize, h: f32, i: f64, j: char, k: String, #[musli(bytes)] l: Vec<u8>, m: Vec<i32>, n: BTreeMap<u16, String>, o: Option<u64>, p: En2, q: PackedBits, r: Vec<PackedBits>, s: Vec<PackedPad>, t: Vec<bool>, u: [u16; 3], v: (u8, u32) } }
model! { enum En2 { A [], B { x: u32 }, C(i64, String) } }
model! { struct Everything { p: Prims, s: Strs, n: Nested, c: Colls, k: PackedS, kb: Vec<PackedBits>, kp: Vec<PackedPad>, kc: Vec<char>, kbo: Vec<bool>, kn: Vec<std::num::NonZeroU32>, f: Fielded, fl: Vec<f64>, t: Vec<Transparent> } }

/// Collapses whitespace in a debug rendering and cuts it.
pub fn show<T: Debug>(v: &T) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push('…');
    }
    s
}
pub fn hex(b: &[u8]) -> String {
    let n = if std::env::var_os("VH_FULL").is_some() { usize::MAX } else { 200 };
    let mut s: String = b.iter().take(n).map(|b| format!("{b:02x}")).collect();
    if b.len() > n {
        s.push('…');
    }
    s
}

/// Where two byte strings first differ, with some context.
pub fn differ(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let w = |v: &[u8]| hex(&v[k.saturating_sub(8)..v.len().min(k + 16)]);
    format!("lengths {} and {}, first difference at byte {k}: …{} against …{}", a.len(), b.len(), w(a), w(b))
}
