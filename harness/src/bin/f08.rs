//! F08: the bitwise fast paths against a twin which cannot take them.
//!
//! Every packed type `P` has a twin `Q` with the same fields, whose codec is
//! hand-written element by element over scalars that are never eligible for
//! bitwise copying. Bytes, values, consumed lengths and verdicts have to agree.
use musli::en::SequenceEncoder as _;
use musli::de::SequenceDecoder as _;
use musli::mode::{Binary, Text};
use musli::options::{self, ByteOrder, Float, Integer, Options, Width};
use musli::{Allocator, Context as _, Decode, Decoder, Encode, Encoder};
use std::collections::{BTreeMap, VecDeque};
use std::num::Wrapping;
use std::rc::Rc;
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{self, Case, Groups, R};
use vh::{ensure, fail, fmt_type};

const fn mixed(int: Integer, fl: Float, bo: ByteOrder, w: Width) -> Options {
    options::new().integer(int).float(fl).byte_order(bo).pointer(w).build()
}
const O_FI: Options = mixed(Integer::Fixed, Float::Integer, ByteOrder::NATIVE, Width::NATIVE);
const O_VF: Options = mixed(Integer::Variable, Float::Fixed, ByteOrder::NATIVE, Width::NATIVE);
const O_FV: Options = mixed(Integer::Fixed, Float::Fixed, ByteOrder::NATIVE, Width::Variable);
const O_NATIVE: Options = options::new().fixed().native_byte_order().build();
fmt_type!(IntFixed, Storage, Binary, O_FI, "storage/ints-fixed-floats-integer", musli::storage::Encoding::new().with_options::<O_FI>());
fmt_type!(FloatFixed, Storage, Binary, O_VF, "storage/ints-variable-floats-fixed", musli::storage::Encoding::new().with_options::<O_VF>());
fmt_type!(LenVar, Storage, Binary, O_FV, "storage/fixed-native-lenvar", musli::storage::Encoding::new().with_options::<O_FV>());
fmt_type!(Native, Storage, Binary, O_NATIVE, "storage/native", musli::storage::Encoding::new().with_options::<O_NATIVE>());
fmt_type!(NativeText, Storage, Text, O_NATIVE, "storage/native-text", musli::storage::Encoding::new().with_mode::<Text>().with_options::<O_NATIVE>());

/// A type and its twin which is coded element by element.
trait Twin: Gen + Sized {
    type Slow: Img + Sized;
    fn slow(&self) -> Self::Slow;
    /// The object representation of every scalar, read without interpreting it.
    fn img(&self, out: &mut Vec<u8>);
    /// How many elements the type holds: nothing at all for an empty type.
    const EMPTY: bool = false;
}
trait Img {
    fn image(&self, out: &mut Vec<u8>);
}

/// A scalar coded through its own encoder method, never copied bitwise.
#[derive(Debug, Clone, Copy, PartialEq)]
struct Slow<T>(T);

fn raw<T: Copy>(v: &T, out: &mut Vec<u8>) {
    // Scalars have no padding; an invalid one is seen as its bytes.
    out.extend_from_slice(unsafe { std::slice::from_raw_parts(v as *const T as *const u8, std::mem::size_of::<T>()) });
}
macro_rules! scalar {
    ($($t:ty, $en:ident, $de:ident;)*) => { $(
        impl<M> Encode<M> for Slow<$t> {
            type Encode = Self;
            fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> { e.$en(self.0) }
            fn as_encode(&self) -> &Self { self }
        }
        impl<'de, M, A: Allocator> Decode<'de, M, A> for Slow<$t> {
            fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> { d.$de().map(Slow) }
        }
        impl Twin for $t {
            type Slow = Slow<$t>;
            fn slow(&self) -> Slow<$t> { Slow(*self) }
            fn img(&self, out: &mut Vec<u8>) { raw(self, out) }
        }
        impl Img for Slow<$t> { fn image(&self, out: &mut Vec<u8>) { raw(&self.0, out) } }
    )* };
}
scalar! {
    u8, encode_u8, decode_u8; u16, encode_u16, decode_u16; u32, encode_u32, decode_u32; u64, encode_u64, decode_u64; u128, encode_u128, decode_u128;
    i8, encode_i8, decode_i8; i16, encode_i16, decode_i16; i32, encode_i32, decode_i32; i64, encode_i64, decode_i64; i128, encode_i128, decode_i128;
    usize, encode_usize, decode_usize; isize, encode_isize, decode_isize; f32, encode_f32, decode_f32; f64, encode_f64, decode_f64;
    bool, encode_bool, decode_bool; char, encode_char, decode_char;
}
macro_rules! nonzero {
    ($($t:ident, $p:ty, $en:ident, $de:ident;)*) => { $(
        impl<M> Encode<M> for Slow<std::num::$t> {
            type Encode = Self;
            fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> { e.$en(self.0.get()) }
            fn as_encode(&self) -> &Self { self }
        }
        impl<'de, M, A: Allocator> Decode<'de, M, A> for Slow<std::num::$t> {
            fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
                let cx = d.cx();
                match std::num::$t::new(d.$de()?) { Some(v) => Ok(Slow(v)), None => Err(cx.message("zero")) }
            }
        }
        impl Twin for std::num::$t {
            type Slow = Slow<std::num::$t>;
            fn slow(&self) -> Self::Slow { Slow(*self) }
            fn img(&self, out: &mut Vec<u8>) { raw(self, out) }
        }
        impl Img for Slow<std::num::$t> { fn image(&self, out: &mut Vec<u8>) { raw(&self.0, out) } }
    )* };
}
nonzero! {
    NonZeroU8, u8, encode_u8, decode_u8; NonZeroU16, u16, encode_u16, decode_u16; NonZeroU32, u32, encode_u32, decode_u32; NonZeroU64, u64, encode_u64, decode_u64; NonZeroU128, u128, encode_u128, decode_u128;
    NonZeroI8, i8, encode_i8, decode_i8; NonZeroI16, i16, encode_i16, decode_i16; NonZeroI32, i32, encode_i32, decode_i32; NonZeroI64, i64, encode_i64, decode_i64; NonZeroI128, i128, encode_i128, decode_i128;
    NonZeroUsize, usize, encode_usize, decode_usize; NonZeroIsize, isize, encode_isize, decode_isize;
}
impl<T: Twin> Twin for Wrapping<T> {
    type Slow = T::Slow;
    fn slow(&self) -> T::Slow { self.0.slow() }
    fn img(&self, out: &mut Vec<u8>) { self.0.img(out) }
    const EMPTY: bool = T::EMPTY;
}
impl<T: Twin, const N: usize> Twin for [T; N] {
    type Slow = [T::Slow; N];
    fn slow(&self) -> Self::Slow { std::array::from_fn(|i| self[i].slow()) }
    fn img(&self, out: &mut Vec<u8>) { self.iter().for_each(|v| v.img(out)) }
}
impl<T: Img, const N: usize> Img for [T; N] { fn image(&self, out: &mut Vec<u8>) { self.iter().for_each(|v| v.image(out)) } }
macro_rules! pointer {
    ($($p:ident),*) => { $(
        impl<T: Twin> Twin for $p<T> {
            type Slow = T::Slow;
            fn slow(&self) -> T::Slow { (**self).slow() }
            fn img(&self, out: &mut Vec<u8>) { (**self).img(out) }
            const EMPTY: bool = T::EMPTY;
        }
    )* };
}
pointer!(Box, Rc);
/// The twin of `()`: the empty value written out.
#[derive(Debug)]
struct SlowUnit;
impl<M> Encode<M> for SlowUnit {
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> { e.encode_empty() }
    fn as_encode(&self) -> &Self { self }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for SlowUnit {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> { d.decode_empty().map(|()| SlowUnit) }
}
impl Twin for () {
    type Slow = SlowUnit;
    fn slow(&self) -> SlowUnit { SlowUnit }
    fn img(&self, _: &mut Vec<u8>) {}
    const EMPTY: bool = true;
}
impl Img for SlowUnit { fn image(&self, _: &mut Vec<u8>) {} }

/// Sequences: the twin is coded one element at a time.
#[derive(Debug)]
struct SlowVec<T>(Vec<T>);
impl<M, T: Encode<M>> Encode<M> for SlowVec<T> {
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.encode_sequence_fn(self.0.len(), |s| self.0.iter().try_for_each(|v| s.push(v)))
    }
    fn as_encode(&self) -> &Self { self }
}
impl<'de, M, A: Allocator, T: Decode<'de, M, A>> Decode<'de, M, A> for SlowVec<T> {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.decode_sequence(|s| {
            let mut out = Vec::new();
            while let Some(v) = s.try_next()? {
                out.push(v);
            }
            Ok(SlowVec(out))
        })
    }
}
impl<T: Img> Img for SlowVec<T> { fn image(&self, out: &mut Vec<u8>) { raw(&self.0.len(), out); self.0.iter().for_each(|v| v.image(out)) } }
macro_rules! seq {
    ($($p:ty),*) => { $(
        impl<T: Twin> Twin for $p {
            type Slow = SlowVec<T::Slow>;
            fn slow(&self) -> Self::Slow { SlowVec(self.iter().map(Twin::slow).collect()) }
            fn img(&self, out: &mut Vec<u8>) { raw(&self.len(), out); self.iter().for_each(|v| v.img(out)) }
        }
    )* };
}
seq!(Vec<T>, VecDeque<T>, Box<[T]>);
impl<T: Twin> Twin for Option<T> {
    type Slow = Option<T::Slow>;
    fn slow(&self) -> Self::Slow { self.as_ref().map(Twin::slow) }
    fn img(&self, out: &mut Vec<u8>) { out.push(self.is_some() as u8); self.iter().for_each(|v| v.img(out)) }
}
impl<T: Img> Img for Option<T> { fn image(&self, out: &mut Vec<u8>) { out.push(self.is_some() as u8); self.iter().for_each(|v| v.image(out)) } }
impl<T: Twin> Twin for BTreeMap<u8, T> {
    type Slow = BTreeMap<u8, T::Slow>;
    fn slow(&self) -> Self::Slow { self.iter().map(|(k, v)| (*k, v.slow())).collect() }
    fn img(&self, out: &mut Vec<u8>) { self.iter().for_each(|(k, v)| { out.push(*k); v.img(out) }) }
}
impl<T: Img> Img for BTreeMap<u8, T> { fn image(&self, out: &mut Vec<u8>) { self.iter().for_each(|(k, v)| { out.push(*k); v.image(out) }) } }
impl<A: Twin, B: Twin> Twin for (A, B) {
    type Slow = (A::Slow, B::Slow);
    fn slow(&self) -> Self::Slow { (self.0.slow(), self.1.slow()) }
    fn img(&self, out: &mut Vec<u8>) { self.0.img(out); self.1.img(out) }
}
impl<A: Img, B: Img> Img for (A, B) { fn image(&self, out: &mut Vec<u8>) { self.0.image(out); self.1.image(out) } }

/// Declares a packed type and its hand-written twin.
macro_rules! pair {
    ($($(#[$m:meta])* $p:ident $q:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? })*) => { $(
        #[derive(Debug, Encode, Decode)]
        #[musli(packed)]
        $(#[$m])*
        struct $p { $($(#[$fm])* $f: $t),* }
        #[derive(Debug)]
        struct $q { $($f: <$t as Twin>::Slow),* }
        impl<M> Encode<M> for $q where $(<$t as Twin>::Slow: Encode<M>),* {
            type Encode = Self;
            fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
                e.encode_pack_fn(|_p| { $(_p.push(&self.$f)?;)* Ok(()) })
            }
            fn as_encode(&self) -> &Self { self }
        }
        impl<'de, M, A: Allocator> Decode<'de, M, A> for $q where $(<$t as Twin>::Slow: Decode<'de, M, A>),* {
            fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
                d.decode_pack(|_p| Ok($q { $($f: _p.next()?),* }))
            }
        }
        impl Gen for $p { #[allow(unused)] fn gen(r: &mut Rng, d: usize) -> Self { $p { $($f: Gen::gen(r, d + 1)),* } } }
        impl Twin for $p {
            type Slow = $q;
            fn slow(&self) -> $q { $q { $($f: self.$f.slow()),* } }
            fn img(&self, _out: &mut Vec<u8>) { $(self.$f.img(_out);)* }
            const EMPTY: bool = true $(&& <$t as Twin>::EMPTY)*;
        }
        impl Img for $q { fn image(&self, _out: &mut Vec<u8>) { $(self.$f.image(_out);)* } }
    )* };
}
pair! {
    #[repr(C)] Ints QInts { a: u32, b: u16, c: u16, d: u64 }
    #[repr(C)] Wide QWide { a: u128, b: i64, c: u64 }
    #[repr(C)] Signed QSigned { a: i8, b: i8, c: i16, d: i32, e: i64, f: i128 }
    #[repr(C)] Sizes QSizes { a: usize, b: isize }
    #[repr(C)] Floats QFloats { a: f32, b: u32, c: f64 }
    #[repr(C)] Chars QChars { a: char, b: u32 }
    #[repr(C)] Bools QBools { a: bool, b: bool, c: u16 }
    #[repr(C)] Nz QNz { a: std::num::NonZeroU32, b: std::num::NonZeroI16, c: std::num::NonZeroU8, d: u8 }
    #[repr(C)] PadIn QPadIn { a: u8, b: u32, c: u16 }
    #[repr(C)] PadEnd QPadEnd { a: u32, b: u16 }
    #[repr(C)] PadBig QPadBig { a: u64, b: u8 }
    #[repr(C, align(16))] Aligned QAligned { a: u32, b: u32 }
    #[repr(C, align(8))] AlignedFull QAlignedFull { a: u32, b: u32 }
    Reorder QReorder { a: u8, b: u32, c: u8, d: u16 }
    Natural QNatural { a: u32, b: bool, c: u8, d: u16 }
    Reorder2 QReorder2 { a: u16, b: u64, c: u32, d: u16 }
    #[repr(C)] One QOne { a: u8 }
    #[repr(transparent)] Thin QThin { a: u64 }
    #[repr(C)] Nested QNested { a: Ints, b: u64, c: One, d: [u8; 7] }
    #[repr(C)] Deep QDeep { a: Ints, b: Thin, c: Thin }
    #[repr(C)] DeepPad QDeepPad { a: PadEnd, b: Ints }
    #[repr(C)] DeepChar QDeepChar { a: Chars, b: Chars, c: u32 }
    #[repr(C)] Arr QArr { a: [u32; 2], b: u64 }
    #[repr(C)] ArrBool QArrBool { a: [bool; 4], b: u32 }
    #[repr(C)] Wrap QWrap { a: Wrapping<u32>, b: Wrapping<i16>, c: Wrapping<u16> }
    #[repr(C)] Boxed QBoxed { a: Box<u64>, b: u64 }
    #[repr(C)] Listed QListed { a: u64, b: Vec<u32> }
    Nothing QNothing { }
}
// Units are coded on their own: see the known finding.
pair! {
    #[repr(C)] UnitEnd QUnitEnd { a: u32, b: u32, c: () }
    #[repr(C)] UnitMid QUnitMid { a: u32, b: (), c: u32 }
    #[repr(C)] UnitChar QUnitChar { a: char, b: u32, c: () }
    UnitOnly QUnitOnly { a: () }
}

/// A number which is written as its complement.
#[derive(Debug)]
struct Flip(u32);
mod flip {
    use musli::{Decoder, Encoder};
    pub fn encode<E: Encoder>(v: &u32, e: E) -> Result<(), E::Error> {
        e.encode_u32(!*v)
    }
    pub fn decode<'de, D: Decoder<'de>>(d: D) -> Result<u32, D::Error> {
        Ok(!d.decode_u32()?)
    }
}
impl<M> Encode<M> for Flip {
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        flip::encode(&self.0, e)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for Flip {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        flip::decode(d).map(Flip)
    }
}
impl Img for Flip {
    fn image(&self, out: &mut Vec<u8>) {
        raw(&self.0, out)
    }
}
/// Four bytes which are written as bytes.
#[derive(Debug)]
struct Four([u8; 4]);
impl<M> Encode<M> for Four {
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.encode_array(&self.0)
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for Four {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.decode_array().map(Four)
    }
}
impl Img for Four {
    fn image(&self, out: &mut Vec<u8>) {
        raw(&self.0, out)
    }
}
/// Two numbers which are written as a pack of their own.
#[derive(Debug)]
struct Both([u16; 2]);
impl<M> Encode<M> for Both {
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.encode_pack_fn(|p| {
            p.push(Slow(self.0[0]))?;
            p.push(Slow(self.0[1]))
        })
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for Both {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.decode_pack(|p| Ok(Both([p.next::<Slow<u16>>()?.0, p.next::<Slow<u16>>()?.0])))
    }
}
impl Img for Both {
    fn image(&self, out: &mut Vec<u8>) {
        raw(&self.0, out)
    }
}

/// Fields which are coded in a way of their own, among fields which aren't.
macro_rules! own {
    ($($(#[$m:meta])* $p:ident $q:ident { $($(#[$fm:meta])* $f:ident: $t:ty = $w:ident $s:ty),* $(,)? })*) => { $(
        #[derive(Debug, Encode, Decode)]
        #[musli(packed)]
        $(#[$m])*
        struct $p { $($(#[$fm])* $f: $t),* }
        #[derive(Debug)]
        struct $q { $($f: $s),* }
        impl<M> Encode<M> for $q {
            type Encode = Self;
            fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
                e.encode_pack_fn(|p| { $(p.push(&self.$f)?;)* Ok(()) })
            }
            fn as_encode(&self) -> &Self { self }
        }
        impl<'de, M, A: Allocator> Decode<'de, M, A> for $q {
            fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
                d.decode_pack(|p| Ok($q { $($f: p.next()?),* }))
            }
        }
        impl Gen for $p { fn gen(r: &mut Rng, d: usize) -> Self { $p { $($f: Gen::gen(r, d + 1)),* } } }
        impl Twin for $p {
            type Slow = $q;
            fn slow(&self) -> $q { $q { $($f: $w(self.$f)),* } }
            fn img(&self, out: &mut Vec<u8>) { $(raw(&self.$f, out);)* }
        }
        impl Img for $q { fn image(&self, out: &mut Vec<u8>) { $(self.$f.image(out);)* } }
    )* };
}
own! {
    #[repr(C)] OwnLast QOwnLast { a: u32 = Slow Slow<u32>, #[musli(with = crate::flip)] b: u32 = Flip Flip }
    #[repr(C)] OwnFirst QOwnFirst { #[musli(with = crate::flip)] a: u32 = Flip Flip, b: u32 = Slow Slow<u32>, c: i64 = Slow Slow<i64> }
    #[repr(C)] OwnMid QOwnMid { a: u16 = Slow Slow<u16>, b: i16 = Slow Slow<i16>, #[musli(with = crate::flip)] c: u32 = Flip Flip, d: u64 = Slow Slow<u64> }
    #[repr(C)] OwnAll QOwnAll { #[musli(with = crate::flip)] a: u32 = Flip Flip, #[musli(with = crate::flip)] b: u32 = Flip Flip }
    #[repr(C)] OwnBytes QOwnBytes { #[musli(bytes)] a: [u8; 4] = Four Four, b: u32 = Slow Slow<u32> }
    #[repr(C)] OwnPack QOwnPack { #[musli(packed)] a: [u16; 2] = Both Both, b: u32 = Slow Slow<u32> }
}
pair! {
    #[repr(C)] OwnDeep QOwnDeep { a: OwnLast, b: u64, c: OwnMid }
}
/// A field which isn't coded at all.
#[derive(Debug, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
struct Skips {
    a: u32,
    #[musli(skip)]
    b: u32,
    c: u64,
}
#[derive(Debug)]
struct QSkips(Slow<u32>, Slow<u64>);
impl<M> Encode<M> for QSkips {
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.encode_pack_fn(|p| {
            p.push(&self.0)?;
            p.push(&self.1)
        })
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for QSkips {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.decode_pack(|p| Ok(QSkips(p.next()?, p.next()?)))
    }
}
impl Gen for Skips {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Skips { a: Gen::gen(r, d + 1), b: 0, c: Gen::gen(r, d + 1) }
    }
}
impl Twin for Skips {
    type Slow = QSkips;
    fn slow(&self) -> QSkips {
        QSkips(Slow(self.a), Slow(self.c))
    }
    fn img(&self, out: &mut Vec<u8>) {
        raw(&self.a, out);
        raw(&self.b, out);
        raw(&self.c, out)
    }
}
impl Img for QSkips {
    fn image(&self, out: &mut Vec<u8>) {
        self.0.image(out);
        raw(&0u32, out);
        self.1.image(out)
    }
}

/// A generic packed type: its eligibility depends on the parameter.
#[derive(Debug, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
struct Par<T> {
    a: T,
    b: u32,
}
#[derive(Debug)]
struct QPar<T> {
    a: T,
    b: Slow<u32>,
}
impl<M, T: Encode<M>> Encode<M> for QPar<T> {
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        e.encode_pack_fn(|p| {
            p.push(&self.a)?;
            p.push(&self.b)
        })
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator, T: Decode<'de, M, A>> Decode<'de, M, A> for QPar<T> {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.decode_pack(|p| Ok(QPar { a: p.next()?, b: p.next()? }))
    }
}
impl<T: Gen> Gen for Par<T> {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Par { a: Gen::gen(r, d + 1), b: Gen::gen(r, d + 1) }
    }
}
impl<T: Twin> Twin for Par<T> {
    type Slow = QPar<T::Slow>;
    fn slow(&self) -> Self::Slow {
        QPar { a: self.a.slow(), b: Slow(self.b) }
    }
    fn img(&self, out: &mut Vec<u8>) {
        self.a.img(out);
        self.b.img(out)
    }
}
impl<T: Img> Img for QPar<T> {
    fn image(&self, out: &mut Vec<u8>) {
        self.a.image(out);
        self.b.image(out)
    }
}

/// Every container at once.
macro_rules! bag {
    ($p:ident $q:ident { $($f:ident: $t:ty),* $(,)? }) => {
        #[derive(Debug, Encode, Decode)]
        #[musli(packed)]
        struct $p<T> { $($f: $t),* }
        struct $q<T: Twin> { $($f: <$t as Twin>::Slow),* }
        impl<M, T: Twin> Encode<M> for $q<T> where $(<$t as Twin>::Slow: Encode<M>),* {
            type Encode = Self;
            fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
                e.encode_pack_fn(|_p| { $(_p.push(&self.$f)?;)* Ok(()) })
            }
            fn as_encode(&self) -> &Self { self }
        }
        impl<'de, M, A: Allocator, T: Twin> Decode<'de, M, A> for $q<T> where $(<$t as Twin>::Slow: Decode<'de, M, A>),* {
            fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
                d.decode_pack(|_p| Ok($q { $($f: _p.next()?),* }))
            }
        }
        impl<T: Gen> Gen for $p<T> { fn gen(r: &mut Rng, d: usize) -> Self { $p { $($f: Gen::gen(r, d + 1)),* } } }
        impl<T: Twin> Twin for $p<T> {
            type Slow = $q<T>;
            fn slow(&self) -> $q<T> { $q { $($f: self.$f.slow()),* } }
            fn img(&self, out: &mut Vec<u8>) { $(self.$f.img(out);)* }
        }
        impl<T: Twin> Img for $q<T> { fn image(&self, out: &mut Vec<u8>) { $(self.$f.image(out);)* } }
    };
}
bag!(Bag QBag { one: T, vec: Vec<T>, deque: VecDeque<T>, arr: [T; 3], none: [T; 0], vv: Vec<Vec<T>>, va: Vec<[T; 2]>, boxed: Box<[T]>, bx: Vec<Box<T>>, map: BTreeMap<u8, T>, tup: (T, u8), par: Par<T>, pars: Vec<Par<T>> });

fn image<T: Twin>(v: &T) -> Vec<u8> {
    let mut o = Vec::new();
    v.img(&mut o);
    o
}
fn slow_image<T: Img>(v: &T) -> Vec<u8> {
    let mut o = Vec::new();
    v.image(&mut o);
    o
}

/// Bytes and values of a type and its twin.
fn same<F, T>(c: &mut Case<'_>, v: &T, what: &str) -> Result<Vec<u8>, String>
where
    F: Fmt,
    T: Twin + Encode<F::Mode> + for<'a> Decode<'a, F::Mode, musli::alloc::System>,
    T::Slow: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, musli::alloc::System>,
{
    let ty = std::any::type_name::<T>();
    let slow = v.slow();
    let a = F::to_vec(v);
    let b = F::to_vec(&slow);
    let a = match (a, b) {
        (Ok(a), Ok(b)) => {
            if a != b {
                fail!("{}: {what} {ty} is encoded differently from its element by element twin: {}; fast {} slow {}", F::NAME, differ(&a, &b), hex(&a), hex(&b));
            }
            a
        }
        (Err(_), Err(_)) => {
            c.event("refused by both");
            return Ok(Vec::new());
        }
        (a, b) => fail!("{}: {what} {ty}: encoding gave {a:?} but for the twin {b:?}", F::NAME),
    };
    c.event("encodings compared with the twin");
    let want = image(v);
    match F::from_slice::<T>(&a) {
        Ok(w) => ensure!(image(&w) == want, "{}: {what} {ty} came back different: {} against {}; bytes {}", F::NAME, hex(&image(&w)), hex(&want), hex(&a)),
        Err(e) => fail!("{}: {what} {ty} could not be decoded from its own bytes {}: {e}", F::NAME, hex(&a)),
    }
    match F::from_slice::<T::Slow>(&a) {
        Ok(w) => ensure!(slow_image(&w) == want, "{}: the twin of {what} {ty} came back different; bytes {}", F::NAME, hex(&a)),
        Err(e) => fail!("{}: the twin of {what} {ty} could not be decoded from {}: {e}", F::NAME, hex(&a)),
    }
    c.event("values decoded both ways");
    Ok(a)
}

/// Any bytes: same verdict, same value, same number of bytes consumed.
fn hostile<F, T>(c: &mut Case<'_>, b: &[u8], what: &str) -> R
where
    F: Fmt,
    T: Twin + for<'a> Decode<'a, F::Mode, musli::alloc::System>,
    T::Slow: for<'a> Decode<'a, F::Mode, musli::alloc::System>,
{
    let ty = std::any::type_name::<T>();
    let mut x = b;
    let fast = F::advance::<T>(&mut x).map(|v| image(&v));
    let mut y = b;
    let slow = F::advance::<T::Slow>(&mut y).map(|v| slow_image(&v));
    match (fast, slow) {
        (Ok(p), Ok(q)) => {
            ensure!(p == q, "{}: {what} {ty} decodes from {} as {} but its twin as {}", F::NAME, hex(b), hex(&p), hex(&q));
            ensure!(x.len() == y.len(), "{}: {what} {ty} leaves {} bytes of {} but its twin {}", F::NAME, x.len(), hex(b), y.len());
            c.event("hostile inputs accepted by both");
        }
        (Err(_), Err(_)) => c.event("hostile inputs refused by both"),
        (Ok(p), Err(e)) => fail!("{}: {what} {ty} decodes from {} as {} but its twin refuses it: {e}", F::NAME, hex(b), hex(&p)),
        (Err(e), Ok(q)) => fail!("{}: {what} {ty} cannot be decoded from {} ({e}) but its twin reads {}", F::NAME, hex(b), hex(&q)),
    }
    Ok(())
}

fn spoil(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        match r.below(6) {
            0 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            1 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            2 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = *r.pick(&[0, 1, 2, 3, 0x7f, 0x80, 0xd8, 0xff]);
            }
            3 => {
                let n = r.below(20);
                b.extend(r.bytes(n));
            }
            4 if !b.is_empty() => {
                // Runs of zeroes or ones reach whole scalars.
                let i = r.below(b.len());
                let n = r.range(1, 16).min(b.len() - i);
                let v = *r.pick(&[0, 0xff]);
                b[i..i + n].fill(v);
            }
            _ => {
                let n = r.below(64);
                *b = r.bytes(n);
            }
        }
    }
}

fn check<F, T>(c: &mut Case<'_>) -> R
where
    F: Fmt,
    T: Twin + Encode<F::Mode> + for<'a> Decode<'a, F::Mode, musli::alloc::System>,
    T::Slow: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, musli::alloc::System>,
    Vec<T>: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, musli::alloc::System>,
    [T; 3]: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, musli::alloc::System>,
    Option<T>: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, musli::alloc::System>,
    Bag<T>: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, musli::alloc::System>,
    QBag<T>: Encode<F::Mode> + for<'a> Decode<'a, F::Mode, musli::alloc::System>,
{
    match c.rng.below(8) {
        0 => {
            let v = T::gen(&mut c.rng, 0);
            let b = same::<F, T>(c, &v, "a single")?;
            c.seen_bytes(&b);
            c.sample(|| format!("{} {}", F::NAME, hex(&b)));
        }
        1 | 2 => {
            let mut v = Vec::<T>::gen(&mut c.rng, 0);
            if !cfg!(miri) && c.rng.chance(1, 12) {
                // Past one chunk of the fast path (64 KiB).
                let n = (70_000 / std::mem::size_of::<T>().max(4)).max(1);
                while v.len() < n + 3 {
                    v.push(T::gen(&mut c.rng, 3));
                }
                c.event("vectors of several chunks");
            }
            let b = same::<F, Vec<T>>(c, &v, "a vector")?;
            c.seen_bytes(&b);
            // A slice is what a vector is.
            let s = F::to_vec(&v[..]).map_err(|e| format!("{}: a slice: {e}", F::NAME));
            if !b.is_empty() {
                ensure!(s.as_ref() == Ok(&b), "{}: a slice is encoded differently from a vector", F::NAME);
                let refs: Vec<&T> = v.iter().collect();
                let s = F::to_vec(&refs);
                ensure!(s.as_ref() == Ok(&b), "{}: a vector of references is encoded differently from a vector", F::NAME);
            }
        }
        3 => {
            let v = <[T; 3]>::gen(&mut c.rng, 0);
            let b = same::<F, [T; 3]>(c, &v, "an array")?;
            c.seen_bytes(&b);
            if !T::EMPTY {
                let v = <Option<T>>::gen(&mut c.rng, 0);
                same::<F, Option<T>>(c, &v, "an option")?;
            }
        }
        4 => {
            let v = Bag::<T>::gen(&mut c.rng, 1);
            let b = same::<F, Bag<T>>(c, &v, "a bag")?;
            c.seen_bytes(&b);
        }
        5 if !T::EMPTY => {
            let v = Vec::<T>::gen(&mut c.rng, 2);
            if let Ok(mut b) = F::to_vec(&v) {
                spoil(&mut c.rng, &mut b);
                c.seen_bytes(&b);
                hostile::<F, Vec<T>>(c, &b, "a vector")?;
            }
        }
        6 if !T::EMPTY => {
            let v = <[T; 3]>::gen(&mut c.rng, 2);
            if let Ok(mut b) = F::to_vec(&v) {
                spoil(&mut c.rng, &mut b);
                hostile::<F, [T; 3]>(c, &b, "an array")?;
            }
        }
        _ => {
            let v = T::gen(&mut c.rng, 2);
            if let Ok(mut b) = F::to_vec(&v) {
                spoil(&mut c.rng, &mut b);
                c.seen_bytes(&b);
                hostile::<F, T>(c, &b, "a single")?;
            }
        }
    }
    Ok(())
}

/// Atomics can only be decoded: every byte pattern which the plain type takes.
macro_rules! atomics {
    ($g:ident, $f:ty, $($a:ident $t:ty),*) => { $(
        $g.add(format!("atomic/{}/{}", <$f>::NAME, stringify!($a)), |c: &mut Case<'_>| -> R {
            use std::sync::atomic::*;
            let v = Vec::<$t>::gen(&mut c.rng, 1);
            let Ok(mut b) = <$f as Fmt>::to_vec(&v) else {
                c.event("refused by both");
                return Ok(());
            };
            if c.rng.bool() {
                spoil(&mut c.rng, &mut b);
            }
            let bits = |v: &[$a]| -> Vec<u8> { v.iter().flat_map(|x| unsafe { std::slice::from_raw_parts(x as *const $a as *const u8, std::mem::size_of::<$a>()) }.to_vec()).collect() };
            let (mut x, mut y) = (&b[..], &b[..]);
            let fast = <$f as Fmt>::advance::<Vec<$a>>(&mut x).map(|v| bits(&v));
            let slow = <$f as Fmt>::advance::<SlowVec<Slow<$t>>>(&mut y).map(|v| { let mut o = Vec::new(); v.0.iter().for_each(|v| v.image(&mut o)); o });
            match (fast, slow) {
                (Ok(p), Ok(q)) => { ensure!(p == q && x.len() == y.len(), "{}: Vec<{}> from {} is {} but as plain values {}", <$f>::NAME, stringify!($a), hex(&b), hex(&p), hex(&q)); c.event("atomics decoded") }
                (Err(_), Err(_)) => c.event("atomics refused"),
                (p, q) => fail!("{}: Vec<{}> from {}: {p:?} but as plain values {q:?}", <$f>::NAME, stringify!($a), hex(&b)),
            }
            let (mut x, mut y) = (&b[..], &b[..]);
            let fast = <$f as Fmt>::advance::<$a>(&mut x).map(|v| bits(std::slice::from_ref(&v)));
            let slow = <$f as Fmt>::advance::<Slow<$t>>(&mut y).map(|v| slow_image(&v));
            match (fast, slow) {
                (Ok(p), Ok(q)) => { ensure!(p == q && x.len() == y.len(), "{}: {} from {} is {} but as a plain value {}", <$f>::NAME, stringify!($a), hex(&b), hex(&p), hex(&q)); c.event("atomics decoded") }
                (Err(_), Err(_)) => c.event("atomics refused"),
                (p, q) => fail!("{}: {} from {}: {p:?} but as a plain value {q:?}", <$f>::NAME, stringify!($a), hex(&b)),
            }
            c.seen_bytes(&b);
            Ok(())
        });
    )* };
}

macro_rules! formats {
    ($g:ident, $m:ident, $($t:ty),* $(,)?) => { $(
        $m!($g, Native, $t); $m!($g, Packed, $t); $m!($g, StorageFixedBe, $t); $m!($g, PackedBe, $t); $m!($g, Storage, $t);
        $m!($g, IntFixed, $t); $m!($g, FloatFixed, $t); $m!($g, LenVar, $t); $m!($g, Wire, $t);
    )* };
}
macro_rules! few {
    ($g:ident, $m:ident, $($t:ty),* $(,)?) => { $(
        $m!($g, NativeText, $t); $m!($g, pstorage::FL3, $t); $m!($g, pstorage::VL4, $t); $m!($g, pstorage::FB0, $t); $m!($g, ppacked::VB4, $t); $m!($g, ppacked::FL2, $t); $m!($g, Descriptive, $t); $m!($g, WireFixed, $t);
    )* };
}
macro_rules! one {
    ($g:ident, $f:ty, $t:ty) => {
        $g.add(format!("{}/{}", <$f>::NAME, stringify!($t)), check::<$f, $t>);
    };
}
/// Scalars: no bag, to keep the number of instances in hand.
macro_rules! scalars {
    ($g:ident, $f:ty, $t:ty) => {
        $g.add(format!("{}/{}", <$f>::NAME, stringify!($t)), |c: &mut Case<'_>| -> R {
            let v = (Vec::<$t>::gen(&mut c.rng, 0), (<$t>::gen(&mut c.rng, 0), Vec::<[$t; 2]>::gen(&mut c.rng, 1)));
            let mut b = same::<$f, (Vec<$t>, ($t, Vec<[$t; 2]>))>(c, &v, "a tuple")?;
            c.seen_bytes(&b);
            let v = Vec::<$t>::gen(&mut c.rng, 0);
            if let (true, Ok(w)) = (c.rng.bool(), <$f as Fmt>::to_vec(&v)) {
                b = w;
            }
            spoil(&mut c.rng, &mut b);
            hostile::<$f, Vec<$t>>(c, &b, "a vector")?;
            hostile::<$f, $t>(c, &b, "a single")
        });
    };
}

/// Units in packed types and vectors of them.
macro_rules! units {
    ($g:ident, $f:ty, $t:ty) => {
        $g.add(format!("units/{}/{}", <$f>::NAME, stringify!($t)), |c: &mut Case<'_>| -> R {
            // Whatever the layout, what one path wrote it reads.
            if stringify!($t) != "UnitChar" {
                let v = (<$t>::gen(&mut c.rng, 0), Vec::<$t>::gen(&mut c.rng, 0));
                let b = <$f as Fmt>::to_vec(&v)?;
                let w = <$f as Fmt>::from_slice::<($t, Vec<$t>)>(&b).map_err(|e| format!("{}: {} could not be decoded from its own bytes: {e}", <$f>::NAME, stringify!($t)))?;
                ensure!(image(&w) == image(&v), "{}: {} came back different from its own bytes {}", <$f>::NAME, stringify!($t), hex(&b));
            }
            // The recorded finding concerns only the layout the fast path uses.
            match check::<$f, $t>(c) {
                Err(e) if <$f as Fmt>::NAME == "storage/native" || <$f as Fmt>::NAME == "packed" => {
                    let listed = ["is encoded differently from its element by element twin", "could not be decoded from", "decodes from", "cannot be decoded from", "leaves", "came back different"];
                    ensure!(listed.iter().any(|l| e.contains(l)), "{e}");
                    c.known("units-lose-their-length");
                    Ok(())
                }
                r => r,
            }
        });
    };
}

/// A sequence put together out of single values, slices and slices of slices.
#[derive(Debug)]
struct Pieces<T> {
    parts: Vec<(u8, Vec<T>)>,
    /// As a pack, which has no length.
    pack: bool,
    /// All at once by an encoder, instead of by a sequence.
    whole: u8,
}
impl<M, T: Encode<M>> Encode<M> for Pieces<T> {
    type Encode = Self;
    const IS_BITWISE_ENCODE: bool = false;
    fn encode<E: musli::Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        use musli::en::SequenceEncoder;
        let len = self.parts.iter().map(|p| p.1.len()).sum();
        fn put<S: ?Sized + SequenceEncoder<Mode = M>, M, T: Encode<M>>(s: &mut S, how: u8, v: &[T]) -> Result<(), S::Error> {
            match how {
                0 => {
                    for v in v {
                        s.push(v)?;
                    }
                    Ok(())
                }
                1 => s.encode_slice(v),
                2 => s.encode_slices(v.chunks(2)),
                3 => s.encode_slices([v, &v[..0]]),
                _ => {
                    for v in v {
                        v.encode(s.encode_next()?)?;
                    }
                    Ok(())
                }
            }
        }
        match (self.pack, self.whole) {
            (true, _) => e.encode_pack_fn(|p| {
                for (how, v) in &self.parts {
                    put(p, *how, v)?;
                }
                Ok(())
            }),
            (_, 1) => e.encode_slice(&self.parts[0].1),
            (_, 2) => e.encode_slices(len, self.parts.iter().map(|p| &p.1[..])),
            (_, 3) => e.encode_sequence_fn(len, |s| {
                for (how, v) in &self.parts {
                    put(s, *how, v)?;
                }
                Ok(())
            }),
            _ => {
                let mut s = e.encode_sequence(len)?;
                for (how, v) in &self.parts {
                    put(&mut s, *how, v)?;
                }
                s.finish_sequence()
            }
        }
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

/// However a sequence is put together, it is the same as one value after another.
fn pieces<F: Fmt, T>(c: &mut Case<'_>) -> R
where
    T: Encode<F::Mode> + Gen + std::fmt::Debug + Clone,
{
    let parts: Vec<(u8, Vec<T>)> = (0..1 + c.rng.below(4)).map(|_| (c.rng.below(5) as u8, (0..c.rng.below(6)).map(|_| T::gen(&mut c.rng, 1)).collect())).collect();
    let all: Vec<T> = parts.iter().flat_map(|p| p.1.iter().cloned()).collect();
    let pack = F::KIND == Kind::Packed || c.rng.bool();
    let one = Pieces { parts: vec![(0, all)], pack, whole: 0 };
    let a = F::to_vec(&one);
    let whole = c.rng.below(4) as u8;
    let x = Pieces { parts: if whole == 1 { one.parts.clone() } else { parts }, pack, whole };
    let b = F::to_vec(&x);
    ensure!(a == b, "{}: {} is encoded as {}, but one by one as {}", F::NAME, show(&x), show(&b.map(|b| hex(&b))), show(&a.map(|b| hex(&b))));
    if let (Ok(a), false) = (&a, pack) {
        let v = F::to_vec(&one.parts[0].1)?;
        ensure!(*a == v, "{}: a vector is encoded as {}, but its elements one by one as {}", F::NAME, hex(&v), hex(a));
    }
    c.event("sequences put together in pieces");
    if let Ok(a) = &a {
        c.seen_bytes(a);
    }
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    use std::num::*;
    formats!(g, one, Ints, Wide, Signed, Sizes, Floats, Chars, Bools, Nz, PadIn, PadEnd, PadBig, Aligned, AlignedFull, Reorder, Natural, Reorder2, One, Nested, Deep, DeepPad, DeepChar, Arr, ArrBool, Wrap, Boxed, Listed, Thin, Nothing, OwnLast, OwnFirst, OwnMid, OwnAll, OwnBytes, OwnPack, OwnDeep, Skips);
    few!(g, one, Ints, Sizes, Floats, Chars, PadIn, Natural, Nested, Nz, OwnLast, OwnBytes, Skips);
    one!(g, Json, Ints);
    one!(g, Json, OwnMid);
    one!(g, Json, Skips);
    one!(g, Json, Nested);
    one!(g, Json, Chars);
    formats!(g, scalars, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, char, NonZeroU8, NonZeroU32, NonZeroU64, NonZeroI128, NonZeroUsize, NonZeroI16, Wrapping<u32>, Wrapping<i64>, [u8; 2], [char; 2]);
    few!(g, scalars, u8, u32, usize, i64, f64, char, [u16; 3]);
    formats!(g, units, UnitEnd, UnitMid, UnitChar, UnitOnly);
    macro_rules! at { ($g:ident, $f:ty, $t:ty) => { atomics!($g, $f, AtomicBool bool, AtomicU8 u8, AtomicU16 u16, AtomicI32 i32, AtomicU64 u64, AtomicIsize isize, AtomicUsize usize); }; }
    formats!(g, at, ());
    macro_rules! pc { ($g:ident, $f:ty, $($t:ty),*) => { $($g.add(format!("pieces/{}/{}", <$f>::NAME, stringify!($t)), pieces::<$f, $t>);)* }; }
    formats!(g, pc, u8, u32, i64, char, bool, String, [u16; 2], (u8, u32));
    pc!(g, Json, u8, String, (u8, u32));

    let _ = Rc::new(());
    rt::main(g);
}
