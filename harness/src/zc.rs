//! Zero-copy types together with an independent account of their layout: how
//! a value looks in memory, which bytes are a value, and what the opposite
//! byte order looks like.
use crate::rng::Rng;
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::{ByteOrder, Endian, Ref, Size, ZeroCopy};
use std::marker::PhantomData;
use std::mem::{align_of, offset_of, size_of, MaybeUninit};
use std::num::*;

pub trait Zm: ZeroCopy + Copy + 'static {
    /// Whether byte swapping is meaningful for the type.
    const SWAP: bool;
    fn arb(r: &mut Rng) -> Self;
    /// Write the bytes which belong to the value, leaving the others.
    fn image(&self, out: &mut [u8]);
    /// Whether the bytes are a value.
    fn valid(b: &[u8]) -> bool;
    /// Turn an image into the one of the opposite byte order.
    fn flip(out: &mut [u8]);
}

/// The bytes of a value with zeroed padding.
pub fn image<T: Zm>(v: &T) -> Vec<u8> {
    let mut o = vec![0; size_of::<T>()];
    v.image(&mut o);
    o
}

/// A value whose padding holds `fill`.
pub struct Dirty<T>(MaybeUninit<T>);
impl<T: Zm> Dirty<T> {
    pub fn new(v: &T, fill: u8) -> Box<Self> {
        let mut s = Box::new(Dirty(MaybeUninit::<T>::uninit()));
        // SAFETY: All bytes are filled, and then those of a value.
        unsafe {
            let p = s.0.as_mut_ptr().cast::<u8>();
            p.write_bytes(fill, size_of::<T>());
            v.image(std::slice::from_raw_parts_mut(p, size_of::<T>()));
        }
        s
    }
    pub fn get(&self) -> &T {
        unsafe { self.0.assume_init_ref() }
    }
    pub fn get_mut(&mut self) -> &mut T {
        unsafe { self.0.assume_init_mut() }
    }
}

/// Values in a row whose padding holds `fill`.
pub struct DirtySlice<T>(Vec<MaybeUninit<T>>);
impl<T: Zm> DirtySlice<T> {
    pub fn new(v: &[T], fill: u8) -> Self {
        let mut s: Vec<MaybeUninit<T>> = Vec::with_capacity(v.len());
        unsafe {
            s.as_mut_ptr().cast::<u8>().write_bytes(fill, std::mem::size_of_val(v));
            s.set_len(v.len());
            for (d, v) in s.iter_mut().zip(v) {
                v.image(std::slice::from_raw_parts_mut(d.as_mut_ptr().cast(), size_of::<T>()));
            }
        }
        DirtySlice(s)
    }
    pub fn get(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.0.as_ptr().cast(), self.0.len()) }
    }
}

macro_rules! num {
    ($($t:ty, $nz:ty);* $(;)?) => {$(
        impl Zm for $t {
            const SWAP: bool = true;
            fn arb(r: &mut Rng) -> Self {
                r.edge_bits() as $t
            }
            fn image(&self, out: &mut [u8]) {
                out.copy_from_slice(&self.to_ne_bytes());
            }
            fn valid(_: &[u8]) -> bool {
                true
            }
            fn flip(out: &mut [u8]) {
                out.reverse();
            }
        }
        impl Zm for $nz {
            const SWAP: bool = true;
            fn arb(r: &mut Rng) -> Self {
                <$nz>::new(r.edge_bits() as $t).unwrap_or(<$nz>::MAX)
            }
            fn image(&self, out: &mut [u8]) {
                out.copy_from_slice(&self.get().to_ne_bytes());
            }
            fn valid(b: &[u8]) -> bool {
                b.iter().any(|b| *b != 0)
            }
            fn flip(out: &mut [u8]) {
                out.reverse();
            }
        }
        impl Zm for Option<$nz> {
            const SWAP: bool = true;
            fn arb(r: &mut Rng) -> Self {
                let mut v = if r.chance(1, 4) { 0 } else { r.edge_bits() as $t };
                // With debug assertions, rustc 1.99 takes the transmute of a
                // negative integer to `Option<NonZero<_>>` for an invalid
                // enum. The unsigned types and optimised builds have them all.
                if cfg!(debug_assertions) && <$t>::MIN != 0 {
                    let m = <$t>::MAX;
                    v &= m & m.swap_bytes();
                }
                <$nz>::new(v)
            }
            fn image(&self, out: &mut [u8]) {
                out.copy_from_slice(&self.map_or(0, |v| v.get()).to_ne_bytes());
            }
            fn valid(_: &[u8]) -> bool {
                true
            }
            fn flip(out: &mut [u8]) {
                out.reverse();
            }
        }
    )*};
}
num! {
    u8, NonZeroU8; u16, NonZeroU16; u32, NonZeroU32; u64, NonZeroU64; u128, NonZeroU128; usize, NonZeroUsize;
    i8, NonZeroI8; i16, NonZeroI16; i32, NonZeroI32; i64, NonZeroI64; i128, NonZeroI128; isize, NonZeroIsize;
}

macro_rules! float {
    ($($t:ty: $u:ty),*) => {$(
        impl Zm for $t {
            const SWAP: bool = true;
            fn arb(r: &mut Rng) -> Self {
                if r.bool() { r.edge_bits() as i32 as $t / 8.0 } else { <$t>::from_bits(r.u64() as $u) }
            }
            fn image(&self, out: &mut [u8]) {
                out.copy_from_slice(&self.to_bits().to_ne_bytes());
            }
            fn valid(_: &[u8]) -> bool {
                true
            }
            fn flip(out: &mut [u8]) {
                out.reverse();
            }
        }
    )*};
}
float!(f32: u32, f64: u64);

impl Zm for bool {
    const SWAP: bool = true;
    fn arb(r: &mut Rng) -> Self {
        r.bool()
    }
    fn image(&self, out: &mut [u8]) {
        out[0] = *self as u8;
    }
    fn valid(b: &[u8]) -> bool {
        b[0] < 2
    }
    fn flip(_: &mut [u8]) {}
}
impl Zm for char {
    const SWAP: bool = false;
    fn arb(r: &mut Rng) -> Self {
        *r.pick(&['\0', 'a', '\u{7f}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}'])
    }
    fn image(&self, out: &mut [u8]) {
        out.copy_from_slice(&(*self as u32).to_ne_bytes());
    }
    fn valid(b: &[u8]) -> bool {
        matches!(u32::from_ne_bytes(b.try_into().unwrap()), 0..=0xd7ff | 0xe000..=0x10ffff)
    }
    fn flip(out: &mut [u8]) {
        out.reverse();
    }
}

macro_rules! zst {
    ($([$($g:tt)*] $t:ty, $e:expr);* $(;)?) => {$(
        impl<$($g)*> Zm for $t {
            const SWAP: bool = true;
            fn arb(_: &mut Rng) -> Self {
                $e
            }
            fn image(&self, _: &mut [u8]) {}
            fn valid(_: &[u8]) -> bool {
                true
            }
            fn flip(_: &mut [u8]) {}
        }
    )*};
}
zst! {
    [] (), ();
    [T: 'static] PhantomData<T>, PhantomData;
}

impl<T: Zm, const N: usize> Zm for [T; N] {
    const SWAP: bool = T::SWAP;
    fn arb(r: &mut Rng) -> Self {
        std::array::from_fn(|_| T::arb(r))
    }
    fn image(&self, out: &mut [u8]) {
        for (i, v) in self.iter().enumerate() {
            v.image(&mut out[i * size_of::<T>()..][..size_of::<T>()]);
        }
    }
    fn valid(b: &[u8]) -> bool {
        (0..N).all(|i| T::valid(&b[i * size_of::<T>()..][..size_of::<T>()]))
    }
    fn flip(out: &mut [u8]) {
        for i in 0..N {
            T::flip(&mut out[i * size_of::<T>()..][..size_of::<T>()]);
        }
    }
}
impl<T: Zm> Zm for Wrapping<T> {
    const SWAP: bool = T::SWAP;
    fn arb(r: &mut Rng) -> Self {
        Wrapping(T::arb(r))
    }
    fn image(&self, out: &mut [u8]) {
        self.0.image(out);
    }
    fn valid(b: &[u8]) -> bool {
        T::valid(b)
    }
    fn flip(out: &mut [u8]) {
        T::flip(out);
    }
}

/// Whether a byte order is the one of this machine.
pub fn native<E: ByteOrder>() -> bool {
    if std::any::TypeId::of::<E>() == std::any::TypeId::of::<Little>() {
        return cfg!(target_endian = "little");
    }
    assert!(std::any::TypeId::of::<E>() == std::any::TypeId::of::<Big>());
    cfg!(target_endian = "big")
}

impl<T: Zm, E: ByteOrder> Zm for Endian<T, E> {
    // The order of the contained value is fixed.
    const SWAP: bool = true;
    fn arb(r: &mut Rng) -> Self {
        Endian::new(T::arb(r))
    }
    fn image(&self, out: &mut [u8]) {
        // By the value it stands for: the image in the stated order.
        self.to_ne().image(out);
        if !native::<E>() {
            T::flip(out);
        }
    }
    fn valid(b: &[u8]) -> bool {
        T::valid(b)
    }
    fn flip(_: &mut [u8]) {}
}

macro_rules! refs {
    ($($o:ty),*) => {$(
        impl<T: ZeroCopy + 'static, E: ByteOrder> Zm for Ref<T, E, $o> {
            const SWAP: bool = true;
            fn arb(r: &mut Rng) -> Self {
                Ref::new(r.edge_bits() as $o)
            }
            fn image(&self, out: &mut [u8]) {
                let o = <$o>::try_from(self.offset()).unwrap();
                out.copy_from_slice(&if native::<E>() { o.to_ne_bytes() } else { o.swap_bytes().to_ne_bytes() });
            }
            fn valid(_: &[u8]) -> bool {
                true
            }
            fn flip(_: &mut [u8]) {}
        }
        impl<T: ZeroCopy + 'static, E: ByteOrder> Zm for Ref<[T], E, $o> {
            const SWAP: bool = true;
            fn arb(r: &mut Rng) -> Self {
                Ref::with_metadata(r.edge_bits() as $o, r.edge_bits() as $o as usize)
            }
            fn image(&self, out: &mut [u8]) {
                let z = size_of::<$o>();
                for (i, v) in [self.offset(), self.len()].into_iter().enumerate() {
                    let o = <$o>::try_from(v).unwrap();
                    out[i * z..][..z].copy_from_slice(&if native::<E>() { o.to_ne_bytes() } else { o.swap_bytes().to_ne_bytes() });
                }
            }
            fn valid(_: &[u8]) -> bool {
                true
            }
            fn flip(_: &mut [u8]) {}
        }
    )*};
}
refs!(u8, u16, u32, u64, usize);

#[macro_export]
macro_rules! zm_struct {
    ($n:ty { $($f:tt: $t:ty),* $(,)? } $($swap:expr)?) => {
        impl $crate::zc::Zm for $n {
            const SWAP: bool = true $(&& <$t as $crate::zc::Zm>::SWAP)* $(&& $swap)?;
            #[allow(unused)]
            fn arb(r: &mut $crate::rng::Rng) -> Self {
                Self { $($f: <$t as $crate::zc::Zm>::arb(r),)* }
            }
            #[allow(unused)]
            fn image(&self, out: &mut [u8]) {
                $({
                    let v: $t = self.$f;
                    let o = std::mem::offset_of!($n, $f);
                    $crate::zc::Zm::image(&v, &mut out[o..][..std::mem::size_of::<$t>()]);
                })*
            }
            #[allow(unused)]
            fn valid(b: &[u8]) -> bool {
                true $(&& <$t as $crate::zc::Zm>::valid(&b[std::mem::offset_of!($n, $f)..][..std::mem::size_of::<$t>()]))*
            }
            #[allow(unused)]
            fn flip(out: &mut [u8]) {
                $(<$t as $crate::zc::Zm>::flip(&mut out[std::mem::offset_of!($n, $f)..][..std::mem::size_of::<$t>()]);)*
            }
        }
    };
}

/// The offset at which the next field of a variant is laid out: a variant of
/// an enum with a primitive representation is a `repr(C)` struct of the tag
/// and its fields.
pub fn next<T>(at: &mut usize) -> std::ops::Range<usize> {
    let s = at.next_multiple_of(align_of::<T>());
    *at = s + size_of::<T>();
    s..*at
}

#[macro_export]
macro_rules! zm_enum {
    ($n:ty: $repr:ty, $swap:expr, { $($d:expr => $v:ident { $($f:tt = $x:ident: $t:ty),* }),* $(,)? }) => {
        impl $crate::zc::Zm for $n {
            const SWAP: bool = $swap;
            fn arb(r: &mut $crate::rng::Rng) -> Self {
                let mut all: Vec<fn(&mut $crate::rng::Rng) -> Self> = Vec::new();
                $(all.push(|_r| Self::$v { $($f: <$t as $crate::zc::Zm>::arb(_r),)* });)*
                let k = r.below(all.len());
                all[k](r)
            }
            fn image(&self, out: &mut [u8]) {
                let z = std::mem::size_of::<$repr>();
                match self {
                    $(Self::$v { $($f: $x),* } => {
                        let d: $repr = $d;
                        out[..z].copy_from_slice(&d.to_ne_bytes());
                        let mut _at = z;
                        $($crate::zc::Zm::image($x, &mut out[$crate::zc::next::<$t>(&mut _at)]);)*
                    })*
                }
            }
            fn valid(b: &[u8]) -> bool {
                let z = std::mem::size_of::<$repr>();
                let tag = <$repr>::from_ne_bytes(b[..z].try_into().unwrap());
                $({
                    let d: $repr = $d;
                    if tag == d {
                        let mut _at = z;
                        return true $(&& <$t as $crate::zc::Zm>::valid(&b[$crate::zc::next::<$t>(&mut _at)]))*;
                    }
                })*
                false
            }
            fn flip(out: &mut [u8]) {
                let z = std::mem::size_of::<$repr>();
                let tag = <$repr>::from_ne_bytes(out[..z].try_into().unwrap());
                $({
                    let d: $repr = $d;
                    if tag == d {
                        let mut _at = z;
                        $(<$t as $crate::zc::Zm>::flip(&mut out[$crate::zc::next::<$t>(&mut _at)]);)*
                    }
                })*
                out[..z].reverse();
            }
        }
    };
}

macro_rules! zs {
    ($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? }) => {
        #[derive(Clone, Copy, ZeroCopy)]
        $(#[$m])*
        #[allow(dead_code)]
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
        zm_struct!($n { $($f: $t),* });
    };
    ($(#[$m:meta])* $n:ident ( $($(#[$fm:meta])* $f:tt: $t:ty),* $(,)? )) => {
        #[derive(Clone, Copy, ZeroCopy)]
        $(#[$m])*
        #[allow(dead_code)]
        pub struct $n ( $($(#[$fm])* pub $t),* );
        zm_struct!($n { $($f: $t),* });
    };
}

zs!(#[repr(C)] Mixed { a: u8, b: u16, c: u64 });
zs!(#[repr(C)] Falling { a: u64, b: u32, c: u16, d: u8 });
zs!(#[repr(C)] Strict { a: u8, b: NonZeroU32, c: bool });
zs!(#[repr(C)] Nested { a: u8, s: Strict, b: bool, m: Mixed });
zs!(#[repr(C)] Tuple(0: u8, 1: u32, 2: bool));
zs!(#[repr(C)] Rows { n: u8, s: [Strict; 3], e: [bool; 2] });
zs!(#[repr(C)] Unit {});
zs!(#[repr(C, align(8))] Unit8 {});
zs!(#[repr(C, align(16))] Wide { a: u8, b: NonZeroU16 });
zs!(#[repr(C, align(64))] Cache { a: u32, b: bool });
zs!(#[repr(transparent)] Through(0: NonZeroU16));
zs!(#[repr(transparent)] ThroughPadded { v: Strict, #[zero_copy(ignore)] p: PhantomData<u64> });
zs!(#[repr(C, packed)] Pack1 { a: u8, b: u32, c: NonZeroU64, d: bool });
zs!(#[repr(C, packed(2))] Pack2 { a: u8, b: bool, c: u32, d: NonZeroU64, e: u8 });
zs!(#[repr(C, packed(4))] Pack4 { a: bool, b: NonZeroU16, c: NonZeroU64, d: bool, e: NonZeroU32 });
zs!(#[repr(C, packed(8))] Pack8 { a: bool, b: NonZeroU16, c: NonZeroU128, d: bool });
zs!(#[repr(C, packed(2))] PackPadded { a: u8, s: Strict, m: Mixed, t: bool });
zs!(#[repr(C)] HoldsPack { a: u8, p: Pack2, b: bool, q: Pack1, c: NonZeroU32 });
zs!(#[repr(C)] Ignored { a: u8, #[zero_copy(ignore)] p: PhantomData<u32>, b: NonZeroU8, #[zero_copy(ignore)] q: (), c: u16 });
zs!(#[repr(C)] IgnoredAligned { a: u8, #[zero_copy(ignore)] p: [u32; 0], b: NonZeroU8, c: u8, #[zero_copy(ignore)] q: Unit8, d: bool });
zs!(#[repr(C, packed(2))] PackIgnored { a: u8, #[zero_copy(ignore)] p: [u32; 0], b: NonZeroU8, c: u32, d: bool, #[zero_copy(ignore)] q: [u64; 0], e: bool, #[zero_copy(ignore)] r: [u8; 0], f: bool, #[zero_copy(ignore)] s: [u16; 0] });
zs!(#[repr(C, packed)] PackIgnored1 { a: u8, #[zero_copy(ignore)] p: [u32; 0], b: NonZeroU8, c: u32, d: bool, #[zero_copy(ignore)] q: [u64; 0], e: bool });
zs!(#[repr(C, packed(4))] PackEmpty { a: u8, p: [u16; 0], b: NonZeroU8, q: [u64; 0], c: bool, d: u64, e: bool, f: [u64; 0] });
zs!(#[repr(C)] EmptyAligned { a: u8, p: [u32; 0], b: NonZeroU8, c: u8, q: Unit8, d: bool, e: [u64; 0] });
zs!(#[repr(C)] Letters { a: char, b: bool, c: u8 });
zs!(#[repr(C)] Floats { a: f32, b: f64, c: Wrapping<i16>, d: Option<NonZeroI64>, e: Wrapping<Strict> });
zs!(#[repr(C)] Orders { a: Endian<u16, Big>, b: Endian<u64, Little>, c: Endian<NonZeroU32, Big>, d: Endian<Strict, Big>, e: u32 });
zs!(#[repr(C)] Points { a: Ref<u32, Native, u32>, b: Ref<[u16], Big, u16>, c: u8, d: Ref<Strict, Big, usize>, e: u64 });

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
#[zero_copy(bounds = {A: ZeroCopy, B: ZeroCopy})]
pub struct Pair<A, B> {
    pub a: A,
    pub b: B,
}
zm_struct!(Pair<u8, Strict> { a: u8, b: Strict });
zm_struct!(Pair<bool, Pair<u8, Strict>> { a: bool, b: Pair<u8, Strict> });
zm_struct!(Pair<Flat, Full> { a: Flat, b: Full });

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C, packed)]
#[zero_copy(bounds = {A: ZeroCopy, B: ZeroCopy})]
pub struct Tight<A, B> {
    pub a: A,
    pub b: B,
}
zm_struct!(Tight<u8, Full> { a: u8, b: Full });

/// Without fields.
#[derive(Clone, Copy, ZeroCopy)]
#[repr(u8)]
pub enum Flat {
    A,
    B = 7,
    C,
    D = 255,
}
zm_enum!(Flat: u8, false, { 0 => A {}, 7 => B {}, 8 => C {}, 255 => D {} });

#[derive(Clone, Copy, ZeroCopy)]
#[repr(i8)]
pub enum Signed {
    A = -128,
    B = -1,
    C,
    D = 127,
}
zm_enum!(Signed: i8, false, { -128 => A {}, -1 => B {}, 0 => C {}, 127 => D {} });

/// With fields of any kind.
#[derive(Clone, Copy, ZeroCopy)]
#[repr(u8)]
pub enum Full {
    A,
    B(u8, NonZeroU32, bool),
    C { x: bool, s: Strict, y: u16 },
    D = 16,
    E(Flat),
    F(u64),
    G(#[zero_copy(ignore)] PhantomData<u32>, bool),
}
zm_enum!(Full: u8, false, {
    0 => A {},
    1 => B { 0 = a: u8, 1 = b: NonZeroU32, 2 = c: bool },
    2 => C { x = a: bool, s = b: Strict, y = c: u16 },
    16 => D {},
    17 => E { 0 = a: Flat },
    18 => F { 0 = a: u64 },
    19 => G { 0 = a: PhantomData<u32>, 1 = b: bool },
});

#[derive(Clone, Copy, ZeroCopy)]
#[repr(u16)]
pub enum Two {
    A(u8) = 0x0100,
    B { x: u8, y: char } = 0x0201,
    C([bool; 3]),
}
zm_enum!(Two: u16, false, { 0x0100 => A { 0 = a: u8 }, 0x0201 => B { x = a: u8, y = b: char }, 0x0202 => C { 0 = a: [bool; 3] } });

#[derive(Clone, Copy, ZeroCopy)]
#[repr(i32)]
pub enum Four {
    A(NonZeroU8) = -2,
    B(Signed, Signed),
    C(NonZeroU128) = i32::MAX,
}
zm_enum!(Four: i32, false, { -2 => A { 0 = a: NonZeroU8 }, -1 => B { 0 = a: Signed, 1 = b: Signed }, i32::MAX => C { 0 = a: NonZeroU128 } });

#[derive(Clone, Copy, ZeroCopy)]
#[repr(u64)]
pub enum Eight {
    A(bool),
    B(Two, bool),
}
zm_enum!(Eight: u64, false, { 0 => A { 0 = a: bool }, 1 => B { 0 = a: Two, 1 = b: bool } });

#[derive(Clone, Copy, ZeroCopy)]
#[repr(u128)]
pub enum Sixteen {
    A(bool) = 1 << 100,
    B(u8, NonZeroU16) = u128::MAX,
}
zm_enum!(Sixteen: u128, false, { 1 << 100 => A { 0 = a: bool }, u128::MAX => B { 0 = a: u8, 1 = b: NonZeroU16 } });

#[derive(Clone, Copy, ZeroCopy)]
#[repr(isize)]
pub enum Size_ {
    A = isize::MIN,
    B(bool) = -1,
    C(NonZeroU16),
}
zm_enum!(Size_: isize, false, { isize::MIN => A {}, -1 => B { 0 = a: bool }, 0 => C { 0 = a: NonZeroU16 } });

/// Variants which stand for each other in the opposite byte order.
#[derive(Clone, Copy, ZeroCopy)]
#[repr(u32)]
#[zero_copy(swap_bytes)]
pub enum Swap {
    A = 1,
    #[zero_copy(swap = A)]
    A_ = u32::swap_bytes(1),
    B(u16, bool) = 2,
    #[zero_copy(swap = B)]
    B_(u16, bool) = u32::swap_bytes(2),
    C { x: u8, y: NonZeroU64 } = 0x0102_0304,
    _C { x: u8, y: NonZeroU64 } = 0x0403_0201,
}
zm_enum!(Swap: u32, true, {
    1 => A {},
    0x0100_0000 => A_ {},
    2 => B { 0 = a: u16, 1 = b: bool },
    0x0200_0000 => B_ { 0 = a: u16, 1 = b: bool },
    0x0102_0304 => C { x = a: u8, y = b: NonZeroU64 },
    0x0403_0201 => _C { x = a: u8, y = b: NonZeroU64 },
});
/// Nothing is between the fields or behind them, and padding is inside of them.
#[derive(Clone, Copy, ZeroCopy)]
#[repr(u16)]
pub enum Dense {
    A(Short),
    B(NonZeroU16, u16) = 0x0100,
    C { x: [u8; 4] },
}
zm_enum!(Dense: u16, false, {
    0 => A { 0 = a: Short },
    0x0100 => B { 0 = a: NonZeroU16, 1 = b: u16 },
    0x0101 => C { x = a: [u8; 4] },
});
#[derive(Clone, Copy, ZeroCopy)]
#[repr(u64)]
pub enum Dense8 {
    A(Mixed),
    B { x: u64, y: Wrapping<u64> },
    C(u32, Strict),
    D([Short; 4]),
}
zm_enum!(Dense8: u64, false, {
    0 => A { 0 = a: Mixed },
    1 => B { x = a: u64, y = b: Wrapping<u64> },
    2 => C { 0 = a: u32, 1 = b: Strict },
    3 => D { 0 = a: [Short; 4] },
});
#[derive(Clone, Copy, ZeroCopy)]
#[repr(u32)]
pub enum Dense4 {
    A(Dense, u16),
    B(Wrapping<Short>, Endian<Short, Big>),
    C(Through4, ThroughShort),
}
zm_enum!(Dense4: u32, false, {
    0 => A { 0 = a: Dense, 1 = b: u16 },
    1 => B { 0 = a: Wrapping<Short>, 1 = b: Endian<Short, Big> },
    2 => C { 0 = a: Through4, 1 = b: ThroughShort },
});
/// Nothing at all is padding.
#[derive(Clone, Copy, ZeroCopy)]
#[repr(u8)]
pub enum Solid {
    A(u8, bool),
    B(Flat, NonZeroU8),
    C([i8; 2]),
}
zm_enum!(Solid: u8, false, {
    0 => A { 0 = a: u8, 1 = b: bool },
    1 => B { 0 = a: Flat, 1 = b: NonZeroU8 },
    2 => C { 0 = a: [i8; 2] },
});
zs!(#[repr(C)] Short { a: u16, b: NonZeroU8 });
zs!(#[repr(transparent)] ThroughShort(0: Short));
zs!(#[repr(transparent)] Through4 { v: [bool; 4] });
zs!(#[repr(C)] SumStruct { a: u32, s: Strict });
zs!(#[repr(C)] SumRows { s: [Strict; 2], t: [Short; 2] });
zs!(#[repr(C)] SumEnum { a: u64, f: Full });
zs!(#[repr(C)] SumDense { a: Dense, b: Dense });
zs!(#[repr(C)] SumWrapped { w: Wrapping<Strict>, e: Endian<Strict, Big>, t: ThroughShort });
zs!(#[repr(C, packed)] SumPacked { a: u8, d: Dense8, s: Short });
zs!(#[repr(C)] HoldsEnums { a: u8, f: Full, t: Two, b: bool, e: Eight, s: Swap });
zs!(#[repr(C)] HoldsSwap { a: u8, s: Swap, m: Mixed, r: [Swap; 2], n: Option<NonZeroU16> });

/// Calls a macro for every modelled type.
#[macro_export]
macro_rules! each_zm {
    ($m:ident) => {{
        use $crate::zc::*;
        use std::num::*;
        #[allow(unused)]
        use musli_zerocopy::{Ref, Endian, endian::{Big, Little, Native}};
        $m!(u8); $m!(u16); $m!(u32); $m!(u64); $m!(u128); $m!(usize);
        $m!(i8); $m!(i16); $m!(i32); $m!(i64); $m!(i128); $m!(isize);
        $m!(f32); $m!(f64); $m!(bool); $m!(char); $m!(());
        $m!(NonZeroU8); $m!(NonZeroU16); $m!(NonZeroU32); $m!(NonZeroU64); $m!(NonZeroU128); $m!(NonZeroUsize);
        $m!(NonZeroI8); $m!(NonZeroI16); $m!(NonZeroI32); $m!(NonZeroI64); $m!(NonZeroI128); $m!(NonZeroIsize);
        $m!(Option<NonZeroU8>); $m!(Option<NonZeroU32>); $m!(Option<NonZeroI64>); $m!(Option<NonZeroU128>);
        $m!([u16; 3]); $m!([bool; 4]); $m!([Strict; 3]); $m!([u64; 0]); $m!([[char; 2]; 2]);
        $m!(Wrapping<u32>); $m!(Wrapping<Strict>); $m!(std::marker::PhantomData<u64>);
        $m!(Endian<u32, Big>); $m!(Endian<u16, Little>); $m!(Endian<Strict, Big>); $m!(Endian<Swap, Big>); $m!(Endian<[NonZeroU16; 2], Big>);
        $m!(Ref<u32, Big, u16>); $m!(Ref<[u8], Little, usize>); $m!(Ref<[Strict], Big, u8>);
        $m!(Mixed); $m!(Falling); $m!(Strict); $m!(Nested); $m!(Tuple); $m!(Rows); $m!(Unit); $m!(Unit8); $m!(Wide); $m!(Cache);
        $m!(Through); $m!(ThroughPadded); $m!(Pack1); $m!(Pack2); $m!(Pack4); $m!(Pack8); $m!(PackPadded); $m!(HoldsPack);
        $m!(Ignored); $m!(IgnoredAligned); $m!(EmptyAligned); $m!(PackIgnored); $m!(PackIgnored1); $m!(PackEmpty); $m!(Letters); $m!(Floats); $m!(Orders); $m!(Points);
        $m!(Pair<u8, Strict>); $m!(Pair<bool, Pair<u8, Strict>>); $m!(Pair<Flat, Full>); $m!(Tight<u8, Full>);
        $m!(Flat); $m!(Signed); $m!(Full); $m!(Two); $m!(Four); $m!(Eight); $m!(Sixteen); $m!(Size_); $m!(Swap); $m!(HoldsEnums); $m!(HoldsSwap);
        $m!(Dense); $m!(Dense8); $m!(Dense4); $m!(Solid); $m!(SumStruct); $m!(SumRows); $m!(SumEnum); $m!(SumDense); $m!(SumWrapped); $m!(SumPacked); $m!([Dense; 3]);
        $m!([Full; 3]); $m!([Pack4; 2]); $m!([Wide; 2]); $m!([Unit8; 3]);
    }};
}

pub fn name<T: ?Sized>() -> String {
    let n = std::any::type_name::<T>();
    let mut out = String::new();
    let mut word = String::new();
    for c in n.chars() {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else if c == ':' {
            word.clear();
        } else {
            out.push_str(&word);
            word.clear();
            out.push(c);
        }
    }
    out + &word
}

/// Something which can be checked for every offset width.
pub trait Width: Size {}
impl<T: Size> Width for T {}

const _: () = assert!(offset_of!(IgnoredAligned, b) == 4);

impl std::fmt::Debug for Strict {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", image(self))
    }
}
