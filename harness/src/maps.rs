// Shared by z06 (perfect hashing) and z07 (swiss tables): `store` is the
// module under test, brought into scope by the including binary.
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::{buf::aligned_buf_with, Buf, ByteOrder, OwnedBuf, Ref, Size, SliceMut, ZeroCopy};
use std::collections::HashMap;
use std::num::*;
use vh::rng::Rng;
use vh::rt::{Case, Groups};
use vh::{ensure, fail};

/// A value with padding, stored next to keys.
#[derive(Debug, Clone, Copy, PartialEq, ZeroCopy)]
#[repr(C)]
struct Pad {
    a: u8,
    b: u32,
    c: NonZeroU16,
}

/// A user-defined key.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ZeroCopy, musli_zerocopy::Visit)]
#[repr(C)]
struct Key {
    a: u16,
    b: u8,
    c: NonZeroU64,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ZeroCopy, musli_zerocopy::Visit)]
#[repr(u8)]
enum EnumKey {
    A = 3,
    B(u16) = 7,
    C { x: u32, y: bool } = 200,
}

trait KeyGen: Clone + Eq + std::hash::Hash + std::fmt::Debug {
    fn key(r: &mut Rng, n: usize) -> Self;
    /// Number of different keys that can be made.
    fn room() -> usize {
        usize::MAX
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(impl KeyGen for $t {
        fn key(r: &mut Rng, _: usize) -> Self {
            match r.below(3) { 0 => r.edge_bits() as $t, 1 => r.u128() as $t, _ => r.below(60) as $t }
        }
        fn room() -> usize { if size_of::<$t>() == 1 { 200 } else { usize::MAX } }
    })*};
}
ints!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
impl KeyGen for bool {
    fn key(r: &mut Rng, _: usize) -> Self {
        r.bool()
    }
    fn room() -> usize {
        2
    }
}
impl KeyGen for char {
    fn key(r: &mut Rng, _: usize) -> Self {
        loop {
            if let Some(c) = char::from_u32(if r.bool() { r.below(0x300) as u32 } else { r.below(0x110000) as u32 }) {
                return c;
            }
        }
    }
}
impl KeyGen for NonZeroU32 {
    fn key(r: &mut Rng, n: usize) -> Self {
        loop {
            if let Some(v) = NonZeroU32::new(u32::key(r, n)) {
                return v;
            }
        }
    }
}
impl KeyGen for NonZeroI8 {
    fn key(r: &mut Rng, n: usize) -> Self {
        loop {
            if let Some(v) = NonZeroI8::new(i8::key(r, n)) {
                return v;
            }
        }
    }
    fn room() -> usize {
        200
    }
}
impl KeyGen for Option<NonZeroU64> {
    fn key(r: &mut Rng, n: usize) -> Self {
        NonZeroU64::new(u64::key(r, n))
    }
}
impl KeyGen for Key {
    fn key(r: &mut Rng, _: usize) -> Self {
        Key { a: r.below(4) as u16, b: r.below(5) as u8, c: NonZeroU64::new(1 + r.below(30) as u64).unwrap() }
    }
}
impl KeyGen for EnumKey {
    fn key(r: &mut Rng, _: usize) -> Self {
        match r.below(9) {
            0 => EnumKey::A,
            1..=4 => EnumKey::B(r.u64() as u16),
            _ => EnumKey::C { x: r.u32(), y: r.bool() },
        }
    }
}
impl KeyGen for String {
    fn key(r: &mut Rng, n: usize) -> Self {
        match r.below(6) {
            0 => format!("key{}", r.below(n.max(2) * 2)),
            1 => "a".repeat(r.below(40)),
            2 => (0..r.below(4)).map(|_| *r.pick(&['a', 'b', 'é', '食', '\u{0}', '🦀'])).collect(),
            3 => format!("{}/{}", r.u64(), r.u64()),
            _ => (0..r.below(20)).map(|_| *r.pick(b"ab") as char).collect(),
        }
    }
}
impl KeyGen for Vec<u8> {
    fn key(r: &mut Rng, _: usize) -> Self {
        let n = r.below(18);
        if r.bool() {
            vec![*r.pick(&[0, 255, 7]); n]
        } else {
            r.bytes(n)
        }
    }
}

fn distinct<K: KeyGen>(r: &mut Rng, thorough: bool) -> (Vec<K>, Vec<K>) {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => *r.pick(&[3, 4, 7, 8, 13, 14, 15, 28, 29, 56, 57, 111, 112, 113]),
        3..=9 => r.below(40),
        10 => r.below(200),
        _ => r.below(if thorough { 1200 } else { 400 }),
    }
    .min(K::room());
    let mut seen = std::collections::HashSet::new();
    let mut keys = Vec::new();
    let mut tries = 0;
    while keys.len() < n && tries < n * 50 {
        tries += 1;
        let k = K::key(r, n);
        if seen.insert(k.clone()) {
            keys.push(k);
        }
    }
    let mut absent = Vec::new();
    for _ in 0..n + 8 {
        let k = K::key(r, n);
        if !seen.contains(&k) {
            absent.push(k);
        }
    }
    (keys, absent)
}

trait ValGen: ZeroCopy + Copy + PartialEq + std::fmt::Debug {
    fn val(r: &mut Rng) -> Self;
}
impl ValGen for u64 {
    fn val(r: &mut Rng) -> Self {
        r.u64()
    }
}
impl ValGen for u8 {
    fn val(r: &mut Rng) -> Self {
        r.u8()
    }
}
impl ValGen for NonZeroU32 {
    fn val(r: &mut Rng) -> Self {
        NonZeroU32::new(r.u32() | 1).unwrap()
    }
}
impl ValGen for Pad {
    fn val(r: &mut Rng) -> Self {
        Pad { a: r.u8(), b: r.u32(), c: NonZeroU16::new(r.u64() as u16 | 1).unwrap() }
    }
}
/// Values of uncommon sizes and alignments.
impl<const N: usize> ValGen for [u8; N] {
    fn val(r: &mut Rng) -> Self {
        let mut v = [0; N];
        v.copy_from_slice(&r.bytes(N));
        v
    }
}
impl ValGen for [u16; 9] {
    fn val(r: &mut Rng) -> Self {
        std::array::from_fn(|_| r.u64() as u16)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, ZeroCopy)]
#[repr(C, align(32))]
struct Wide {
    a: [u64; 5],
    b: u16,
}
impl ValGen for Wide {
    fn val(r: &mut Rng) -> Self {
        Wide { a: std::array::from_fn(|_| r.u64()), b: r.u64() as u16 }
    }
}
impl ValGen for () {
    fn val(_: &mut Rng) -> Self {}
}

/// Data stored before the map, which has to stay as it is.
fn junk<E: ByteOrder, O: Size>(r: &mut Rng, b: &mut OwnedBuf<E, O>) {
    let n = r.below(12);
    let v = r.bytes(n);
    b.extend_from_slice(&v);
}

/// The same bytes at another address.
fn moved<'a>(b: &'a Buf, align: usize) -> std::borrow::Cow<'a, Buf> {
    aligned_buf_with(&b[..], align)
}

macro_rules! check_map {
    ($c:expr, $what:expr, $buf:expr, $map:expr, $model:expr, $absent:expr, $look:expr) => {{
        let (c, buf, map, model, absent) = (&mut *$c, $buf, $map, $model, $absent);
        let n: usize = HashMap::len(model);
        // An empty stored name: called for every lookup.
        let look = $look;
        #[allow(unused_must_use)]
        let bound = match buf.bind(map) {
            Ok(b) => b,
            Err(e) => fail!("{}: binding a map of {n} entries failed: {e}", $what),
        };
        lens!($what, map, bound, n);
        for (k, v) in model {
            match map.get(buf, look(k)) {
                Ok(Some(g)) => ensure!(g == v, "{}: unbound get({k:?}) of {n} is {g:?} instead of {v:?}", $what),
                Ok(None) => fail!("{}: unbound get({k:?}) of {n}: absent, was inserted with {v:?}", $what),
                Err(e) => fail!("{}: unbound get({k:?}) of {n}: {e}", $what),
            }
            match bound.get(look(k)) {
                Ok(Some(g)) => ensure!(g == v, "{}: bound get({k:?}) of {n} is {g:?} instead of {v:?}", $what),
                Ok(None) => fail!("{}: bound get({k:?}) of {n}: absent, was inserted with {v:?}", $what),
                Err(e) => fail!("{}: bound get({k:?}) of {n}: {e}", $what),
            }
            ensure!(map.contains_key(buf, look(k)) == Ok2(true), "{}: unbound contains_key({k:?}) of {n} is not true", $what);
            ensure!(bound.contains_key(look(k)) == Ok2(true), "{}: bound contains_key({k:?}) of {n} is not true", $what);
            c.event("present keys found");
        }
        for k in absent {
            match (map.get(buf, look(k)), bound.get(look(k))) {
                (Ok(None), Ok(None)) => {}
                (a, b) => fail!("{}: get({k:?}) of {n}, not inserted: unbound {a:?} bound {b:?}", $what),
            }
            ensure!(map.contains_key(buf, look(k)) == Ok2(false), "{}: unbound contains_key({k:?}) of {n} is not false", $what);
            ensure!(bound.contains_key(look(k)) == Ok2(false), "{}: bound contains_key({k:?}) of {n} is not false", $what);
            c.event("absent keys reported absent");
        }
    }};
}
macro_rules! check_set {
    ($c:expr, $what:expr, $buf:expr, $set:expr, $model:expr, $absent:expr, $look:expr) => {{
        let (c, buf, set, model, absent) = (&mut *$c, $buf, $set, $model, $absent);
        let n: usize = HashMap::len(model);
        let look = $look;
        for (k, _) in model {
            ensure!(set.contains(buf, look(k)) == Ok2(true), "{}: unbound set contains({k:?}) of {n} is not true", $what);
            c.event("present keys found");
        }
        for k in absent {
            ensure!(set.contains(buf, look(k)) == Ok2(false), "{}: unbound set contains({k:?}) of {n} is not false", $what);
            c.event("absent keys reported absent");
        }
        let bound = match buf.bind(set) {
            Ok(b) => b,
            Err(e) => fail!("{}: binding a set of {n} failed: {e}", $what),
        };
        for (k, _) in model {
            ensure!(bound.contains(look(k)) == Ok2(true), "{}: bound set contains({k:?}) of {n} is not true", $what);
        }
        for k in absent {
            ensure!(bound.contains(look(k)) == Ok2(false), "{}: bound set contains({k:?}) of {n} is not false", $what);
        }
    }};
}

/// `Ok(b)` with an equality that needs nothing of the error.
#[derive(Debug)]
struct Ok2(bool);
impl PartialEq<Ok2> for Result<bool, musli_zerocopy::Error> {
    fn eq(&self, o: &Ok2) -> bool {
        matches!(self, Ok(b) if *b == o.0)
    }
}

/// Keys stored as they are.
macro_rules! plain {
    ($g:expr, $k:ty, $v:ty, $e:ty, $o:ty) => {{
        $g.add(format!("{} -> {} ({}, {})", stringify!($k), stringify!($v), stringify!($e), stringify!($o)), |c: &mut Case<'_>| {
            let mut r = Rng::new(c.rng.u64());
            let (keys, absent) = distinct::<$k>(&mut r, c.thorough);
            let mut model = HashMap::new();
            for k in &keys {
                model.insert(*k, <$v>::val(&mut r));
            }
            c.sample(|| format!("{keys:?}"));
            let mut b = OwnedBuf::new().with_byte_order::<$e>().with_size::<$o>();
            junk(&mut r, &mut b);
            let before = b[..].to_vec();
            let w = concat!(stringify!($k), " -> ", stringify!($v), " ", stringify!($e));
            let map = store::store_map(&mut b, keys.iter().map(|k| (*k, model[k]))).map_err(|e| format!("{w}: storing {} entries failed: {e}", keys.len()))?;
            // The keys inserted in another order as a set behind it.
            let mut rev = keys.clone();
            r.shuffle(&mut rev);
            let set = store::store_set(&mut b, rev.iter().copied()).map_err(|e| format!("{w}: storing a set of {} failed: {e}", keys.len()))?;
            let at = b.store(&map);
            junk(&mut r, &mut b);
            ensure!(b[..before.len()] == before[..], "{w}: data before the map was changed");
            c.seen_bytes(&b[..]);
            {
                let buf = b.clone().into_aligned();
                let buf: &Buf = &buf;
                check_map!(c, w, buf, map, &model, &absent, |k| k);
                check_set!(c, w, buf, set, &model, &absent, |k| k);
                let again = *buf.load(at).map_err(|e| format!("{w}: loading the map reference: {e}"))?;
                let buf = moved(buf, 64);
                check_map!(c, w, &*buf, again, &model, &absent, |k| k);
            }
            c.event("maps and sets built");
            Ok(())
        });
    }};
}

/// Keys reached through a reference into the buffer.
macro_rules! refs {
    ($g:expr, $k:ty, $t:ty, $put:expr, $v:ty, $e:ty, $o:ty) => {{
        $g.add(format!("Ref<{}> -> {} ({}, {})", stringify!($t), stringify!($v), stringify!($e), stringify!($o)), |c: &mut Case<'_>| {
            let mut r = Rng::new(c.rng.u64());
            let (mut keys, absent) = distinct::<$k>(&mut r, c.thorough);
            // Narrow references only reach so far.
            keys.truncate(if size_of::<$o>() == 2 { 250 } else { 5000 });
            let absent: Vec<$k> = absent;
            let mut model: HashMap<$k, $v> = HashMap::new();
            for k in &keys {
                model.insert(k.clone(), <$v>::val(&mut r));
            }
            c.sample(|| format!("{keys:?}"));
            let mut b = OwnedBuf::new().with_byte_order::<$e>().with_size::<$o>();
            junk(&mut r, &mut b);
            let put = $put;
            let stored: Vec<(Ref<$t, $e, $o>, $v)> = keys.iter().map(|k| (put(&mut b, k), model[k])).collect();
            let before = b[..].to_vec();
            let w = concat!("Ref<", stringify!($t), "> -> ", stringify!($v), " ", stringify!($e));
            let map = store::store_map(&mut b, stored.iter().copied()).map_err(|e| format!("{w}: storing {} entries failed: {e}", keys.len()))?;
            let set = store::store_set(&mut b, stored.iter().map(|s| s.0)).map_err(|e| format!("{w}: storing a set of {} failed: {e}", keys.len()))?;
            let at = b.store(&map);
            junk(&mut r, &mut b);
            ensure!(b[..before.len()] == before[..], "{w}: data before the map was changed");
            c.seen_bytes(&b[..]);
            {
                let buf = b.clone().into_aligned();
                let buf: &Buf = &buf;
                check_map!(c, w, buf, map, &model, &absent, |k: &$k| -> &'static $t { let t: &$t = &k[..]; unsafe { &*(t as *const $t) } });
                check_set!(c, w, buf, set, &model, &absent, |k: &$k| -> &'static $t { let t: &$t = &k[..]; unsafe { &*(t as *const $t) } });
                // Look up by the stored references themselves.
                for ((k, v), key) in stored.iter().zip(&keys) {
                    match map.get(buf, k) {
                        Ok(Some(g)) if g == v => {}
                        x => fail!("{w}: get by reference to {key:?} is {x:?} instead of {v:?}"),
                    }
                }
                let again = *buf.load(at).map_err(|e| format!("{w}: loading the map reference: {e}"))?;
                let buf = moved(buf, 64);
                check_map!(c, w, &*buf, again, &model, &absent, |k: &$k| -> &'static $t { let t: &$t = &k[..]; unsafe { &*(t as *const $t) } });
            }
            c.event("maps and sets built");
            Ok(())
        });
    }};
}

trait IntoAligned {
    fn into_aligned(self) -> Self;
}
impl<E: ByteOrder, O: Size> IntoAligned for OwnedBuf<E, O> {
    fn into_aligned(mut self) -> Self {
        self.align_in_place();
        self
    }
}

#[repr(C, align(64))]
struct Mem([u8; 40000]);

/// Sets and perfect-hash maps stored in a borrowed slice.
macro_rules! in_slice {
    ($g:expr, $k:ty, $e:ty, $o:ty) => {{
        $g.add(format!("{} in a slice ({}, {})", stringify!($k), stringify!($e), stringify!($o)), |c: &mut Case<'_>| {
            let mut r = Rng::new(c.rng.u64());
            let (mut keys, absent) = distinct::<$k>(&mut r, false);
            keys.truncate(300);
            let absent: Vec<$k> = absent;
            let mut mem = Box::new(Mem([0xa5; 40000]));
            let mut model = HashMap::new();
            for k in &keys {
                model.insert(*k, ());
            }
            let w = concat!(stringify!($k), " in a slice ", stringify!($e));
            let used;
            {
                let mut b = SliceMut::new(&mut mem.0).with_byte_order::<$e>().with_size::<$o>();
                b.extend_from_slice(&r.bytes(3));
                let set = store::store_set(&mut b, keys.iter().copied()).map_err(|e| format!("{w}: storing a set of {} failed: {e}", keys.len()))?;
                used = b.len();
                c.seen_bytes(&b[..]);
                let buf: &Buf = &b;
                check_set!(c, w, buf, set, &model, &absent, |k| k);
            }
            ensure!(used < 40000, "{w}: used everything");
            c.event("maps and sets built");
            Ok(())
        });
    }};
}

pub fn all(g: &mut Groups) {
    plain!(g, u8, u64, Native, u32);
    plain!(g, i8, NonZeroU32, Big, u32);
    plain!(g, u16, Pad, Little, usize);
    plain!(g, i16, u8, Big, u64);
    plain!(g, u32, u64, Native, u32);
    plain!(g, u32, Pad, Big, u32);
    plain!(g, i32, NonZeroU32, Native, usize);
    plain!(g, u64, u8, Big, usize);
    plain!(g, i64, u64, Native, u64);
    plain!(g, u128, u8, Native, u32);
    plain!(g, i128, Pad, Big, u32);
    plain!(g, usize, u64, Native, u32);
    plain!(g, isize, u8, Big, u32);
    plain!(g, bool, u64, Native, u32);
    plain!(g, char, Pad, Native, u32);
    plain!(g, char, NonZeroU32, Big, u16);
    plain!(g, NonZeroU32, Pad, Native, u32);
    plain!(g, NonZeroI8, u64, Big, u32);
    plain!(g, Option<NonZeroU64>, NonZeroU32, Native, u32);
    plain!(g, Key, Pad, Native, u32);
    plain!(g, EnumKey, u64, Big, u32);
    plain!(g, u32, (), Native, u32);
    plain!(g, u8, [u8; 10], Native, u32);
    plain!(g, u8, [u8; 2], Big, u16);
    plain!(g, bool, [u8; 301], Native, u32);
    plain!(g, i8, [u8; 64], Native, u32);
    plain!(g, u16, [u8; 33], Big, u32);
    plain!(g, NonZeroI8, [u16; 9], Native, u32);
    plain!(g, u32, Wide, Native, u32);
    plain!(g, u8, Wide, Big, usize);
    refs!(g, String, str, |b: &mut OwnedBuf<Native, u32>, k: &String| b.store_unsized(k.as_str()), u64, Native, u32);
    refs!(g, String, str, |b: &mut OwnedBuf<Big, u32>, k: &String| b.store_unsized(k.as_str()), Pad, Big, u32);
    refs!(g, String, str, |b: &mut OwnedBuf<Little, usize>, k: &String| b.store_unsized(k.as_str()), NonZeroU32, Little, usize);
    refs!(g, String, str, |b: &mut OwnedBuf<Big, usize>, k: &String| b.store_unsized(k.as_str()), u8, Big, usize);
    refs!(g, String, str, |b: &mut OwnedBuf<Big, u16>, k: &String| b.store_unsized(k.as_str()), u8, Big, u16);
    refs!(g, Vec<u8>, [u8], |b: &mut OwnedBuf<Native, u64>, k: &Vec<u8>| b.store_slice(&k[..]), u64, Native, u64);
    refs!(g, Vec<u8>, [u8], |b: &mut OwnedBuf<Big, u64>, k: &Vec<u8>| b.store_slice(&k[..]), NonZeroU32, Big, u64);
    in_slice!(g, u32, Native, u32);
    in_slice!(g, u64, Big, u32);
    in_slice!(g, char, Native, usize);
    in_slice!(g, Key, Big, u16);
}
