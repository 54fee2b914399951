//! Z05: references and slices behave like what they point to.
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::pointer::Coerce;
use musli_zerocopy::slice::{binary_search, binary_search_by, BinarySearch, Packed, Slice};
use musli_zerocopy::{Buf, ByteOrder, Endian, OwnedBuf, Ref, Size, Visit, ZeroCopy};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::mem::{align_of, size_of};
use std::num::*;
use vh::rng::Rng;
use vh::rt::{guard, Case, Groups, R};
use vh::zc::*;
use vh::{each_zm, ensure, fail};

fn err(e: musli_zerocopy::Error) -> String {
    format!("error: {e}")
}

/// A name which is only put together for a message.
struct Name<T>(PhantomData<T>);
impl<T> std::fmt::Display for Name<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&name::<T>())
    }
}

fn max<O: Size>() -> usize {
    if size_of::<O>() >= size_of::<usize>() {
        usize::MAX
    } else {
        (1 << (8 * size_of::<O>())) - 1
    }
}

/// A row in a buffer with its model.
struct Row {
    at: usize,
    v: Vec<Vec<u8>>,
}

/// All accessors of a slice against the ordinary slice.
fn slice<S: Slice, T: Zm>(b: &Buf, s: S, m: &Row, most: usize, r: &mut Rng, depth: usize) -> R
where
    S: Slice<Item = T>,
{
    let n = Name::<S>(PhantomData);
    let k = m.v.len();
    ensure!(s.offset() == m.at && s.len() == k && s.is_empty() == (k == 0), "{n}: {}+{} instead of {}+{k}", s.offset(), s.len(), m.at);
    let all = b.load(s).map_err(|e| format!("{n}: loading: {e}"))?;
    ensure!(all.len() == k && all.iter().map(image).eq(m.v.iter().cloned()), "{n}: loaded as something else");
    let z = size_of::<T>();
    for i in (0..k.min(40)).chain([k.wrapping_sub(1), k, k + 1, usize::MAX, usize::MAX / 2 + 1, r.edge_bits() as usize]) {
        let want = m.v.get(i);
        match (s.get(i), want) {
            (None, None) => (),
            (Some(x), Some(want)) => {
                let got = b.load(x).map_err(|e| format!("{n}: loading element {i}: {e}"))?;
                ensure!(image(got) == *want, "{n}: element {i} is {:02x?} instead of {want:02x?}", image(got));
                let got = b.load(s.get_unchecked(i)).map_err(|e| format!("{n}: loading element {i} unchecked: {e}"))?;
                ensure!(image(got) == *want, "{n}: element {i} is {:02x?} unchecked instead of {want:02x?}", image(got));
            }
            // Its place may be beyond what can be named.
            (None, Some(_)) if m.at + i * z > most => (),
            (a, b) => fail!("{n}: element {i} of {k} is present: {}, instead of {}", a.is_some(), b.is_some()),
        }
    }
    if depth == 0 {
        return Ok(());
    }
    let at = r.below(k + 1);
    match guard(|| s.split_at(at)) {
        Ok((x, y)) => {
            slice::<S, T>(b, x, &Row { at: m.at, v: m.v[..at].to_vec() }, most, r, depth - 1)?;
            slice::<S, T>(b, y, &Row { at: m.at + at * z, v: m.v[at..].to_vec() }, most, r, depth - 1)?;
        }
        Err(e) => ensure!(m.at + at * z > most, "{n}: splitting {k} at {at}: {e}"),
    }
    if !r.chance(1, 8) {
        return Ok(());
    }
    let at = *r.pick(&[k + 1, k + 2, usize::MAX, usize::MAX - k]);
    ensure!(guard(|| s.split_at(at)).is_err(), "{n}: {k} elements are split at {at}");
    Ok(())
}

/// A slice built from another, refused when it is too wide.
fn via<S: Slice, T: Zm, E: ByteOrder, O: Size>(c: &mut Case<'_>, b: &Buf, x: Ref<[T], E, O>, m: &Row, o: usize, l: usize, r: &mut Rng) -> R
where
    S: Slice<Item = T>,
{
    let n = Name::<S>(PhantomData);
    let k = m.v.len();
    let fits = m.at <= o && k <= l;
    let deep = fits || r.chance(1, 8);
    let all = [
        if deep { guard(|| S::from_ref(x)) } else { Err(String::new()) },
        if deep { guard(|| S::with_metadata(m.at, k)) } else { Err(String::new()) },
        S::try_from_ref(x).map_err(|e| e.to_string()),
        S::try_with_metadata(m.at, k).map_err(|e| e.to_string()),
    ];
    for (i, s) in all.into_iter().enumerate() {
        match s {
            Ok(s) => {
                ensure!(fits, "{n}: {}+{k} fits in {o}+{l} (constructor {i})", m.at);
                slice::<S, T>(b, s, m, o, r, if i == 0 { 2 } else { 0 })?;
                c.event("slices compared");
                if i == 0 {
                    // Stored and loaded, by itself and in a row.
                    let mut p = OwnedBuf::new();
                    p.extend_from_slice(&[1; 3][..r.below(4)]);
                    let y = p.store(&s);
                    let z = p.store_slice(&[s, s, s]);
                    p.align_in_place();
                    slice::<S, T>(b, *p.load(y).map_err(err)?, m, o, r, 0)?;
                    for s in p.load(z).map_err(err)? {
                        slice::<S, T>(b, *s, m, o, r, 0)?;
                    }
                    c.event("slices stored and loaded");
                }
            }
            Err(e) => {
                ensure!(!fits, "{n}: {}+{k} is refused (constructor {i}): {e}", m.at);
                c.event("slices refused by the width");
            }
        }
    }
    Ok(())
}

fn rows<E: ByteOrder, O: Size, T: Zm>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize> + Ord + Hash,
{
    let mut r = Rng::new(c.rng.u64());
    let n = Name::<T>(PhantomData);
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let lead = match r.below(3) {
        0 => 0,
        1 => r.below(40),
        _ => (max::<O>() - 20).min(300) - r.below(20),
    };
    b.extend_from_slice(&vec![0x5a; lead]);
    if b.len().next_multiple_of(align_of::<T>()) > max::<O>() {
        return Ok(());
    }
    let k = match r.below(5) {
        0 => 0,
        1 => 1,
        2 if !cfg!(miri) && r.chance(1, 6) => 250 + r.below(12),
        _ => r.below(9),
    };
    let k = k.min(max::<O>());
    let v: Vec<T> = (0..k).map(|_| T::arb(&mut r)).collect();
    let x = b.store_slice(DirtySlice::new(&v, 0xff).get());
    let mut m = Row { at: lead.next_multiple_of(align_of::<T>()), v: v.iter().map(image).collect() };
    b.align_in_place();
    c.seen_bytes(b.as_slice());
    slice::<Ref<[T], E, O>, T>(&b, x, &m, max::<O>(), &mut r, 3)?;
    via::<Ref<[T], Big, u32>, T, _, _>(c, &b, x, &m, u32::MAX as usize, u32::MAX as usize, &mut r)?;
    via::<Ref<[T], Little, usize>, T, _, _>(c, &b, x, &m, usize::MAX, usize::MAX, &mut r)?;
    via::<Ref<[T], E, u8>, T, _, _>(c, &b, x, &m, 255, 255, &mut r)?;
    via::<Packed<[T], u32, u16, E>, T, _, _>(c, &b, x, &m, u32::MAX as usize, 65535, &mut r)?;
    via::<Packed<[T], u8, usize, Big>, T, _, _>(c, &b, x, &m, 255, usize::MAX, &mut r)?;
    via::<Packed<[T], u16, u8, Little>, T, _, _>(c, &b, x, &m, 65535, 255, &mut r)?;
    // Iteration from both ends.
    let z = size_of::<T>();
    let named = (0..k).take_while(|i| m.at + i * z <= max::<O>()).count();
    let mut it = x.iter();
    let (mut i, mut j) = (0, named);
    loop {
        let back = r.bool();
        let got = if back { it.next_back() } else { it.next() };
        if i == j {
            ensure!(got.is_none() && it.next().is_none() && it.next_back().is_none(), "[{n}]: iteration goes on after {named} elements");
            break;
        }
        let p = if back {
            j -= 1;
            j
        } else {
            i += 1;
            i - 1
        };
        let Some(y) = got else { fail!("[{n}]: iteration ends at {p} of {named}") };
        ensure!(y.offset() == m.at + p * z, "[{n}]: element {p} is at {} instead of {}", y.offset(), m.at + p * z);
        ensure!(image(b.load(y).map_err(err)?) == m.v[p], "[{n}]: element {p} differs in iteration");
        ensure!(Some(y) == x.get(p), "[{n}]: element {p} is reached by different references");
    }
    ensure!(x.iter().count() == named && x.iter().rev().count() == named, "[{n}]: iteration has {} elements instead of {named}", x.iter().count());
    c.event("iterated from both ends");
    // Changes through references, together and one by one.
    let bytes = |v: &T, fill| {
        let d = Dirty::new(v, fill);
        unsafe { std::slice::from_raw_parts((d.get() as *const T).cast::<u8>(), size_of::<T>()).to_vec() }
    };
    for _ in 0..r.below(6) {
        if named == 0 {
            break;
        }
        let (p, q) = (r.below(named), r.below(named));
        let (y, w) = (x.get(p).unwrap(), x.get(q).unwrap());
        match r.below(4) {
            0 => {
                b.swap(y, w).map_err(|e| format!("[{n}]: swapping {p} and {q}: {e}"))?;
                m.v.swap(p, q);
                c.event("places swapped");
            }
            1 => {
                let s = b.load_mut(x).map_err(|e| format!("[{n}]: loading mutably: {e}"))?;
                ensure!(s.len() == k, "[{n}]: {} elements mutably", s.len());
                s.reverse();
                m.v.reverse();
                c.event("reversed in place");
            }
            2 => {
                let s = b.load_mut(x).map_err(|e| format!("[{n}]: loading mutably: {e}"))?;
                s.rotate_left(p);
                m.v.rotate_left(p);
                c.event("rotated in place");
            }
            _ => {
                let v = T::arb(&mut r);
                if bytes(&v, 0) == bytes(&v, 0xff) {
                    *b.load_mut(y).map_err(|e| format!("[{n}]: loading {p} mutably: {e}"))? = v;
                    m.v[p] = image(&v);
                    c.event("assigned in place");
                }
            }
        }
        ensure!(b.load(x).map_err(err)?.iter().map(image).eq(m.v.iter().cloned()), "[{n}]: differs after a change");
        ensure!(b.as_slice()[..lead].iter().all(|b| *b == 0x5a), "[{n}]: a change reaches before the row");
    }
    Ok(())
}

/// Arrays as slices.
fn arrays<E: ByteOrder, O: Size, T: Zm>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    let mut r = Rng::new(c.rng.u64());
    fn one<E: ByteOrder, O: Size, T: Zm, const N: usize>(c: &mut Case<'_>, r: &mut Rng) -> R
    where
        O: TryFrom<usize>,
    {
        let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
        b.extend_from_slice(&[3; 5][..r.below(6)]);
        let v = <[T; N]>::arb(r);
        let x = b.store(Dirty::new(&v, 0xee).get());
        b.align_in_place();
        c.seen_bytes(b.as_slice());
        let s = x.array_into_slice();
        slice::<Ref<[T], E, O>, T>(&b, s, &Row { at: x.offset(), v: v.iter().map(image).collect() }, max::<O>(), r, 1)?;
        c.event("arrays as slices");
        Ok(())
    }
    one::<E, O, T, 0>(c, &mut r)?;
    one::<E, O, T, 1>(c, &mut r)?;
    one::<E, O, T, 5>(c, &mut r)
}

fn row_ref<T: Zm, E: ByteOrder, O: Size>(at: usize, k: usize) -> Ref<[T], E, O>
where
    O: TryFrom<usize>,
{
    Ref::with_metadata(at, k)
}

/// Coercion gives the same bytes as other types.
fn coerce_one<E: ByteOrder, O: Size, T: Zm, U: Zm>(c: &mut Case<'_>, r: &mut Rng) -> R
where
    O: TryFrom<usize>,
    [T]: Coerce<[U]>,
{
    let (t, u) = (Name::<T>(PhantomData), Name::<U>(PhantomData));
    let f = size_of::<T>() / size_of::<U>();
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    b.extend_from_slice(&[3; 5][..r.below(6)]);
    let v: Vec<T> = (0..r.below(4)).map(|_| T::arb(r)).collect();
    let x = b.store_slice(&v);
    b.align_in_place();
    let all: Vec<u8> = v.iter().flat_map(image).collect();
    let y = x.coerce::<[U]>();
    ensure!(y.offset() == x.offset() && y.len() == v.len() * f, "[{t}] {}+{} as [{u}] is {}+{}", x.offset(), x.len(), y.offset(), y.len());
    ensure!(b.load(y).map_err(err)?.iter().flat_map(image).eq(all), "[{t}] as [{u}] differs");
    ensure!(x.try_coerce::<[U]>().is_some_and(|z| z.offset() == y.offset() && z.len() == y.len()), "[{t}] as [{u}]: a checked coercion differs");
    // Any length.
    let most = max::<O>();
    let k = match r.below(4) {
        0 => most / f,
        1 => (most / f).saturating_add(1).min(most),
        2 => most,
        _ => (r.edge_bits() as usize) & most,
    };
    let at = (r.edge_bits() as usize) & most;
    let x = row_ref::<T, E, O>(at, k);
    let y = x.try_coerce::<[U]>();
    let fits = k.checked_mul(f).is_some_and(|n| n <= most);
    ensure!(y.is_some() == fits, "{k} × {t} as [{u}] with at most {most}: {}", y.is_some());
    if let Some(y) = y {
        ensure!(y.offset() == at && y.len() == k * f, "[{t}] {at}+{k} as [{u}] is {}+{}", y.offset(), y.len());
        let y = x.coerce::<[U]>();
        ensure!(y.offset() == at && y.len() == k * f, "[{t}] {at}+{k} as [{u}] is {}+{}", y.offset(), y.len());
        c.event("coerced");
    } else {
        match guard(|| x.coerce::<[U]>()) {
            Ok(y) => ensure!(y.offset() == at && y.len() == k.wrapping_mul(f) & most, "[{t}] {at}+{k} as [{u}] wraps around to {}+{}", y.offset(), y.len()),
            Err(e) => ensure!(cfg!(debug_assertions), "[{t}] {at}+{k} as [{u}]: {e}"),
        }
        c.event("coercions which overflow");
    }
    c.seen_bytes(&[at as u64, k as u64].map(u64::to_le_bytes).concat());
    Ok(())
}

/// A single value or array as a slice.
fn coerce_single<E: ByteOrder, O: Size, T: Zm, U: Zm>(c: &mut Case<'_>, r: &mut Rng) -> R
where
    O: TryFrom<usize>,
    T: Coerce<[U]>,
    [T; 3]: Coerce<[U]>,
{
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    b.extend_from_slice(&[3; 5][..r.below(6)]);
    let f = size_of::<T>() / size_of::<U>();
    let v = <[T; 3]>::arb(r);
    let x = b.store(&v[0]);
    let y = b.store(&v);
    b.align_in_place();
    let z = x.coerce::<[U]>();
    ensure!(z.offset() == x.offset() && z.len() == f, "{} as [{}] is {}+{}", name::<T>(), name::<U>(), z.offset(), z.len());
    ensure!(b.load(z).map_err(err)?.iter().flat_map(image).eq(image(&v[0])), "{} as [{}] differs", name::<T>(), name::<U>());
    let z = y.coerce::<[U]>();
    ensure!(z.offset() == y.offset() && z.len() == 3 * f, "[{}; 3] as [{}] is {}+{}", name::<T>(), name::<U>(), z.offset(), z.len());
    ensure!(b.load(z).map_err(err)?.iter().flat_map(image).eq(image(&v)), "[{}; 3] as [{}] differs", name::<T>(), name::<U>());
    ensure!(y.try_coerce::<[U]>().is_some_and(|w| w.len() == 3 * f) && x.try_coerce::<[U]>().is_some_and(|w| w.len() == f), "a checked coercion differs");
    c.event("values coerced to slices");
    Ok(())
}

fn coerce_value<E: ByteOrder, O: Size, T: Zm, U: Zm>(c: &mut Case<'_>, r: &mut Rng) -> R
where
    O: TryFrom<usize>,
    T: Coerce<U>,
{
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    b.extend_from_slice(&[3; 5][..r.below(6)]);
    let v = T::arb(r);
    let x = b.store(&v);
    b.align_in_place();
    let y = x.coerce::<U>();
    ensure!(y.offset() == x.offset() && image(b.load(y).map_err(err)?) == image(&v), "{} as {} differs", name::<T>(), name::<U>());
    ensure!(x.try_coerce::<U>().is_some_and(|z| z.offset() == x.offset()), "{} as {} is refused", name::<T>(), name::<U>());
    c.event("values coerced");
    Ok(())
}

fn coerce<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    let r = &mut Rng::new(c.rng.u64());
    macro_rules! all {
        ($f:ident: $([$($t:ty),*] => [$($u:ty),*];)*) => {$( all!(@ $f [$($t),*] [$($u),*]); )*};
        (@ $f:ident [$($t:ty),*] $u:tt) => {$( all!(@@ $f $t, $u); )*};
        (@@ $f:ident $t:ty, [$($u:ty),*]) => {$( if r.chance(1, 8) { $f::<E, O, $t, $u>(c, r)?; } )*};
    }
    all!(coerce_one:
        [u8, i8] => [u8, i8];
        [u16, i16] => [u16, i16, [u8; 2], [i8; 2], u8, i8];
        [u32, i32] => [u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4], u16, i16, [u8; 2], [i8; 2], u8, i8];
        [u64, i64] => [u64, i64, [u32; 2], [i32; 2], [u16; 4], [i16; 4], [u8; 8], [i8; 8], u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4], u16, i16, [u8; 2], [i8; 2], u8, i8];
        [u128, i128] => [u128, i128, [u64; 2], [i64; 2], [u32; 4], [i32; 4], [u16; 8], [i16; 8], [u8; 16], [i8; 16], u64, i64, [u32; 2], [i32; 2], [u16; 4], [i16; 4], [u8; 8], [i8; 8], u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4], u16, i16, [u8; 2], [i8; 2], u8, i8];
    );
    all!(coerce_single:
        [u8, i8] => [u8, i8];
        [u16, i16] => [u16, i16, [u8; 2], u8, i8];
        [u32, i32] => [u32, i32, [u16; 2], [u8; 4], u16, i16, u8, i8];
        [u64, i64] => [u64, i64, [u32; 2], u32, i32, u16, i16, [i8; 2], u8, i8];
        [u128, i128] => [u128, i128, [u64; 2], u64, i64, u32, i32, u16, i16, u8, i8];
    );
    all!(coerce_value:
        [u8, i8, NonZeroU8, NonZeroI8, Wrapping<u8>] => [u8, i8];
        [u16, i16] => [u16, i16, [u8; 2], [i8; 2]];
        [NonZeroU16, NonZeroI16, Wrapping<i16>, Wrapping<NonZeroU16>] => [u16, i16];
        [u32, i32] => [u32, i32, [u16; 2], [i16; 2], [u8; 4], [i8; 4]];
        [NonZeroU32, NonZeroI32, Wrapping<i32>, Wrapping<Wrapping<u32>>] => [u32, i32];
        [u64, i64] => [u64, i64, [u32; 2], [i32; 2], [u16; 4], [i16; 4], [u8; 8], [i8; 8]];
        [NonZeroU64, NonZeroI64, Wrapping<u64>] => [u64, i64];
        [u128, i128] => [u128, i128, [u64; 2], [i64; 2], [u32; 4], [i32; 4], [u16; 8], [i16; 8], [u8; 16], [i8; 16]];
        [NonZeroU128, NonZeroI128, Wrapping<i128>] => [u128, i128];
    );
    // Text and bytes.
    let s: String = (0..r.below(6)).map(|_| char::arb(r)).collect();
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    b.extend_from_slice(&[3; 5][..r.below(6)]);
    let x = b.store_unsized(s.as_str());
    let (y, z) = (x.coerce::<[u8]>(), x.coerce::<[i8]>());
    ensure!(y.offset() == x.offset() && y.len() == s.len() && z.offset() == x.offset() && z.len() == s.len(), "a string of {} bytes as bytes is {}+{}", s.len(), y.offset(), y.len());
    ensure!(b.load(y).map_err(err)? == s.as_bytes(), "{s:?} as bytes is {:?}", b.load(y));
    ensure!(b.load(z).map_err(err)?.iter().map(|b| *b as u8).eq(s.bytes()), "{s:?} as signed bytes differs");
    let back = y.coerce::<str>();
    ensure!(b.load(back).map_err(err)? == s && b.load(z.coerce::<str>()).map_err(err)? == s, "{s:?} as bytes as a string differs");
    let bytes: Vec<u32> = (0..r.below(4)).map(|_| if r.chance(1, 4) { r.edge_bits() as u32 } else { u32::from_ne_bytes(*r.pick(&[*b"abcd", *b"\xc3\xa4\xc3\xa5", *b"\xf0\x9f\x92\xa9", *b"\0\xc3\x28z"])) }).collect();
    let x = b.store_slice(&bytes);
    b.align_in_place();
    c.seen_bytes(b.as_slice());
    let y = x.coerce::<str>();
    let all: Vec<u8> = bytes.iter().flat_map(|b| b.to_ne_bytes()).collect();
    ensure!(y.offset() == x.offset() && y.len() == 4 * bytes.len(), "{} words as a string are {}+{}", bytes.len(), y.offset(), y.len());
    match (b.load(y), std::str::from_utf8(&all)) {
        (Ok(a), Ok(b)) => ensure!(a == b, "words as a string are {a:?} instead of {b:?}"),
        (Err(_), Err(_)) => (),
        (a, b) => fail!("words {all:02x?} as a string are {a:?} instead of {b:?}"),
    }
    c.event("strings coerced");
    Ok(())
}

/// A key which refers to what it is ordered by.
#[derive(Clone, Copy, ZeroCopy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(C)]
struct Key {
    a: u8,
    b: u32,
}

fn search<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    let mut r = Rng::new(c.rng.u64());
    fn check<T: ZeroCopy + Ord + std::fmt::Debug, S: Slice<Item = T>>(c: &mut Case<'_>, b: &Buf, s: S, v: &[T], q: &T, r: &mut Rng) -> R {
        let lo = v.partition_point(|x| x < q);
        let hi = v.partition_point(|x| x <= q);
        let ok = |x: &BinarySearch| match *x {
            BinarySearch::Found(i) => (lo..hi).contains(&i),
            BinarySearch::Missing(i) => lo == hi && i == lo,
        };
        let x = binary_search(b, s, &q).map_err(err)?;
        ensure!(ok(&x), "{q:?} in {v:?} is {x:?}");
        let mut asked = vec![];
        let x = binary_search_by(b, s, |x| {
            asked.push(x as *const T as usize);
            Ok(x.cmp(q))
        })
        .map_err(err)?;
        ensure!(ok(&x), "{q:?} in {v:?} is {x:?} by comparing");
        ensure!(asked.len() as u32 <= usize::BITS - v.len().leading_zeros(), "{} comparisons to search {}", asked.len(), v.len());
        c.event("searches compared");
        // An error from the comparison is the result.
        let t = r.below(4);
        let mut n = 0;
        let e = binary_search_by(b, s, |x| {
            n += 1;
            if n > t {
                b.load(Ref::<u8, Native, usize>::new(usize::MAX))?;
            }
            Ok(x.cmp(q))
        });
        ensure!(e.is_err() == (n > t) && n <= t + 1, "a failing comparison: {e:?} after {n} of {t}");
        Ok(())
    }
    macro_rules! by {
        ($t:ty, $gen:expr) => {{
            let gen: fn(&mut Rng) -> $t = $gen;
            let mut v: Vec<$t> = (0..if r.bool() { r.below(6) } else { r.below(70) }).map(|_| gen(&mut r)).collect();
            v.sort();
            let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
            b.extend_from_slice(&[3; 5][..r.below(6)]);
            let s = b.store_slice(&v);
            b.align_in_place();
            c.seen_bytes(b.as_slice());
            for _ in 0..4 {
                let q = if !v.is_empty() && r.bool() { *r.pick(&v) } else { gen(&mut r) };
                if s.offset() + s.len() * size_of::<$t>() <= max::<O>() {
                    check(c, &b, s, &v, &q, &mut r)?;
                }
                check(c, &b, Packed::<[$t], u32, u8, Big>::from_ref(s), &v, &q, &mut r)?;
            }
        }};
    }
    by!(u8, |r| r.below(40) as u8);
    by!(i16, |r| r.edge_bits() as i16);
    by!(u64, |r| r.edge_bits() as u64);
    by!(Key, |r| Key { a: r.below(3) as u8, b: r.below(4) as u32 });
    by!(bool, |r| r.bool());
    // Rows of strings, searched by what they refer to.
    let mut v: Vec<String> = (0..r.below(20)).map(|_| (0..r.below(4)).map(|_| *r.pick(&['a', 'b', 'ä', 'z'])).collect()).collect();
    v.sort();
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<u32>();
    let x: Vec<Ref<str, E, u32>> = v.iter().map(|s| b.store_unsized(s.as_str())).collect();
    let s = b.store_slice(&x);
    b.align_in_place();
    for _ in 0..3 {
        let q: String = if !v.is_empty() && r.bool() { r.pick(&v).clone() } else { (0..r.below(4)).map(|_| *r.pick(&['a', 'b', 'ä', 'z'])).collect() };
        let x = binary_search_by(&b, s, |x| Ok(b.load(*x)?.cmp(q.as_str()))).map_err(err)?;
        let want = match v.binary_search(&q) {
            Ok(_) => None,
            Err(i) => Some(i),
        };
        match (&x, want) {
            (BinarySearch::Found(i), None) => ensure!(v[*i] == q, "{q:?} is found at {i} of {v:?}"),
            (BinarySearch::Missing(i), Some(w)) => ensure!(*i == w, "{q:?} is missing at {i} of {v:?}"),
            _ => fail!("{q:?} in {v:?} is {x:?}"),
        }
        c.event("searches through references compared");
    }
    Ok(())
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Identity, order and hashing of references.
fn identity<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize> + Ord + Hash,
{
    let mut r = Rng::new(c.rng.u64());
    let most = max::<O>();
    let small = r.bool();
    let num = |r: &mut Rng| if small { r.below(4) } else { r.edge_bits() as usize & most };
    let all: Vec<(usize, usize)> = (0..2 + r.below(8)).map(|_| (num(&mut r), num(&mut r))).collect();
    c.seen_bytes(&all.iter().flat_map(|(a, b)| [*a as u64, *b as u64]).flat_map(u64::to_le_bytes).collect::<Vec<_>>());
    macro_rules! on {
        ($t:ty, $make:expr, $key:expr) => {{
            let make: fn((usize, usize)) -> Ref<$t, E, O> = $make;
            let key: fn((usize, usize)) -> (usize, usize) = $key;
            for a in &all {
                for b in &all {
                    let (x, y) = (make(*a), make(*b));
                    let want = key(*a).cmp(&key(*b));
                    ensure!((x == y) == (want == Ordering::Equal), "{}: {a:?} == {b:?}: {}", name::<$t>(), x == y);
                    ensure!(x.cmp(&y) == want && x.partial_cmp(&y) == Some(want), "{}: {a:?} and {b:?} compare as {:?} and {:?}", name::<$t>(), x.cmp(&y), x.partial_cmp(&y));
                    ensure!(x != y || hash(&x) == hash(&y), "{}: {a:?} and {b:?} hash differently", name::<$t>());
                    c.event("references compared");
                }
            }
            let mut h = HashMap::new();
            let mut t = BTreeMap::new();
            let mut m = BTreeMap::new();
            for (i, a) in all.iter().enumerate() {
                let old = m.insert(key(*a), i);
                ensure!(h.insert(make(*a), i) == old && t.insert(make(*a), i) == old, "{}: {a:?} is another key", name::<$t>());
            }
            ensure!(t.iter().map(|(k, v)| (k.offset(), *v)).eq(m.iter().map(|(k, v)| (k.0, *v))), "{}: order of keys", name::<$t>());
            // Stored in a row, loaded, and still the same.
            let v: Vec<_> = all.iter().map(|a| make(*a)).collect();
            let mut p = OwnedBuf::new();
            p.extend_from_slice(&[1; 3][..r.below(4)]);
            let s = p.store_slice(&v);
            p.align_in_place();
            let got = p.load(s).map_err(err)?;
            ensure!(got == v, "{}: {v:?} are loaded as {got:?}", name::<$t>());
            for (x, a) in got.iter().zip(&all) {
                ensure!(x.offset() == a.0, "{}: {a:?} points to {}", name::<$t>(), x.offset());
                let (e, f) = (x.to_be().to_le().to_endian::<E>(), x.to_ne());
                ensure!(e == *x && f.offset() == x.offset() && format!("{x:?}") == format!("{e:?}"), "{}: {a:?} converted back and forth is {e:?}", name::<$t>());
            }
            c.event("references stored and loaded");
        }};
    }
    on!(u32, |a| Ref::new(a.0), |a| (a.0, 0));
    on!([u16], |a| Ref::with_metadata(a.0, a.1), |a| a);
    on!([Strict], |a| Ref::with_metadata(a.0, a.1), |a| a);
    on!(str, |a| Ref::with_metadata(a.0, a.1), |a| a);
    for a in &all {
        let x = Ref::<[u16], E, O>::with_metadata(a.0, a.1);
        let y = Ref::<str, E, O>::with_metadata(a.0, a.1);
        ensure!((x.len(), x.is_empty(), y.len(), y.is_empty()) == (a.1, a.1 == 0, a.1, a.1 == 0), "{a:?} has lengths {} and {}", x.len(), y.len());
    }
    ensure!(Ref::<u32, E, O>::zero() == Ref::new(0usize), "zero is not zero");
    Ok(())
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
struct Node<E: ByteOrder, O: Size> {
    v: Endian<u32, E>,
    text: Ref<str, E, O>,
    next: Ref<[Ref<Node<E, O>, E, O>], E, O>,
}

/// What is visited is what was stored.
#[derive(Visit, Clone, Copy, ZeroCopy, PartialEq, Debug)]
#[repr(C)]
struct Visited {
    a: u32,
}

fn visits<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    let mut r = Rng::new(c.rng.u64());
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    b.extend_from_slice(&[3; 5][..r.below(6)]);
    let s: String = (0..r.below(6)).map(|_| char::arb(&mut r)).collect();
    let v: Vec<u16> = (0..r.below(6)).map(|_| r.edge_bits() as u16).collect();
    let w = r.edge_bits() as u64;
    let (xs, xv, xw) = (b.store_unsized(s.as_str()), b.store_slice(&v), b.store(&w));
    let d = Visited { a: r.u64() as u32 };
    let xd = b.store(&d);
    // References to references.
    let xx = b.store(&xw);
    let xxx = b.store(&xx);
    b.align_in_place();
    c.seen_bytes(b.as_slice());
    ensure!(xs.visit(&b, |g| g == s).map_err(err)?, "a visited string differs");
    ensure!(xv.visit(&b, |g| g == v).map_err(err)?, "a visited row differs");
    ensure!(xw.visit(&b, |g| *g == w).map_err(err)?, "a visited number differs");
    ensure!(xd.visit(&b, |g| *g == d).map_err(err)?, "a visited struct differs");
    ensure!(d.visit(&b, |g| *g == d).map_err(err)?, "a struct visited in place differs");
    ensure!((&w).visit(&b, |g| *g == w).map_err(err)? && w.visit(&b, |g| *g == w).map_err(err)?, "a number visited in place differs");
    ensure!(s.as_str().visit(&b, |g| g == s).map_err(err)? && v[..].visit(&b, |g| g == v).map_err(err)?, "something visited in place differs");
    ensure!(*b.load(*b.load(*b.load(xxx).map_err(err)?).map_err(err)?).map_err(err)? == w, "through two references differs");
    // Out of range.
    for x in [Ref::<u64, E, O>::new(b.len().saturating_sub(r.below(8)).min(max::<O>())), Ref::new(max::<O>())] {
        let p = x.offset();
        let ok = p.checked_add(8).is_some_and(|e| e <= b.len()) && p % 8 == 0;
        ensure!(x.visit(&b, |_| ()).is_ok() == ok && b.load(x).is_ok() == ok && b.load_mut(x).is_ok() == ok, "a reference to {p} of {}", b.len());
    }
    c.event("visits compared");
    // Strings in place.
    let up = s.to_ascii_uppercase();
    let before = b.as_slice().to_vec();
    b.load_mut(xs).map_err(err)?.make_ascii_uppercase();
    ensure!(b.load(xs).map_err(err)? == up, "{s:?} in upper case is {:?}", b.load(xs));
    let (i, j) = (xs.offset(), xs.offset() + s.len());
    ensure!(b.as_slice()[..i] == before[..i] && b.as_slice()[j..] == before[j..], "changing a string in place reaches beyond it");
    c.event("strings changed in place");
    // Bytes by position and range.
    let v = b.as_slice().to_vec();
    let n = v.len();
    for _ in 0..6 {
        let (i, j) = (r.below(n + 3), r.below(n + 3));
        ensure!(b.get(i) == v.get(i), "byte {i} of {n}");
        if i <= j {
            ensure!(b.get(i..j) == v.get(i..j) && b.get(..j) == v.get(..j) && b.get(i..) == v.get(i..), "bytes {i}..{j} of {n}");
        }
        ensure!(b.get_mut(i..).map(|b| b.len()) == v.get(i..).map(|b| b.len()), "mutable bytes {i}.. of {n}");
    }
    ensure!(b.get(i.max(j) + 1..i.min(j)).is_none(), "a range which ends before it begins");
    Ok(())
}

/// A tree of references built bottom up, and walked with changes.
fn trees<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    struct M {
        v: u32,
        text: String,
        next: Vec<M>,
    }
    fn arb(r: &mut Rng, d: usize) -> M {
        M { v: r.u64() as u32, text: (0..r.below(3)).map(|_| char::arb(r)).collect(), next: if d == 0 { vec![] } else { (0..r.below(4)).map(|_| arb(r, d - 1)).collect() } }
    }
    fn store<E: ByteOrder, O: Size>(b: &mut OwnedBuf<E, O>, m: &M) -> Ref<Node<E, O>, E, O>
    where
        O: TryFrom<usize>,
    {
        let next: Vec<_> = m.next.iter().map(|m| store(b, m)).collect();
        let next = b.store_slice(&next);
        let text = b.store_unsized(m.text.as_str());
        b.store(&Node { v: Endian::new(m.v), text, next })
    }
    fn check<E: ByteOrder, O: Size>(c: &mut Case<'_>, b: &Buf, x: Ref<Node<E, O>, E, O>, m: &M) -> R {
        let n = b.load(x).map_err(err)?;
        ensure!(n.v.to_ne() == m.v && b.load(n.text).map_err(err)? == m.text && n.next.len() == m.next.len(), "a node differs");
        for (i, m) in m.next.iter().enumerate() {
            let x = n.next.get(i).ok_or("a child is absent")?;
            check(c, b, *b.load(x).map_err(err)?, m)?;
        }
        for (x, m) in n.next.iter().zip(&m.next) {
            ensure!(b.load(*b.load(x).map_err(err)?).map_err(err)?.v.to_ne() == m.v, "a child differs in iteration");
        }
        c.event("nodes compared");
        Ok(())
    }
    let mut r = Rng::new(c.rng.u64());
    let mut m = arb(&mut r, 3);
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let x = store(&mut b, &m);
    b.align_in_place();
    c.seen_bytes(b.as_slice());
    check(c, &b, x, &m)?;
    // Exchange children.
    for _ in 0..r.below(5) {
        let (mut x, mut m) = (x, &mut m);
        while r.bool() && !m.next.is_empty() {
            let i = r.below(m.next.len());
            x = *b.load(b.load(x).map_err(err)?.next.get(i).ok_or("absent")?).map_err(err)?;
            m = &mut m.next[i];
        }
        if m.next.len() > 1 {
            let (i, j) = (r.below(m.next.len()), r.below(m.next.len()));
            let next = b.load(x).map_err(err)?.next;
            let (p, q) = (next.get(i).ok_or("absent")?, next.get(j).ok_or("absent")?);
            if r.bool() {
                b.swap(p, q).map_err(err)?;
            } else {
                let (p, q) = (*b.load(p).map_err(err)?, *b.load(q).map_err(err)?);
                b.swap(p, q).map_err(err)?;
            }
            m.next.swap(i, j);
            c.event("children exchanged");
        } else {
            let v = r.u64() as u32;
            b.load_mut(x).map_err(err)?.v = Endian::new(v);
            m.v = v;
            c.event("nodes changed");
        }
    }
    check(c, &b, x, &m)
}

fn main() {
    let mut g = Groups::new();
    macro_rules! on {
        ($e:ty, $o:ty, $n:expr) => {
            g.add(concat!("coerce ", $n), coerce::<$e, $o>);
            g.add(concat!("identity ", $n), identity::<$e, $o>);
            g.add(concat!("visits ", $n), visits::<$e, $o>);
            g.add(concat!("search ", $n), search::<$e, $o>);
        };
    }
    on!(Native, u32, "native u32");
    on!(Big, u16, "big u16");
    on!(Big, usize, "big usize");
    on!(Little, u64, "little u64");
    g.add("identity u8", identity::<Big, u8>);
    g.add("coerce u8", coerce::<Big, u8>);
    g.add("trees", trees::<Native, u32>);
    g.add("trees big", trees::<Big, usize>);
    g.add("trees u16", trees::<Big, u16>);
    macro_rules! push {
        ($t:ty) => {
            g.add(format!("rows {}", name::<$t>()), |c| match c.rng.below(4) {
                0 => rows::<Native, u32, $t>(c),
                1 => rows::<Big, u16, $t>(c),
                2 => rows::<Little, usize, $t>(c),
                _ => rows::<Big, u8, $t>(c),
            });
            g.add(format!("arrays {}", name::<$t>()), |c| if c.rng.bool() { arrays::<Native, u32, $t>(c) } else { arrays::<Big, u16, $t>(c) });
        };
    }
    each_zm!(push);
    vh::rt::main(g);
}
