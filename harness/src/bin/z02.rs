//! Z02: safe access to any buffer gives a valid value or an error.
use musli_zerocopy::buf::{Load, Visit};
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::slice::{binary_search, BinarySearch, Packed, Slice};
use musli_zerocopy::{phf, swiss, trie, Buf, ByteOrder, OwnedBuf, Ref, Size};
use std::mem::{align_of, size_of};
use vh::rng::Rng;
use vh::rt::{guard, Case, Groups, R};
use vh::zc::*;
use vh::{each_zm, ensure, fail};

/// Bytes at a chosen address modulo 64, which end where the allocation ends.
struct At {
    mem: Vec<u8>,
    start: usize,
}
impl At {
    fn new(bytes: &[u8], phase: usize) -> Self {
        // The allocator decides on the address; the phase is added to it.
        let mut mem = Vec::with_capacity(64 + phase + bytes.len());
        let base = mem.as_ptr() as usize;
        let start = (base.next_multiple_of(64) - base) + phase;
        mem.resize(start, 0xcc);
        mem.extend_from_slice(bytes);
        // What follows is out of bounds for the sanitizer (the capacity is
        // never larger than the allocation).
        mem.shrink_to_fit();
        let now = mem.as_ptr() as usize;
        if now != base {
            // Moved: keep whatever address this is.
        }
        At { mem, start }
    }
    fn get(&self) -> &[u8] {
        &self.mem[self.start..]
    }
    fn get_mut(&mut self) -> &mut [u8] {
        &mut self.mem[self.start..]
    }
}

fn offset(r: &mut Rng, len: usize, size: usize) -> usize {
    match r.below(12) {
        0 => usize::MAX,
        1 => usize::MAX - r.below(size + 2),
        2 => (1usize << r.below(64)).wrapping_sub(r.below(3)),
        3 => len + r.below(20),
        4..=6 => len.saturating_sub(size) + r.below(3),
        _ => r.below(len + 2),
    }
}

/// Bytes which may or may not be values of the type.
fn hostile<T: Zm>(r: &mut Rng, n: usize) -> Vec<u8> {
    let z = size_of::<T>();
    let mut b = match r.below(4) {
        0 => r.bytes(n),
        1 => vec![*r.pick(&[0u8, 1, 2, 0xff]); n],
        _ => {
            // Values in a row with noise for padding.
            let mut b = r.bytes(n);
            if z > 0 {
                let first = r.below(z.min(9));
                for c in b[first.min(n)..].chunks_exact_mut(z) {
                    T::arb(r).image(c);
                }
            }
            b
        }
    };
    if n > 0 {
        for _ in 0..r.below(4) {
            let i = r.below(n);
            b[i] = *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xd8, 0xff]);
        }
    }
    b
}

/// Whether the bytes of a loaded value are those of the buffer.
fn covers<T: Zm>(v: &T, b: &[u8]) -> bool {
    let mut o = b.to_vec();
    v.image(&mut o);
    o == b
}

fn load<T: Zm>(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let n = name::<T>();
    let (z, al) = (size_of::<T>(), align_of::<T>());
    let len = r.below(3 * z + al + 3);
    let bytes = hostile::<T>(&mut r, len);
    let phase = if r.bool() { r.below(2) } else { r.below(64) };
    let mut mem = At::new(&bytes, phase);
    let addr = mem.get().as_ptr() as usize;
    for _ in 0..8 {
        let at = offset(&mut r, len, z);
        let part = at.checked_add(z).filter(|e| *e <= len).map(|e| &bytes[at..e]);
        let good = part.is_some_and(T::valid);
        let aligned = addr.wrapping_add(at) % al == 0;
        let ctx = || format!("{n} at {at} of {len} bytes at address …{:02x}: {:02x?}", addr % 256, &bytes[..]);
        let b = Buf::new(mem.get());
        match b.load_at::<T>(at) {
            Ok(v) => {
                ensure!(good && aligned, "load_at gives a value, with valid bytes in bounds: {good}, aligned: {aligned}; {}", ctx());
                ensure!(v as *const T as usize == addr + at, "load_at gives a value at another address; {}", ctx());
                ensure!(covers(v, part.unwrap()), "load_at gives another value; {}", ctx());
                c.event("valid: loaded");
            }
            Err(e) => {
                let _ = e.to_string();
                ensure!(!(good && aligned), "load_at refuses ({e}); {}", ctx());
                c.event("invalid, out of bounds or unaligned: refused");
            }
        }
        match b.load_at_unaligned::<T>(at) {
            Ok(v) => {
                ensure!(good, "load_at_unaligned gives a value, valid bytes in bounds: {good}; {}", ctx());
                ensure!(covers(&v, part.unwrap()), "load_at_unaligned gives another value; {}", ctx());
                c.event("valid: loaded unaligned");
            }
            Err(e) => {
                let _ = e.to_string();
                ensure!(!good, "load_at_unaligned refuses ({e}); {}", ctx());
                c.event("invalid or out of bounds: refused unaligned");
            }
        }
        // References of any order and width.
        macro_rules! via {
            ($e:ty, $o:ty) => {
                if let Ok(x) = Ref::<T, $e, $o>::try_with_metadata(at, ()) {
                    ensure!(x.offset() == at, "a reference to {at} has offset {}", x.offset());
                    let got = b.load(x).is_ok();
                    ensure!(got == (good && aligned), "loading through a reference succeeds: {got}, valid bytes in bounds: {good}, aligned: {aligned}; {}", ctx());
                    let got = x.visit(b, |v| covers(v, part.unwrap()));
                    ensure!(got.as_ref().ok() == (good && aligned).then_some(&true), "visiting through a reference gives {:?}; {}", got.ok(), ctx());
                }
            };
        }
        via!(Native, u32);
        via!(Big, u8);
        via!(Big, u64);
        via!(Little, usize);
        let bm = Buf::new_mut(mem.get_mut());
        match bm.load_at_mut::<T>(at) {
            Ok(v) => {
                ensure!(good && aligned, "load_at_mut gives a value, with valid bytes in bounds: {good}, aligned: {aligned}; {}", ctx());
                ensure!(covers(v, part.unwrap()), "load_at_mut gives another value; {}", ctx());
            }
            Err(e) => ensure!(!(good && aligned), "load_at_mut refuses ({e}); {}", ctx()),
        }
        if let Ok(x) = Ref::<T, Big, usize>::try_with_metadata(at, ()) {
            let got = bm.load_mut(x).is_ok();
            ensure!(got == (good && aligned), "load_mut succeeds: {got}; {}", ctx());
        }
    }
    // From bytes.
    let ok = len >= z && addr % al == 0 && T::valid(&bytes[..z]);
    let got = T::from_bytes(mem.get());
    ensure!(got.is_ok() == ok, "{n}: from_bytes succeeds: {}, expected {ok}; {bytes:02x?}", got.is_ok());
    if let Ok(v) = got {
        ensure!(covers(v, &bytes[..z]), "{n}: from_bytes gives another value");
    }
    let got = T::from_bytes_mut(mem.get_mut()).is_ok();
    ensure!(got == ok, "{n}: from_bytes_mut succeeds: {got}, expected {ok}; {bytes:02x?}");
    let b = Buf::new(mem.get());
    let fits = len >= z && addr % al == 0;
    ensure!(b.is_compatible_with::<T>() == fits && b.ensure_compatible_with::<T>().is_ok() == fits, "{n}: is_compatible_with is {}, expected {fits}", b.is_compatible_with::<T>());
    ensure!(b.validate_struct::<T>().is_ok() == fits, "{n}: validate_struct succeeds although the layout does not fit or the reverse");
    ensure!(b.is_aligned::<T>() == (addr % al == 0), "{n}: is_aligned");
    // A copy which is aligned holds the same bytes.
    let a = b.to_aligned::<T>();
    ensure!(a[..] == bytes[..] && a[..].as_ptr() as usize % al == 0, "{n}: an aligned copy differs");
    let got = a.load_at::<T>(0).is_ok();
    ensure!(got == (len >= z && T::valid(&bytes[..z])), "{n}: loading from an aligned copy succeeds: {got}; {bytes:02x?}");
    ensure!(mem.get() == &bytes[..], "{n}: reading changed the buffer");
    c.seen_bytes(&bytes);
    Ok(())
}

fn slices<T: Zm>(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let n = name::<T>();
    let (z, al) = (size_of::<T>(), align_of::<T>());
    let len = r.below(5 * z + al + 3);
    let bytes = hostile::<T>(&mut r, len);
    let phase = if r.bool() { r.below(2) } else { r.below(64) };
    let mut mem = At::new(&bytes, phase);
    let addr = mem.get().as_ptr() as usize;
    for _ in 0..6 {
        let at = offset(&mut r, len, z);
        let count = if r.bool() { r.below(6) } else { offset(&mut r, 5, 1) };
        let part = count.checked_mul(z).and_then(|z| at.checked_add(z)).filter(|e| *e <= len).map(|e| &bytes[at..e]);
        let aligned = addr.wrapping_add(at) % al == 0;
        let ctx = || format!("{count} × {n} at {at} of {len} bytes at address …{:02x}: {:02x?}", addr % 256, &bytes[..]);
        // Zero-sized elements are not looked at.
        let valid = |i: usize| part.is_some_and(|p| T::valid(&p[i * z..][..z]));
        let good = part.is_some() && (z == 0 || (0..count).all(valid));
        // An unreasonable number of zero-sized values which need validation
        // is left alone.
        if z == 0 && count > 1000 && !T::ANY_BITS {
            continue;
        }
        macro_rules! via {
            ($x:expr, $o:ty, $item:ty, $what:expr) => {{
                let x = $x;
                let b = Buf::new(mem.get());
                ensure!(x.offset() == at && x.len() == count && x.is_empty() == (count == 0), "{}: {}+{}; {}", $what, x.offset(), x.len(), ctx());
                match guard(|| b.load(x).map(|v| v.len() == count && (z == 0 || v.iter().enumerate().all(|(i, v)| covers(v, &part.unwrap()[i * z..][..z]))))) {
                    Err(e) => fail!("{}: panics: {e}; {}", $what, ctx()),
                    Ok(Ok(same)) => {
                        ensure!(good && aligned, "{}: loads, with valid bytes in bounds: {good}, aligned: {aligned}; {}", $what, ctx());
                        ensure!(same, "{}: other values; {}", $what, ctx());
                        c.event("valid rows: loaded");
                    }
                    Ok(Err(e)) => {
                        let _ = e.to_string();
                        ensure!(!(good && aligned), "{}: refuses ({e}); {}", $what, ctx());
                        c.event("other rows: refused");
                    }
                }
                // One element.
                let i = offset(&mut r, count.min(6), 1);
                match guard(|| x.get(i).map(|x| b.load(x).map(|v| image(v)).map_err(|_| ()))) {
                    Err(e) => fail!("{}: get({i}) panics: {e}; {}", $what, ctx()),
                    Ok(None) => {
                        // Absent, or not expressible as a reference.
                        let o = i.checked_mul(z).and_then(|o| at.checked_add(o));
                        ensure!(i >= count || o.is_none() || o.is_some_and(|o| o > len || <$item>::try_from(o).is_err()), "{}: element {i} is absent; {}", $what, ctx());
                    }
                    Ok(Some(got)) => {
                        ensure!(i < count, "{}: element {i} of {count} exists; {}", $what, ctx());
                        let o = i.checked_mul(z).and_then(|o| at.checked_add(o));
                        let part = o.and_then(|o| Some(o..o.checked_add(z)?)).and_then(|o| bytes.get(o));
                        let ok = part.is_some_and(T::valid) && addr.wrapping_add(o.unwrap()) % al == 0;
                        ensure!(got.is_ok() == ok, "{}: loading element {i} succeeds: {}, expected {ok}; {}", $what, got.is_ok(), ctx());
                        c.event("elements of hostile rows");
                    }
                }
                // The generic interface.
                if let Err(e) = guard(|| {
                    let y = Slice::get(x, i).map(|y| Load::load(&y, b).is_ok());
                    let h = count / 2;
                    let mid = at.checked_add(h.checked_mul(z)?)?;
                    if mid <= len && <$o>::try_from(mid).is_ok() {
                        let (p, q) = Slice::split_at(x, h);
                        assert!(Slice::len(p) == h && Slice::len(q) == count - h && Slice::offset(p) == at && Slice::offset(q) == at + h * z);
                    }
                    y
                }) {
                    fail!("{}: the slice interface panics: {e}; {}", $what, ctx());
                }
            }};
        }
        macro_rules! both {
            ($e:ty, $o:ty) => {
                if let Ok(x) = Ref::<[T], $e, $o>::try_with_metadata(at, count) {
                    via!(x, $o, $o, "reference");
                    // Elements one by one, from both ends.
                    let b = Buf::new(mem.get());
                    if let Err(e) = guard(|| {
                        for y in x.iter().take(4).chain(x.iter().rev().take(4)) {
                            let _ = b.load(y).map(|v| image(v));
                        }
                        for (i, y) in x.iter().enumerate().take(4) {
                            let z = x.get(i).expect("an element of the iterator is absent");
                            assert!(y.offset() == z.offset(), "an element of the iterator is elsewhere");
                        }
                    }) {
                        fail!("iterating over a reference panics: {e}; {}", ctx());
                    }
                    let bm = Buf::new_mut(mem.get_mut());
                    let got = bm.load_mut(x).is_ok();
                    ensure!(got == (good && aligned), "load_mut succeeds: {got}; {}", ctx());
                }
            };
        }
        both!(Native, u32);
        both!(Big, u8);
        both!(Big, usize);
        both!(Little, u64);
        if let Ok(x) = Packed::<[T], u32, u16, Big>::try_from_raw_parts(at, count) {
            via!(x, u32, usize, "packed");
        }
        if let Ok(x) = Packed::<[T], usize, usize>::try_from_raw_parts(at, count) {
            via!(x, usize, usize, "packed");
        }
    }
    ensure!(mem.get() == &bytes[..], "{n}: reading changed the buffer");
    c.seen_bytes(&bytes);
    Ok(())
}

fn strings(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let mut bytes: Vec<u8> = (0..r.below(8)).flat_map(|_| char::arb(&mut r).to_string().into_bytes()).collect();
    for _ in 0..r.below(3) {
        if !bytes.is_empty() {
            let i = r.below(bytes.len());
            bytes[i] = r.u8();
        }
    }
    let len = bytes.len();
    let mut mem = At::new(&bytes, r.below(3));
    for _ in 0..8 {
        let at = offset(&mut r, len, 1);
        let count = if r.bool() { r.below(9) } else { offset(&mut r, len, 1) };
        let want = at.checked_add(count).and_then(|e| bytes.get(at..e)).and_then(|b| std::str::from_utf8(b).ok());
        macro_rules! via {
            ($e:ty, $o:ty) => {
                if let Ok(x) = Ref::<str, $e, $o>::try_with_metadata(at, count) {
                    let got = Buf::new(mem.get()).load(x).map_err(|e| e.to_string());
                    ensure!(got.as_ref().ok() == want.as_ref(), "{at}+{count} of {bytes:02x?} is {got:?} instead of {want:?}");
                    let got = Buf::new_mut(mem.get_mut()).load_mut(x).map(|s| s.to_string()).map_err(|e| e.to_string());
                    ensure!(got.as_deref().ok() == want, "{at}+{count} of {bytes:02x?} is {got:?} instead of {want:?}");
                    c.event(if want.is_some() { "UTF-8: loaded" } else { "not UTF-8 or out of bounds: refused" });
                }
            };
        }
        via!(Native, u32);
        via!(Big, u16);
        via!(Big, usize);
        via!(Little, u64);
    }
    c.seen_bytes(&bytes);
    Ok(())
}

/// Exchanging values at arbitrary offsets.
fn swap<T: Zm>(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let z = size_of::<T>();
    let len = r.below(6 * z + 4);
    let mut model = r.bytes(len);
    let mut mem = At::new(&model, r.below(9));
    for _ in 0..6 {
        let (a, b) = (offset(&mut r, len, z), offset(&mut r, len, z));
        let fits = |o: usize| o.checked_add(z).is_some_and(|e| e <= len);
        // The same place is nothing to exchange.
        let ok = a == b || fits(a) && fits(b);
        if ok && a != b {
            // The value at `b` is moved to `a`, then the one which was at `a`
            // to `b`: with overlap, the latter wins.
            let t = model[a..a + z].to_vec();
            model.copy_within(b..b + z, a);
            model[b..b + z].copy_from_slice(&t);
        }
        let bm = Buf::new_mut(mem.get_mut());
        let got = guard(|| bm.swap(Ref::<T, Big, usize>::new(a), Ref::new(b)).is_ok());
        let got = got.map_err(|e| format!("swap({a}, {b}) of {} in {len} bytes panics: {e}", name::<T>()))?;
        ensure!(got == ok, "swap({a}, {b}) of {} in {len} bytes succeeds: {got}", name::<T>());
        ensure!(mem.get() == &model[..], "swap({a}, {b}) of {} gives {:02x?} instead of {model:02x?}", name::<T>(), mem.get());
        c.event(if ok { "in bounds: exchanged" } else { "out of bounds: refused" });
    }
    c.seen_bytes(&model);
    Ok(())
}

/// Change a few bytes.
fn corrupt(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(8) {
        0 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        1 => {
            let k = r.below(9);
            let e = r.bytes(k);
            b.extend(e);
        }
        _ => {}
    }
    if b.is_empty() {
        return;
    }
    for _ in 0..r.below(5) {
        let i = r.below(b.len());
        let z = *r.pick(&[1usize, 1, 2, 4, 8]);
        let v = match r.below(4) {
            0 => r.u64(),
            1 => u64::MAX - r.below(20) as u64,
            2 => r.below(40) as u64,
            _ => (b.len() + r.below(5)) as u64,
        };
        let v = if r.bool() { v } else { v.swap_bytes() >> (64 - 8 * z) };
        for (k, x) in v.to_le_bytes()[..z].iter().enumerate() {
            if i + k < b.len() {
                b[i + k] = *x;
            }
        }
    }
}

const KEYS: [&str; 9] = ["", "a", "ab", "abc", "b", "ba", "zzz", "\u{e4}", "word"];

fn maps<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    let mut r = Rng::new(c.rng.u64());
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let n = r.below(9);
    let mut ints: Vec<u32> = (0..n as u32).collect();
    r.shuffle(&mut ints);
    let es: Vec<_> = KEYS[..n].iter().map(|k| (b.store_unsized(*k), Strict { a: 1, b: 7.try_into().unwrap(), c: true })).collect();
    let ks: Vec<_> = es.iter().map(|(k, _)| *k).collect();
    let e = |e: musli_zerocopy::Error| e.to_string();
    let pm = phf::store_map(&mut b, es.iter().copied()).map_err(e)?;
    let sm = swiss::store_map(&mut b, es.iter().copied()).map_err(e)?;
    let ps = phf::store_set(&mut b, ks.iter().copied()).map_err(e)?;
    let ss = swiss::store_set(&mut b, ks.iter().copied()).map_err(e)?;
    let im = phf::store_map(&mut b, ints.iter().map(|i| (*i, *i as u8))).map_err(e)?;
    let is = swiss::store_map(&mut b, ints.iter().map(|i| (*i, i % 2 == 0))).map_err(e)?;
    let (pm, sm, ps, ss, im, is) = (b.store(&pm), b.store(&sm), b.store(&ps), b.store(&ss), b.store(&im), b.store(&is));
    let mut bytes = b.as_slice().to_vec();
    if r.chance(1, 3) {
        // The map itself is made of anything.
        let at = *r.pick(&[pm.offset(), sm.offset(), ps.offset(), ss.offset(), im.offset(), is.offset()]);
        for x in &mut bytes[at..] {
            if r.chance(1, 4) {
                *x = *r.pick(&[0u8, 1, 8, 0x10, 0xff]);
            }
        }
    }
    corrupt(&mut r, &mut bytes);
    let mem = At::new(&bytes, if r.chance(1, 8) { r.below(16) } else { 0 });
    let b = Buf::new(mem.get());
    c.seen_bytes(&bytes);
    let mut ok = 0u64;
    let mut failed = 0u64;
    macro_rules! look {
        ($e:expr) => {
            match $e {
                Ok(_) => ok += 1,
                Err(_) => failed += 1,
            }
        };
    }
    guard(|| {
        if let Ok(m) = b.load(pm) {
            for k in KEYS {
                look!(m.get(b, k).map(|v| v.map(image)));
                look!(m.get_entry(b, k).map(|v| v.map(|(k, v)| (b.load(*k).map(|s| s.to_string()).ok(), image(v)))));
                look!(m.contains_key(b, k));
            }
            if let Ok(m) = b.bind(*m) {
                for k in KEYS {
                    look!(m.get(k).map(|v| v.map(image)));
                    look!(m.contains_key(k));
                }
            }
        }
        if let Ok(m) = b.load(sm) {
            let _ = (m.len(), m.is_empty());
            for k in KEYS {
                look!(m.get(b, k).map(|v| v.map(image)));
                look!(m.contains_key(b, k));
            }
            if let Ok(m) = b.bind(*m) {
                for k in KEYS {
                    look!(m.get(k).map(|v| v.map(image)));
                    look!(m.contains_key(k));
                }
            }
        }
        if let Ok(m) = b.load(ps) {
            for k in KEYS {
                look!(m.contains(b, k));
            }
        }
        if let Ok(m) = b.load_at_unaligned::<phf::SetRef<Ref<str, E, O>, E, O>>(ps.offset()) {
            if let Ok(m) = b.bind(m) {
                for k in KEYS {
                    look!(m.contains(k));
                }
            }
        }
        if let Ok(m) = b.load(ss) {
            for k in KEYS {
                look!(m.contains(b, k));
            }
        }
        if let Ok(m) = b.load_at_unaligned::<swiss::SetRef<Ref<str, E, O>, E, O>>(ss.offset()) {
            if let Ok(m) = b.bind(m) {
                for k in KEYS {
                    look!(m.contains(k));
                }
            }
        }
        if let Ok(m) = b.load(im) {
            for k in 0..10u32 {
                look!(m.get(b, &k).map(|v| v.copied()));
            }
            if let Ok(m) = b.bind(*m) {
                for k in 0..10u32 {
                    look!(m.get(&k).map(|v| v.copied()));
                }
            }
        }
        if let Ok(m) = b.load(is) {
            for k in 0..10u32 {
                // Whatever is returned has been validated.
                look!(m.get(b, &k).map(|v| v.map(|v| assert!(u8::from(*v) < 2))));
            }
            if let Ok(m) = b.bind(*m) {
                for k in 0..10u32 {
                    look!(m.get(&k).map(|v| v.map(|v| assert!(u8::from(*v) < 2))));
                }
            }
        }
    })
    .map_err(|e| format!("looking up in a hostile map panics: {e}; {bytes:02x?}"))?;
    c.events("hostile maps: lookups which answered", ok);
    c.events("hostile maps: lookups which failed", failed);
    Ok(())
}

/// A bound of the number of nodes an iteration visits, up to a limit.
fn visits(b: &[u8], at: usize, prefix: usize, budget: &mut u32) {
    // Default layout: links are values and children, a node is a string and
    // links; all of them references of two words.
    let w = |at: usize| b.get(at..at + 4).map(|b| u32::from_ne_bytes(b.try_into().unwrap()) as usize);
    let (Some(o), Some(n)) = (w(at + 8), w(at + 12)) else { return };
    for i in 0..n {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        let at = o + i * 24;
        let (Some(s), Some(l)) = (w(at), w(at + 4)) else { return };
        // The strings of the nodes above have to precede that of the node, and
        // a node above another has a string.
        if at + 24 > b.len() || s < prefix || s + l > b.len() || l == 0 {
            continue;
        }
        visits(b, at + 8, prefix + l, budget);
    }
}

fn tries(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let mut b = OwnedBuf::new();
    let mut t = trie::Builder::new();
    for _ in 0..r.below(9) {
        let k = *r.pick(&KEYS);
        let k = b.store_unsized(k);
        let k = Ref::<[u8]>::with_metadata(k.offset(), k.len());
        let v = r.u8();
        t.insert(&b, k, Strict { a: v, b: 7.try_into().unwrap(), c: true }).map_err(|e| e.to_string())?;
    }
    let t = t.build(&mut b).map_err(|e| e.to_string())?;
    let at = b.store(&t);
    let mut bytes = b.as_slice().to_vec();
    corrupt(&mut r, &mut bytes);
    let mem = At::new(&bytes, if r.chance(1, 8) { r.below(16) } else { 0 });
    let b = Buf::new(mem.get());
    c.seen_bytes(&bytes);
    let Ok(t) = b.load(at) else { return Ok(()) };
    let mut ok = 0u64;
    let mut failed = 0u64;
    let ctx = || format!("trie at {} of {bytes:02x?}", at.offset());
    guard(|| {
        for k in KEYS.iter().map(|k| k.as_bytes()).chain([&bytes[..bytes.len().min(20)]]) {
            match t.get(b, k) {
                Ok(v) => {
                    v.map(|v| v.iter().map(image).count());
                    ok += 1;
                }
                Err(_) => failed += 1,
            }
        }
    })
    .map_err(|e| format!("looking up in a hostile trie panics: {e}; {}", ctx()))?;
    let mut budget = 20_000;
    visits(&bytes, at.offset(), 0, &mut budget);
    if budget == 0 {
        // Shared nodes.
        c.event("hostile tries: too many paths to iterate");
    }
    guard(|| {
        macro_rules! walk {
            ($it:expr) => {
                for x in $it.take(1000) {
                    match x {
                        Ok(_) => ok += 1,
                        Err(_) => {
                            failed += 1;
                            break;
                        }
                    }
                }
            };
        }
        if budget > 0 {
            walk!(t.iter(b));
            walk!(t.values(b));
            for k in KEYS {
                walk!(t.iter_in(b, k));
                walk!(t.values_in(b, k));
            }
        }
        if budget > 15_000 {
            use std::fmt::Write;
            let _ = write!(String::new(), "{:?}", t.debug(b));
            let _ = write!(String::new(), "{:?}", t.debug_fixed::<3>(b));
            walk!(t.iter_fixed::<4>(b));
            walk!(t.values_fixed::<64>(b));
        }
    })
    .map_err(|e| format!("iterating over a hostile trie panics: {e}; {}", ctx()))?;
    c.events("hostile tries: lookups and steps which answered", ok);
    c.events("hostile tries: lookups and steps which failed", failed);
    Ok(())
}

/// Tries whose nodes are drawn from a few, so that many are their own
/// descendants.
fn cycles(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let m = 1 + r.below(4);
    let tail = 8 + r.below(24);
    let len = 16 + 24 * m + tail;
    let mut w: Vec<u32> = Vec::new();
    let mut links = |r: &mut Rng, w: &mut Vec<u32>| {
        w.extend([len as u32 - 1, r.below(2) as u32]);
        let at = 16 + 24 * r.below(m);
        let n = r.below(3).min((len - tail - at) / 24);
        w.extend([at as u32, n as u32]);
    };
    links(&mut r, &mut w);
    for _ in 0..m {
        let n = r.below(3);
        w.extend([(len - tail + r.below(tail - 2)) as u32, n as u32]);
        links(&mut r, &mut w);
    }
    let mut bytes: Vec<u8> = w.iter().flat_map(|w| w.to_ne_bytes()).collect();
    bytes.extend((0..tail).map(|_| *r.pick(b"ab")));
    let mem = At::new(&bytes, 0);
    let b = Buf::new(mem.get());
    c.seen_bytes(&bytes);
    let mut budget = 20_000;
    visits(&bytes, 0, 0, &mut budget);
    if budget == 0 {
        c.event("cyclic tries: too many paths to iterate");
        return Ok(());
    }
    let bound = 20_001 - budget as usize;
    let t = b.load(Ref::<trie::TrieRef<u8>>::zero()).map_err(|e| e.to_string())?;
    let n = guard(|| t.iter(b).take(bound + 2).take_while(|x| x.is_ok()).count()).map_err(|e| format!("iterating panics: {e}; {bytes:02x?}"))?;
    ensure!(n <= bound, "at least {n} values of at most {bound} nodes; {bytes:02x?}");
    c.event("cyclic tries iterated");
    Ok(())
}

/// Binary search through a reference which may point anywhere.
fn search<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    let mut r = Rng::new(c.rng.u64());
    let mut v: Vec<u16> = (0..r.below(20)).map(|_| r.below(50) as u16).collect();
    v.sort();
    let bytes: Vec<u8> = v.iter().flat_map(|v| v.to_ne_bytes()).collect();
    let mem = At::new(&bytes, if r.chance(1, 6) { 1 } else { 0 });
    let b = Buf::new(mem.get());
    let even = mem.get().as_ptr() as usize % 2 == 0;
    for _ in 0..6 {
        let (at, n) = if r.bool() { (0, v.len()) } else { (offset(&mut r, bytes.len(), 2), offset(&mut r, v.len(), 1)) };
        let x = r.below(52) as u16;
        macro_rules! with {
            ($s:expr) => {{
                let got = guard(|| binary_search(b, $s, &x)).map_err(|e| format!("searching {n} elements at {at} of {} bytes panics: {e}", bytes.len()))?;
                if at % 2 == 0 && even && n.checked_mul(2).and_then(|n| n.checked_add(at)).is_some_and(|e| e <= bytes.len()) {
                    let part = &v[at / 2..][..n];
                    match got.map_err(|e| format!("searching: {e}"))? {
                        BinarySearch::Found(i) => ensure!(part.get(i) == Some(&x), "{x} is found at {i} of {part:?}"),
                        BinarySearch::Missing(i) => ensure!(part.binary_search(&x) == Err(i), "{x} is missing at {i} of {part:?}"),
                    }
                    c.event("searches in bounds");
                } else {
                    c.event("searches elsewhere");
                }
            }};
        }
        if let Ok(s) = Ref::<[u16], E, O>::try_with_metadata(at, n) {
            with!(s);
        }
        if let Ok(s) = Packed::<[u16], O, usize, E>::try_from_raw_parts(at, n) {
            with!(s);
        }
    }
    c.seen_bytes(&bytes);
    Ok(())
}

/// Byte access through the buffer.
fn bytes(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let n = r.below(40);
    let bytes = r.bytes(n);
    let mut mem = At::new(&bytes, r.below(64));
    let addr = mem.get().as_ptr() as usize;
    let b = Buf::new(mem.get());
    ensure!(b.len() == bytes.len() && b.is_empty() == bytes.is_empty(), "length");
    let (i, j) = (offset(&mut r, bytes.len(), 1), offset(&mut r, bytes.len(), 1));
    ensure!(b.get(i) == bytes.get(i) && b.get(i..) == bytes.get(i..) && b.get(..j) == bytes.get(..j) && b.get(i..j) == bytes.get(i..j) && b.get(..) == bytes.get(..), "get of {i} and {j} in {bytes:?}");
    if i != usize::MAX && j != usize::MAX {
        ensure!(b.get(i..=j) == bytes.get(i..=j), "get({i}..={j})");
    }
    ensure!(guard(|| b[i]).ok() == bytes.get(i).copied(), "index {i}");
    ensure!(guard(|| b[i..j].to_vec()).ok().as_deref() == bytes.get(i..j), "index {i}..{j}");
    let want = 1usize << addr.trailing_zeros().min(29);
    ensure!(b.alignment() == want, "alignment of …{:x} is {}", addr % 4096, b.alignment());
    for s in 0..10 {
        ensure!(b.is_aligned_with(1 << s) == (addr % (1 << s) == 0), "aligned by {}", 1 << s);
        let a = b.to_aligned_with(1 << s);
        ensure!(a[..] == bytes[..] && a[..].as_ptr() as usize % (1 << s) == 0, "a copy aligned by {}", 1 << s);
        ensure!(matches!(a, std::borrow::Cow::Borrowed(_)) == (addr % (1 << s) == 0), "a copy is made for an aligned buffer or the reverse");
    }
    if want <= 4096 {
        let o = b.to_owned();
        ensure!(o.as_slice() == &bytes[..] && o.as_slice().as_ptr() as usize % want == 0, "an owned copy");
        c.event("owned copies");
    }
    let m = Buf::new_mut(mem.get_mut());
    if let Some(x) = m.get_mut(i) {
        *x ^= 0xff;
        ensure!(m[i] == bytes[i] ^ 0xff, "mutating {i}");
        m[i] ^= 0xff;
    }
    ensure!(mem.get() == &bytes[..], "the buffer changed");
    c.seen_bytes(&bytes);
    c.event("byte accesses");
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    g.add("strings", strings);
    g.add("maps", maps::<Native, u32>);
    g.add("maps big", maps::<Big, u16>);
    g.add("maps usize", maps::<Little, usize>);
    g.add("tries", tries);
    g.add("cycles", cycles);
    g.add("search", search::<Native, u32>);
    g.add("search big", search::<Big, u8>);
    g.add("search usize", search::<Big, usize>);
    g.add("bytes", bytes);
    g.add("swap u8", swap::<u8>);
    g.add("swap u64", swap::<u64>);
    g.add("swap Strict", swap::<Strict>);
    g.add("swap Unit", swap::<Unit>);
    macro_rules! push {
        ($t:ty) => {
            g.add(format!("load {}", name::<$t>()), load::<$t>);
            g.add(format!("slices {}", name::<$t>()), slices::<$t>);
        };
    }
    each_zm!(push);
    vh::rt::main(g);
}
