//! Z03: zero-copy data is portable across byte orders and reference widths.
use musli_zerocopy::endian::{from_be, from_endian, from_le, Big, Little, Native};
use musli_zerocopy::slice::Packed;
use musli_zerocopy::{phf, swiss, trie, Buf, ByteOrder, Endian, OwnedBuf, Ref, Size, ZeroCopy};
use std::mem::{align_of, size_of};
use vh::rng::Rng;
use vh::rt::{Case, Groups, R};
use vh::zc::*;
use vh::{each_zm, ensure};

/// The other order on any machine.
#[cfg(target_endian = "little")]
type Foreign = Big;
#[cfg(target_endian = "big")]
type Foreign = Little;

fn flipped<T: Zm>(mut b: Vec<u8>) -> Vec<u8> {
    T::flip(&mut b);
    b
}

/// Values, for types which can be swapped.
macro_rules! orders {
    ($c:expr, $t:ty) => {{
        let c = $c;
        let mut r = Rng::new(c.rng.u64());
        let n = name::<$t>();
        let v = <$t>::arb(&mut r);
        let own = image(&v);
        let other = flipped::<$t>(own.clone());
        let (le, be) = if cfg!(target_endian = "little") { (&own, &other) } else { (&other, &own) };
        let ctx = || format!("{n} {own:02x?}");
        ensure!(image(&ZeroCopy::swap_bytes::<Native>(v)) == own, "swapping to the native order changes {}: {:02x?}", ctx(), image(&ZeroCopy::swap_bytes::<Native>(v)));
        ensure!(image(&ZeroCopy::swap_bytes::<Foreign>(v)) == other, "swapping {} gives {:02x?} instead of {other:02x?}", ctx(), image(&ZeroCopy::swap_bytes::<Foreign>(v)));
        ensure!(image(&ZeroCopy::swap_bytes::<Foreign>(ZeroCopy::swap_bytes::<Foreign>(v))) == own, "swapping {} twice gives {:02x?}", ctx(), image(&ZeroCopy::swap_bytes::<Foreign>(ZeroCopy::swap_bytes::<Foreign>(v))));
        macro_rules! order {
            ($e:ty, $img:expr, $from:expr, $shorthand:expr) => {{
                let e = Endian::<$t, $e>::new(v);
                ensure!(image(&e.to_raw()) == *$img, "{} in an order is {:02x?} instead of {:02x?}", ctx(), image(&e.to_raw()), $img);
                ensure!(image(&e.to_ne()) == own, "{} back from an order is {:02x?}", ctx(), image(&e.to_ne()));
                ensure!(image(&$from(e.to_raw())) == own, "{} converted from an order is {:02x?}", ctx(), image(&$from(e.to_raw())));
                ensure!(image(&from_endian::<_, $e>(e.to_raw())) == own, "{} converted from an order is {:02x?}", ctx(), image(&from_endian::<_, $e>(e.to_raw())));
                let s = $shorthand(v);
                ensure!(image(&s.to_raw()) == *$img, "{}: shorthand gives {:02x?}", ctx(), image(&s.to_raw()));
                // In a buffer.
                let mut b = OwnedBuf::new().with_byte_order::<Foreign>();
                b.extend_from_slice(&vec![7u8; r.below(3)]);
                let x = b.store(&e);
                b.align_in_place();
                let at = x.offset();
                ensure!(at % align_of::<$t>() == 0 && b.len() == at + size_of::<$t>(), "{n} is stored at {at} of {}", b.len());
                let got = b.load(x).map_err(|e| format!("loading {}: {e}", ctx()))?;
                ensure!(image(&got.to_ne()) == own, "{} comes out of a buffer as {:02x?}", ctx(), image(&got.to_ne()));
                // What is in the buffer is the image, with whatever padding there is.
                let stored = b.load_at_unaligned::<$t>(at).map_err(|e| format!("loading raw {}: {e}", ctx()))?;
                ensure!(image(&stored) == *$img, "{} is stored as {:02x?} instead of {:02x?}", ctx(), image(&stored), $img);
                // Written elsewhere, by something which only knows about bytes.
                let m = musli_zerocopy::buf::aligned_buf_with($img, align_of::<$t>().max(8));
                let got = m.load_at::<Endian<$t, $e>>(0).map_err(|e| format!("loading the image of {}: {e}", ctx()))?;
                ensure!(image(&got.to_ne()) == own, "the image of {} is read as {:02x?}", ctx(), image(&got.to_ne()));
                c.event("values in an explicit order");
            }};
        }
        order!(Little, le, from_le, Endian::<$t, Little>::le);
        order!(Big, be, from_be, Endian::<$t, Big>::be);
        c.seen_bytes(&own);
        Ok(())
    }};
}

/// Which types can be swapped at all.
fn can_swap(c: &mut Case<'_>) -> R {
    macro_rules! one {
        ($t:ty) => {
            ensure!(<$t as ZeroCopy>::CAN_SWAP_BYTES == <$t as Zm>::SWAP, "{} says that it can be swapped: {}", name::<$t>(), <$t as ZeroCopy>::CAN_SWAP_BYTES);
            c.event("types asked");
        };
    }
    each_zm!(one);
    c.seen(1);
    Ok(())
}

/// The bytes of an unsigned value of the width of `O` in an order.
fn word<E: ByteOrder, O: Size>(v: usize) -> Vec<u8> {
    let z = size_of::<O>();
    let le = (v as u64).to_le_bytes()[..z].to_vec();
    let little = native::<E>() == cfg!(target_endian = "little");
    if little {
        le
    } else {
        le.into_iter().rev().collect()
    }
}

/// References by themselves.
fn refs<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize> + PartialEq + Ord + std::hash::Hash,
{
    let mut r = Rng::new(c.rng.u64());
    let z = size_of::<O>();
    let max = if z >= size_of::<usize>() { usize::MAX } else { (1usize << (8 * z)) - 1 };
    let pick = |r: &mut Rng| match r.below(6) {
        0 => max,
        1 => max.wrapping_add(1),
        2 => usize::MAX - r.below(3),
        3 => r.below(256),
        4 => max - r.below(max.min(1000)),
        _ => r.edge_bits() as usize,
    };
    let (o, m) = (pick(&mut r), pick(&mut r));
    let fits = o <= max;
    let both = fits && m <= max;
    let x = Ref::<u64, E, O>::try_with_metadata(o, ());
    ensure!(x.is_ok() == fits, "a reference of {z} bytes to {o} is accepted: {}", x.is_ok());
    if let Ok(x) = x {
        ensure!(x.offset() == o, "a reference to {o} points to {}", x.offset());
        ensure!(image(&Ref::<u64, E, u64>::new(o as u64)) == word::<E, u64>(o), "a reference to {o} is stored as {:02x?}", image(&Ref::<u64, E, u64>::new(o as u64)));
        let mut y = x;
        ensure!(y.to_bytes() == word::<E, O>(o), "a reference of {z} bytes to {o} is stored as {:02x?}", y.to_bytes());
        for (what, at) in [("be", x.to_be().offset()), ("le", x.to_le().offset()), ("ne", x.to_ne().offset()), ("there and back", x.to_be().to_endian::<E>().offset())] {
            ensure!(at == o, "a reference to {o} converted to {what} points to {at}");
        }
        ensure!(x.to_be().to_endian::<E>() == x && x.to_le().to_endian::<E>() == x, "converting a reference there and back changes it");
        ensure!(x.to_be().to_bytes() == word::<Big, O>(o) && x.to_le().to_bytes() == word::<Little, O>(o), "a converted reference to {o} is stored differently");
        c.event("references");
    } else {
        c.event("references refused");
    }
    macro_rules! unsized_ref {
        ($t:ty) => {
            let x = Ref::<$t, E, O>::try_with_metadata(o, m);
            ensure!(x.is_ok() == both, "a reference of {z} bytes to {o}+{m} is accepted: {}", x.is_ok());
            if let Ok(x) = x {
                ensure!(x.offset() == o && x.len() == m && x.is_empty() == (m == 0), "a reference to {o}+{m} points to {}+{}", x.offset(), x.len());
                let mut want = word::<E, O>(o);
                want.extend(word::<E, O>(m));
                ensure!({ x }.to_bytes() == want, "a reference of {z} bytes to {o}+{m} is stored as {:02x?}", { x }.to_bytes());
                let (b, l, n) = (x.to_be(), x.to_le(), x.to_ne());
                ensure!((b.offset(), b.len()) == (o, m) && (l.offset(), l.len()) == (o, m) && (n.offset(), n.len()) == (o, m), "a reference to {o}+{m} converted to another order points elsewhere: {:?} {:?} {:?}", (b.offset(), b.len()), (l.offset(), l.len()), (n.offset(), n.len()));
                ensure!(b.to_endian::<E>() == x && l.to_endian::<E>() == x, "converting a reference there and back changes it");
                let mut want = word::<Big, O>(o);
                want.extend(word::<Big, O>(m));
                ensure!({ b }.to_bytes() == want, "a converted reference to {o}+{m} is stored as {:02x?}", { b }.to_bytes());
                // From what was stored by something else.
                let want = want.repeat(2);
                let buf = musli_zerocopy::buf::aligned_buf_with(&want, 8);
                let y = *buf.load_at::<Ref<$t, Big, O>>(2 * z).map_err(|e| e.to_string())?;
                ensure!(y == b && y.offset() == o && y.len() == m, "a stored reference to {o}+{m} points to {}+{}", y.offset(), y.len());
                c.event("references with a length");
            } else {
                c.event("references with a length refused");
            }
        };
    }
    unsized_ref!([u8]);
    unsized_ref!([Strict]);
    unsized_ref!([()]);
    unsized_ref!(str);
    // Packed.
    let x = Packed::<[u16], O, u8, E>::try_from_raw_parts(o, m);
    ensure!(x.is_ok() == (fits && m < 256), "a packed slice to {o}+{m} is accepted: {}", x.is_ok());
    if let Ok(x) = x {
        ensure!(x.offset() == o && x.len() == m, "a packed slice to {o}+{m} points to {}+{}", x.offset(), x.len());
        let mut want = word::<E, O>(o);
        want.push(m as u8);
        ensure!({ x }.to_bytes() == want, "a packed slice to {o}+{m} is stored as {:02x?}", { x }.to_bytes());
    }
    let x = Packed::<[u16], u8, O, E>::try_from_raw_parts(o, m);
    ensure!(x.is_ok() == (o < 256 && m <= max), "a packed slice to {o}+{m} is accepted: {}", x.is_ok());
    if let Ok(x) = x {
        ensure!(x.offset() == o && x.len() == m, "a packed slice to {o}+{m} points to {}+{}", x.offset(), x.len());
        let mut want = vec![o as u8];
        want.extend(word::<E, O>(m));
        ensure!({ x }.to_bytes() == want, "a packed slice to {o}+{m} is stored as {:02x?}", { x }.to_bytes());
    }
    c.seen_bytes(&[o as u64, m as u64].map(u64::to_le_bytes).concat());
    Ok(())
}

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C)]
struct Doc<E, O>
where
    E: ByteOrder,
    O: Size,
{
    id: Endian<u32, E>,
    flag: bool,
    text: Ref<str, E, O>,
    one: Ref<Endian<u64, E>, E, O>,
    rows: Ref<[Endian<u16, E>], E, O>,
    array: Ref<[Endian<i32, E>; 3], E, O>,
    packed: Packed<[Endian<u16, E>], O, u8, E>,
    next: Ref<[Ref<str, E, O>], E, O>,
}

struct Content {
    id: u32,
    flag: bool,
    text: String,
    one: u64,
    rows: Vec<u16>,
    array: [i32; 3],
    next: Vec<String>,
    lead: usize,
}

impl Content {
    fn arb(r: &mut Rng) -> Self {
        let text = |r: &mut Rng| -> String { (0..r.below(5)).map(|_| char::arb(r)).collect() };
        Content {
            id: r.u64() as u32,
            flag: r.bool(),
            text: text(r),
            one: r.edge_bits() as u64,
            rows: (0..r.below(6)).map(|_| r.edge_bits() as u16).collect(),
            array: std::array::from_fn(|_| r.edge_bits() as i32),
            next: (0..r.below(3)).map(|_| text(r)).collect(),
            lead: r.below(4),
        }
    }
    /// Write it, with an account of which ranges are words of which size.
    #[allow(clippy::type_complexity)]
    fn store<E: ByteOrder, O: Size>(&self) -> (OwnedBuf<E, O>, Ref<Doc<E, O>, E, O>, Vec<(usize, usize, usize)>)
    where
        O: TryFrom<usize>,
    {
        let z = size_of::<O>();
        let mut w = vec![];
        let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
        b.extend_from_slice(&vec![9; self.lead]);
        let text = b.store_unsized(&self.text[..]);
        let one = b.store(&Endian::<_, E>::new(self.one));
        w.push((one.offset(), 1, 8));
        let rows: Vec<_> = self.rows.iter().map(|v| Endian::<_, E>::new(*v)).collect();
        let rows = b.store_slice(&rows);
        w.push((rows.offset(), rows.len(), 2));
        let array = b.store(&self.array.map(Endian::<_, E>::new));
        w.push((array.offset(), 3, 4));
        let next: Vec<_> = self.next.iter().map(|t| b.store_unsized(&t[..])).collect();
        let next = b.store_slice(&next);
        w.push((next.offset(), 2 * next.len(), z));
        let doc = Doc { id: Endian::new(self.id), flag: self.flag, text, one, rows, array, packed: Packed::from_ref(rows), next };
        let x = b.store(&doc);
        let at = x.offset();
        w.push((at, 1, 4));
        let at = at + 5;
        let at = at.next_multiple_of(align_of::<O>());
        w.push((at, 2 + 1 + 2 + 1, z));
        let at = at + 6 * z;
        w.push((at, 1, z));
        let at = (at + z + 1).next_multiple_of(align_of::<O>());
        w.push((at, 2, z));
        b.align_in_place();
        (b, x, w)
    }
    fn check<E: ByteOrder, O: Size>(&self, b: &Buf, x: Ref<Doc<E, O>, E, O>) -> R
    where
        O: TryFrom<usize>,
    {
        let e = |e: musli_zerocopy::Error| format!("loading: {e}");
        let d = b.load(x).map_err(e)?;
        ensure!(d.id.to_ne() == self.id && d.flag == self.flag, "fields: {} {}", d.id.to_ne(), d.flag);
        ensure!(b.load(d.text).map_err(e)? == self.text, "text {:?} instead of {:?}", b.load(d.text), self.text);
        ensure!(b.load(d.text.to_be()).map_err(e)? == self.text && b.load(d.text.to_le()).map_err(e)? == self.text, "text through a converted reference");
        ensure!(b.load(d.one).map_err(e)?.to_ne() == self.one, "one");
        let rows = |s: &[Endian<u16, E>]| s.iter().map(|v| v.to_ne()).collect::<Vec<_>>();
        ensure!(rows(b.load(d.rows).map_err(e)?) == self.rows, "rows");
        ensure!(rows(b.load(d.packed).map_err(e)?) == self.rows, "packed rows");
        ensure!(rows(b.load(d.rows.to_be()).map_err(e)?) == self.rows, "converted rows");
        ensure!(b.load(d.array).map_err(e)?.map(|v| v.to_ne()) == self.array, "array");
        let a = d.array.array_into_slice();
        ensure!(a.offset() == d.array.offset() && a.len() == 3, "an array at {} as a slice is {}+{}", d.array.offset(), a.offset(), a.len());
        ensure!(b.load(a).map_err(e)?.iter().map(|v| v.to_ne()).eq(self.array), "array as a slice");
        for (i, want) in self.rows.iter().enumerate() {
            let y = d.rows.get(i).ok_or_else(|| format!("row {i} is absent"))?;
            ensure!(b.load(y).map_err(e)?.to_ne() == *want, "row {i}");
            let y = { d.packed }.get(i).ok_or_else(|| format!("packed row {i} is absent"))?;
            ensure!(b.load(y).map_err(e)?.to_ne() == *want, "packed row {i}");
        }
        let bytes: Vec<u8> = self.text.bytes().collect();
        let t = d.text.coerce::<[u8]>();
        ensure!(b.load(t).map_err(e)? == bytes, "text as bytes");
        let all: Vec<_> = d.rows.iter().map(|y| b.load(y).map(|v| v.to_ne())).collect::<Result<_, _>>().map_err(e)?;
        ensure!(all == self.rows, "rows by iteration");
        ensure!(d.next.len() == self.next.len(), "next has {} elements", d.next.len());
        for (x, want) in b.load(d.next).map_err(e)?.iter().zip(&self.next) {
            ensure!(b.load(*x).map_err(e)? == want, "next");
        }
        Ok(())
    }
}

fn flip_words(b: &mut [u8], words: &[(usize, usize, usize)]) {
    for (at, n, z) in words {
        for w in b[*at..][..n * z].chunks_exact_mut(*z) {
            w.reverse();
        }
    }
}

fn same(what: &str, got: &[u8], want: &[u8]) -> R {
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    ensure!(got == want, "{what}: the big image is not the swapped little one; at {at} of {}: {:02x?} instead of {:02x?}", got.len(), &got[at..got.len().min(at + 16)], &want[at.min(want.len())..want.len().min(at + 16)]);
    Ok(())
}

fn docs<O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    let mut r = Rng::new(c.rng.u64());
    let d = Content::arb(&mut r);
    let (l, lx, w) = d.store::<Little, O>();
    let (b, bx, _) = d.store::<Big, O>();
    d.check(&l, lx).map_err(|e| format!("little: {e}"))?;
    d.check(&b, bx).map_err(|e| format!("big: {e}"))?;
    ensure!(lx.offset() == bx.offset(), "the order decides on the place");
    let mut want = l.as_slice().to_vec();
    flip_words(&mut want, &w);
    same("structures", b.as_slice(), &want)?;
    // The swapped image is read by types of the other order.
    let a = musli_zerocopy::buf::aligned_buf_with(&want, 16);
    d.check(&a, bx).map_err(|e| format!("swapped: {e}"))?;
    // A reference converted from the other order leads to the same place.
    let y: Ref<Doc<Little, O>, Big, O> = lx.to_be();
    ensure!(l.load(y).map_err(|e| e.to_string())?.id.to_ne() == d.id, "through a converted reference");
    c.seen_bytes(&want);
    c.events("words compared with their swapped image", w.iter().map(|w| w.1 as u64).sum());
    c.event("structures in both orders");
    Ok(())
}

const WORDS: [&str; 12] = ["", "a", "ab", "abc", "b", "ba", "zzz", "\u{e4}", "word", "work", "working", "world"];

struct Maps<E: ByteOrder, O: Size> {
    b: OwnedBuf<E, O>,
    words: Vec<(usize, usize, usize)>,
    pm: Ref<phf::MapRef<Ref<str, E, O>, Endian<u32, E>, E, O>, E, O>,
    sm: Ref<swiss::MapRef<Ref<str, E, O>, Endian<u32, E>, E, O>, E, O>,
    ps: Ref<phf::SetRef<u8, E, O>, E, O>,
    ss: Ref<swiss::SetRef<u8, E, O>, E, O>,
}

fn build<E: ByteOrder, O: Size>(keys: &[&str], bytes: &[u8]) -> Result<Maps<E, O>, String>
where
    O: TryFrom<usize>,
{
    let e = |e: musli_zerocopy::Error| e.to_string();
    let z = size_of::<O>();
    let mut words = vec![];
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let es: Vec<_> = keys.iter().enumerate().map(|(i, k)| (b.store_unsized(*k), Endian::<u32, E>::new(i as u32 * 0x01020304))).collect();
    // An entry is a reference followed by a value.
    let value = (2 * z).next_multiple_of(4);
    let entry = (value + 4).next_multiple_of(align_of::<O>().max(4));
    let entries = |words: &mut Vec<_>, at: usize, n: usize| {
        for i in 0..n {
            words.push((at + i * entry, 2, z));
            words.push((at + i * entry + value, 1, 4));
        }
    };
    let up = |at: usize, n: usize| at.next_multiple_of(n);
    let at = up(b.len(), align_of::<O>().max(4));
    let pm = phf::store_map(&mut b, es.iter().copied()).map_err(e)?;
    entries(&mut words, at, es.len());
    let at = up(at + es.len() * entry, 4);
    words.push((at, es.len().div_ceil(5) * 2, 4));
    // Control bytes are aligned and followed by the entries.
    let sm = swiss::store_map(&mut b, es.iter().copied()).map_err(e)?;
    let buckets = |n: usize| if n < 4 { 4 } else if n < 8 { 8 } else { (n * 8 / 7).next_power_of_two() };
    entries(&mut words, b.len() - buckets(es.len()) * entry, buckets(es.len()));
    let at = up(b.len() + bytes.len(), 4);
    let ps = phf::store_set(&mut b, bytes.iter().copied()).map_err(e)?;
    words.push((at, bytes.len().div_ceil(5) * 2, 4));
    let ss = swiss::store_set(&mut b, bytes.iter().copied()).map_err(e)?;
    let (pm, sm, ps, ss) = (b.store(&pm), b.store(&sm), b.store(&ps), b.store(&ss));
    for at in [pm.offset(), ps.offset(), sm.offset(), ss.offset()] {
        words.push((at, 1, 8));
        words.push((at + 8, 4, z));
    }
    let w = size_of::<usize>();
    for (at, s) in [(sm.offset(), size_of::<swiss::MapRef<Ref<str, E, O>, Endian<u32, E>, E, O>>()), (ss.offset(), size_of::<swiss::SetRef<u8, E, O>>())] {
        words.push((at + s - 2 * w, 2, w));
    }
    b.align_in_place();
    Ok(Maps { b, words, pm, sm, ps, ss })
}

impl<E: ByteOrder, O: Size> Maps<E, O>
where
    O: TryFrom<usize>,
{
    fn check(&self, b: &Buf, keys: &[&str], bytes: &[u8]) -> R {
        let e = |e: musli_zerocopy::Error| e.to_string();
        let (pm, sm, ps, ss) = (b.load(self.pm).map_err(e)?, b.load(self.sm).map_err(e)?, b.load(self.ps).map_err(e)?, b.load(self.ss).map_err(e)?);
        let (pb, sb) = (b.bind(*pm).map_err(e)?, b.bind(*sm).map_err(e)?);
        let psb = b.bind(b.load_at_unaligned::<phf::SetRef<u8, E, O>>(self.ps.offset()).map_err(e)?).map_err(e)?;
        let ssb = b.bind(b.load_at_unaligned::<swiss::SetRef<u8, E, O>>(self.ss.offset()).map_err(e)?).map_err(e)?;
        ensure!(sm.len() == keys.len() && sb.len() == keys.len(), "{} keys instead of {}", sm.len(), keys.len());
        for k in WORDS {
            let want = keys.iter().position(|x| *x == k).map(|i| i as u32 * 0x01020304);
            let got = [pm.get(b, k).map_err(e)?.map(|v| v.to_ne()), sm.get(b, k).map_err(e)?.map(|v| v.to_ne()), pb.get(k).map_err(e)?.map(|v| v.to_ne()), sb.get(k).map_err(e)?.map(|v| v.to_ne())];
            ensure!(got == [want; 4], "{k:?} of {keys:?} gives {got:x?} instead of {want:x?}");
        }
        for k in 0..12u8 {
            let want = bytes.contains(&k);
            let got = [ps.contains(b, &k).map_err(e)?, ss.contains(b, &k).map_err(e)?, psb.contains(&k).map_err(e)?, ssb.contains(&k).map_err(e)?];
            ensure!(got == [want; 4], "{k} is in {bytes:?}: {got:?} instead of {want}");
        }
        Ok(())
    }
}

fn maps<O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    let mut r = Rng::new(c.rng.u64());
    let mut keys = WORDS.to_vec();
    r.shuffle(&mut keys);
    // A byte addresses 255 bytes.
    let small = size_of::<O>() == 1;
    keys.truncate(r.below(if small { 4 } else { 13 }));
    let mut bytes: Vec<u8> = (0..12).collect();
    r.shuffle(&mut bytes);
    bytes.truncate(r.below(if small { 4 } else { 13 }));
    let l = build::<Little, O>(&keys, &bytes)?;
    let b = build::<Big, O>(&keys, &bytes)?;
    l.check(&l.b, &keys, &bytes).map_err(|e| format!("little: {e}"))?;
    b.check(&b.b, &keys, &bytes).map_err(|e| format!("big: {e}"))?;
    let mut want = l.b.as_slice().to_vec();
    flip_words(&mut want, &l.words);
    same("maps", b.b.as_slice(), &want)?;
    let a = musli_zerocopy::buf::aligned_buf_with(&want, 16);
    b.check(&a, &keys, &bytes).map_err(|e| format!("swapped: {e}"))?;
    c.seen_bytes(&want);
    c.events("words compared with their swapped image", l.words.iter().map(|w| w.1 as u64).sum());
    c.event("maps and sets in both orders");
    Ok(())
}

/// A trie in which everything but the strings is in words of one size.
macro_rules! tries {
    ($name:ident, $o:ty) => {
        fn $name(c: &mut Case<'_>) -> R {
            type Trie<E> = trie::TrieRef<Endian<$o, E>, trie::DefaultFlavor<E, $o>>;
            fn build<E: ByteOrder>(keys: &[(&str, $o)]) -> Result<(OwnedBuf<E, $o>, Ref<Trie<E>, E, $o>, usize), String> {
                let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<$o>();
                let ks: Vec<_> = keys.iter().map(|(k, v)| (b.store_unsized(*k), Endian::<_, E>::new(*v))).collect();
                let at = b.next_offset::<$o>();
                let t = trie::store(&mut b, ks).map_err(|e| e.to_string())?;
                let t = b.store(&t);
                b.align_in_place();
                Ok((b, t, at))
            }
            fn check<E: ByteOrder>(b: &Buf, t: Ref<Trie<E>, E, $o>, keys: &[(&str, $o)]) -> R {
                let e = |e: musli_zerocopy::Error| e.to_string();
                let t = b.load(t).map_err(e)?;
                let mut all: std::collections::BTreeMap<&[u8], Vec<$o>> = Default::default();
                for (k, v) in keys {
                    all.entry(k.as_bytes()).or_default().push(*v);
                }
                for k in WORDS {
                    let got: Vec<_> = t.get(b, k).map_err(e)?.unwrap_or_default().iter().map(|v| v.to_ne()).collect();
                    if !k.is_empty() {
                        ensure!(got == all.get(k.as_bytes()).cloned().unwrap_or_default(), "{k:?} of {keys:?} gives {got:?}");
                    }
                    let want: Vec<_> = all.iter().filter(|(x, _)| x.starts_with(k.as_bytes())).flat_map(|(k, v)| v.iter().map(move |v| (*k, *v))).collect();
                    let got: Vec<_> = t.iter_in(b, k).map(|x| x.map(|(k, v)| (k, v.to_ne()))).collect::<Result<_, _>>().map_err(e)?;
                    ensure!(got == want, "below {k:?} of {keys:?} are {got:?}");
                }
                Ok(())
            }
            let mut r = Rng::new(c.rng.u64());
            // The empty string is left to Z08.
            let n = r.below(if size_of::<$o>() == 1 { 4 } else { 14 });
            let keys: Vec<_> = (0..n).map(|_| (WORDS[1 + r.below(11)], r.edge_bits() as $o)).collect();
            let (l, lt, at) = build::<Little>(&keys)?;
            let (b, bt, _) = build::<Big>(&keys)?;
            check(&l, lt, &keys).map_err(|e| format!("little: {e}"))?;
            check(&b, bt, &keys).map_err(|e| format!("big: {e}"))?;
            let mut want = l.as_slice().to_vec();
            let n = (want.len() - at) / size_of::<$o>();
            flip_words(&mut want, &[(at, n, size_of::<$o>())]);
            same("tries", b.as_slice(), &want)?;
            let a = musli_zerocopy::buf::aligned_buf_with(&want, 16);
            check(&a, bt, &keys).map_err(|e| format!("swapped: {e}"))?;
            c.seen_bytes(&want);
            c.events("words compared with their swapped image", n as u64);
            c.event("tries in both orders");
            Ok(())
        }
    };
}
tries!(tries_u8, u8);
tries!(tries_u16, u16);
tries!(tries_u32, u32);
tries!(tries_u64, u64);
tries!(tries_usize, usize);

/// A trie of packed slices of different widths.
struct Mine<E>(std::marker::PhantomData<E>);
impl<E: ByteOrder> trie::Flavor for Mine<E> {
    type String = Packed<[u8], u16, u8, E>;
    type Values<T>
        = Packed<[T], u32, u16, E>
    where
        T: ZeroCopy;
    type Children<T>
        = Ref<[T], E, u16>
    where
        T: ZeroCopy;
}

fn flavors(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let keys: Vec<_> = (0..r.below(14)).map(|_| (WORDS[1 + r.below(11)], r.u8())).collect();
    fn go<E: ByteOrder>(keys: &[(&str, u8)]) -> Result<Vec<u8>, String> {
        let e = |e: musli_zerocopy::Error| e.to_string();
        let mut b = OwnedBuf::new().with_byte_order::<E>();
        let mut t = trie::Builder::<u8, Mine<E>>::with_flavor();
        for (k, v) in keys {
            let k = b.store_unsized(*k);
            t.insert(&b, k, *v).map_err(e)?;
        }
        let t = t.build(&mut b).map_err(e)?;
        let t = b.store(&t);
        b.align_in_place();
        let t = b.load(t).map_err(e)?;
        let mut want: Vec<(&[u8], u8)> = keys.iter().map(|(k, v)| (k.as_bytes(), *v)).collect();
        want.sort_by_key(|k| k.0);
        let got: Vec<_> = t.iter(&b).map(|x| x.map(|(k, v)| (k, *v))).collect::<Result<_, _>>().map_err(e)?;
        ensure!(got == want, "{keys:?} in a trie of packed slices are {got:?}");
        for k in &WORDS[1..] {
            let got = t.get(&b, k).map_err(e)?.unwrap_or_default().to_vec();
            let want: Vec<_> = keys.iter().filter(|x| x.0 == *k).map(|x| x.1).collect();
            ensure!(got == want, "{k:?} of {keys:?} in a trie of packed slices is {got:?}");
        }
        Ok(b.as_slice().to_vec())
    }
    let l = go::<Little>(&keys)?;
    let b = go::<Big>(&keys)?;
    ensure!(l.len() == b.len(), "the order decides on the size");
    c.seen_bytes(&l);
    c.event("tries of packed slices in both orders");
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    g.add("which types", can_swap);
    macro_rules! widths {
        ($($o:ident),*) => {$(
            g.add(concat!("refs little ", stringify!($o)), refs::<Little, $o>);
            g.add(concat!("refs big ", stringify!($o)), refs::<Big, $o>);
            g.add(concat!("docs ", stringify!($o)), docs::<$o>);
            g.add(concat!("maps ", stringify!($o)), maps::<$o>);
        )*};
    }
    widths!(u8, u16, u32, u64, usize);
    g.add("tries u8", tries_u8);
    g.add("tries u16", tries_u16);
    g.add("tries u32", tries_u32);
    g.add("tries u64", tries_u64);
    g.add("tries usize", tries_usize);
    g.add("flavors", flavors);
    macro_rules! push {
        ($($t:ty),* $(,)?) => {$(
            g.add(format!("orders {}", name::<$t>()), |c| orders!(c, $t));
        )*};
    }
    use std::num::*;
    push!(
        u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, (),
        NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize,
        Option<NonZeroU8>, Option<NonZeroU32>, Option<NonZeroI64>, Option<NonZeroU128>,
        [u16; 3], [bool; 4], [Strict; 3], [u64; 0], Wrapping<u32>, Wrapping<Strict>, std::marker::PhantomData<u64>,
        Endian<u32, Big>, Endian<u16, Little>, Endian<Strict, Big>, Ref<u32, Big, u16>, Ref<[u8], Little, usize>,
        Mixed, Falling, Strict, Nested, Tuple, Rows, Unit, Unit8, Wide, Cache, Through, ThroughPadded,
        Ignored, EmptyAligned, Floats, Orders, Points, Pair<u8, Strict>, Pair<bool, Pair<u8, Strict>>, Swap, HoldsSwap,
    );
    vh::rt::main(g);
}
