//! Z01: storing then loading returns the value, with clean padding.
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::{Buf, ByteOrder, OwnedBuf, Ref, Size};
use std::mem::{align_of, size_of};
use vh::rng::Rng;
use vh::rt::{Case, Groups, R};
use vh::zc::*;
use vh::{each_zm, ensure, fail};

fn diff(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at byte {at}: {:02x?} instead of {:02x?}", a.len(), b.len(), &a[at.saturating_sub(4)..a.len().min(at + 12)], &b[at.saturating_sub(4)..b.len().min(at + 12)])
}

/// A buffer with its history, and what must be in it.
struct World<B> {
    buf: B,
    model: Vec<u8>,
}

macro_rules! store_impl {
    ($name:ident, [$($g:tt)*], $buf:ty) => {
        #[allow(clippy::type_complexity)]
        fn $name<$($g)* E: ByteOrder, O: Size, T: Zm>(w: &mut World<$buf>, c: &mut Case<'_>, r: &mut Rng) -> Result<Box<dyn Fn(&Buf) -> R>, String>
        where
            O: TryFrom<usize>,
        {
            let fill = *r.pick(&[0xa5u8, 0xff, 0, 1]);
            let n = name::<T>();
            let pad = |m: &mut Vec<u8>| {
                let a = m.len().next_multiple_of(align_of::<T>());
                m.resize(a, 0);
                a
            };
            match r.below(4) {
                // One value.
                0 | 1 => {
                    let v = T::arb(r);
                    let d = Dirty::new(&v, fill);
                    let at = pad(&mut w.model);
                    let want = image(&v);
                    w.model.extend_from_slice(&want);
                    let x: Ref<T, E, O> = w.buf.store(d.get());
                    ensure!(x.offset() == at, "{n} is stored at {} instead of {at}", x.offset());
                    c.event("values stored");
                    Ok(Box::new(move |b| {
                        let got = b.load(x).map_err(|e| format!("loading {n}: {e}"))?;
                        ensure!(image(got) == want, "{n}: {:02x?} loads as {:02x?}", want, image(got));
                        let got = b.load_at::<T>(at).map_err(|e| format!("loading {n} at {at}: {e}"))?;
                        ensure!(image(got) == want, "{n}: {:02x?} loads as {:02x?}", want, image(got));
                        let got = b.load_at_unaligned::<T>(at).map_err(|e| format!("loading {n} at {at} unaligned: {e}"))?;
                        ensure!(image(&got) == want, "{n}: {:02x?} loads unaligned as {:02x?}", want, image(&got));
                        Ok(())
                    }))
                }
                // A row of values.
                2 => {
                    let k = r.below(5);
                    let v: Vec<T> = (0..k).map(|_| T::arb(r)).collect();
                    let d = DirtySlice::new(&v, fill);
                    let at = pad(&mut w.model);
                    let want: Vec<_> = v.iter().map(image).collect();
                    w.model.extend(want.iter().flatten());
                    let x: Ref<[T], E, O> = if r.bool() { w.buf.store_slice(d.get()) } else { w.buf.store_unsized(d.get()) };
                    ensure!(x.offset() == at && x.len() == k, "{k} × {n} are stored at {}+{} instead of {at}", x.offset(), x.len());
                    c.event("rows stored");
                    Ok(Box::new(move |b| {
                        let got = b.load(x).map_err(|e| format!("loading [{n}]: {e}"))?;
                        let got: Vec<_> = got.iter().map(image).collect();
                        ensure!(got == want, "[{n}]: {:02x?} loads as {:02x?}", want, got);
                        for (i, want) in want.iter().enumerate() {
                            let Some(x) = x.get(i) else { fail!("element {i} of {k} × {n} is absent") };
                            let got = b.load(x).map_err(|e| format!("loading element {i} of [{n}]: {e}"))?;
                            ensure!(image(got) == *want, "[{n}][{i}]: {:02x?} loads as {:02x?}", want, image(got));
                        }
                        Ok(())
                    }))
                }
                // Space which is filled in later.
                _ => {
                    let v = T::arb(r);
                    let d = Dirty::new(&v, fill);
                    let at = pad(&mut w.model);
                    w.model.resize(at + size_of::<T>(), 0);
                    let x = w.buf.store_uninit::<T>();
                    ensure!(x.offset() == at, "space for {n} is at {} instead of {at}", x.offset());
                    ensure!(w.buf.as_slice() == &w.model[..], "after making space for {n}: {}", diff(w.buf.as_slice(), &w.model));
                    let want = image(&v);
                    w.model[at..].copy_from_slice(&want);
                    let got = w.buf.load_uninit_mut(x).write(d.get());
                    ensure!(got == &want[..], "{n}: writing {:02x?} into space gives {:02x?}", want, got);
                    let x = x.assume_init();
                    c.event("spaces filled in");
                    Ok(Box::new(move |b| {
                        let got = b.load(x).map_err(|e| format!("loading {n}: {e}"))?;
                        ensure!(image(got) == want, "{n}: {:02x?} loads as {:02x?}", want, image(got));
                        Ok(())
                    }))
                }
            }
        }
    };
}
store_impl!(store_owned, [], OwnedBuf<E, O>);
store_impl!(store_slice, ['a,], musli_zerocopy::buf::SliceMut<'a, E, O>);

fn owned<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    let mut r = Rng::new(c.rng.u64());
    #[allow(clippy::type_complexity)]
    let mut all: Vec<fn(&mut World<OwnedBuf<E, O>>, &mut Case<'_>, &mut Rng) -> Result<Box<dyn Fn(&Buf) -> R>, String>> = Vec::new();
    macro_rules! push {
        ($t:ty) => {
            all.push(store_owned::<E, O, $t>)
        };
    }
    each_zm!(push);
    let mut w = World { buf: OwnedBuf::new().with_byte_order::<E>().with_size::<O>(), model: vec![] };
    if r.bool() {
        // Memory which held something else.
        w.buf.extend_from_slice(&vec![0xa5; r.below(4000)]);
        w.buf.clear();
    }
    let mut loads = Vec::new();
    for _ in 0..1 + r.below(if cfg!(miri) { 6 } else { 25 }) {
        if O::try_from(w.model.len() + 600).is_err() {
            break;
        }
        if r.chance(1, 6) {
            let k = r.below(5);
            let b = r.bytes(k);
            w.buf.extend_from_slice(&b);
            w.model.extend_from_slice(&b);
        }
        let f = *r.pick(&all);
        loads.push(f(&mut w, c, &mut r)?);
        ensure!(w.buf.as_slice() == &w.model[..], "after storing: {}", diff(w.buf.as_slice(), &w.model));
        c.event("buffers compared with the layout");
    }
    w.buf.align_in_place();
    c.seen_bytes(w.buf.as_slice());
    for l in &loads {
        l(&w.buf)?;
        c.event("values loaded");
    }
    ensure!(w.buf.as_slice() == &w.model[..], "after loading: {}", diff(w.buf.as_slice(), &w.model));
    Ok(())
}

#[repr(C, align(64))]
struct Mem([u8; 8192]);

fn slice<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R
where
    O: TryFrom<usize>,
{
    let mut r = Rng::new(c.rng.u64());
    let mut mem = Box::new(Mem([0xa5; 8192]));
    let start = r.below(3) * 64;
    let end = 8192 - r.below(200);
    let mut model = vec![];
    {
        #[allow(clippy::type_complexity)]
        let mut all: Vec<for<'x> fn(&mut World<musli_zerocopy::buf::SliceMut<'x, E, O>>, &mut Case<'_>, &mut Rng) -> Result<Box<dyn Fn(&Buf) -> R>, String>> = Vec::new();
        macro_rules! push {
            ($t:ty) => {
                all.push(store_slice::<E, O, $t>)
            };
        }
        each_zm!(push);
        let mut w = World { buf: musli_zerocopy::buf::SliceMut::new(&mut mem.0[start..end]).with_byte_order::<E>().with_size::<O>(), model: vec![] };
        let mut loads = Vec::new();
        for _ in 0..1 + r.below(if cfg!(miri) { 6 } else { 20 }) {
            if O::try_from(w.model.len() + 600).is_err() || w.model.len() + 600 > end - start {
                break;
            }
            let f = *r.pick(&all);
            loads.push(f(&mut w, c, &mut r)?);
            ensure!(w.buf.as_slice() == &w.model[..], "after storing: {}", diff(w.buf.as_slice(), &w.model));
            c.event("slices compared with the layout");
        }
        for l in &loads {
            l(&w.buf)?;
            c.event("values loaded");
        }
        c.seen_bytes(w.buf.as_slice());
        std::mem::swap(&mut model, &mut w.model);
    }
    // Nothing around what was stored has changed.
    ensure!(mem.0[..start].iter().all(|b| *b == 0xa5), "bytes before the slice were written");
    ensure!(mem.0[start..][..model.len()] == model[..], "the slice holds something else once released");
    ensure!(mem.0[start + model.len()..].iter().all(|b| *b == 0xa5), "bytes after what was stored were written");
    Ok(())
}

/// Strings among bytes.
fn strings<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let mut model = vec![];
    let mut refs = vec![];
    for _ in 0..r.below(8) {
        let s: String = (0..r.below(12)).map(|_| char::arb(&mut r)).collect();
        let x = b.store_unsized(s.as_str());
        ensure!(x.offset() == model.len() && x.len() == s.len() && x.is_empty() == s.is_empty(), "a string is stored at {}+{}", x.offset(), x.len());
        model.extend_from_slice(s.as_bytes());
        let y = b.store_unsized(s.as_bytes());
        model.extend_from_slice(s.as_bytes());
        refs.push((x, y, s));
        if r.chance(1, 3) {
            let v = u32::arb(&mut r);
            b.store(&v);
            model.resize(model.len().next_multiple_of(4), 0);
            model.extend_from_slice(&v.to_ne_bytes());
        }
        ensure!(b.as_slice() == &model[..], "after storing a string: {}", diff(b.as_slice(), &model));
    }
    c.seen_bytes(&model);
    for (x, y, s) in &refs {
        let g = b.load(*x).map_err(|e| format!("loading a string: {e}"))?;
        ensure!(g == s, "{s:?} loads as {g:?}");
        let g = b.load(*y).map_err(|e| format!("loading bytes: {e}"))?;
        ensure!(g == s.as_bytes(), "{s:?} loads as {g:?}");
        c.event("strings loaded");
    }
    Ok(())
}

/// The bytes of a value in place.
fn in_place<T: Zm>(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let n = name::<T>();
    let v = T::arb(&mut r);
    let want = image(&v);
    let mut d = Dirty::new(&v, *r.pick(&[0xa5u8, 0xff, 1]));
    c.seen_bytes(&want);
    let got = d.get_mut().to_bytes();
    ensure!(got == &want[..], "{n}: the bytes are {got:02x?} instead of {want:02x?}");
    c.event("values turned into bytes");
    let mut copy = musli_zerocopy::buf::aligned_buf_with(got, align_of::<T>()).into_owned();
    let g = T::from_bytes(copy.as_slice()).map_err(|e| format!("{n} from its bytes: {e}"))?;
    ensure!(image(g) == want, "{n}: {want:02x?} is read from bytes as {:02x?}", image(g));
    let g = T::from_bytes_mut(copy.as_mut_slice()).map_err(|e| format!("{n} from its mutable bytes: {e}"))?;
    ensure!(image(g) == want, "{n}: {want:02x?} is read from mutable bytes as {:02x?}", image(g));
    c.event("values read from bytes");
    let mut d = Dirty::new(&v, 0xa5);
    d.get_mut().initialize_padding();
    ensure!(image(d.get()) == want, "{n}: initialising the padding changes the value");
    // SAFETY: The padding was just initialised, and before that filled.
    let b = unsafe { d.get().to_bytes_unchecked() };
    ensure!(b == &want[..], "{n}: initialising the padding gives {b:02x?} instead of {want:02x?}");
    c.event("padding initialised");
    // Assigning a field or the whole value in a buffer only changes its bytes.
    let mut b = OwnedBuf::new();
    b.extend_from_slice(&[0x5a; 3]);
    let x = b.store(Dirty::new(&v, 0xff).get());
    b.extend_from_slice(&[0x5a; 3]);
    b.align_in_place();
    let before = b.as_slice().to_vec();
    let w = T::arb(&mut r);
    if !cfg!(miri) {
        *b.load_mut(x).map_err(|e| format!("loading {n} mutably: {e}"))? = w;
        let (s, e) = (x.offset(), x.offset() + size_of::<T>());
        ensure!(b.as_slice()[..s] == before[..s] && b.as_slice()[e..] == before[e..], "{n}: assigning in a buffer changes bytes around it");
        let g = b.load(x).map_err(|e| format!("loading {n} after assigning: {e}"))?;
        ensure!(image(g) == image(&w), "{n}: {:02x?} was assigned and {:02x?} is loaded", image(&w), image(g));
        c.event("values assigned in place");
    }
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    g.add("owned", owned::<Native, u32>);
    g.add("owned big", owned::<Big, u16>);
    g.add("owned usize", owned::<Little, usize>);
    g.add("owned big u64", owned::<Big, u64>);
    g.add("slice", slice::<Native, u32>);
    g.add("slice big", slice::<Big, usize>);
    g.add("strings", strings::<Native, u32>);
    g.add("strings big", strings::<Big, u16>);
    macro_rules! push {
        ($t:ty) => {
            g.add(format!("in place {}", name::<$t>()), in_place::<$t>)
        };
    }
    each_zm!(push);
    vh::rt::main(g);
}
