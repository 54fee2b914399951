//! Z04: a buffer keeps its contents and references as it grows.
use musli_zerocopy::buf::{SliceMut, StoreBuf};
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::mem::MaybeUninit;
use musli_zerocopy::{Buf, ByteOrder, OwnedBuf, Ref, Size, ZeroCopy};
use std::borrow::Cow;
use std::mem::{align_of, size_of};
use vh::rng::Rng;
use vh::rt::{guard, Case, Groups, R};
use vh::zc::*;
use vh::{each_zm, ensure, fail, zm_struct};

#[derive(Clone, Copy, ZeroCopy)]
#[repr(C, align(1024))]
struct Page {
    a: u8,
    b: bool,
}
zm_struct!(Page { a: u8, b: bool });

/// What both kinds of buffers can do.
trait Bf: StoreBuf {
    const FIXED: bool;
    fn put<T: Zm>(&mut self, v: &T) -> Ref<T, Self::ByteOrder, Self::Size>;
    fn row<T: Zm>(&mut self, v: &[T]) -> Ref<[T], Self::ByteOrder, Self::Size>;
    fn row_unsized<T: Zm>(&mut self, v: &[T]) -> Ref<[T], Self::ByteOrder, Self::Size>;
    fn text(&mut self, v: &str) -> Ref<str, Self::ByteOrder, Self::Size>;
    fn space<T: Zm>(&mut self) -> Ref<MaybeUninit<T>, Self::ByteOrder, Self::Size>;
    fn fill_space<T: Zm, U: ByteOrder, I: Size>(&mut self, r: Ref<MaybeUninit<T>, U, I>, v: &T) -> Vec<u8>;
    fn extend(&mut self, b: &[u8]);
    fn align<T: Zm>(&mut self);
    fn place<T: Zm>(&mut self) -> usize;
    fn more(&mut self, n: usize);
    fn forget(&mut self);
    fn bytes(&self) -> &[u8];
    fn bytes_mut(&mut self) -> &mut [u8];
    fn room(&self) -> usize;
    fn asked(&self) -> usize;
    fn empty(&self) -> bool;
    /// Through other byte orders and widths and back.
    fn recast(self) -> Self;
    fn aligned(&self) -> Cow<'_, Buf>;
    fn realign(&mut self);
    fn write(&mut self, b: &[u8]);
}

macro_rules! bf {
    ([$($g:tt)*], $t:ident<$($l:lifetime,)? E, O>, $fixed:expr, |$a:ident| $aligned:expr, |$w:ident, $b:ident| $write:expr) => {
        impl<$($g)* E: ByteOrder, O: Size> Bf for $t<$($l,)? E, O> {
            const FIXED: bool = $fixed;
            fn put<T: Zm>(&mut self, v: &T) -> Ref<T, E, O> {
                $t::store(self, v)
            }
            fn row<T: Zm>(&mut self, v: &[T]) -> Ref<[T], E, O> {
                $t::store_slice(self, v)
            }
            fn row_unsized<T: Zm>(&mut self, v: &[T]) -> Ref<[T], E, O> {
                $t::store_unsized(self, v)
            }
            fn text(&mut self, v: &str) -> Ref<str, E, O> {
                $t::store_unsized(self, v)
            }
            fn space<T: Zm>(&mut self) -> Ref<MaybeUninit<T>, E, O> {
                $t::store_uninit(self)
            }
            fn fill_space<T: Zm, U: ByteOrder, I: Size>(&mut self, r: Ref<MaybeUninit<T>, U, I>, v: &T) -> Vec<u8> {
                $t::load_uninit_mut(self, r).write(v).to_vec()
            }
            fn extend(&mut self, b: &[u8]) {
                $t::extend_from_slice(self, b)
            }
            fn align<T: Zm>(&mut self) {
                $t::request_align::<T>(self)
            }
            fn place<T: Zm>(&mut self) -> usize {
                $t::next_offset::<T>(self)
            }
            fn more(&mut self, n: usize) {
                $t::reserve(self, n)
            }
            fn forget(&mut self) {
                $t::clear(self)
            }
            fn bytes(&self) -> &[u8] {
                $t::as_slice(self)
            }
            fn bytes_mut(&mut self) -> &mut [u8] {
                $t::as_mut_slice(self)
            }
            fn room(&self) -> usize {
                $t::capacity(self)
            }
            fn asked(&self) -> usize {
                $t::requested(self)
            }
            fn empty(&self) -> bool {
                $t::is_empty(self)
            }
            fn recast(self) -> Self {
                self.with_byte_order::<Big>().with_size::<u64>().with_byte_order::<E>().with_size::<O>()
            }
            fn aligned(&self) -> Cow<'_, Buf> {
                let $a = self;
                $aligned
            }
            fn realign(&mut self) {
                StoreBuf::align_in_place(self)
            }
            fn write(&mut self, $b: &[u8]) {
                let $w = self;
                $write
            }
        }
    };
}
bf!([], OwnedBuf<E, O>, false, |s| s.to_aligned_with(s.requested()), |s, b| {
    // SAFETY: The types are the same.
    if std::any::type_name::<Self>() == std::any::type_name::<OwnedBuf>() {
        std::io::Write::write_all(unsafe { &mut *(s as *mut Self).cast::<OwnedBuf>() }, b).unwrap()
    } else {
        s.extend(b)
    }
});
bf!(['a,], SliceMut<'a, E, O>, true, |s| s.to_requested(), |s, b| {
    // By hand, into the memory which was reserved.
    s.reserve(b.len());
    unsafe {
        s.as_mut_ptr().add(s.len()).copy_from_nonoverlapping(b.as_ptr(), b.len());
        s.advance(b.len());
    }
});

/// Something in the buffer and how to get at it.
struct Item<B> {
    at: usize,
    size: usize,
    what: String,
    /// Compare with the model. The buffer is known to be aligned.
    load: Box<dyn Fn(&Buf, &[u8]) -> R>,
    /// Change in place; returns the bytes it has now.
    set: Option<fn(&mut Buf, usize, &mut Rng) -> Result<Vec<u8>, String>>,
    swap: Option<(std::any::TypeId, fn(&mut Buf, usize, usize) -> Result<(), String>)>,
    fill: Option<fn(&mut B, usize, &mut Rng) -> Result<(Vec<u8>, Item<B>), String>>,
}

fn item<B: Bf, T: Zm>(at: usize) -> Item<B>
where
    B::ByteOrder: 'static,
    B::Size: 'static,
{
    let n = name::<T>();
    let x = Ref::<T, B::ByteOrder, B::Size>::new(at);
    Item {
        at,
        size: size_of::<T>(),
        what: n.clone(),
        load: Box::new(move |b, m| {
            let want = &m[at..at + size_of::<T>()];
            let got = b.load(x).map_err(|e| format!("loading {n} at {at}: {e}"))?;
            ensure!(image(got) == want, "{n} at {at}: {:02x?} is loaded as {:02x?}", want, image(got));
            Ok(())
        }),
        set: Some(|b, at, r| {
            let v = T::arb(r);
            let bytes = |fill| {
                let d = Dirty::new(&v, fill);
                // SAFETY: Every byte was written.
                unsafe { std::slice::from_raw_parts((d.get() as *const T).cast::<u8>(), size_of::<T>()).to_vec() }
            };
            let g = b.load_mut(Ref::<T, B::ByteOrder, B::Size>::new(at)).map_err(|e| format!("loading {} at {at} mutably: {e}", name::<T>()))?;
            // Assigning a value with padding says nothing about the padding.
            if bytes(0) == bytes(0xff) {
                *g = v;
            }
            Ok(image(g))
        }),
        swap: Some((std::any::TypeId::of::<T>(), |b, x, y| {
            b.swap(Ref::<T, B::ByteOrder, B::Size>::new(x), Ref::new(y)).map_err(|e| e.to_string())
        })),
        fill: None,
    }
}

struct World<B> {
    buf: B,
    model: Vec<u8>,
    items: Vec<Item<B>>,
    /// The least alignment which was requested.
    asked: usize,
    max: usize,
}

/// What an operation can leave behind when it panics: nothing, the padding,
/// or everything.
enum Out {
    Done,
    Refused,
}

impl<B: Bf> World<B> {
    fn check(&self, what: &str) -> R {
        let b = self.buf.bytes();
        ensure!(b.len() == self.model.len() && StoreBuf::len(&self.buf) == b.len() && self.buf.empty() == b.is_empty(), "after {what}: {} bytes instead of {}", b.len(), self.model.len());
        if b != self.model {
            let at = b.iter().zip(&self.model).position(|(a, b)| a != b).unwrap();
            fail!("after {what}: byte {at} is {:02x} instead of {:02x}", b[at], self.model[at]);
        }
        ensure!(self.buf.room() >= b.len(), "after {what}: {} bytes in a capacity of {}", b.len(), self.buf.room());
        ensure!(self.buf.asked() == self.asked, "after {what}: the requested alignment is {} instead of {}", self.buf.asked(), self.asked);
        Ok(())
    }

    /// Run an operation which pads to `align` and appends `bytes`.
    fn append<T>(&mut self, c: &mut Case<'_>, what: &str, align: usize, bytes: &[u8], reserve: usize, may: bool, f: impl FnOnce(&mut B) -> T) -> Result<Option<(usize, T)>, String> {
        let at = self.model.len().next_multiple_of(align);
        let end = at + bytes.len().max(reserve);
        let asked = self.asked.max(align);
        let fits = !B::FIXED || end.max(asked) <= self.buf.room();
        let names = at <= self.max;
        let buf = &mut self.buf;
        let out = match guard(|| f(buf)) {
            Ok(v) => {
                ensure!(fits, "{what}: appending up to {end} in a capacity of {} succeeds", self.buf.room());
                ensure!(names || may, "{what}: a reference to {at} is not refused by a width of at most {}", self.max);
                self.model.resize(at, 0);
                self.model.extend_from_slice(bytes);
                self.asked = asked;
                Some((at, v))
            }
            Err(e) => {
                ensure!(!fits || !names, "{what}: appending up to {end} in a capacity of {}: {e}", self.buf.room());
                // What was requested may remain.
                ensure!(self.buf.asked() == self.asked || self.buf.asked() == asked, "{what}: the requested alignment becomes {}", self.buf.asked());
                self.asked = self.buf.asked();
                let n = StoreBuf::len(&self.buf);
                if n != self.model.len() {
                    ensure!(fits && (n == at || n == at + bytes.len()), "{what}: refused, and the length becomes {n}");
                    self.model.resize(at, 0);
                    self.model.extend_from_slice(&bytes[..n - at]);
                }
                c.event(if fits { "offsets refused by the width" } else { "operations refused for lack of room" });
                None
            }
        };
        self.check(what)?;
        Ok(out)
    }

    fn reload(&mut self, c: &mut Case<'_>) -> R {
        let b = self.buf.bytes();
        let copy;
        let fine = Buf::new(b).is_aligned_with(self.asked);
        let b = if fine {
            c.event("loaded in place");
            Buf::new(b)
        } else {
            copy = self.buf.aligned();
            ensure!(copy.is_aligned_with(self.asked), "an aligned copy is not aligned by {}", self.asked);
            ensure!(copy.get(..) == Some(&self.model[..]), "an aligned copy differs");
            c.event("loaded from an aligned copy");
            &*copy
        };
        ensure!((b.get(..).unwrap().as_ptr() as usize) % b.alignment() == 0, "a buffer claims an alignment of {}", b.alignment());
        for i in &self.items {
            (i.load)(b, &self.model)?;
            c.event("references loaded");
        }
        Ok(())
    }
}

type Op<B> = fn(&mut World<B>, &mut Case<'_>, &mut Rng) -> R;

fn typed<B: Bf, T: Zm>(w: &mut World<B>, c: &mut Case<'_>, r: &mut Rng) -> R
where
    B::ByteOrder: 'static,
    B::Size: 'static,
{
    let n = name::<T>();
    let fill = *r.pick(&[0xa5u8, 0xff, 1]);
    let (z, a) = (size_of::<T>(), align_of::<T>());
    match r.below(12) {
        0..=2 => {
            let v = T::arb(r);
            let d = Dirty::new(&v, fill);
            if let Some((at, x)) = w.append(c, &format!("storing {n}"), a, &image(&v), 0, false, |b| b.put(d.get()))? {
                ensure!(x.offset() == at, "{n} is stored at {} instead of {at}", x.offset());
                w.items.push(item::<B, T>(at));
                c.event("values stored");
            }
        }
        3 | 4 => {
            let v: Vec<T> = (0..r.below(4)).map(|_| T::arb(r)).collect();
            let d = DirtySlice::new(&v, fill);
            let bytes: Vec<u8> = v.iter().flat_map(image).collect();
            let u = r.bool();
            let k = v.len();
            if let Some((at, x)) = w.append(c, &format!("storing {k} × {n}"), a, &bytes, 0, false, |b| if u { b.row_unsized(d.get()) } else { b.row(d.get()) })? {
                ensure!(x.offset() == at && x.len() == k, "{k} × {n} are stored at {}+{} instead of {at}", x.offset(), x.len());
                let n2 = n.clone();
                w.items.push(Item {
                    at,
                    size: bytes.len(),
                    what: n.clone(),
                    load: Box::new(move |b, m| {
                        let got = b.load(x).map_err(|e| format!("loading [{n2}] at {at}: {e}"))?;
                        let got: Vec<u8> = got.iter().flat_map(image).collect();
                        ensure!(got == m[at..at + k * size_of::<T>()], "[{n2}] at {at}: {:02x?} is loaded as {got:02x?}", &m[at..at + k * size_of::<T>()]);
                        Ok(())
                    }),
                    set: None,
                    swap: None,
                    fill: None,
                });
                for i in (0..k).take_while(|i| at + i * z <= w.max) {
                    w.items.push(item::<B, T>(at + i * z));
                }
                c.event("rows stored");
            }
        }
        5 | 6 => {
            if let Some((at, x)) = w.append(c, &format!("reserving {n}"), a, &vec![0; z], 0, false, |b| b.space::<T>())? {
                ensure!(x.offset() == at, "{n} is reserved at {} instead of {at}", x.offset());
                w.items.push(Item {
                    at,
                    size: z,
                    what: n,
                    load: Box::new(|_, _| Ok(())),
                    set: None,
                    swap: None,
                    fill: Some(|b, at, r| {
                        let v = T::arb(r);
                        let d = Dirty::new(&v, 0xa5);
                        let x = Ref::<MaybeUninit<T>, B::ByteOrder, B::Size>::new(at);
                        let got = if r.bool() { b.fill_space(x, d.get()) } else { b.fill_space(Ref::<_, Big, u64>::new(at), d.get()) };
                        ensure!(got == image(&v), "{}: writing {:02x?} gives {got:02x?}", name::<T>(), image(&v));
                        let x = x.assume_init();
                        ensure!(x.offset() == at, "initialising a reference to {at} moves it to {}", x.offset());
                        Ok((got, item::<B, T>(at)))
                    }),
                });
                c.event("space reserved");
            }
        }
        7 | 8 => {
            w.append(c, &format!("requesting the alignment of {n}"), a, &[], z, true, |b| b.align::<T>()).map(|_| ())?;
            c.event("alignments requested");
        }
        _ => {
            if let Some((at, x)) = w.append(c, &format!("asking for the offset of {n}"), a, &[], z, true, |b| b.place::<T>())? {
                ensure!(at == x, "the next offset of {n} is {x} instead of {at}");
                c.event("offsets asked for");
                if r.bool() {
                    let v = image(&T::arb(r));
                    let room = w.buf.room();
                    if w.append(c, &format!("appending the bytes of {n}"), 1, &v, 0, true, |b| b.extend(&v))?.is_some() {
                        ensure!(w.buf.room() == room, "{n}: the capacity for an offset asked for was {room} and becomes {}", w.buf.room());
                        if at <= w.max {
                            w.items.push(item::<B, T>(at));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn plain<B: Bf>(w: &mut World<B>, c: &mut Case<'_>, r: &mut Rng) -> R
where
    B::ByteOrder: 'static,
    B::Size: 'static,
{
    match r.below(16) {
        0 => {
            let s: String = (0..r.below(9)).map(|_| char::arb(r)).collect();
            if let Some((at, x)) = w.append(c, "storing a string", 1, s.as_bytes(), 0, false, |b| b.text(&s))? {
                ensure!(x.offset() == at && x.len() == s.len(), "a string is stored at {}+{} instead of {at}", x.offset(), x.len());
                w.items.push(Item {
                    at,
                    size: s.len(),
                    what: "str".into(),
                    load: Box::new(move |b, m| {
                        let got = b.load(x).map_err(|e| format!("loading a string at {at}: {e}"))?;
                        ensure!(got.as_bytes() == &m[at..at + got.len()] && got == s, "{s:?} is loaded as {got:?}");
                        Ok(())
                    }),
                    set: None,
                    swap: None,
                    fill: None,
                });
                c.event("strings stored");
            }
        }
        1 | 2 => {
            let k = if r.chance(1, 5) { r.below(600) } else { r.below(9) };
            let b = r.bytes(k);
            w.append(c, "appending bytes", 1, &b, 0, true, |f| f.extend(&b)).map(|_| ())?;
            c.event("bytes appended");
        }
        3 => {
            let k = r.below(40);
            let b = r.bytes(k);
            w.append(c, "writing bytes", 1, &b, 0, true, |f| f.write(&b)).map(|_| ())?;
            c.event("bytes written");
        }
        4 => {
            let k = r.below(60);
            let byte = r.u64() as u8;
            w.append(c, "filling", 1, &vec![byte; k], 0, true, |b| b.fill(byte, k)).map(|_| ())?;
            c.event("bytes filled");
        }
        5 => {
            let al = 1usize << r.below(9);
            let k = r.below(200);
            w.append(c, "reserving at an alignment", al, &[], k, true, |b| b.next_offset_with_and_reserve(al, k)).map(|_| ())?;
            c.event("alignments requested");
        }
        6 | 7 => {
            let k = if r.chance(1, 3) { r.below(3000) } else { r.below(64) };
            if w.append(c, "reserving", 1, &[], k, true, |b| b.more(k))?.is_some() {
                ensure!(w.buf.room() >= w.model.len() + k, "{k} bytes are reserved and the capacity is {}", w.buf.room());
                let (room, p) = (w.buf.room(), w.buf.bytes().as_ptr());
                let b = r.bytes(k);
                w.append(c, "appending what was reserved", 1, &b, 0, true, |f| f.extend(&b))?;
                ensure!(w.buf.room() == room && w.buf.bytes().as_ptr() == p, "appending the {k} bytes which were reserved moves the buffer");
            }
            c.event("capacity reserved");
        }
        8 => {
            // More than there can be.
            let k = match r.below(4) {
                0 => usize::MAX,
                1 => usize::MAX - w.model.len(),
                2 => (usize::MAX - w.model.len()).saturating_add(1),
                _ => (isize::MAX as usize + 1).saturating_add(r.edge_bits() as usize >> 1),
            };
            if k <= isize::MAX as usize {
                return Ok(());
            }
            let al = 1usize << r.below(9);
            let deep = r.bool();
            let buf = &mut w.buf;
            let g = guard(|| if deep { buf.next_offset_with_and_reserve(al, k) } else { buf.more(k) });
            ensure!(g.is_err(), "reserving {k} bytes succeeds");
            ensure!(w.buf.asked() == w.asked || deep && w.buf.asked() == w.asked.max(al), "the requested alignment becomes {}", w.buf.asked());
            w.asked = w.buf.asked();
            w.check("reserving an absurd amount")?;
            c.event("absurd amounts refused");
        }
        9 if r.chance(1, 3) => {
            w.buf.forget();
            w.model.clear();
            w.items.clear();
            w.check("clearing")?;
            c.event("buffers cleared");
        }
        10 if r.chance(1, 2) => {
            let n = r.below(w.model.len() + 10);
            w.buf.truncate(n);
            w.model.truncate(n);
            let m = w.model.len();
            for i in w.items.extract_if(.., |i| i.at + i.size > m) {
                if i.fill.is_none() && (i.load)(Buf::new(w.buf.bytes()), &vec![0; i.at + i.size]).is_ok() {
                    fail!("{} at {} is loaded from the {m} bytes which are left", i.what, i.at);
                }
            }
            w.check("truncating")?;
            c.event("buffers truncated");
        }
        11 => {
            let p = w.buf.bytes().as_ptr() as usize;
            let buf = &mut w.buf;
            let out = match guard(|| buf.realign()) {
                Ok(()) => Out::Done,
                Err(e) if B::FIXED && p % w.asked != 0 => {
                    let _ = e;
                    Out::Refused
                }
                Err(e) => fail!("aligning in place: {e}"),
            };
            w.check("aligning in place")?;
            if let Out::Done = out {
                ensure!(w.buf.bytes().as_ptr() as usize % w.asked == 0, "aligned in place, but not by {}", w.asked);
                ensure!(Buf::new(w.buf.bytes()).is_aligned_with(w.asked), "aligned in place, but not by {}", w.asked);
                c.event("aligned in place");
            }
            w.reload(c)?;
        }
        12 => {
            let b = Buf::new(w.buf.bytes());
            let o = b.to_owned();
            ensure!(o.as_slice() == &w.model[..], "an owned copy differs");
            let al = 1usize << r.below(9);
            let o = b.to_aligned_with(al);
            ensure!(o.get(..) == Some(&w.model[..]) && o.is_aligned_with(al), "a copy aligned by {al} differs or is not");
            let o = b.to_aligned::<Cache>();
            ensure!(o.get(..) == Some(&w.model[..]) && o.is_aligned::<Cache>(), "a copy aligned by 64 differs or is not");
            c.event("copied");
        }
        13 => {
            w.reload(c)?;
        }
        _ => {
            if w.items.is_empty() || !Buf::new(w.buf.bytes()).is_aligned_with(w.asked) {
                return Ok(());
            }
            let i = r.below(w.items.len());
            if let Some(f) = w.items[i].fill {
                let (at, z) = (w.items[i].at, w.items[i].size);
                let (bytes, item) = f(&mut w.buf, at, r)?;
                w.model[at..at + z].copy_from_slice(&bytes);
                w.items[i] = item;
                w.check("filling space")?;
                c.event("space filled");
                return Ok(());
            }
            if r.bool() {
                if let Some(f) = w.items[i].set {
                    let (at, z) = (w.items[i].at, w.items[i].size);
                    let bytes = f(Buf::new_mut(w.buf.bytes_mut()), at, r)?;
                    w.model[at..at + z].copy_from_slice(&bytes);
                    w.check("assigning in place")?;
                    c.event("assigned in place");
                }
            } else if let Some((t, f)) = w.items[i].swap {
                let js: Vec<usize> = (0..w.items.len()).filter(|j| w.items[*j].swap.is_some_and(|s| s.0 == t)).collect();
                let j = *r.pick(&js);
                let (a, b, z) = (w.items[i].at, w.items[j].at, w.items[i].size);
                f(StoreBuf::as_mut_buf(&mut w.buf), a, b)?;
                if a != b && z != 0 {
                    let (x, y) = (a.min(b), a.max(b));
                    let (p, q) = w.model.split_at_mut(y);
                    p[x..x + z].swap_with_slice(&mut q[..z]);
                }
                w.check("swapping")?;
                c.event("places swapped");
            }
        }
    }
    Ok(())
}

fn ops<B: Bf>() -> Vec<Op<B>>
where
    B::ByteOrder: 'static,
    B::Size: 'static,
{
    let mut all: Vec<Op<B>> = Vec::new();
    macro_rules! push {
        ($t:ty) => {
            all.push(typed::<B, $t>)
        };
    }
    each_zm!(push);
    push!(Page);
    for _ in 0..all.len() {
        all.push(plain::<B>);
    }
    all
}

fn run<B: Bf>(w: &mut World<B>, c: &mut Case<'_>, r: &mut Rng, n: usize, all: &[Op<B>]) -> R {
    w.check("creating")?;
    for _ in 0..n {
        (r.pick(all))(w, c, r)?;
        c.event("operations");
    }
    Ok(())
}

fn owned<E: ByteOrder + 'static, O: Size + 'static>(c: &mut Case<'_>, max: usize) -> R {
    let mut r = Rng::new(c.rng.u64());
    let k = if r.bool() { 0 } else { r.below(300) };
    let (buf, asked) = match r.below(8) {
        0 => (OwnedBuf::with_capacity(k), 8),
        1 => (OwnedBuf::with_alignment::<u8>(), 1),
        2 => (OwnedBuf::with_alignment::<Cache>(), 64),
        3 => (OwnedBuf::with_capacity_and_alignment::<u8>(k), 1),
        4 => (OwnedBuf::with_capacity_and_alignment::<u16>(k), 2),
        5 => (OwnedBuf::with_capacity_and_alignment::<Cache>(k), 64),
        _ => (OwnedBuf::new(), 8),
    };
    ensure!(buf.capacity() == 0 || buf.capacity() >= k, "a capacity of {} instead of {k}", buf.capacity());
    let mut w = World { buf: buf.with_byte_order::<E>().with_size::<O>(), model: vec![], items: vec![], asked, max };
    let all = ops();
    for _ in 0..1 + r.below(4) {
        let n = 1 + r.below(if cfg!(miri) { 6 } else { 20 });
        run(&mut w, c, &mut r, n, &all)?;
        match r.below(4) {
            0 => {
                let copy = w.buf.clone();
                let old = std::mem::replace(&mut w.buf, copy);
                w.check("cloning")?;
                ensure!(w.buf.as_slice().as_ptr() as usize % w.asked == 0, "a clone is not aligned by {}", w.asked);
                w.reload(c)?;
                drop(old);
                w.check("dropping the original")?;
                c.event("clones used");
            }
            1 => {
                w.buf = w.buf.recast();
                w.check("changing byte order and width")?;
                c.event("byte order and width changed");
            }
            _ => (),
        }
    }
    w.buf.align_in_place();
    ensure!(w.buf.is_aligned_with(w.asked), "not aligned by {} in the end", w.asked);
    w.check("aligning at the end")?;
    c.seen_bytes(&w.model);
    w.reload(c)
}

#[repr(C, align(1024))]
struct Mem([u8; 8192]);

fn fixed<E: ByteOrder + 'static, O: Size + 'static>(c: &mut Case<'_>, max: usize) -> R {
    let mut r = Rng::new(c.rng.u64());
    let mut mem = Box::new(Mem([0xa5; 8192]));
    let start = match r.below(3) {
        0 => 0,
        1 => r.below(4) * 64,
        _ => r.below(200),
    };
    let len = match r.below(3) {
        0 => r.below(20),
        1 => r.below(400),
        _ => r.below(8192 - start),
    };
    let end = start + len;
    let longest;
    let model;
    {
        let m = &mut mem.0[start..end];
        let (buf, asked) = match r.below(3) {
            0 => (SliceMut::with_alignment::<u8>(m), 1),
            1 => (SliceMut::with_alignment::<Cache>(m), 64),
            _ => (SliceMut::new(m), 8),
        };
        ensure!(buf.capacity() == len, "a capacity of {} instead of {len}", buf.capacity());
        let mut w = World { buf: buf.with_byte_order::<E>().with_size::<O>(), model: vec![], items: vec![], asked, max };
        let all = ops();
        let n = 1 + r.below(if cfg!(miri) { 8 } else { 50 });
        run(&mut w, c, &mut r, n, &all)?;
        if r.bool() {
            w.buf = w.buf.recast();
            w.check("changing byte order and width")?;
        }
        c.seen_bytes(&w.model);
        w.reload(c)?;
        longest = w.buf.room();
        model = w.model;
    }
    ensure!(longest == len, "the capacity becomes {longest} instead of {len}");
    ensure!(mem.0[..start].iter().all(|b| *b == 0xa5), "bytes before the slice were written");
    ensure!(mem.0[start..][..model.len()] == model[..], "the slice holds something else once released");
    ensure!(mem.0[end..].iter().all(|b| *b == 0xa5), "bytes after the slice were written");
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    g.add("owned", |c| owned::<Native, u32>(c, u32::MAX as usize));
    g.add("owned u16", |c| owned::<Big, u16>(c, u16::MAX as usize));
    g.add("owned u8", |c| owned::<Little, u8>(c, u8::MAX as usize));
    g.add("fixed", |c| fixed::<Native, u32>(c, u32::MAX as usize));
    g.add("fixed big", |c| fixed::<Big, usize>(c, usize::MAX));
    vh::rt::main(g);
}
