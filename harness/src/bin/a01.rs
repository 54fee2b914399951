//! A01: allocators hand out disjoint, aligned memory that keeps its contents.
use musli::alloc::{Alloc, Allocator, ArrayBuffer, Disabled, Slice, SliceBuffer, System};
use std::mem::{align_of, size_of, MaybeUninit};
use vh::rng::{mix, Rng};
use vh::rt::{Case, Groups, R};
use vh::ensure;

#[derive(Clone, Copy)]
#[repr(align(32))]
struct A32(#[allow(dead_code)] [u8; 32]);
#[derive(Clone, Copy)]
#[repr(align(128))]
struct A128(#[allow(dead_code)] [u8; 256]);
#[derive(Clone, Copy)]
#[repr(align(8))]
struct Z8;

thread_local! {
    /// Whether the next request is made while there is no memory.
    static SHORT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Run a single request of the allocator, with the memory of the system used
/// up if that was asked for.
fn pressed<T>(f: impl FnOnce() -> T) -> T {
    if !SHORT.with(|s| s.replace(false)) {
        return f();
    }
    vh::rt::counting::set_refuse(1);
    let r = f();
    vh::rt::counting::set_refuse(1 << 30);
    r
}

/// An allocation together with the bytes it must hold.
struct L<T, A: Allocator> {
    buf: A::Alloc<T>,
    /// Bytes of the elements in use.
    model: Vec<u8>,
    /// Elements which fit, as far as promised.
    cap: usize,
}

impl<T, A: Allocator> L<T, A> {
    fn len(&self) -> usize {
        if size_of::<T>() == 0 { 0 } else { self.model.len() / size_of::<T>() }
    }
    /// The claimed memory.
    fn span(&self) -> (usize, usize) {
        let p = self.buf.as_ptr() as usize;
        let n = self.buf.capacity();
        if size_of::<T>() == 0 { (p, 0) } else { (p, n.saturating_mul(size_of::<T>())) }
    }
    fn check(&mut self) -> R {
        let p = self.buf.as_ptr();
        ensure!(p as usize % align_of::<T>() == 0, "{p:?} is not aligned to {}", align_of::<T>());
        ensure!(!p.is_null(), "null pointer");
        let cap = self.buf.capacity();
        ensure!(size_of::<T>() == 0 || cap >= self.cap, "capacity() is {cap} although {} elements were granted", self.cap);
        if size_of::<T>() == 0 {
            return Ok(());
        }
        let m = self.buf.as_mut_ptr();
        ensure!(p == m.cast_const(), "as_ptr and as_mut_ptr differ");
        let got = unsafe { std::slice::from_raw_parts(p.cast::<u8>(), self.model.len()) };
        ensure!(got == &self.model[..], "{} bytes written to an allocation of {}-byte elements changed: {got:02x?} instead of {:02x?}", self.model.len(), size_of::<T>(), self.model);
        Ok(())
    }
    /// Write elements up to what was granted, then scribble over the rest of it.
    fn write(&mut self, r: &mut Rng, n: usize) {
        if size_of::<T>() == 0 {
            return;
        }
        let n = n.min(self.cap - self.len());
        let bytes = r.bytes(n * size_of::<T>());
        let spare = (self.cap - self.len()) * size_of::<T>();
        unsafe {
            let at = self.buf.as_mut_ptr().cast::<u8>().add(self.model.len());
            at.write_bytes(0xA5, spare.min(4096));
            at.copy_from_nonoverlapping(bytes.as_ptr(), bytes.len());
        }
        self.model.extend(bytes);
    }
    fn resize(&mut self, add: usize) -> bool {
        let len = self.len();
        let buf = &mut self.buf;
        if pressed(|| buf.resize(len, add).is_err()) {
            return false;
        }
        self.cap = self.cap.max(len.saturating_add(add));
        true
    }
}

fn merge<T, A: Allocator>(a: &mut L<T, A>, b: L<T, A>) -> Result<(), L<T, A>> {
    let (n, m) = (a.len(), b.len());
    match a.buf.try_merge(n, b.buf, m) {
        Ok(()) => {
            a.model.extend(b.model);
            a.cap = a.cap.max(n + m);
            Ok(())
        }
        Err(buf) => Err(L { buf, model: b.model, cap: b.cap }),
    }
}

macro_rules! kinds {
    ($($v:ident $t:ty),* $(,)?) => {
        enum Any<A: Allocator> { $($v(L<$t, A>)),* }
        const KINDS: usize = [$(stringify!($v)),*].len();
        macro_rules! each {
            ($x:expr, $l:ident => $e:expr) => { match $x { $(Any::$v($l) => $e),* } };
        }
        fn empty<A: Allocator>(a: A, k: usize) -> Any<A> {
            let mut i = 0;
            $(if i == k { return Any::$v(L { buf: a.alloc_empty::<$t>(), model: Vec::new(), cap: 0 }); } i += 1;)*
            let _ = i;
            unreachable!()
        }
        fn one<A: Allocator>(a: A, k: usize, r: &mut Rng) -> Option<Any<A>> {
            let mut i = 0;
            $(if i == k {
                let model = r.bytes(size_of::<$t>());
                let v = unsafe { std::ptr::read_unaligned(model.as_ptr().cast::<MaybeUninit<$t>>()).assume_init() };
                return Some(Any::$v(L { buf: pressed(|| a.alloc(v).ok())?, model, cap: 1 }));
            } i += 1;)*
            let _ = i;
            unreachable!()
        }
        fn merge_any<A: Allocator>(a: &mut Any<A>, b: Any<A>) -> Result<bool, Any<A>> {
            match (a, b) {
                $((Any::$v(a), Any::$v(b)) => match merge(a, b) { Ok(()) => Ok(true), Err(b) => Err(Any::$v(b)) },)*
                (_, b) => Err(b),
            }
        }
    };
}
kinds! { U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, B3 [u8; 3], H5 [u16; 5], A32 A32, A128 A128, Unit (), Z8 Z8, B300 [u8; 300] }

/// Everything an allocator promises about a set of live allocations.
fn all_well<A: Allocator>(live: &mut [(u64, Any<A>)], mem: Option<(usize, usize)>) -> R {
    let mut spans = Vec::new();
    for (id, x) in live.iter_mut() {
        each!(x, l => l.check()).map_err(|e| format!("allocation {id}: {e}"))?;
        let (p, n) = each!(x, l => l.span());
        if n == 0 {
            continue;
        }
        if let Some((from, to)) = mem {
            ensure!(p >= from && p.checked_add(n).is_some_and(|e| e <= to), "allocation {id} at {}+{n} lies outside the buffer of {} bytes", p as isize - from as isize, to - from);
        }
        spans.push((p, n, *id));
    }
    spans.sort();
    for w in spans.windows(2) {
        ensure!(w[0].0 + w[0].1 <= w[1].0, "allocation {} ({} bytes) and allocation {} ({} bytes, {} after it) overlap", w[0].2, w[0].1, w[1].2, w[1].1, w[1].0 - w[0].0);
    }
    Ok(())
}

fn drive<A: Allocator>(c: &mut Case<'_>, r: &mut Rng, a: A, mem: Option<(usize, usize)>) -> R {
    let mut live: Vec<(u64, Any<A>)> = Vec::new();
    let mut log = String::new();
    SHORT.with(|s| s.set(false));
    let mut next = 0u64;
    let mut most = 0;
    let mut trace = 7u64;
    // A few kinds so that merges happen, weighted towards small ones.
    let kinds: Vec<usize> = (0..1 + r.below(4)).map(|_| if r.chance(2, 3) { r.below(6) } else { r.below(KINDS) }).collect();
    let steps = 10 + r.below(if c.thorough { 200 } else { 80 });
    let deep = r.chance(1, 3);
    for step in 0..=steps {
        let last = step == steps;
        if last && r.bool() {
            break;
        }
        let k = *r.pick(&kinds);
        let i = if live.is_empty() { 0 } else { r.below(live.len()) };
        let op = if last { 99 } else { r.below(16) };
        let grow = match r.below(12) {
            0..=6 => r.below(9),
            7 | 8 => r.below(60),
            9 => 1,
            10 => r.below(700),
            _ => *r.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, isize::MAX as usize, i32::MAX as usize, 1 << 31, (1 << 40) + 1]),
        };
        use std::fmt::Write;
        trace = mix(trace, op as u64 ^ (k as u64) << 8 ^ (i as u64) << 16 ^ (grow as u64) << 24);
        if mem.is_none() && r.chance(1, 10) {
            SHORT.with(|s| s.set(true));
            c.event("requests made while there is no memory");
            let _ = write!(log, "(short) ");
        }
        match op {
            0 | 1 if live.len() < if deep { 60 } else { 6 } => {
                let _ = write!(log, "{next}=empty#{k} ");
                live.push((next, empty(a, k)));
                next += 1;
            }
            2 | 3 if live.len() < if deep { 60 } else { 6 } => {
                let _ = write!(log, "{next}=alloc#{k} ");
                match one(a, k, r) {
                    Some(x) => {
                        live.push((next, x));
                        next += 1;
                        c.event("single values allocated");
                    }
                    None => c.event("refused for lack of memory"),
                }
            }
            4..=8 if !live.is_empty() => {
                let (id, x) = &mut live[i];
                // No test may really ask the system for gigabytes.
                if mem.is_none() && grow > 1 << 20 && grow < isize::MAX as usize / 300 {
                    continue;
                }
                let _ = write!(log, "resize({id},+{grow}) ");
                let before = each!(x, l => l.span().0);
                if each!(x, l => l.resize(grow)) {
                    c.event("allocations grown");
                    if each!(x, l => l.span().0) != before {
                        c.event("allocations moved");
                    }
                    if each!(x, l => l.cap) > 1 << 24 {
                        ensure!(each!(x, l => l.span().1) == 0, "{} elements were granted; {log}", each!(x, l => l.cap));
                    }
                    if r.chance(3, 4) {
                        let n = r.below(grow.min(4096) + 1);
                        each!(x, l => { let n = if r.bool() { l.cap.min(1 << 16) } else { n }; l.write(r, n) });
                    }
                } else {
                    c.event("refused for lack of memory");
                }
            }
            9 if !live.is_empty() => {
                let (id, x) = &mut live[i];
                let n = each!(x, l => { let n = r.below(l.len() + 1); l.model.truncate(n * l.model.len().checked_div(l.len()).unwrap_or(0)); n });
                let _ = write!(log, "truncate({id},{n}) ");
            }
            10..=12 if !live.is_empty() => {
                let (id, x) = live.swap_remove(i);
                let _ = write!(log, "free({id}) ");
                drop(x);
                c.event("allocations freed");
            }
            13..=15 if live.len() >= 2 => {
                let (j, y) = live.swap_remove(i);
                // Prefer the neighbour in memory.
                let (p, _) = each!(&y, l => l.span());
                let to = live.iter().position(|(_, x)| { let (q, n) = each!(x, l => l.span()); n > 0 && q + n == p }).filter(|_| r.chance(4, 5)).unwrap_or_else(|| r.below(live.len()));
                let (id, x) = &mut live[to];
                let _ = write!(log, "merge({id},{j}) ");
                match merge_any(x, y) {
                    Ok(_) => c.event("allocations merged in place"),
                    Err(y) => live.push((j, y)),
                }
            }
            99 => {
                // Everything is returned.
                let mut order: Vec<usize> = Vec::new();
                while !live.is_empty() {
                    let i = r.below(live.len());
                    order.push(i);
                    let (id, x) = live.swap_remove(i);
                    let _ = write!(log, "free({id}) ");
                    drop(x);
                    all_well(&mut live, mem).map_err(|e| format!("{e}; {log}"))?;
                }
                let Some((from, to)) = mem else { continue };
                // All but the headers of the regions which were in use at
                // once must be available again.
                let n = (to - from).saturating_sub(32 * (most + 4));
                if n > 0 {
                    let mut x = empty(a, 0);
                    ensure!(each!(&mut x, l => l.resize(n)), "nothing is in use and {} allocations at most ever were, yet {n} bytes do not fit into a buffer of {} bytes; {log}", most, to - from);
                    each!(&mut x, l => l.write(r, n));
                    live.push((next, x));
                    c.event("whole buffer used again");
                }
            }
            _ => continue,
        }
        SHORT.with(|s| s.set(false));
        most = most.max(live.len());
        all_well(&mut live, mem).map_err(|e| format!("{e}; {log}"))?;
        c.event("sets of live allocations checked");
    }
    c.sample(|| log.clone());
    c.seen(trace);
    r.shuffle(&mut live);
    while let Some(x) = live.pop() {
        drop(x);
        all_well(&mut live, mem).map_err(|e| format!("{e}; {log}"))?;
    }
    Ok(())
}

fn in_buffer<B: ?Sized + SliceBuffer>(c: &mut Case<'_>, r: &mut Rng, b: &mut B, from: usize, size: usize) -> R {
    let a = Slice::new(b);
    drive(c, r, &a, Some((from, from + size)))
}

const GUARD: u8 = 0x5C;

fn slice<T: Copy>(c: &mut Case<'_>, of: fn(u8) -> T) -> R
where
    [T]: SliceBuffer,
{
    let mut r = Rng::new(c.rng.u64());
    let n = match r.below(8) {
        0 => r.below(64),
        1 | 2 => r.below(300),
        3 | 4 | 5 => r.below(1500),
        _ => r.below(8000),
    } / size_of::<T>();
    let (x, y) = (64 + r.below(40), 64);
    let mut mem = vec![of(GUARD); x + n + y];
    let from = mem[x..].as_ptr() as usize;
    in_buffer(c, &mut r, &mut mem[x..x + n], from, n * size_of::<T>())?;
    let raw = unsafe { std::slice::from_raw_parts(mem.as_ptr().cast::<u8>(), mem.len() * size_of::<T>()) };
    let (lo, hi) = (x * size_of::<T>(), (x + n) * size_of::<T>());
    ensure!(raw[..lo].iter().chain(&raw[hi..]).all(|b| *b == GUARD), "memory around the buffer of {n} elements was changed");
    c.event("surroundings of buffers intact");
    Ok(())
}

fn disabled(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let a = Disabled::new();
    for k in 0..KINDS {
        if let Some(x) = one(a, k, &mut r) {
            let n = each!(&x, l => l.model.len());
            ensure!(n == 0, "Disabled allocated {n} bytes");
        }
        let mut x = empty(a, k);
        ensure!(each!(&mut x, l => l.resize(0)), "a request for nothing fails with Disabled");
        let n = 1 + r.below(5);
        if each!(&mut x, l => l.resize(n)) {
            ensure!(each!(&x, l => l.span().1) == 0, "Disabled granted memory");
        }
        each!(&mut x, l => l.check())?;
        c.seen(k as u64);
    }
    c.event("refused for lack of memory");
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    g.no_leaks();
    g.add("u8 slice", |c| slice::<u8>(c, |b| b));
    g.add("u16 slice", |c| slice::<u16>(c, |b| u16::from_ne_bytes([b; 2])));
    g.add("u64 slice", |c| slice::<u64>(c, |b| u64::from_ne_bytes([b; 8])));
    g.add("u128 slice", |c| slice::<u128>(c, |b| u128::from_ne_bytes([b; 16])));
    g.add("uninit slice", |c| slice::<MaybeUninit<u32>>(c, |b| MaybeUninit::new(u32::from_ne_bytes([b; 4]))));
    g.add("array", |c| {
        let mut r = Rng::new(c.rng.u64());
        let mut m = [[GUARD; 1000]; 3];
        let from = m[1].as_ptr() as usize;
        in_buffer(c, &mut r, &mut m[1], from, 1000)?;
        ensure!(m[0] == [GUARD; 1000] && m[2] == [GUARD; 1000], "memory around the array was changed");
        Ok(())
    });
    g.add("ArrayBuffer", |c| {
        let mut r = Rng::new(c.rng.u64());
        let mut m = ArrayBuffer::<2048>::with_size();
        let (from, n) = (&raw const m as usize, size_of::<ArrayBuffer<2048>>());
        in_buffer(c, &mut r, &mut m, from, n)
    });
    g.add("system", |c| {
        let mut r = Rng::new(c.rng.u64());
        vh::rt::counting::set_refuse(1 << 30);
        drive(c, &mut r, System::new(), None)
    });
    g.add("default", |c| {
        let mut r = Rng::new(c.rng.u64());
        vh::rt::counting::set_refuse(1 << 30);
        musli::alloc::default(|a| drive(c, &mut r, a, None))
    });
    g.add_n("disabled", 50, disabled);
    g.add_n("more regions than headers", 1, |c| {
        let mut mem = vec![0u64; 300_000];
        let (from, n) = (mem.as_ptr() as usize, mem.len() * 8);
        let a = Slice::new(&mut mem[..]);
        let mut r = Rng::new(c.rng.u64());
        let mut live = Vec::new();
        let total = if cfg!(miri) { 300 } else { 70_000 };
        for i in 0..total {
            match one(&a, i % 3, &mut r) {
                Some(x) => live.push((i as u64, x)),
                None => c.event("refused for lack of memory"),
            }
        }
        c.seen(live.len() as u64);
        all_well(&mut live, Some((from, from + n)))?;
        r.shuffle(&mut live);
        live.truncate(total / 2);
        all_well(&mut live, Some((from, from + n)))?;
        c.event("allocators filled with as many regions as they have");
        live.clear();
        let mut x = empty(&a, 0);
        ensure!(each!(&mut x, l => l.resize(n - 32 * 70_004)), "nothing is in use but the memory is not available");
        Ok(())
    });
    vh::rt::main(g);
}
