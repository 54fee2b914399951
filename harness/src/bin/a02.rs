//! A02: allocator-backed vectors, strings and boxes behave like the standard ones.
use musli::alloc::{Allocator, Box, Disabled, Slice, String as MString, System, Vec as MVec};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use vh::rng::{mix, Rng};
use vh::rt::{Case, Groups, R};
use vh::{ensure, fail};

// ---------------------------------------------------------------- elements

#[derive(Default)]
struct Registry {
    next: u64,
    /// Live elements: how often each may still be dropped.
    live: HashMap<u64, ()>,
    /// Live elements without identity.
    zst: i64,
    /// The element whose destructor panics.
    bomb: Option<u64>,
    zst_bomb: Option<i64>,
    wrong: Option<String>,
    drops: u64,
}
thread_local!(static REG: RefCell<Registry> = RefCell::default());

fn reg<T>(f: impl FnOnce(&mut Registry) -> T) -> T {
    REG.with(|r| f(&mut r.borrow_mut()))
}
fn birth() -> u64 {
    reg(|r| {
        r.next += 1;
        r.live.insert(r.next, ());
        r.next
    })
}
fn death(id: u64) {
    let boom = reg(|r| {
        r.drops += 1;
        if r.live.remove(&id).is_none() && r.wrong.is_none() {
            r.wrong = Some(format!("element {id} was dropped twice or never existed"));
        }
        r.bomb == Some(id)
    });
    if boom && !std::thread::panicking() {
        reg(|r| r.bomb = None);
        std::panic::panic_any("destructor");
    }
}

trait Elem: 'static + Sized + PartialEq + Ord + std::fmt::Debug {
    fn make() -> (Self, u64);
    fn id(&self) -> u64;
    const ZST: bool = false;
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Small(u64);
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(64))]
struct Wide(u64, [u8; 70]);
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Odd(std::boxed::Box<u64>, u8);
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(16))]
struct Zst;
impl Elem for Small {
    fn make() -> (Self, u64) {
        let i = birth();
        (Small(i), i)
    }
    fn id(&self) -> u64 {
        self.0
    }
}
impl Elem for Wide {
    fn make() -> (Self, u64) {
        let i = birth();
        (Wide(i, [i as u8; 70]), i)
    }
    fn id(&self) -> u64 {
        assert!(self.1 == [self.0 as u8; 70] && self as *const _ as usize % 64 == 0);
        self.0
    }
}
impl Elem for Odd {
    fn make() -> (Self, u64) {
        let i = birth();
        (Odd(std::boxed::Box::new(i), i as u8), i)
    }
    fn id(&self) -> u64 {
        *self.0
    }
}
impl Elem for Zst {
    fn make() -> (Self, u64) {
        reg(|r| r.zst += 1);
        (Zst, 0)
    }
    fn id(&self) -> u64 {
        0
    }
    const ZST: bool = true;
}
impl Drop for Small {
    fn drop(&mut self) {
        death(self.0);
    }
}
impl Drop for Wide {
    fn drop(&mut self) {
        death(self.id());
    }
}
impl Drop for Odd {
    fn drop(&mut self) {
        death(*self.0);
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        let boom = reg(|r| {
            r.drops += 1;
            r.zst -= 1;
            if r.zst < 0 && r.wrong.is_none() {
                r.wrong = Some("more elements without size were dropped than exist".into());
            }
            r.zst_bomb == Some(r.zst)
        });
        if boom && !std::thread::panicking() {
            reg(|r| r.zst_bomb = None);
            std::panic::panic_any("destructor");
        }
    }
}

fn start() {
    REG.with(|r| *r.borrow_mut() = Registry::default());
}
/// Exactly the elements of the model are alive.
fn balance(want: usize, zst: bool, log: &str) -> R {
    reg(|r| {
        if let Some(w) = r.wrong.take() {
            fail!("{w}; {log}");
        }
        let have = if zst { r.zst as usize } else { r.live.len() };
        ensure!(have == want, "{have} elements are alive, {want} are held; {log}");
        Ok(())
    })
}

/// Takes over a vector of the standard library.
#[allow(clippy::type_complexity)]
fn adopted<T, M, A: Adopt>(c: &mut Case<'_>, a: A, s: Vec<T>, m: M) -> Result<(MVec<T, A>, M), String> {
    let (n, len, p) = (s.capacity(), s.len(), s.as_ptr());
    match a.adopt(s) {
        Ok(v) => {
            ensure!(v.capacity() == n && v.len() == len, "a vector of capacity {n} and length {len} was taken over with {} and {}", v.capacity(), v.len());
            ensure!(v.as_slice().as_ptr() == p, "the contents moved when a vector was taken over");
            c.event("adopted from the standard vector");
            Ok((v, m))
        }
        Err(_) => fail!("a system allocation is not taken over"),
    }
}
/// The capacity differs from the one it grew to.
fn resized<T>(r: &mut Rng, s: &mut Vec<T>) {
    match r.below(4) {
        0 => s.shrink_to_fit(),
        1 => s.reserve(r.below(50)),
        2 => s.reserve_exact(r.below(9)),
        _ => {}
    }
}

/// Runs `f`, which may run into the destructor that panics.
fn caught<T>(c: &mut Case<'_>, f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) => {
            if e.downcast_ref::<&str>() == Some(&"destructor") {
                c.event("destructors panicked");
                None
            } else {
                std::panic::resume_unwind(e)
            }
        }
    }
}

/// Allocations which the standard collections use as well can be taken over.
trait Adopt: Allocator {
    const ADOPTS: bool = false;
    fn adopt<T>(self, v: Vec<T>) -> Result<MVec<T, Self>, Vec<T>> {
        Err(v)
    }
    fn adopt_string(self, s: String) -> Result<MString<Self>, String> {
        Err(s)
    }
}
impl Adopt for System {
    const ADOPTS: bool = true;
    fn adopt<T>(self, v: Vec<T>) -> Result<MVec<T, Self>, Vec<T>> {
        Ok(v.into())
    }
    fn adopt_string(self, s: String) -> Result<MString<Self>, String> {
        Ok(s.into())
    }
}
impl Adopt for &Slice<'_> {}
impl<const N: usize> Adopt for &musli::alloc::DefaultAllocator<'_, N> {}
impl Adopt for Disabled {}

// ----------------------------------------------------------------- vectors

fn vectors<T: Elem, A: Adopt>(c: &mut Case<'_>, r: &mut Rng, a: A, fallible: bool) -> R {
    start();
    let mut log = std::string::String::new();
    let mut vs: Vec<(MVec<T, A>, Vec<u64>)> = Vec::new();
    let mut boxes: Vec<(Box<T, A>, u64)> = Vec::new();
    let mut trace = 1u64;
    for _ in 0..5 + r.below(60) {
        let op = r.below(24);
        let i = if vs.is_empty() { 0 } else { r.below(vs.len()) };
        trace = mix(trace, (op | i << 8) as u64);
        let live = |vs: &Vec<(MVec<T, A>, Vec<u64>)>, boxes: &Vec<(Box<T, A>, u64)>| vs.iter().map(|v| v.1.len()).sum::<usize>() + boxes.len();
        match op {
            0 if vs.len() < 5 => {
                if A::ADOPTS && r.bool() {
                    let mut s = Vec::with_capacity(r.below(9));
                    let mut m = Vec::new();
                    for _ in 0..r.below(6) {
                        let (x, id) = T::make();
                        s.push(x);
                        m.push(id);
                    }
                    let _ = write!(log, "adopt({} of {}) ", s.len(), s.capacity());
                    vs.push(adopted(c, a, s, m)?);
                } else {
                    vs.push((MVec::new_in(a), Vec::new()));
                }
            }
            1 if vs.len() < 5 => {
                let n = *r.pick(&[0, 1, 2, 5, 17, 60, usize::MAX, usize::MAX / 2, isize::MAX as usize]);
                let _ = write!(log, "with_capacity({n}) ");
                match MVec::with_capacity_in(n, a) {
                    Ok(v) => {
                        ensure!(v.capacity() >= n, "with_capacity_in({n}) has capacity {}", v.capacity());
                        ensure!(T::ZST || n < 1 << 40, "with_capacity_in({n}) succeeds");
                        vs.push((v, Vec::new()));
                    }
                    Err(_) => {
                        ensure!(!T::ZST && n > 0 && (fallible || n > 1 << 40), "with_capacity_in({n}) fails");
                        c.event("growth refused");
                    }
                }
            }
            2..=8 if !vs.is_empty() => {
                let _ = write!(log, "push{i} ");
                for _ in 0..1 + r.below(4) {
                    let (x, id) = T::make();
                    let (v, m) = &mut vs[i];
                    match v.push(x) {
                        Ok(()) => {
                            m.push(id);
                            c.event("elements pushed");
                        }
                        Err(_) => {
                            ensure!(fallible && !T::ZST, "push fails; {log}");
                            c.event("growth refused");
                        }
                    }
                }
            }
            9 | 10 if !vs.is_empty() => {
                let _ = write!(log, "pop{i} ");
                let (v, m) = &mut vs[i];
                let (x, y) = (v.pop(), m.pop());
                ensure!(x.as_ref().map(T::id) == y, "pop() is {x:?} instead of {y:?}; {log}");
                let more = usize::from(x.is_some());
                balance(live(&vs, &boxes) + more, T::ZST, &log)?;
                drop(x);
            }
            11 if !vs.is_empty() => {
                let n = *r.pick(&[0, 1, 3, 9, 40, usize::MAX, usize::MAX / 2, isize::MAX as usize]);
                let _ = write!(log, "reserve{i}({n}) ");
                let (v, m) = &mut vs[i];
                if v.reserve(n).is_ok() {
                    ensure!(v.capacity() >= m.len().saturating_add(n), "reserve({n}) leaves capacity {} at length {}; {log}", v.capacity(), m.len());
                } else {
                    ensure!(!T::ZST && n > 0 && (fallible || n > 1 << 40), "reserve({n}) fails; {log}");
                    c.event("growth refused");
                }
            }
            12 if !vs.is_empty() => {
                let _ = write!(log, "clear{i} ");
                vs[i].0.clear();
                vs[i].1.clear();
                c.event("vectors cleared");
            }
            13 if !vs.is_empty() => {
                // A destructor panics while the vector is cleared or dropped.
                let _ = write!(log, "panic{i} ");
                let n = vs[i].1.len();
                if n > 0 {
                    let b = vs[i].1[r.below(n)];
                    let all = live(&vs, &boxes) as i64;
                    let z = all - 1 - r.below(n) as i64;
                    reg(|r| if T::ZST { r.zst_bomb = Some(z) } else { r.bomb = Some(b) });
                }
                if r.bool() {
                    caught(c, || vs[i].0.clear());
                    vs[i].1.clear();
                    ensure!(vs[i].0.len() == 0, "length {} after clear(); {log}", vs[i].0.len());
                } else {
                    let (v, _) = vs.swap_remove(i);
                    caught(c, || drop(v));
                }
                reg(|r| {
                    r.bomb = None;
                    r.zst_bomb = None;
                });
            }
            14 if !vs.is_empty() => {
                let _ = write!(log, "drop{i} ");
                vs.swap_remove(i);
                c.event("vectors dropped");
            }
            15 if !vs.is_empty() => {
                let _ = write!(log, "parts{i} ");
                let (v, m) = vs.swap_remove(i);
                let (buf, n) = v.into_raw_parts();
                ensure!(n == m.len(), "into_raw_parts() says {n}; {log}");
                vs.push((MVec::from_raw_parts(buf, n), m));
            }
            16 if !vs.is_empty() => {
                let (v, m) = &mut vs[i];
                let n = m.len();
                if n > 1 {
                    let (x, y) = (r.below(n), r.below(n));
                    let _ = write!(log, "swap{i}({x},{y}) ");
                    v.swap(x, y);
                    m.swap(x, y);
                    v.as_slice_mut().reverse();
                    m.reverse();
                }
            }
            17 if !vs.is_empty() => {
                let (v, m) = vs.swap_remove(i);
                let _ = write!(log, "into_std{i} ");
                match v.into_std() {
                    Ok(mut s) => {
                        ensure!(s.iter().map(T::id).eq(m.iter().copied()), "into_std() holds {s:?} instead of {m:?}; {log}");
                        c.event("converted to the standard vector");
                        if A::ADOPTS && r.chance(2, 3) {
                            resized(r, &mut s);
                            let _ = write!(log, "adopt({} of {}) ", s.len(), s.capacity());
                            vs.push(adopted(c, a, s, m)?);
                        }
                    }
                    Err(v) => {
                        ensure!(!A::IS_SYSTEM, "into_std() fails for a system allocation");
                        vs.push((v, m));
                    }
                }
            }
            18 | 19 if boxes.len() < 6 => {
                let _ = write!(log, "box ");
                let (x, id) = T::make();
                match Box::new_in(x, a) {
                    Ok(b) => boxes.push((b, id)),
                    Err(_) => {
                        ensure!(fallible, "Box::new_in fails; {log}");
                        c.event("growth refused");
                    }
                }
            }
            20 if !boxes.is_empty() => {
                let k = r.below(boxes.len());
                let _ = write!(log, "unbox{k} ");
                if r.bool() {
                    // Replacing the contents drops the old ones.
                    let (x, id) = T::make();
                    *boxes[k].0 = x;
                    boxes[k].1 = id;
                } else {
                    boxes.swap_remove(k);
                }
                c.event("boxes dropped");
            }
            21 if !boxes.is_empty() => {
                let k = r.below(boxes.len());
                let (b, id) = boxes.swap_remove(k);
                let z = live(&vs, &boxes) as i64;
                reg(|r| if T::ZST { r.zst_bomb = Some(z) } else { r.bomb = Some(id) });
                let _ = write!(log, "panicbox{k} ");
                ensure!(caught(c, || drop(b)).is_none(), "the destructor of a boxed element did not run; {log}");
            }
            22 if !vs.is_empty() => {
                let (v, m) = &vs[i];
                let (w, n) = &vs[r.below(vs.len())];
                ensure!((v == w) == (m == n) || T::ZST, "== differs; {log}");
                ensure!(v.partial_cmp(w) == Some(v.as_slice().cmp(w.as_slice())) && v.cmp(w) == v.as_slice().cmp(w.as_slice()), "cmp differs; {log}");
                ensure!(*v == v.as_slice() && v.as_slice() == *v && format!("{v:?}") == format!("{:?}", v.as_slice()), "comparison or Debug differs; {log}");
            }
            23 if !vs.is_empty() && r.chance(1, 4) => {
                let (v, m) = &mut vs[i];
                if let Some(at) = v.iter().position(|_| r.chance(1, 3)) {
                    // Leave out the end by hand.
                    let _ = write!(log, "set_len{i}({at}) ");
                    let n = v.len();
                    unsafe {
                        v.set_len(at);
                        let p = v.as_slice_mut().as_mut_ptr().add(at);
                        for k in 0..n - at {
                            p.add(k).drop_in_place();
                        }
                    }
                    m.truncate(at);
                }
            }
            _ => continue,
        }
        let mut n = boxes.len();
        for (v, m) in &vs {
            ensure!(v.len() == m.len() && v.is_empty() == m.is_empty(), "length {} instead of {}; {log}", v.len(), m.len());
            ensure!(v.iter().map(T::id).eq(m.iter().copied()), "contents {:?} instead of {m:?}; {log}", v.as_slice());
            ensure!(v.as_slice().as_ptr() as usize % std::mem::align_of::<T>() == 0, "contents are not aligned; {log}");
            ensure!(v.capacity() >= v.len(), "capacity {} < length {}; {log}", v.capacity(), v.len());
            n += m.len();
        }
        for (b, id) in &boxes {
            ensure!(b.id() == *id, "a box holds {} instead of {id}; {log}", b.id());
            ensure!(&**b as *const T as usize % std::mem::align_of::<T>() == 0, "a box is not aligned; {log}");
        }
        balance(n, T::ZST, &log)?;
        c.event("contents compared");
    }
    c.seen(trace);
    c.sample(|| log.clone());
    r.shuffle(&mut vs);
    drop(vs);
    drop(boxes);
    balance(0, T::ZST, &log)?;
    c.events("elements dropped exactly once", reg(|r| r.drops));
    Ok(())
}

// ------------------------------------------------- plain elements, strings

trait Plain: Copy + PartialEq + Ord + std::fmt::Debug + Hash {
    fn of(r: &mut Rng) -> Self;
}
impl Plain for u8 {
    fn of(r: &mut Rng) -> Self {
        r.u8()
    }
}
impl Plain for u64 {
    fn of(r: &mut Rng) -> Self {
        r.u64()
    }
}
impl Plain for [u8; 3] {
    fn of(r: &mut Rng) -> Self {
        [r.u8(), r.u8(), r.u8()]
    }
}
impl Plain for () {
    fn of(_: &mut Rng) -> Self {}
}

fn plain<T: Plain, A: Adopt>(c: &mut Case<'_>, r: &mut Rng, a: A, fallible: bool) -> R {
    let mut vs: Vec<(MVec<T, A>, Vec<T>)> = Vec::new();
    let mut log = std::string::String::new();
    let zst = std::mem::size_of::<T>() == 0;
    let mut trace = 2u64;
    for _ in 0..5 + r.below(60) {
        let op = r.below(14);
        let i = if vs.is_empty() { 0 } else { r.below(vs.len()) };
        trace = mix(trace, (op | i << 8) as u64);
        match op {
            0 | 1 if vs.len() < 6 => vs.push((MVec::new_in(a), Vec::new())),
            2..=5 if !vs.is_empty() => {
                let n = match r.below(6) { 0 => 0, 1..=3 => r.below(6), 4 => r.below(40), _ => r.below(300) };
                let items: Vec<T> = (0..n).map(|_| T::of(r)).collect();
                let _ = write!(log, "extend_from_slice{i}({n}) ");
                let (v, m) = &mut vs[i];
                match v.extend_from_slice(&items) {
                    Ok(()) => {
                        m.extend(&items);
                        c.event("slices appended");
                    }
                    Err(_) => {
                        ensure!(fallible && !zst && n > 0, "extend_from_slice of {n} fails; {log}");
                        c.event("growth refused");
                    }
                }
            }
            6 if !vs.is_empty() => {
                let x = T::of(r);
                let (v, m) = &mut vs[i];
                let _ = write!(log, "push{i} ");
                if v.push(x).is_ok() {
                    m.push(x);
                } else {
                    ensure!(fallible && !zst, "push fails; {log}");
                }
            }
            7 if !vs.is_empty() => {
                let _ = write!(log, "pop{i} ");
                let (v, m) = &mut vs[i];
                ensure!(v.pop() == m.pop(), "pop() differs; {log}");
            }
            8..=10 if vs.len() > 1 => {
                let (v, m) = vs.swap_remove(i);
                let j = r.below(vs.len());
                let _ = write!(log, "extend{j}({i}) ");
                let (w, n) = &mut vs[j];
                match w.extend(v) {
                    Ok(()) => {
                        n.extend(m);
                        c.event("vectors appended");
                    }
                    Err(_) => {
                        ensure!(fallible && !zst && !m.is_empty(), "extend by {} fails; {log}", m.len());
                        c.event("growth refused");
                    }
                }
            }
            11 if !vs.is_empty() => {
                let _ = write!(log, "clear{i} ");
                vs[i].0.clear();
                vs[i].1.clear();
            }
            12 if !vs.is_empty() => {
                let _ = write!(log, "drop{i} ");
                vs.swap_remove(i);
            }
            13 if !vs.is_empty() => {
                let (v, m) = vs.swap_remove(i);
                let _ = write!(log, "into_std{i} ");
                match v.into_std() {
                    Ok(mut s) => {
                        ensure!(s == m, "into_std() is {s:?} instead of {m:?}; {log}");
                        c.event("converted to the standard vector");
                        if A::ADOPTS && r.chance(2, 3) {
                            resized(r, &mut s);
                            let _ = write!(log, "adopt({} of {}) ", s.len(), s.capacity());
                            vs.push(adopted(c, a, s, m)?);
                        }
                    }
                    Err(v) => vs.push((v, m)),
                }
            }
            _ => continue,
        }
        for (v, m) in &vs {
            ensure!(v.as_slice() == &m[..], "contents {:?} instead of {m:?}; {log}", v.as_slice());
            ensure!(*v == m[..] && m[..] == *v && AsRef::<[T]>::as_ref(v) == &m[..], "comparison differs; {log}");
        }
        if vs.len() > 1 {
            let (v, m) = &vs[0];
            let (w, n) = &vs[1];
            ensure!((v == w) == (m == n) && v.cmp(w) == m.cmp(n), "comparison of {m:?} and {n:?} differs; {log}");
        }
        c.event("contents compared");
    }
    c.seen(trace);
    Ok(())
}

fn text(r: &mut Rng) -> String {
    (0..r.below(8)).map(|_| *r.pick(&['a', 'Z', '\0', 'é', '食', '😀', '\u{7f}', '\u{10ffff}', ' '])).collect()
}

fn strings<A: Adopt>(c: &mut Case<'_>, r: &mut Rng, a: A, fallible: bool) -> R {
    let mut vs: Vec<(MString<A>, String)> = Vec::new();
    let mut log = String::new();
    let mut trace = 3u64;
    for _ in 0..5 + r.below(50) {
        let op = r.below(14);
        let i = if vs.is_empty() { 0 } else { r.below(vs.len()) };
        trace = mix(trace, (op | i << 8) as u64);
        match op {
            0 | 1 if vs.len() < 5 => vs.push((MString::new_in(a), String::new())),
            2 if vs.len() < 5 => {
                let n = *r.pick(&[0, 1, 7, 100, usize::MAX, isize::MAX as usize]);
                match MString::with_capacity_in(n, a) {
                    Ok(s) => {
                        ensure!(s.capacity() >= n && n < 1 << 40, "with_capacity_in({n}) has capacity {}", s.capacity());
                        vs.push((s, String::new()));
                    }
                    Err(_) => ensure!(n > 0 && (fallible || n > 1 << 40), "with_capacity_in({n}) fails"),
                }
            }
            3 | 4 if !vs.is_empty() => {
                let ch = *r.pick(&['a', '\0', 'é', '食', '😀']);
                let _ = write!(log, "push{i}({ch:?}) ");
                let (s, m) = &mut vs[i];
                let ok = if r.bool() { s.push(ch).is_ok() } else { s.write_char(ch).is_ok() };
                if ok { m.push(ch) } else { ensure!(fallible, "push fails; {log}"); c.event("growth refused") }
            }
            5..=7 if !vs.is_empty() => {
                let t = text(r);
                let _ = write!(log, "push_str{i}({t:?}) ");
                let (s, m) = &mut vs[i];
                let ok = if r.bool() { s.push_str(&t).is_ok() } else { s.write_str(&t).is_ok() };
                if ok { m.push_str(&t) } else { ensure!(fallible && !t.is_empty(), "push_str fails; {log}"); c.event("growth refused") }
            }
            8 if !vs.is_empty() => {
                let (s, m) = vs.swap_remove(i);
                let _ = write!(log, "bytes{i} ");
                let mut b = s.into_bytes();
                let mut n = m.into_bytes();
                if r.bool() && !n.is_empty() {
                    let at = r.below(n.len());
                    let x = r.u8();
                    b.as_slice_mut()[at] = x;
                    n[at] = x;
                }
                match (MString::from_utf8(b), String::from_utf8(n)) {
                    (Ok(s), Ok(m)) => vs.push((s, m)),
                    (Err(x), Err(y)) => {
                        ensure!(x.as_bytes() == y.as_bytes() && x.utf8_error() == y.utf8_error(), "from_utf8 fails with {x} instead of {y}; {log}");
                        ensure!(x.to_string() == y.to_string(), "the error reads {x} instead of {y}");
                        ensure!(*x.into_bytes() == *y.into_bytes(), "the error holds other bytes");
                        c.event("invalid UTF-8 refused");
                    }
                    (x, y) => fail!("from_utf8 is {x:?} instead of {y:?}; {log}"),
                }
            }
            9 if !vs.is_empty() => {
                let (s, m) = vs.swap_remove(i);
                let _ = write!(log, "into_std{i} ");
                match s.into_std() {
                    Ok(mut s) => {
                        ensure!(s == m, "into_std() is {s:?} instead of {m:?}; {log}");
                        if A::ADOPTS && r.chance(2, 3) {
                            match r.below(3) {
                                0 => s.shrink_to_fit(),
                                1 => s.reserve(r.below(50)),
                                _ => {}
                            }
                            let (n, p) = (s.capacity(), s.as_ptr());
                            let _ = write!(log, "adopt({} of {n}) ", s.len());
                            match a.adopt_string(s) {
                                Ok(s) => {
                                    ensure!(s.capacity() == n && s.as_ptr() == p, "a string of capacity {n} was taken over with {}; {log}", s.capacity());
                                    c.event("adopted from the standard string");
                                    vs.push((s, m));
                                }
                                Err(_) => fail!("a system allocation is not taken over"),
                            }
                        }
                    }
                    Err(s) => vs.push((s, m)),
                }
            }
            10 if !vs.is_empty() => {
                vs.swap_remove(i);
            }
            _ => continue,
        }
        for (s, m) in &vs {
            ensure!(s.as_str() == m && s.len() == m.len() && s.is_empty() == m.is_empty() && &s[..] == m, "contents {s:?} instead of {m:?}; {log}");
            ensure!(*s == *m.as_str() && *m.as_str() == *s && *s == m.as_str() && s.to_string() == *m && format!("{s:?}") == format!("{m:?}"), "comparison or formatting of {m:?} differs; {log}");
            ensure!(format!("{s:>9}|{s:.2}") == format!("{m:>9}|{m:.2}"), "formatting of {m:?} differs; {log}");
        }
        if vs.len() > 1 {
            ensure!(vs[0].0.cmp(&vs[1].0) == vs[0].1.cmp(&vs[1].1) && (vs[0].0 == vs[1].0) == (vs[0].1 == vs[1].1), "comparison differs; {log}");
        }
        c.event("strings compared");
    }
    c.seen(trace);
    Ok(())
}

fn boxes<A: Allocator>(c: &mut Case<'_>, r: &mut Rng, a: A, fallible: bool) -> R {
    fn hash(x: impl Hash) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    }
    let (x, y) = (r.u64() % 4, r.u64() % 4);
    if let (Ok(mut b), Ok(d)) = (Box::new_in(x, a), Box::new_in(y, a)) {
        ensure!(*b == x && *d == y && *b.as_ref() == x, "boxes hold {b:?} and {d:?} instead of {x} and {y}");
        ensure!((b == d) == (x == y) && (b != d) == (x != y) && b.cmp(&d) == x.cmp(&y) && b.partial_cmp(&d) == x.partial_cmp(&y), "comparison of {x} and {y}");
        ensure!((b < d) == (x < y) && (b <= d) == (x <= y) && (b > d) == (x > y) && (b >= d) == (x >= y), "comparison of {x} and {y}");
        ensure!(hash(&b) == hash(x) && format!("{b} {b:?} {b:4}") == format!("{x} {x:?} {x:4}"), "hash or formatting of {x}");
        *b += 7;
        ensure!(*b == x + 7 && *d == y, "writing through a box");
        if let Ok(mut h) = Box::new_in(std::collections::hash_map::DefaultHasher::new(), a) {
            let mut g = std::collections::hash_map::DefaultHasher::new();
            let v = (x as u8, y as u16, x as u32, y, x as u128, -(x as i8), y as i16, x as i32, -(y as i64), x as i128, x as usize, y as isize);
            macro_rules! all { ($h:expr) => {{ $h.write(b"abc"); $h.write_u8(v.0); $h.write_u16(v.1); $h.write_u32(v.2); $h.write_u64(v.3); $h.write_u128(v.4); $h.write_i8(v.5); $h.write_i16(v.6); $h.write_i32(v.7); $h.write_i64(v.8); $h.write_i128(v.9); $h.write_usize(v.10); $h.write_isize(v.11); $h.finish() }} }
            ensure!(all!(h) == all!(g), "a boxed hasher differs");
        }
        c.event("boxes compared");
    } else {
        ensure!(fallible, "Box::new_in fails");
    }
    c.seen(x << 8 | y);
    Ok(())
}

// ------------------------------------------------- elements being decoded

use musli::{Decode, Decoder};
macro_rules! decodes {
    ($t:ty) => {
        impl<'de, M, A: Allocator> Decode<'de, M, A> for $t {
            const IS_BITWISE_DECODE: bool = false;
            fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
                let cx = d.cx();
                let n = d.decode_u8()?;
                if n == 200 {
                    std::panic::panic_any("destructor");
                }
                if n > 200 {
                    return Err(musli::Context::message(cx, "refused"));
                }
                Ok(<$t as Elem>::make().0)
            }
        }
    };
}
decodes!(Small);
decodes!(Wide);
decodes!(Zst);

/// An element which fails or panics while a collection is decoded.
fn decoded<T>(c: &mut Case<'_>) -> R
where
    T: Elem + for<'de> Decode<'de, musli::mode::Binary, System>,
    T: Hash,
{
    start();
    let mut r = Rng::new(c.rng.u64());
    let n = *r.pick(&[0usize, 1, 2, 4, 4, 4, 7]);
    let mut xs: Vec<u8> = (0..n).map(|_| r.below(100) as u8).collect();
    if r.chance(2, 3) && n > 0 {
        xs[r.below(n)] = *r.pick(&[200, 201]);
    }
    let bytes = musli::wire::to_vec(&xs).map_err(|e| e.to_string())?;
    c.seen_bytes(&bytes);
    macro_rules! all {
        ($($t:ty, $n:expr;)*) => {$({
            let got = caught(c, || musli::wire::from_slice::<$t>(&bytes));
            let ok = matches!(got, Some(Ok(_)));
            let fixed: Option<usize> = $n;
            // A tuple reads the elements it needs and leaves the rest.
            let n = if stringify!($t).starts_with('(') { n.min(fixed.unwrap()) } else { n };
            let plain = xs[..n].iter().all(|x| *x < 200);
            ensure!(ok == (plain && fixed.is_none_or(|f| f == n)), "decoding {xs:?} as {}: {}", stringify!($t), if ok { "works" } else { "fails" });
            if ok {
                // Sets of elements without identity keep one.
                let held = reg(|r| if T::ZST { r.zst as usize } else { r.live.len() });
                ensure!(held == n || (T::ZST && held <= n && stringify!($t).contains("Set")), "{held} elements are alive after decoding {n} as {}", stringify!($t));
            }
            drop(got);
            balance(0, T::ZST, &format!("decoding {xs:?} as {}", stringify!($t)))?;
            c.event(if ok { "collections decoded" } else { "collections given up midway" });
        })*};
    }
    use std::collections::*;
    all! {
        Vec<T>, None; [T; 4], Some(4); [T; 1], Some(1);
        VecDeque<T>, None; BTreeSet<T>, None; HashSet<T>, None; BinaryHeap<T>, None;
        MVec<T, System>, None; (T, T), Some(2); (T, T, T, T), Some(4);
    }
    Ok(())
}

fn add(g: &mut Groups, name: &str, f: impl Fn(&mut Case<'_>, &mut Rng, usize) -> R + Send + Sync + Copy + 'static) {
    for (i, a) in ["system", "slice", "default", "disabled"].into_iter().enumerate() {
        g.add(format!("{name}, {a}"), move |c| {
            let mut r = Rng::new(c.rng.u64());
            vh::rt::counting::set_refuse(1 << 36);
            f(c, &mut r, i)
        });
    }
}

macro_rules! each {
    ($f:path) => {
        |c: &mut Case<'_>, r: &mut Rng, i: usize| match i {
            0 => $f(c, r, System::new(), false),
            1 => {
                let (n, from) = (r.below(5000), r.below(16));
                let mut m = vec![0u8; n + from];
                let a = Slice::new(&mut m[from..]);
                $f(c, r, &a, true)
            }
            2 => musli::alloc::default(|a| $f(c, r, a, false)),
            _ => $f(c, r, Disabled::new(), true),
        }
    };
}

fn main() {
    let mut g = Groups::new();
    g.no_leaks();
    add(&mut g, "Vec<small>", each!(vectors::<Small, _>));
    add(&mut g, "Vec<boxed>", each!(vectors::<Odd, _>));
    add(&mut g, "Vec<wide>", each!(vectors::<Wide, _>));
    add(&mut g, "Vec<zst>", each!(vectors::<Zst, _>));
    add(&mut g, "bytes", each!(plain::<u8, _>));
    add(&mut g, "words", each!(plain::<u64, _>));
    add(&mut g, "triples", each!(plain::<[u8; 3], _>));
    add(&mut g, "units", each!(plain::<(), _>));
    add(&mut g, "strings", each!(strings));
    add(&mut g, "boxes", each!(boxes));
    g.add("decoded small", decoded::<Small>);
    g.add("decoded wide", decoded::<Wide>);
    g.add("decoded zst", decoded::<Zst>);
    vh::rt::main(g);
}
