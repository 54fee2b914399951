//! A04: values that may cross threads never race.
use musli::alloc::{Box as MBox, Slice, SliceAlloc, String as MString, System, Vec as MVec};
use musli::value::Value;
use musli::{Decode, Encode};
use musli_zerocopy::{buf::aligned_buf_with, phf, swiss, trie, OwnedBuf, Ref, SliceMut, ZeroCopy};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Arc, Barrier};
use vh::model::*;
use vh::quota::{QAlloc, Q};
use vh::rng::Rng;
use vh::rt::{Case, Groups, R};
use vh::{ensure, fail};

// --- what types claim -----------------------------------------------------------

struct Probe<T: ?Sized>(PhantomData<T>);
trait NotSend {
    const SEND: bool = false;
}
trait NotSync {
    const SYNC: bool = false;
}
impl<T: ?Sized> NotSend for Probe<T> {}
impl<T: ?Sized> NotSync for Probe<T> {}
impl<T: ?Sized + Send> Probe<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}

/// An allocation tied to its thread, in an allocator that itself may travel.
#[derive(Clone, Copy)]
struct Far;
struct FarAlloc<T>(QAlloc<'static, T>, Rc<()>);
thread_local! {
    static HOME: &'static vh::quota::Quota = std::boxed::Box::leak(std::boxed::Box::new(vh::quota::Quota::new()));
}
unsafe impl musli::Allocator for Far {
    const IS_SYSTEM: bool = false;
    type Alloc<T> = FarAlloc<T>;
    fn alloc_empty<T>(self) -> FarAlloc<T> {
        FarAlloc(Q(HOME.with(|h| *h)).alloc_empty(), Rc::new(()))
    }
    fn alloc<T>(self, value: T) -> Result<FarAlloc<T>, musli::alloc::AllocError> {
        Ok(FarAlloc(Q(HOME.with(|h| *h)).alloc(value)?, Rc::new(())))
    }
}
impl<T> musli::alloc::Alloc<T> for FarAlloc<T> {
    fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
    fn as_mut_ptr(&mut self) -> *mut T {
        self.0.as_mut_ptr()
    }
    fn capacity(&self) -> usize {
        self.0.capacity()
    }
    fn resize(&mut self, len: usize, additional: usize) -> Result<(), musli::alloc::AllocError> {
        let _ = Rc::strong_count(&self.1);
        self.0.resize(len, additional)
    }
    fn try_merge<B: musli::alloc::Alloc<T>>(&mut self, _: usize, other: B, _: usize) -> Result<(), B> {
        Err(other)
    }
}

type Guard = std::sync::MutexGuard<'static, u8>;
type S1 = &'static Slice<'static>;

/// `(type, may be sent, may be shared)` - an upper bound of what is sound.
macro_rules! bounds {
    ($c:ident; $($t:ty : $send:literal $sync:literal;)*) => { $(
        ensure!($send || !<Probe<$t>>::SEND, "{} may be sent to another thread", std::any::type_name::<$t>());
        ensure!($sync || !<Probe<$t>>::SYNC, "{} may be shared between threads", std::any::type_name::<$t>());
        $c.event("claims checked");
        if <Probe<$t>>::SEND || <Probe<$t>>::SYNC {
            $c.event("claims made");
        }
        $c.seen(vh::rng::hash_str(std::any::type_name::<$t>()));
    )* };
}
/// Contexts have no names, they are probed by value.
fn claims_of<T: ?Sized>(_: &T) -> PhantomData<T> {
    PhantomData
}
macro_rules! closed {
    ($c:ident; $($name:literal $local:literal: $e:expr;)*) => { $({
        let value = $e;
        let p = claims_of(&value);
        let (send, sync) = {
            use probe::*;
            ((&&Of(p)).send(), (&&Of(p)).sync())
        };
        ensure!(!sync, "{} may be shared between threads", $name);
        if $local {
            ensure!(!send, "{} may be sent to another thread", $name);
        }
        $c.event("claims checked");
    })* };
}
mod probe {
    use std::marker::PhantomData;
    pub struct Of<T: ?Sized>(pub PhantomData<T>);
    pub trait Yes1 {
        fn send(&self) -> bool {
            true
        }
    }
    pub trait Yes2 {
        fn sync(&self) -> bool {
            true
        }
    }
    pub trait No {
        fn send(&self) -> bool {
            false
        }
        fn sync(&self) -> bool {
            false
        }
    }
    impl<T: ?Sized + Send> Yes1 for &Of<T> {}
    impl<T: ?Sized + Sync> Yes2 for &Of<T> {}
    impl<T: ?Sized> No for Of<T> {}
}

fn claims(c: &mut Case<'_>) -> R {
    bounds! { c;
        // Controls: the probe itself.
        u8: true true; Rc<u8>: false false; Cell<u8>: true false; Guard: false true;
        // The system allocator is as good as the value.
        MBox<u8, System>: true true; MBox<Rc<u8>, System>: false false; MBox<Cell<u8>, System>: true false; MBox<Guard, System>: false true; MBox<*const u8, System>: false false; MBox<UnsafeCell<u8>, System>: true false;
        MVec<u8, System>: true true; MVec<Rc<u8>, System>: false false; MVec<Cell<u8>, System>: true false; MVec<Guard, System>: false true; MVec<RefCell<String>, System>: true false; MVec<*mut u8, System>: false false;
        MString<System>: true true; Value<System>: true true;
        <System as musli::Allocator>::Alloc<u8>: true true; <System as musli::Allocator>::Alloc<Rc<u8>>: false false; <System as musli::Allocator>::Alloc<Cell<u8>>: true false; <System as musli::Allocator>::Alloc<Guard>: false true; <System as musli::Allocator>::Alloc<*const u8>: false false;
        MVec<MBox<Rc<u8>, System>, System>: false false; MBox<MVec<Cell<u8>, System>, System>: true false; MBox<dynbox::Thing, System>: false false;
        // A fixed buffer keeps its books in cells.
        Slice<'static>: true false; S1: false false; SliceAlloc<'static, u8>: false false; SliceAlloc<'static, ()>: false false; MBox<u8, S1>: false false; MBox<(), S1>: false false; MVec<u8, S1>: false false; MString<S1>: false false; Value<S1>: false false; MVec<Rc<u8>, S1>: false false;
        MVec<MString<S1>, S1>: false false; Vec<MBox<u8, S1>>: false false; musli::writer::BufWriter<S1>: false false;
        // So may any other allocator.
        Q<'static>: false false; MBox<u8, Q<'static>>: false false; MVec<u8, Q<'static>>: false false; MString<Q<'static>>: false false; Value<Q<'static>>: false false; MBox<Rc<u8>, Q<'static>>: false false; musli::writer::BufWriter<Q<'static>>: false false;
        MBox<u8, Far>: false false; MBox<u64, Far>: false false; MVec<u8, Far>: false false; MString<Far>: false false; Value<Far>: false false; MBox<Cell<u8>, Far>: false false;
        // Readers, writers and wrappers are as good as what they hold.
        musli::reader::SliceReader<'static>: true true; musli::wrap::Wrap<Rc<u8>>: false false; musli::wrap::Wrap<Cell<u8>>: true false; musli::FixedBytes<8>: true true;
        musli::compat::Bytes<Rc<u8>>: false false; musli::compat::Sequence<Rc<()>>: false false; musli::compat::Packed<Cell<u8>>: true false;
        // References into buffers.
        Ref<u32>: true true; Ref<[u32]>: true true; Ref<str>: true true;
        OwnedBuf: true true; SliceMut<'static>: true true; &'static mut musli_zerocopy::Buf: true true;
        swiss::MapRef<u32, u32>: true true; phf::MapRef<u32, u32>: true true; trie::TrieRef<u32, trie::DefaultFlavor>: true true;
    }
    {
        use probe::*;
        let (a, b, d) = (Of(PhantomData::<u8>), Of(PhantomData::<Cell<u8>>), Of(PhantomData::<Guard>));
        ensure!((&&a).send() && (&&a).sync() && (&&b).send() && !(&&b).sync() && !(&&d).send() && (&&d).sync(), "the probe of values does not work");
    }
    let quota = vh::quota::Quota::new();
    closed! { c;
        "a tracing context" false: musli::context::new().with_trace();
        "a capturing context" false: musli::context::new().with_capture::<String>();
        "a tracing and capturing context" false: musli::context::new().with_trace().with_capture::<std::io::Error>();
        "a tracing context of an allocator in cells" true: musli::context::new_in(Q(&quota)).with_trace();
        "a context of an allocator in cells" true: musli::context::new_in(Q(&quota));
        "a typed tracing context" false: musli::context::new().with_trace().with_type();
    }
    let mut mem = [0u8; 256];
    let slice = Slice::new(&mut mem[..]);
    closed! { c;
        "a context in a fixed buffer" true: musli::context::new_in(&slice);
        "a captured error in a fixed buffer" true: musli::context::new_in(&slice).with_capture::<musli::context::ErrorMarker>();
    }
    Ok(())
}
mod dynbox {
    pub struct Thing(pub std::boxed::Box<dyn std::any::Any>);
}

// --- using them -----------------------------------------------------------------

/// Runs `f` in several threads which start together, then compares.
fn together<T: Send + PartialEq + std::fmt::Debug>(c: &mut Case<'_>, what: &str, n: usize, f: impl Fn(usize) -> T + Sync) -> Result<Vec<T>, String> {
    let barrier = Barrier::new(n);
    let out = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (f, barrier) = (&f, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    f(i)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|p| format!("{what}: a thread panicked: {}", vh::rt::payload(&*p)))).collect::<Result<Vec<_>, _>>()
    })?;
    c.event("threads run together");
    Ok(out)
}

fn threads(r: &mut Rng) -> usize {
    2 + r.below(4)
}

/// One operation on shared input with a context of its own.
fn one<F: Fmt>(v: &Everything, b: &[u8], bad: &[u8], how: usize) -> (Vec<u8>, bool, Result<Everything, String>, Result<Everything, String>, String)
where
    Everything: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let out = match how % 3 {
        0 => F::to_vec(v).unwrap(),
        1 => {
            let cx = musli::context::new().with_trace().with_capture::<String>();
            F::to_vec_with(&cx, v).unwrap()
        }
        _ => {
            let mut out = Vec::new();
            F::to_writer(&mut out, v).unwrap();
            out
        }
    };
    let mut fixed = vec![0u8; b.len()];
    let fits = F::to_slice(&mut fixed, v).is_ok() && fixed == b;
    let back = F::from_slice::<Everything>(b);
    let cx = musli::context::new().with_trace().with_capture::<String>();
    let fail = F::from_slice_with::<_, Everything>(&cx, bad).map_err(|_| cx.unwrap());
    let report = cx.report().to_string();
    (out, fits, back, fail, report)
}

fn formats<F: Fmt>(c: &mut Case<'_>) -> R
where
    Everything: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let v = Everything::gen(&mut c.rng, 0);
    let b = F::to_vec(&v)?;
    let mut bad = b.clone();
    if !bad.is_empty() {
        let at = c.rng.below(bad.len());
        bad[at] ^= 1 << c.rng.below(8);
    }
    c.seen_bytes(&b);
    // Hashed sets and maps are written in their order, which a copy keeps.
    let alone = (one::<F>(&v, &b, &bad, 0), one::<F>(&v, &b, &bad, 1), one::<F>(&v, &b, &bad, 2));
    ensure!(alone.0 == alone.1 && alone.0 == alone.2, "{}: contexts differ", F::NAME);
    let n = threads(&mut c.rng);
    let many = together(c, F::NAME, n, |i| {
        let mut last = None;
        for k in 0..2 {
            last = Some(one::<F>(&v, &b, &bad, i + k));
        }
        last.unwrap()
    })?;
    for m in many {
        ensure!(m == alone.0, "{}: another result with {n} threads: {} instead of {}", F::NAME, show(&m), show(&alone.0));
        c.event("operations compared");
    }
    Ok(())
}

/// Values are made in one thread, changed in the next and dropped in a third.
fn relay(c: &mut Case<'_>) -> R {
    let words: Vec<String> = (0..2 + c.rng.below(6)).map(|_| gen_string(&mut c.rng)).collect();
    let extra = gen_string(&mut c.rng);
    let doc = <BTreeMap<String, Vec<Option<i32>>>>::gen(&mut c.rng, 0);
    c.seen(c.rng.clone().u64());
    let n = threads(&mut c.rng);
    let (words, extra, doc) = (&words, &extra, &doc);
    let bytes = Descriptive::to_vec(doc)?;
    let got = std::thread::scope(|s| {
        let first = s.spawn(|| {
            let mut list: MVec<MString<System>, System> = MVec::new_in(System::new());
            for w in words {
                let mut s = MString::new_in(System::new());
                s.push_str(w).unwrap();
                list.push(s).unwrap();
            }
            let one = MBox::new_in((words.len(), std::boxed::Box::new(words[0].clone())), System::new()).unwrap();
            let value: Value<System> = Descriptive::from_slice(&bytes).unwrap();
            (list, one, value, musli::context::new())
        });
        let (mut list, mut one, value, cx) = first.join().map_err(|_| "making values panicked".to_string())?;
        let second = s.spawn(move || {
            for i in 0..n {
                let mut s = MString::new_in(System::new());
                s.push_str(extra).unwrap();
                s.push_str(&i.to_string()).unwrap();
                list.push(s).unwrap();
            }
            one.0 += n;
            one.1.push_str(extra);
            let again: Value<System> = Descriptive::from_slice(&Descriptive::to_vec(&value).unwrap()).unwrap();
            let ok = Descriptive::to_vec(&again) == Descriptive::to_vec(&value);
            let mut grown: MVec<u64, System> = MVec::with_capacity_in(n, System::new()).unwrap();
            for i in 0..100 {
                grown.push(i).unwrap();
            }
            (list, one, value, again, ok, grown, cx)
        });
        let (list, one, value, again, ok, grown, cx) = second.join().map_err(|_| "changing values panicked".to_string())?;
        ensure!(ok, "a copy of a value is written differently");
        let third = s.spawn(move || {
            let list2: Vec<String> = list.iter().map(|s| s.as_str().to_string()).collect();
            let one2 = (one.0, (*one.1).clone());
            drop(list);
            drop(one);
            drop(value);
            let back: BTreeMap<String, Vec<Option<i32>>> = musli::value::decode(&again).map_err(|e| e.to_string())?;
            let sum: u64 = grown.iter().sum();
            let w: Vec<u8> = Wire::to_vec_with(&cx, &back).map_err(|_| "encoding fails".to_string())?;
            Ok::<_, String>((list2, one2, back, sum, w))
        });
        third.join().map_err(|_| "dropping values panicked".to_string())?
    })?;
    let mut want = words.clone();
    for i in 0..n {
        want.push(format!("{extra}{i}"));
    }
    ensure!(got.0 == want, "strings became {}", show(&got.0));
    ensure!(got.1 == (words.len() + n, format!("{}{extra}", words[0])), "a box became {}", show(&got.1));
    ensure!(&got.2 == doc, "a value became {}", show(&got.2));
    ensure!(got.3 == 4950, "numbers changed");
    ensure!(got.4 == Wire::to_vec(doc)?, "encoding differs in a context from another thread");
    c.event("values moved between threads");
    Ok(())
}

/// Values are read by many threads at once.
fn shared(c: &mut Case<'_>) -> R {
    let doc = <BTreeMap<String, Vec<(Option<i32>, String)>>>::gen(&mut c.rng, 0);
    let bytes = Descriptive::to_vec(&doc)?;
    c.seen_bytes(&bytes);
    let value: Arc<Value<System>> = Arc::new(Descriptive::from_slice(&bytes)?);
    let json = Json::to_vec(&doc)?;
    let text = String::from_utf8(json.clone()).map_err(|e| e.to_string())?;
    let mut list: MVec<MString<System>, System> = MVec::new_in(System::new());
    for k in doc.keys() {
        let mut s = MString::new_in(System::new());
        s.push_str(k).unwrap();
        list.push(s).unwrap();
    }
    let reader = musli::reader::SliceReader::new(&bytes);
    let n = threads(&mut c.rng);
    let many = together(c, "shared values", n, |_| {
        let a: BTreeMap<String, Vec<(Option<i32>, String)>> = musli::value::decode(&*value).unwrap();
        let b = Descriptive::to_vec(&*value).unwrap();
        let copy: Value<System> = Descriptive::from_slice(&b).unwrap();
        let k: Vec<&str> = list.iter().map(|s| s.as_str()).collect();
        let j: BTreeMap<String, Vec<(Option<i32>, String)>> = Json::from_str(&text).unwrap();
        (a == doc, b, copy == *value, k.len(), k.concat(), j == doc)
    })?;
    for m in many {
        ensure!(m == (true, bytes.clone(), true, doc.len(), doc.keys().map(|s| s.as_str()).collect::<String>(), true), "shared values: {}", show(&m));
        c.event("operations compared");
    }
    // A reader given away.
    let (a, b) = std::thread::scope(|s| {
        use musli::reader::Reader;
        let h = s.spawn(move || {
            let cx = musli::context::new();
            let mut reader = reader;
            let mut out = Vec::new();
            while let Ok(b) = reader.read_byte(&cx) {
                out.push(b);
            }
            out
        });
        (h.join().unwrap(), bytes.clone())
    });
    ensure!(a == b, "a reader in another thread reads {}", hex(&a));
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, ZeroCopy)]
#[repr(C)]
struct Rec {
    id: u32,
    flag: bool,
    name: Ref<str>,
    next: Ref<Rec>,
}

/// A buffer read by many threads at once, then given to one that extends it.
fn buffers(c: &mut Case<'_>) -> R {
    let n = 1 + c.rng.below(30);
    let keys: Vec<String> = (0..n).map(|i| format!("{i}{}", gen_string(&mut c.rng))).collect();
    let mut buf = OwnedBuf::new();
    let mut recs = Vec::new();
    let mut next = Ref::new(0u32);
    for (i, k) in keys.iter().enumerate() {
        let name = buf.store_unsized(k.as_str());
        let rec = Rec { id: i as u32, flag: c.rng.bool(), name, next };
        next = buf.store(&rec);
        recs.push((next, rec));
    }
    let list = buf.store_slice(&recs.iter().map(|r| r.0).collect::<Vec<_>>());
    let named: Vec<(Ref<str>, Ref<Rec>)> = recs.iter().map(|(at, rec)| (rec.name, *at)).collect();
    let by_name = phf::store_map(&mut buf, named.iter().copied()).map_err(|e| e.to_string())?;
    let by_id = swiss::store_map(&mut buf, recs.iter().map(|(at, rec)| (rec.id, *at))).map_err(|e| e.to_string())?;
    let tree = trie::store(&mut buf, recs.iter().map(|(_, rec)| (rec.name, rec.id))).map_err(|e| e.to_string())?;
    buf.align_in_place();
    c.seen_bytes(buf.as_slice());
    let threads_n = threads(&mut c.rng);
    let look = &|buf: &musli_zerocopy::Buf| -> Result<u64, musli_zerocopy::Error> {
        let mut sum = 0u64;
        for (i, at) in buf.load(list)?.iter().enumerate() {
            let rec = buf.load(*at)?;
            assert_eq!(rec.id as usize, i);
            let name = buf.load(rec.name)?;
            assert_eq!(name, keys[i]);
            let m = buf.bind(by_name)?;
            assert_eq!(m.get(name)?.map(|r| r.offset()), Some(at.offset()));
            let m = buf.bind(by_id)?;
            assert_eq!(m.get(&rec.id)?.map(|r| r.offset()), Some(at.offset()));
            assert!(m.get(&(rec.id + 1000))?.is_none());
            sum += name.len() as u64 + rec.flag as u64;
            sum += tree.get(buf, name)?.map_or(0, |v| v.len() as u64);
        }
        for e in tree.iter(buf) {
            sum += *e?.1 as u64;
        }
        Ok(sum)
    };
    let want = look(&buf).map_err(|e| e.to_string())?;
    let many = together(c, "buffers", threads_n, |_| {
        let s = look(&buf).unwrap();
        (s, buf.len(), buf.is_empty(), buf.capacity(), buf.requested(), buf.as_slice().as_ptr() as usize, buf.clone().as_slice() == buf.as_slice(), buf.alignment(), buf.to_aligned::<u64>().len(), buf.is_aligned::<Rec>())
    })?;
    for m in &many {
        ensure!(m.0 == want && *m == many[0], "buffers: {} instead of {}", show(m), show(&many[0]));
        c.event("operations compared");
    }
    // Unaligned memory that is not the buffer's own.
    let copy = aligned_buf_with(buf.as_slice(), buf.requested());
    let many = together(c, "borrowed buffers", threads_n, |_| look(&copy).unwrap())?;
    ensure!(many.iter().all(|m| *m == want), "borrowed buffers: {}", show(&many));
    // Given away, extended and given back.
    let mut mem = vec![0u64; 64];
    let mem: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr().cast(), 512) };
    let before = buf.as_slice().to_vec();
    let (buf, at, small) = std::thread::scope(|s| {
        let mut small = SliceMut::new(mem);
        let first = small.store(&7u32);
        let h = s.spawn(move || {
            let mut at = Vec::new();
            for i in 0..50u64 {
                at.push(buf.store(&i));
            }
            let second = small.store(&9u64);
            let sum = *small.load(first).unwrap() as u64 + *small.load(second).unwrap();
            let shared = &small;
            let lens = std::thread::scope(|s| {
                let a = s.spawn(move || (shared.len(), shared.capacity(), shared.as_slice().to_vec(), shared.requested()));
                let b = (shared.len(), shared.capacity(), shared.as_slice().to_vec(), shared.requested());
                a.join().unwrap() == b
            });
            (buf, at, (sum, lens))
        });
        h.join().map_err(|p| vh::rt::payload(&*p).to_string())
    })?;
    ensure!(small == (16, true), "a slice buffer in another thread: {small:?}");
    ensure!(buf.as_slice()[..before.len()] == before[..], "a buffer extended in another thread lost bytes");
    for (i, at) in at.iter().enumerate() {
        ensure!(*buf.load(*at).map_err(|e| e.to_string())? == i as u64, "a buffer extended in another thread");
    }
    ensure!(look(&buf).map_err(|e| e.to_string())? == want, "a buffer extended in another thread reads differently");
    c.event("buffers moved between threads");
    Ok(())
}

/// Every thread has a fixed buffer and a default allocator of its own.
fn private(c: &mut Case<'_>) -> R {
    let seed = c.rng.u64();
    let n = threads(&mut c.rng);
    let work = |i: usize| -> (u64, Vec<u8>, bool) {
        let mut r = Rng::new(seed ^ (i as u64 % 2));
        let v = Nested::gen(&mut r, 0);
        let b = Descriptive::to_vec(&v).unwrap();
        let mut mem = vec![0u8; 60000];
        let slice = Slice::new(&mut mem[..]);
        let cx = musli::context::new_in(&slice).with_trace();
        let val: Result<Value<_>, _> = Descriptive::from_slice_with(&cx, &b);
        let again = val.and_then(|v| Descriptive::to_vec_with(&cx, &v));
        let sum = musli::alloc::default(|alloc| {
            let mut v = MVec::new_in(alloc);
            for i in 0..50u64 {
                v.push(r.u64() ^ i).unwrap();
            }
            v.iter().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(*b))
        });
        (sum, b.clone(), again.is_ok_and(|a| a == b))
    };
    let alone = [work(0), work(1)];
    c.seen_bytes(&alone[0].1);
    let many = together(c, "private allocators", n, work)?;
    for (i, m) in many.iter().enumerate() {
        ensure!(m.0 == alone[i % 2].0 && m.1 == alone[i % 2].1 && m.2 == alone[i % 2].2, "private allocators: another result with {n} threads");
        c.event("operations compared");
    }
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    g.add_n("claims", 1, claims);
    g.add("formats/storage", formats::<Storage>);
    g.add("formats/wire", formats::<Wire>);
    g.add("formats/descriptive", formats::<Descriptive>);
    g.add("formats/json", formats::<Json>);
    g.add("formats/wire/text", formats::<WireText>);
    g.add("relay", relay);
    g.add("shared", shared);
    g.add("buffers", buffers);
    g.add("private", private);
    let _ = || -> R { fail!("") };
    vh::rt::main(g);
}
