//! Z08: tries answer prefix queries exactly like a sorted multimap.
use musli_zerocopy::endian::{Big, Little, Native};
use musli_zerocopy::slice::Packed;
use musli_zerocopy::{buf::aligned_buf_with, trie, Buf, ByteOrder, OwnedBuf, Ref, Size, ZeroCopy};
use std::collections::BTreeMap;
use std::num::NonZeroU16;
use vh::rng::Rng;
use vh::rt::{Case, Groups, R};
use vh::{ensure, fail};

struct Small;
impl trie::Flavor for Small {
    type String = Packed<[u8], u32, u8>;
    type Values<T>
        = Packed<[T], u32, u16>
    where
        T: ZeroCopy;
    type Children<T>
        = Packed<[T], u32, u16>
    where
        T: ZeroCopy;
}
struct SmallBig;
impl trie::Flavor for SmallBig {
    type String = Packed<[u8], u32, u16, Big>;
    type Values<T>
        = Packed<[T], u32, u8, Big>
    where
        T: ZeroCopy;
    type Children<T>
        = Ref<[T], Big, u64>
    where
        T: ZeroCopy;
}

trait Val: ZeroCopy + Copy + Ord + std::fmt::Debug {
    fn val(r: &mut Rng) -> Self;
}
impl Val for u32 {
    fn val(r: &mut Rng) -> Self {
        r.below(1000) as u32
    }
}
impl Val for u8 {
    fn val(r: &mut Rng) -> Self {
        r.u8()
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, ZeroCopy)]
#[repr(C)]
struct V {
    a: u8,
    b: u64,
    c: NonZeroU16,
}
impl Val for V {
    fn val(r: &mut Rng) -> Self {
        V { a: r.u8(), b: r.u64(), c: NonZeroU16::new(1 + r.below(100) as u16).unwrap() }
    }
}

fn key(r: &mut Rng, style: usize, old: &[Vec<u8>]) -> Vec<u8> {
    if !old.is_empty() && r.chance(2, 5) {
        // Something near an earlier key.
        let mut k = r.pick(old).clone();
        match r.below(5) {
            0 => k.truncate(r.below(k.len() + 1)),
            1 => k.push(*r.pick(b"abz\0\xff")),
            2 if !k.is_empty() => {
                let at = r.below(k.len());
                k[at] = k[at].wrapping_add(*r.pick(&[1, 255]));
            }
            3 => {
                let o = r.pick(old).clone();
                k.truncate(r.below(k.len() + 1));
                k.extend(o.iter().skip(r.below(o.len() + 1)));
            }
            _ => {}
        }
        k.truncate(200);
        return k;
    }
    match style {
        0 => (0..r.below(7)).map(|_| *r.pick(b"ab")).collect(),
        1 => (0..r.below(6)).map(|_| *r.pick(&[0u8, 1, 127, 128, 254, 255])).collect(),
        2 => (0..r.below(5)).map(|_| *r.pick(&["work", "er", "ing", "s", "run", " man", "食べ", "ない", "なか", "é"])).collect::<String>().into_bytes(),
        3 => vec![*r.pick(b"ab"); r.below(30)],
        _ => {
            let n = r.below(12);
            r.bytes(n)
        }
    }
}

fn run<T: Val, E: ByteOrder, O: Size, F: trie::Flavor>(c: &mut Case<'_>) -> R
where
    trie::TrieRef<T, F>: ZeroCopy,
{
    let mut r = Rng::new(c.rng.u64());
    let style = r.below(5);
    let n = match r.below(10) {
        0 => 0,
        1..=6 => r.below(9),
        7 | 8 => r.below(40),
        _ => r.below(150),
    };
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let mut builder = trie::Builder::<T, F>::with_flavor();
    let mut model: BTreeMap<Vec<u8>, Vec<T>> = BTreeMap::new();
    let mut order = Vec::new();
    for _ in 0..n {
        let k = key(&mut r, style, &order);
        let v = T::val(&mut r);
        let j = r.below(4);
        b.extend_from_slice(&r.bytes(j));
        let s = match r.below(5) {
            // Part of a longer string.
            0 => {
                let (x, y) = (r.below(4), r.below(4));
                let mut long = r.bytes(x);
                long.extend_from_slice(&k);
                long.extend_from_slice(&r.bytes(y));
                let s = b.store_slice(&long[..]);
                s.split_at(x).1.split_at(k.len()).0
            }
            1 if std::str::from_utf8(&k).is_ok() => {
                let s = b.store_unsized(std::str::from_utf8(&k).unwrap());
                builder.insert(&b, s, v).map_err(|e| format!("inserting {k:?}: {e}"))?;
                model.entry(k.clone()).or_default().push(v);
                order.push(k);
                continue;
            }
            _ => b.store_slice(&k[..]),
        };
        builder.insert(&b, s, v).map_err(|e| format!("inserting {k:?}: {e}"))?;
        model.entry(k.clone()).or_default().push(v);
        order.push(k);
    }
    c.sample(|| format!("{order:?}"));
    let before = b[..].to_vec();
    let t = builder.build(&mut b).map_err(|e| format!("building {order:?}: {e}"))?;
    let at = b.store(&t);
    ensure!(b[..before.len()] == before[..], "building changed what was stored before");
    b.align_in_place();
    c.seen_bytes(&b[..]);
    c.event("tries built");
    let buf: &Buf = &b;
    let ctx = || format!("inserted {order:?}");
    let mut asked: Vec<Vec<u8>> = model.keys().cloned().collect();
    for k in model.keys() {
        if asked.len() > 400 {
            break;
        }
        for i in 0..k.len().min(6) {
            asked.push(k[..i].to_vec());
        }
    }
    for _ in 0..20 {
        asked.push(key(&mut r, style, &order));
    }
    asked.push(Vec::new());
    asked.sort();
    asked.dedup();
    for k in &asked {
        let want = model.get(k);
        let got = t.get(buf, k).map_err(|e| format!("get({k:?}) failed: {e}; {}", ctx()))?;
        match (want, got) {
            (Some(w), Some(g)) => {
                ensure!(&w[..] == g, "get({k:?}) is {g:?} instead of {w:?}; {}", ctx());
                c.event("inserted keys: their values");
            }
            (Some(w), None) => fail!("get({k:?}) is None instead of {w:?}; {}", ctx()),
            (None, None) => c.event("other keys: nothing"),
            // A key which is only a branching point holds nothing.
            (None, Some([])) => c.event("other keys: nothing"),
            (None, Some(g)) => fail!("get({k:?}) is {g:?} although it was not inserted; {}", ctx()),
        }
        // Entries below the prefix.
        let mut want: Vec<(&[u8], T)> = Vec::new();
        for (mk, vs) in model.range(k.clone()..) {
            if !mk.starts_with(k) {
                break;
            }
            want.extend(vs.iter().map(|v| (&mk[..], *v)));
        }
        want.sort();
        let mut got = t.iter_in(buf, k).map(|x| x.map(|(k, v)| (k, *v))).collect::<Result<Vec<_>, _>>().map_err(|e| format!("iter_in({k:?}) failed: {e}; {}", ctx()))?;
        got.sort();
        ensure!(got == want, "iter_in({k:?}) yields {got:?} instead of {want:?}; {}", ctx());
        let mut got = t.values_in(buf, k).map(|x| x.copied()).collect::<Result<Vec<_>, _>>().map_err(|e| format!("values_in({k:?}) failed: {e}; {}", ctx()))?;
        got.sort();
        let mut vals: Vec<T> = want.iter().map(|x| x.1).collect();
        vals.sort();
        ensure!(got == vals, "values_in({k:?}) yields {got:?} instead of {vals:?}; {}", ctx());
        // With a bounded stack: the same or an error.
        macro_rules! fixed {
            ($n:literal, $must:expr) => {
                match t.iter_in_fixed::<$n, _>(buf, k).map(|x| x.map(|(k, v)| (k, *v))).collect::<Result<Vec<_>, _>>() {
                    Ok(mut got) => {
                        got.sort();
                        ensure!(got == want, "iter_in_fixed::<{}>({k:?}) yields {got:?} instead of {want:?}; {}", $n, ctx());
                        c.event("bounded iterations compared");
                    }
                    Err(e) if $must => fail!("iter_in_fixed::<{}>({k:?}) failed: {e}; {}", $n, ctx()),
                    Err(_) => c.event("bounded iterations refused"),
                }
                match t.values_in_fixed::<$n, _>(buf, k).map(|x| x.copied()).collect::<Result<Vec<_>, _>>() {
                    Ok(mut got) => {
                        got.sort();
                        ensure!(got == vals, "values_in_fixed::<{}>({k:?}) yields {got:?} instead of {vals:?}; {}", $n, ctx());
                    }
                    Err(e) if $must => fail!("values_in_fixed::<{}>({k:?}) failed: {e}; {}", $n, ctx()),
                    Err(_) => {}
                }
            };
        }
        if r.chance(1, 4) {
            fixed!(256, true);
        } else if r.chance(1, 3) {
            fixed!(2, false);
        } else if r.chance(1, 3) {
            fixed!(1, false);
        }
        c.event("prefix queries compared");
    }
    let mut all: Vec<(&[u8], T)> = model.iter().flat_map(|(k, vs)| vs.iter().map(move |v| (&k[..], *v))).collect();
    all.sort();
    let mut vals: Vec<T> = all.iter().map(|x| x.1).collect();
    vals.sort();
    // The same trie at another address, through its stored reference.
    let moved = aligned_buf_with(&buf[..], 64);
    let t2 = moved.load(at).map_err(|e| format!("loading the trie reference: {e}"))?;
    for (buf, t) in [(buf, &t), (&*moved, t2)] {
        macro_rules! same {
            ($it:expr, $what:expr) => {{
                let mut got = $it.map(|x| x.map(|(k, v)| (k, *v))).collect::<Result<Vec<_>, _>>().map_err(|e| format!("{} failed: {e}; {}", $what, ctx()))?;
                got.sort();
                ensure!(got == all, "{} yields {got:?} instead of {all:?}; {}", $what, ctx());
            }};
        }
        macro_rules! same_values {
            ($it:expr, $what:expr) => {{
                let mut got = $it.map(|x| x.copied()).collect::<Result<Vec<_>, _>>().map_err(|e| format!("{} failed: {e}; {}", $what, ctx()))?;
                got.sort();
                ensure!(got == vals, "{} yields {got:?} instead of {vals:?}; {}", $what, ctx());
            }};
        }
        same!(t.iter(buf), "iter()");
        same!(t.iter_fixed::<256>(buf), "iter_fixed()");
        same_values!(t.values(buf), "values()");
        same_values!(t.values_fixed::<256>(buf), "values_fixed()");
        let d = format!("{:?}", t.debug(buf));
        let df = format!("{:?}", t.debug_fixed::<256>(buf));
        ensure!(d == df, "debug() gives {d} and debug_fixed() {df}; {}", ctx());
        c.event("whole tries iterated");
    }
    Ok(())
}

/// `trie::store` at once.
fn store<E: ByteOrder, O: Size>(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(c.rng.u64());
    let mut b = OwnedBuf::new().with_byte_order::<E>().with_size::<O>();
    let mut order: Vec<Vec<u8>> = Vec::new();
    let mut model: BTreeMap<Vec<u8>, Vec<u32>> = BTreeMap::new();
    let mut entries = Vec::new();
    let style = r.below(5);
    for i in 0..r.below(12) {
        let k = key(&mut r, style, &order);
        entries.push((b.store_slice(&k[..]), i as u32));
        model.entry(k.clone()).or_default().push(i as u32);
        order.push(k);
    }
    let t = trie::store(&mut b, entries).map_err(|e| format!("store: {e}"))?;
    b.align_in_place();
    c.seen_bytes(&b[..]);
    for (k, v) in &model {
        let g = t.get(&b, k).map_err(|e| format!("get({k:?}): {e}"))?;
        ensure!(g == Some(&v[..]), "get({k:?}) is {g:?} instead of {v:?}; inserted {order:?}");
        c.event("inserted keys: their values");
    }
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    g.add("default", run::<u32, Native, u32, trie::DefaultFlavor>);
    g.add("default big", run::<V, Big, u32, trie::DefaultFlavor<Big, u32>>);
    g.add("little u64", run::<u8, Little, u64, trie::DefaultFlavor<Little, u64>>);
    g.add("big usize", run::<V, Big, usize, trie::DefaultFlavor<Big, usize>>);
    g.add("u16", run::<u8, Native, u32, trie::DefaultFlavor<Big, u16>>);
    g.add("packed", run::<u32, Native, u32, Small>);
    g.add("packed big", run::<u8, Native, usize, SmallBig>);
    g.add("store", store::<Native, u32>);
    g.add("store big", store::<Big, u64>);
    vh::rt::main(g);
}
