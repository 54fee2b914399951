//! A03: running out of memory is an error, never corruption.
use musli::alloc::{Disabled, Slice, String as MString, Vec as MVec};
use musli::value::Value;
use musli::{Decode, Encode};
use std::collections::*;
use vh::model::*;
use vh::quota::{Quota, Q};
use vh::rng::Rng;
use vh::rt::{guard, Case, Groups, R};
use vh::shape::{self, Cfg, Shape};
use vh::{ensure, fail};

type Out<T> = Result<T, ()>;

/// What may happen next: runs `$e` with a context `$cx`.
macro_rules! op {
    ($c:expr, $name:expr, |$cx:ident| $e:expr) => {{
        let c: &mut Case<'_> = $c;
        match c.rng.below(3) {
            0 => op!(@kind c, $name, "", |$cx| $e, |cx| cx),
            1 => op!(@kind c, $name, ", traced", |$cx| $e, |cx| cx.with_trace().with_type()),
            _ => op!(@kind c, $name, ", captured", |$cx| $e, |cx| cx.with_trace().with_capture::<String>()),
        }
    }};
    (@kind $c:ident, $name:expr, $kind:literal, |$cx:ident| $e:expr, |$new:ident| $make:expr) => {{
        let what = format!("{}{}", $name, $kind);
        let want;
        let asked;
        let peak;
        {
            // Every single request fails once.
            let quota = Quota::new();
            {
                let $new = musli::context::new_in(Q(&quota));
                let cx = $make;
                {
                    let $cx = &cx;
                    want = Some($e);
                }
                asked = quota.asked.get();
                // Tracing a failure asks for more than the operation itself.
                let mut n = asked;
                let mut at: Vec<(u64, bool)> = Vec::new();
                while n > 0 {
                    n -= 1;
                    at.push((n, $c.rng.chance(1, 3)));
                }
                if at.len() > 14 {
                    $c.rng.shuffle(&mut at);
                    at.truncate(14);
                }
                for (k, and_on) in at {
                    quota.arm(k, and_on);
                    let got = guard(|| {
                        let $cx = &cx;
                        $e
                    });
                    let refused = quota.refused.get();
                    let got = match got {
                        Ok(g) => g,
                        Err(p) => fail!("{what}: {p} when request {k} of {asked} fails{}", if and_on { " and all that follow" } else { "" }),
                    };
                    match &got {
                        Ok(_) => {
                            ensure!(Some(&got) == want.as_ref(), "{what}: another result when request {k} of {asked} fails: {} instead of {}", show(&got), show(&want));
                            $c.event("requests refused without effect");
                        }
                        Err(()) => {
                            ensure!(refused > 0 || matches!(&want, Some(Err(()))), "{what}: fails although request {k} of {asked} was never made");
                            $c.event("requests refused: reported");
                        }
                    }
                    quota.disarm();
                    if $c.rng.chance(1, 3) {
                        let again = {
                            let $cx = &cx;
                            $e
                        };
                        ensure!(Some(&again) == want.as_ref(), "{what}: another result in the same context after request {k} of {asked} failed: {} instead of {}", show(&again), show(&want));
                        $c.event("contexts used again");
                    }
                }
            }
            peak = quota.peak.get() as usize;
            ensure!(quota.live.get() == 0, "{what}: {} allocations were never returned", quota.live.get());
        }
        let want = want.unwrap();
        if asked == 0 {
            let $new = musli::context::new_in(Disabled::new());
            let cx = $make;
            let got = {
                let $cx = &cx;
                $e
            };
            ensure!(got == want, "{what}: needs no allocation but differs without an allocator: {} instead of {}", show(&got), show(&want));
            $c.event("done without an allocator");
        } else if $c.rng.chance(1, 2) {
            let $new = musli::context::new_in(Disabled::new());
            let cx = $make;
            let got = guard(|| {
                let $cx = &cx;
                $e
            })
            .map_err(|p| format!("{what}: {p} without an allocator"))?;
            ensure!(got.is_err() || got == want, "{what}: another result without an allocator: {} instead of {}", show(&got), show(&want));
        }
        // Fixed buffers of any size.
        for _ in 0..3 {
            let size = match $c.rng.below(12) {
                0..4 => $c.rng.below(100),
                4..8 => $c.rng.below(600),
                8 | 9 => $c.rng.below(4000),
                _ => $c.rng.below(40000),
            };
            // What fits once fits again and again, given room for the
            // bookkeeping of every allocation, which is not given back.
            let mut rounds = 1;
            let mut room = 0;
            for again in [false, true] {
                let size = size + room;
                let mut mem = vec![0xa5u8; size + 64];
                let from = 16 + $c.rng.below(16);
                {
                    let slice = Slice::new(&mut mem[from..from + size]);
                    for round in 0..rounds {
                        let $new = musli::context::new_in(&slice);
                        let cx = $make;
                        let got = guard(|| {
                            let $cx = &cx;
                            $e
                        });
                        let got = got.map_err(|p| format!("{what}: {p} in a fixed buffer of {size} bytes, round {round}"))?;
                        match &got {
                            Ok(_) => {
                                ensure!(got == want, "{what}: another result in a fixed buffer of {size} bytes, round {round}: {} instead of {}", show(&got), show(&want));
                                $c.event("fixed buffers large enough");
                            }
                            Err(()) => {
                                ensure!(want.is_err() || !again, "{what}: fails in a fixed buffer of {size} bytes in round {round} but fits in {} bytes", size - room);
                                $c.event("fixed buffers exhausted");
                            }
                        }
                        // Tracing gives up quietly when memory is short,
                        // which may leave enough for the operation.
                        if got.is_ok() && $kind.is_empty() {
                            rounds = 3;
                        }
                    }
                }
                ensure!(mem[..from].iter().chain(&mem[from + size..]).all(|b| *b == 0xa5), "{what}: memory around a fixed buffer of {size} bytes was changed");
                if rounds == 1 {
                    break;
                }
                room = 32 * (peak + 4);
            }
        }
        let _ = want;
    }};
}

fn encodes<F: Fmt, T: Encode<F::Mode>>(c: &mut Case<'_>, v: &T) -> R {
    let b = F::to_vec(v)?;
    let n = b.len();
    c.seen_bytes(&b);
    op!(&mut *c, format!("{} to_vec {}", F::NAME, hex(&b)), |cx| F::to_vec_with(cx, v).map_err(drop));
    op!(&mut *c, format!("{} to_slice", F::NAME), |cx| {
        let mut out = vec![7u8; n + 2];
        let r: Out<usize> = F::to_slice_with(cx, &mut out, v).map_err(drop);
        if let Ok(n) = r {
            out.truncate(n);
        }
        r.map(|_| out)
    });
    // Into memory of the failing allocator.
    op!(&mut *c, format!("{} to a buffer {}", F::NAME, hex(&b)), |cx| {
        let mut w = musli::writer::BufWriter::new(musli::Context::alloc(cx));
        let r: Out<()> = F::encode_with(cx, &mut w, v).map_err(drop);
        r.map(|()| w.into_inner().as_slice().to_vec())
    });
    Ok(())
}

fn decodes<F: Fmt, T>(c: &mut Case<'_>, v: &T) -> R
where
    T: Encode<F::Mode> + PartialEq + std::fmt::Debug,
    T: for<'de, 'q> Decode<'de, F::Mode, Q<'q>> + for<'de> Decode<'de, F::Mode, Disabled> + for<'de, 'a, 'b> Decode<'de, F::Mode, &'a Slice<'b>>,
{
    let mut b = F::to_vec(v)?;
    if c.rng.chance(1, 4) && !b.is_empty() {
        let at = c.rng.below(b.len());
        match c.rng.below(3) {
            0 => b.truncate(at),
            1 => b[at] ^= 1 << c.rng.below(8),
            _ => b[at] = c.rng.u8(),
        }
    }
    c.seen_bytes(&b);
    op!(&mut *c, format!("{} decode {}", F::NAME, hex(&b)), |cx| F::from_slice_with::<_, T>(cx, &b).map_err(drop));
    Ok(())
}


/// Strings and sequences that live in the allocator itself.
fn own<F: Fmt>(c: &mut Case<'_>) -> R {
    let b = match c.rng.below(2) {
        0 => F::to_vec(&gen_string(&mut c.rng))?,
        _ => F::to_vec(&<Vec<String>>::gen(&mut c.rng, 0))?,
    };
    c.seen_bytes(&b);
    op!(&mut *c, format!("{} string {}", F::NAME, hex(&b)), |cx| F::from_slice_with::<_, MString<_>>(cx, &b).map(|s| s.as_str().to_string()).map_err(drop));
    op!(&mut *c, format!("{} strings {}", F::NAME, hex(&b)), |cx| {
        F::from_slice_with::<_, MVec<MString<_>, _>>(cx, &b).map(|v| v.iter().map(|s| s.as_str().to_string()).collect::<Vec<_>>()).map_err(drop)
    });
    let b = F::to_vec(&<Vec<(u32, i64)>>::gen(&mut c.rng, 0))?;
    op!(&mut *c, format!("{} pairs {}", F::NAME, hex(&b)), |cx| {
        F::from_slice_with::<_, MVec<(u32, i64), _>>(cx, &b).map(|v| v.iter().copied().collect::<Vec<_>>()).map_err(drop)
    });
    Ok(())
}

/// The dynamic value of self-descriptive data, and back again.
fn dynamic<F: Fmt, T>(c: &mut Case<'_>) -> R
where
    T: Gen + Encode<F::Mode> + Encode<musli::mode::Binary> + PartialEq + std::fmt::Debug,
    T: for<'de, 'q> Decode<'de, musli::mode::Binary, Q<'q>> + for<'de> Decode<'de, musli::mode::Binary, Disabled> + for<'de, 'a, 'b> Decode<'de, musli::mode::Binary, &'a Slice<'b>>,
{
    let x = T::gen(&mut c.rng, 0);
    let b = F::to_vec(&x)?;
    c.seen_bytes(&b);
    op!(&mut *c, format!("{} into a value {}", F::NAME, hex(&b)), |cx| F::from_slice_with::<_, Value<_>>(cx, &b).map(|v| format!("{v:?}")).map_err(drop));
    op!(&mut *c, format!("{} through a value {}", F::NAME, hex(&b)), |cx| {
        let r: Out<Vec<u8>> = match F::from_slice_with::<_, Value<_>>(cx, &b) {
            Ok(v) => F::to_vec_with(cx, &v).map_err(drop),
            Err(_) => Err(()),
        };
        r
    });
    let d = Descriptive::to_vec(&x)?;
    op!(&mut *c, format!("{} decoded from a value", show(&x)), |cx| {
        let r: Out<T> = match Descriptive::from_slice_with::<_, Value<_>>(cx, &d) {
            Ok(v) => musli::value::decode_with::<_, T, musli::mode::Binary>(cx, &v).map_err(drop),
            Err(_) => Err(()),
        };
        r
    });
    Ok(())
}

fn shapes<F: Fmt>(c: &mut Case<'_>) -> R
where
    Shape: Encode<F::Mode>,
{
    let cfg = if F::KIND == Kind::Json { Cfg::JSON } else { Cfg::ALL };
    let s = shape::gen(&mut c.rng, cfg, 0);
    encodes::<F, Shape>(c, &s)
}

fn escaped(c: &mut Case<'_>) -> R {
    let mut doc = String::from("{");
    let n = 1 + c.rng.below(4);
    for i in 0..n {
        let mut k = String::new();
        for _ in 0..c.rng.below(12) {
            match c.rng.below(5) {
                0 => k.push_str("\\n"),
                1 => k.push_str("\\u00e9"),
                2 => k.push_str("\\ud83d\\ude00"),
                3 => k.push_str("plain text"),
                _ => k.push('é'),
            }
        }
        let v = k.repeat(c.rng.below(4));
        doc.push_str(&format!("{}\"{i}{k}\": \"{v}\"", if i > 0 { ", " } else { "" }));
    }
    doc.push('}');
    let b = doc.into_bytes();
    c.seen_bytes(&b);
    op!(&mut *c, format!("json {}", String::from_utf8_lossy(&b)), |cx| Json::from_slice_with::<_, BTreeMap<String, String>>(cx, &b).map_err(drop));
    op!(&mut *c, format!("json {} into a value", String::from_utf8_lossy(&b)), |cx| Json::from_slice_with::<_, Value<_>>(cx, &b).map(|v| format!("{v:?}")).map_err(drop));
    Ok(())
}

/// Fields are looked for in any order, unknown ones are skipped and buffered
/// content is decoded again.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "kind")]
enum Tagged {
    First { a: u32, text: String },
    Second { b: Option<i64>, list: Vec<String> },
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(untagged)]
enum Untagged {
    First { a: u32, text: String },
    Second { b: i64, list: Vec<String> },
    #[musli(transparent)]
    Third(Vec<u32>),
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag = "kind", content = "content")]
enum Adjacent {
    First { a: u32, text: String },
    #[musli(transparent)]
    Second(Vec<String>),
}
impl Gen for Tagged {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.bool() {
            Tagged::First { a: Gen::gen(r, d), text: Gen::gen(r, d) }
        } else {
            Tagged::Second { b: Gen::gen(r, d), list: Gen::gen(r, d) }
        }
    }
}
impl Gen for Untagged {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(3) {
            0 => Untagged::First { a: Gen::gen(r, d), text: Gen::gen(r, d) },
            1 => Untagged::Second { b: Gen::gen(r, d), list: Gen::gen(r, d) },
            _ => Untagged::Third(Gen::gen(r, d)),
        }
    }
}
impl Gen for Adjacent {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.bool() {
            Adjacent::First { a: Gen::gen(r, d), text: Gen::gen(r, d) }
        } else {
            Adjacent::Second(Gen::gen(r, d))
        }
    }
}

fn typed<F: Fmt, T>(c: &mut Case<'_>) -> R
where
    T: Gen + Encode<F::Mode> + PartialEq + std::fmt::Debug,
    T: for<'de, 'q> Decode<'de, F::Mode, Q<'q>> + for<'de> Decode<'de, F::Mode, Disabled> + for<'de, 'a, 'b> Decode<'de, F::Mode, &'a Slice<'b>>,
{
    let v = T::gen(&mut c.rng, 0);
    if c.rng.chance(1, 3) {
        encodes::<F, T>(c, &v)
    } else {
        decodes::<F, T>(c, &v)
    }
}

fn main() {
    let mut g = Groups::new();
    g.no_leaks();
    macro_rules! types { ($($f:ty),*) => { $(
        g.add(format!("everything/{}", <$f>::NAME), typed::<$f, Everything>);
        g.add(format!("nested/{}", <$f>::NAME), typed::<$f, Nested>);
        g.add(format!("strings/{}", <$f>::NAME), typed::<$f, (Strs, Named, NamedE)>);
        g.add(format!("collections/{}", <$f>::NAME), typed::<$f, Colls>);
        g.add(format!("own/{}", <$f>::NAME), own::<$f>);
        g.add(format!("shapes/{}", <$f>::NAME), shapes::<$f>);
    )* } }
    types!(Storage, Wire, Descriptive, Json, StorageText, WireFixed, DescriptiveText);
    g.add("packed/packed", typed::<Packed, PackedS>);
    g.add("own/packed", own::<Packed>);
    macro_rules! tagged { ($($f:ty),*) => { $(
        g.add(format!("tagged/{}", <$f>::NAME), typed::<$f, Vec<Tagged>>);
        g.add(format!("untagged/{}", <$f>::NAME), typed::<$f, Untagged>);
        g.add(format!("adjacent/{}", <$f>::NAME), typed::<$f, Vec<Adjacent>>);
    )* } }
    tagged!(Wire, Descriptive, Json);
    macro_rules! dynamics { ($($f:ty),*) => { $(
        g.add(format!("dynamic/{}", <$f>::NAME), dynamic::<$f, (Vec<BTreeMap<String, Vec<Option<i32>>>>, String, En2)>);
        g.add(format!("dynamic nested/{}", <$f>::NAME), dynamic::<$f, Nested>);
    )* } }
    dynamics!(Descriptive, Json, DescriptiveFixed);
    g.add("escaped/json", escaped);
    vh::rt::main(g);
}
