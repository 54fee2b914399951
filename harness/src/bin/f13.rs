//! F13: a decoder that stops early, skips or fails leaves its surroundings readable.
use musli::de::{Decoder, MapDecoder, SequenceDecoder, EntryDecoder};
use musli::{Decode, Encode};
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{self, Case, Groups, R};
use vh::shape::{self, Cfg, Plan, Shape, Walk};
use vh::{ensure, fail};

/// A finished or unfinished walk in the middle of other values.
fn surrounded<F: Fmt>(c: &mut Case<'_>) -> R {
    let json = F::KIND == Kind::Json;
    let cfg = Cfg { depth: 4, json, arrays: !json, ..Cfg::ALL };
    let v = [shape::gen(&mut c.rng, cfg, 0), shape::gen(&mut c.rng, cfg, 0)];
    let n = c.rng.u64();
    let s = gen_string(&mut c.rng);
    c.sample(|| format!("{v:?}"));
    let src = (&v[0], n, &v[1], s.clone());
    let b = F::to_vec(&src).map_err(|e| format!("{}: encoding {} failed: {e}", F::NAME, show(&v)))?;
    c.seen_bytes(&b);
    let tail: &[u8] = if json { b" ,[7]" } else { b"\x01\x02\xff\x80" };
    let mut ext = b.clone();
    ext.extend_from_slice(tail);
    let (stop, skip) = *c.rng.pick(&[(0, 0), (1, 2), (2, 6), (4, 1), (8, 8), (1, 0), (0, 4), (16, 0), (0, 16)]);
    let mut plan = Plan::new(Rng::new(c.rng.u64()), stop, skip);
    plan.json = json;
    if matches!(F::KIND, Kind::Json | Kind::Descriptive) {
        plan.any = *c.rng.pick(&[0, 0, 2, 8, 16]);
    }
    let mut rd = &ext[..];
    let (r, plan) = shape::with_walk(v.to_vec(), plan, || F::advance::<(Walk, u64, Walk, String)>(&mut rd));
    c.events("containers left early", plan.stops);
    c.events("keys, values and elements skipped", plan.skips);
    c.events("values visited", plan.visits);
    c.events("lengths announced", plan.hints);
    c.events("maps whose rest was read", plan.rest);
    let ctx = || format!("{}: walking {} (stops {}, skips {}) bytes {}", F::NAME, show(&v), plan.stops, plan.skips, hex(&b));
    let (_, gn, _, gs) = match r {
        Ok(x) => x,
        Err(e) => fail!("{}: failed: {e}", ctx()),
    };
    if let Some(m) = &plan.mismatch {
        fail!("{}: {m}", ctx());
    }
    ensure!(gn == n && gs == s, "{}: the values around it became {gn:?} {gs:?} instead of {n:?} {s:?}", ctx());
    ensure!(rd == tail, "{}: {} bytes left unread instead of {}", ctx(), rd.len(), tail.len());
    c.event("surroundings read back");
    Ok(())
}

fn dynamic(c: &mut Case<'_>) -> R {
    let cfg = Cfg { depth: 4, pack: false, ..Cfg::ALL };
    let v = shape::gen(&mut c.rng, cfg, 0);
    let n = c.rng.u64();
    // Read the dynamic value from descriptive data, then walk the value.
    let b = Descriptive::to_vec(&(&v, n))?;
    let val: musli::value::Value<musli::alloc::System> = Descriptive::from_slice(&b).map_err(|e| format!("value: reading {} failed: {e}", show(&v)))?;
    let (stop, skip) = *c.rng.pick(&[(0, 0), (1, 2), (2, 6), (4, 1), (8, 8)]);
    let mut plan = Plan::new(Rng::new(c.rng.u64()), stop, skip);
    plan.any = *c.rng.pick(&[0, 2, 8, 16]);
    let (r, plan) = shape::with_walk(vec![v.clone()], plan, || musli::value::decode::<(Walk, u64)>(&val));
    c.events("containers left early", plan.stops);
    c.events("keys, values and elements skipped", plan.skips);
    c.events("values visited", plan.visits);
    c.events("lengths announced", plan.hints);
    c.events("maps whose rest was read", plan.rest);
    c.seen(vh::rng::hash_str(&format!("{v:?}{}{}", plan.stops, plan.skips)));
    match r {
        Ok((_, g)) => ensure!(g == n, "value: after {} came {g} instead of {n}", show(&v)),
        Err(e) => fail!("value: walking {} failed: {e}", show(&v)),
    }
    if let Some(m) = &plan.mismatch {
        fail!("value: walking {}: {m}", show(&v));
    }
    c.event("surroundings read back");
    Ok(())
}

// --- fallback -----------------------------------------------------------------

/// Alternatives tried in order; each fails at a different depth.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(untagged)]
enum Alt {
    Deep { a: Vec<(u8, String)>, b: u32, c: bool },
    Mid { a: Vec<(u8, String)>, b: String },
    Shallow { a: Vec<(u8, String)> },
    Other { z: Option<i64>, y: Vec<Option<bool>> },
}
impl Gen for Alt {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => Alt::Deep { a: Gen::gen(r, d), b: Gen::gen(r, d), c: r.bool() },
            1 => Alt::Mid { a: Gen::gen(r, d), b: Gen::gen(r, d) },
            2 => Alt::Shallow { a: Gen::gen(r, d) },
            _ => Alt::Other { z: Gen::gen(r, d), y: Gen::gen(r, d) },
        }
    }
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(untagged)]
enum Nested {
    Two { first: Alt, second: Alt },
    One { first: Alt },
    Flat(#[musli(default)] Flat),
}
#[derive(Debug, Clone, PartialEq, Default, Encode, Decode)]
struct Flat {
    p: u16,
    q: String,
}
impl Gen for Nested {
    fn gen(r: &mut Rng, d: usize) -> Self {
        match r.below(2) {
            0 => Nested::Two { first: Gen::gen(r, d), second: Gen::gen(r, d) },
            _ => Nested::One { first: Gen::gen(r, d) },
        }
    }
}

/// Internally tagged: the tag may stand anywhere among the fields.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag(value = "type", type = str), name_all = "name")]
enum Tagged {
    #[musli(name_all = "name")]
    A { x: Vec<u32>, y: Option<String> },
    #[musli(name_all = "name")]
    B { x: String },
    #[musli(name_all = "name")]
    C,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag(value = "t", type = str), content(value = "c", type = str), name_all = "name")]
enum Adj {
    #[musli(name_all = "name")]
    A { x: Vec<u32>, y: Option<String> },
    #[musli(name_all = "name")]
    B { x: String },
}

fn mapv(mut v: Vec<(String, Shape)>, r: &mut Rng) -> Shape {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    Shape::Map(v.into_iter().map(|(k, v)| (Shape::Str(k), v)).collect())
}
fn junk(r: &mut Rng, json: bool) -> Shape {
    shape::gen(r, Cfg { depth: 3, json, arrays: !json, ..Cfg::ALL }, 1)
}

fn fallback<F: Fmt, T>(c: &mut Case<'_>) -> R
where
    T: Gen + Clone + PartialEq + std::fmt::Debug + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, musli::alloc::System>,
{
    let v: Vec<T> = (0..1 + c.rng.below(3)).map(|_| T::gen(&mut c.rng, 1)).collect();
    let n = c.rng.u64();
    let b = F::to_vec(&(&v, n)).map_err(|e| format!("{}: encoding {} failed: {e}", F::NAME, show(&v)))?;
    c.seen_bytes(&b);
    // An exclusive slice cannot be copied, so alternatives need the whole input.
    match F::from_slice::<(Vec<T>, u64)>(&b) {
        Ok((w, m)) => ensure!(w == v && n == m, "{}: {} and {n} became {} and {m}; bytes {}", F::NAME, show(&v), show(&w), hex(&b)),
        Err(e) => fail!("{}: {} failed after falling back: {e}; bytes {}", F::NAME, show(&v), hex(&b)),
    }
    c.events("alternatives decoded", v.len() as u64);
    Ok(())
}

/// Storage cannot skip, so what an alternative has read from a copy stays
/// unread (a recorded finding).
fn storage_alternative(c: &mut Case<'_>) -> R {
    #[derive(Debug, Clone, PartialEq, Encode, Decode)]
    #[musli(untagged)]
    enum Two {
        #[musli(packed)]
        A(u8),
        #[musli(packed)]
        B(u8, u8),
    }
    let b = Storage::to_vec(&(Two::A(7), 200u8))?;
    match Storage::from_slice::<(Two, u8)>(&b) {
        Ok((Two::A(7), 200)) => c.event("alternatives decoded"),
        _ => c.known("storage-untagged-head"),
    }
    Ok(())
}

/// Tag in any position, unknown fields between, several in a row.
fn tagged<F: Fmt>(c: &mut Case<'_>) -> R
where
    Tagged: for<'de> Decode<'de, F::Mode, musli::alloc::System>,
    Adj: for<'de> Decode<'de, F::Mode, musli::alloc::System>,
{
    let json = F::KIND == Kind::Json;
    let r = &mut c.rng;
    let mut shapes = Vec::new();
    let mut wt = Vec::new();
    let mut wa = Vec::new();
    for _ in 0..1 + r.below(3) {
        let xs: Vec<u32> = Gen::gen(r, 1);
        let y: Option<String> = Gen::gen(r, 1);
        let s: String = Gen::gen(r, 1);
        let opt = |y: &Option<String>| match y { Some(v) => Shape::Some(Box::new(Shape::Str(v.clone()))), None => Shape::None };
        let (tag, body, t, a) = match r.below(3) {
            0 => {
                let mut body = vec![("x".to_string(), Shape::Seq(xs.iter().map(|v| Shape::U32(*v)).collect()))];
                { body.push(("y".into(), opt(&y))); }
                ("A", body, Tagged::A { x: xs.clone(), y: y.clone() }, Some(Adj::A { x: xs, y }))
            }
            1 => ("B", vec![("x".to_string(), Shape::Str(s.clone()))], Tagged::B { x: s.clone() }, Some(Adj::B { x: s })),
            _ => ("C", vec![], Tagged::C, None),
        };
        let mut m = body.clone();
        m.push(("type".into(), Shape::Str(tag.into())));
        for i in 0..r.below(3) {
            let j = junk(r, json);
            m.push((format!("junk{i}"), j));
        }
        shapes.push(mapv(m, r));
        wt.push(t);
        if let Some(a) = a {
            let inner = mapv(body, r);
            // The tag must come first; unknown fields may be anywhere.
            let mut m = vec![("t".to_string(), Shape::Str(tag.into())), ("c".to_string(), inner)];
            for i in 0..r.below(3) {
                let j = junk(r, json);
                m.insert(r.below(m.len() + 1), (format!("junk{i}"), j));
            }
            wa.push((Shape::Map(m.into_iter().map(|(k, v)| (Shape::Str(k), v)).collect()), a));
        }
    }
    let n = c.rng.u64();
    let b = F::to_vec(&(&shapes, n))?;
    c.seen_bytes(&b);
    match F::from_slice::<(Vec<Tagged>, u64)>(&b) {
        Ok((g, m)) => ensure!(g == wt && m == n, "{}: {} read as {} {m}", F::NAME, show(&shapes), show(&g)),
        Err(e) => fail!("{}: tagged {} failed: {e} bytes {}", F::NAME, show(&shapes), hex(&b)),
    }
    c.events("tagged alternatives decoded", wt.len() as u64);
    let (sh, want): (Vec<Shape>, Vec<Adj>) = wa.into_iter().unzip();
    let b = F::to_vec(&(&sh, n))?;
    match F::from_slice::<(Vec<Adj>, u64)>(&b) {
        Ok((g, m)) => ensure!(g == want && m == n, "{}: {} read as {} {m}", F::NAME, show(&sh), show(&g)),
        Err(e) => fail!("{}: adjacently tagged {} failed: {e} bytes {}", F::NAME, show(&sh), hex(&b)),
    }
    c.events("adjacently tagged alternatives decoded", want.len() as u64);
    Ok(())
}

/// `try_clone`: read a copy partly or wrongly, then read the original.
#[derive(Debug, PartialEq)]
struct Twice(u64, usize);
thread_local! { static SHAPE: std::cell::RefCell<Option<(Shape, Plan, Plan)>> = const { std::cell::RefCell::new(None) }; }
impl<'de, M: 'static, A: musli::Allocator> Decode<'de, M, A> for Twice {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let (v, mut p1, mut p2) = SHAPE.with(|s| s.borrow().clone().unwrap());
        let mut n = 0;
        if let Some(copy) = d.try_clone() {
            n = 1;
            // Read as something it may not be, then as what it is but unfinished.
            if p1.rng.bool() {
                let _ = copy.decode_map(|m| {
                    while let Some(mut e) = m.decode_entry()? {
                        e.decode_key()?.decode_u32()?;
                        e.decode_value()?.decode_unsized(|s: &str| Ok(s.len()))?;
                    }
                    Ok(())
                });
            } else {
                let _ = shape::walk(copy, &v, &mut p1, false);
            }
        }
        let r = shape::walk(d, &v, &mut p2, false);
        SHAPE.with(|s| s.borrow_mut().as_mut().unwrap().2 = p2);
        r.map(|_| Twice(0, n))
    }
}
fn cloned<F: Fmt>(c: &mut Case<'_>) -> R {
    let json = F::KIND == Kind::Json;
    let v = shape::gen(&mut c.rng, Cfg { json, arrays: !json, ..Cfg::ALL }, 0);
    let n = c.rng.u64();
    let b = F::to_vec(&(&v, n))?;
    c.seen_bytes(&b);
    SHAPE.with(|s| *s.borrow_mut() = Some((v.clone(), Plan::new(Rng::new(c.rng.u64()), 3, 3), Plan::new(Rng::new(c.rng.u64()), 0, 0))));
    let r = F::from_slice::<(Twice, u64)>(&b);
    let p = SHAPE.with(|s| s.borrow_mut().take().unwrap());
    match r {
        Ok((t, m)) => {
            ensure!(m == n, "{}: after reading a copy of {} the rest is {m} instead of {n}", F::NAME, show(&v));
            c.events("copies read before the original", t.1 as u64);
        }
        Err(e) => fail!("{}: after reading a copy, {} failed: {e}", F::NAME, show(&v)),
    }
    if let Some(m) = p.2.mismatch {
        fail!("{}: after reading a copy: {m}", F::NAME);
    }
    Ok(())
}

/// A hand-written decoder that reads a few elements of typed collections.
#[derive(Debug, PartialEq)]
struct Firsts(Vec<u32>);
impl<'de, M: 'static, A: musli::Allocator> Decode<'de, M, A> for Firsts {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.decode_sequence(|s| {
            let mut v = Vec::new();
            let n: u32 = match s.try_next()? { Some(n) => n, None => return Ok(Firsts(v)) };
            v.push(n);
            for _ in 0..n % 5 {
                match s.try_next()? {
                    Some(n) => v.push(n),
                    None => break,
                }
            }
            Ok(Firsts(v))
        })
    }
}
fn firsts<F: Fmt>(c: &mut Case<'_>) -> R
where
    Vec<Vec<u32>>: Encode<F::Mode>,
    Vec<Firsts>: for<'de> Decode<'de, F::Mode, musli::alloc::System>,
{
    let v: Vec<Vec<u32>> = (0..1 + c.rng.below(4)).map(|_| (0..c.rng.below(40)).map(|_| c.rng.edge_bits() as u32).collect()).collect();
    let b = F::to_vec(&v)?;
    c.seen_bytes(&b);
    let g = F::from_slice::<Vec<Firsts>>(&b).map_err(|e| format!("{}: {} failed: {e}", F::NAME, show(&v)))?;
    for (v, g) in v.iter().zip(&g) {
        let want: Vec<u32> = match v.first() { None => vec![], Some(n) => v[..(1 + *n as usize % 5).min(v.len())].to_vec() };
        ensure!(g.0 == want, "{}: {} read as {}", F::NAME, show(v), show(g));
        if want.len() < v.len() {
            c.event("containers left early");
        }
    }
    ensure!(g.len() == v.len(), "{}: {} sequences became {}", F::NAME, v.len(), g.len());
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    macro_rules! walks { ($($f:ty),*) => { $(
        g.add(format!("walk/{}", <$f>::NAME), surrounded::<$f>);
        g.add(format!("copy/{}", <$f>::NAME), cloned::<$f>);
        g.add(format!("firsts/{}", <$f>::NAME), firsts::<$f>);
    )* } }
    walks!(Wire, WireFixed, Descriptive, DescriptiveFixed, Json, WireText, DescriptiveText, JsonBinary, pwire::VB4, pwire::FB0, pdesc::FB0);
    macro_rules! falls { ($($f:ty),*) => { $(
        g.add(format!("alternatives/{}", <$f>::NAME), fallback::<$f, Alt>);
        g.add(format!("nested alternatives/{}", <$f>::NAME), fallback::<$f, Nested>);
    )* } }
    falls!(Descriptive, DescriptiveFixed, Json, DescriptiveText, JsonBinary);
    macro_rules! tags { ($($f:ty),*) => { $( g.add(format!("tagged/{}", <$f>::NAME), tagged::<$f>); )* } }
    tags!(Descriptive, DescriptiveFixed, Json, DescriptiveText, JsonBinary);
    g.add("walk/value", dynamic);
    g.add_n("storage alternatives", 1, storage_alternative);
    rt::main(g);
}
