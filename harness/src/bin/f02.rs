//! F02: reordered, missing and unknown fields are tolerated as documented.
use musli::{Decode, Encode};
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{self, Case, Groups, R};
use vh::shape::{self, Cfg, Shape};
use vh::{ensure, fail};

/// How one encoding of a model differs from the plain one.
struct Edit<'a> {
    r: &'a mut Rng,
    text: bool,
    json: bool,
    /// Drop fields that have defaults.
    drop: bool,
    shuffle: bool,
    /// Insert fields nobody knows.
    unknown: bool,
    /// Remove one required field.
    require: bool,
    dropped: u64,
    added: u64,
    moved: u64,
    removed: u64,
    /// Unnamed fields have numeric keys in the text mode too.
    tuple: bool,
    max: usize,
}

struct Field {
    i: usize,
    name: &'static str,
    v: Shape,
    /// Absent fields take the default.
    opt: bool,
    is_default: bool,
}

impl Edit<'_> {
    fn key(&self, i: usize, name: &str) -> Shape {
        if self.text && !self.tuple { Shape::Str(name.into()) } else { Shape::Usize(i) }
    }
    fn unknown_key(&mut self, names: &[&str], used: &[Shape]) -> Shape {
        loop {
            let k = if self.text && !self.tuple {
                let n = *self.r.pick(names);
                Shape::Str(match self.r.below(6) {
                    0 => format!("{n}_"),
                    1 => n.to_uppercase() + "X",
                    2 => String::new(),
                    3 => n.chars().skip(1).collect(),
                    4 => gen_string(self.r),
                    _ => format!(" {n}"),
                })
            } else {
                let n = match self.r.below(4) {
                    0 => names.len() + self.r.below(4),
                    1 => 200 + self.r.below(100),
                    2 => 65536 + self.r.below(70000),
                    _ => usize::MAX - self.r.below(3),
                };
                Shape::Usize(if n > self.max { names.len() + self.r.below(self.max - names.len()) } else { n })
            };
            let known = match &k {
                Shape::Str(s) => names.iter().any(|n| n == s),
                Shape::Usize(n) => *n < names.len() || *n == 300,
                _ => unreachable!(),
            };
            if !known && !used.contains(&k) {
                return k;
            }
        }
    }
    /// The map of the fields, edited; also whether each optional field stayed.
    fn map(&mut self, fields: Vec<Field>) -> (Shape, Vec<bool>) {
        let names: Vec<&str> = if fields.is_empty() { vec!["zz"] } else { fields.iter().map(|f| f.name).collect() };
        let mut kept = Vec::new();
        let mut out = Vec::new();
        for f in fields {
            let mut keep = true;
            if f.opt && self.drop && (f.is_default || self.r.bool()) && self.r.chance(2, 3) {
                keep = false;
                self.dropped += 1;
            }
            if !f.opt && self.require && self.r.chance(1, 3) {
                keep = false;
                self.removed += 1;
            }
            kept.push(keep);
            if keep {
                let k = self.key(f.i, f.name);
                out.push((k, f.v));
            }
        }
        if self.shuffle {
            for i in (1..out.len()).rev() {
                let j = self.r.below(i + 1);
                if i != j {
                    self.moved += 1;
                }
                out.swap(i, j);
            }
        }
        if self.unknown {
            let n = self.r.below(4);
            for _ in 0..n {
                let used: Vec<Shape> = out.iter().map(|(k, _)| k.clone()).collect();
                let k = self.unknown_key(&names, &used);
                let v = shape::gen(self.r, Cfg { depth: 4, json: self.json, arrays: !self.json, max_len: self.max as u128, ..Cfg::ALL }, 0);
                let at = self.r.below(out.len() + 1);
                out.insert(at, (k, v));
                self.added += 1;
            }
        }
        (Shape::Map(out), kept)
    }
}

trait Model: Sized {
    /// An edited encoding and the value it must decode to.
    fn make(e: &mut Edit<'_>) -> (Shape, Self);
}

fn s_opt(v: Option<Shape>) -> Shape {
    match v {
        None => Shape::None,
        Some(v) => Shape::Some(Box::new(v)),
    }
}

fn forty_two() -> u8 {
    42
}

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Known {
    alpha: u32,
    beta: String,
    #[musli(default)]
    gamma: Vec<u16>,
    #[musli(default)]
    delta: Option<i64>,
    epsilon: Inner,
    #[musli(default = forty_two)]
    zeta: u8,
    #[musli(default)]
    eta: Inner,
    theta: Ev,
}
#[derive(Debug, Clone, PartialEq, Default, Encode, Decode)]
struct Inner {
    x: u8,
    #[musli(default)]
    y: String,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum Ev {
    Unit,
    Fields {
        p: u32,
        #[musli(default)]
        q: Option<String>,
        r: Vec<Inner>,
    },
    Tuple(String, #[musli(default)] i32),
    #[musli(transparent)]
    Through(Inner),
}
/// Unknown variants become the default one.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum Open {
    First { a: u8 },
    #[musli(default)]
    Rest,
}

macro_rules! f {
    ($i:expr, $n:literal, $v:expr) => { Field { i: $i, name: $n, v: $v, opt: false, is_default: false } };
    ($i:expr, $n:literal, $v:expr, $d:expr) => { Field { i: $i, name: $n, v: $v, opt: true, is_default: $d } };
}

impl Model for Inner {
    fn make(e: &mut Edit<'_>) -> (Shape, Self) {
        let (x, y) = (e.r.u8(), gen_string(e.r));
        let (s, k) = e.map(vec![f!(0, "x", Shape::U8(x)), f!(1, "y", Shape::Str(y.clone()), y.is_empty())]);
        (s, Inner { x, y: if k[1] { y } else { String::new() } })
    }
}
impl Model for Ev {
    fn make(e: &mut Edit<'_>) -> (Shape, Self) {
        let (i, n, s, v) = match e.r.below(4) {
            0 => (0, "Unit", e.map(vec![]).0, Ev::Unit),
            1 => {
                let p: u32 = Gen::gen(e.r, 0);
                let q: Option<String> = Gen::gen(e.r, 0);
                let n = e.r.below(3);
                let (rs, r): (Vec<Shape>, Vec<Inner>) = (0..n).map(|_| Inner::make(e)).unzip();
                let (s, k) = e.map(vec![
                    f!(0, "p", Shape::U32(p)),
                    f!(1, "q", s_opt(q.clone().map(Shape::Str)), q.is_none()),
                    f!(2, "r", Shape::Seq(rs)),
                ]);
                (1, "Fields", s, Ev::Fields { p, q: if k[1] { q } else { None }, r })
            }
            2 => {
                let a = gen_string(e.r);
                let b: i32 = Gen::gen(e.r, 0);
                e.tuple = true;
                let (s, k) = e.map(vec![f!(0, "0", Shape::Str(a.clone())), f!(1, "1", Shape::I32(b), b == 0)]);
                e.tuple = false;
                (2, "Tuple", s, Ev::Tuple(a, if k[1] { b } else { 0 }))
            }
            _ => {
                let (s, v) = Inner::make(e);
                (3, "Through", s, Ev::Through(v))
            }
        };
        (Shape::Variant(Box::new(e.key(i, n)), Box::new(s)), v)
    }
}
impl Model for Open {
    fn make(e: &mut Edit<'_>) -> (Shape, Self) {
        if e.unknown && e.r.bool() {
            let k = loop {
                let k = e.unknown_key(&["First", "Rest"], &[]);
                if k != Shape::Str(String::new()) || !e.json {
                    break k;
                }
            };
            let v = shape::gen(e.r, Cfg { depth: 3, json: e.json, arrays: !e.json, max_len: e.max as u128, ..Cfg::ALL }, 0);
            e.added += 1;
            return (Shape::Variant(Box::new(k), Box::new(v)), Open::Rest);
        }
        let a = e.r.u8();
        let (s, _) = e.map(vec![f!(0, "a", Shape::U8(a))]);
        (Shape::Variant(Box::new(e.key(0, "First")), Box::new(s)), Open::First { a })
    }
}
impl Model for Known {
    fn make(e: &mut Edit<'_>) -> (Shape, Self) {
        let alpha: u32 = Gen::gen(e.r, 0);
        let beta = gen_string(e.r);
        let gamma: Vec<u16> = Gen::gen(e.r, 1);
        let delta: Option<i64> = Gen::gen(e.r, 1);
        let (se, epsilon) = Inner::make(e);
        let zeta: u8 = Gen::gen(e.r, 1);
        let before = (e.dropped, e.added, e.moved, e.removed);
        let (sh, eta) = Inner::make(e);
        let inside = (e.dropped - before.0, e.added - before.1, e.moved - before.2, e.removed - before.3);
        let (st, theta) = Ev::make(e);
        let (s, k) = e.map(vec![
            f!(0, "alpha", Shape::U32(alpha)),
            f!(1, "beta", Shape::Str(beta.clone())),
            f!(2, "gamma", Shape::Seq(gamma.iter().map(|v| Shape::U16(*v)).collect()), gamma.is_empty()),
            f!(3, "delta", s_opt(delta.map(Shape::I64)), delta.is_none()),
            f!(4, "epsilon", se),
            f!(5, "zeta", Shape::U8(zeta), zeta == 42),
            f!(6, "eta", sh, eta == Inner::default()),
            f!(7, "theta", st),
        ]);
        if !k[6] {
            // What was done inside a field which is left out does not count.
            e.dropped -= inside.0;
            e.added -= inside.1;
            e.moved -= inside.2;
            e.removed -= inside.3;
        }
        let v = Known {
            alpha,
            beta,
            gamma: if k[2] { gamma } else { vec![] },
            delta: if k[3] { delta } else { None },
            epsilon,
            zeta: if k[5] { zeta } else { 42 },
            eta: if k[6] { eta } else { Inner::default() },
            theta,
        };
        (s, v)
    }
}

fn edited<F: Fmt, T>(c: &mut Case<'_>, text: bool) -> R
where
    T: Model + PartialEq + std::fmt::Debug + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, musli::alloc::System>,
{
    let json = F::KIND == Kind::Json;
    let can_skip = F::KIND != Kind::Storage;
    let n = 1 + c.rng.below(3);
    let require = c.rng.chance(1, 6);
    let (drop, shuffle, unknown) = (c.rng.chance(3, 4), c.rng.chance(3, 4), c.rng.chance(3, 4));
    let mut e = Edit { r: &mut c.rng, text, json, drop, shuffle, unknown: unknown && can_skip, require, dropped: 0, added: 0, moved: 0, removed: 0, tuple: false, max: max_len(F::OPT) as usize };
    let (shapes, want): (Vec<Shape>, Vec<T>) = (0..n).map(|_| T::make(&mut e)).unzip();
    let (dropped, added, moved, removed) = (e.dropped, e.added, e.moved, e.removed);
    let tail = c.rng.u64();
    let after = gen_string(&mut c.rng);
    let b = F::to_vec(&(&shapes, tail, &after)).map_err(|e| format!("{}: {e}", F::NAME))?;
    c.seen_bytes(&b);
    c.sample(|| format!("{shapes:?}"));
    let got = if c.rng.bool() {
        F::from_slice::<(Vec<T>, u64, String)>(&b)
    } else {
        let mut ext = b.clone();
        ext.extend_from_slice(b" 1");
        let mut rd = &ext[..];
        let g = F::advance::<(Vec<T>, u64, String)>(&mut rd);
        ensure!(g.is_err() || rd == b" 1", "{}: {} bytes left instead of 2 after {}", F::NAME, rd.len(), show(&shapes));
        g
    };
    match got {
        Ok((g, t, a)) => {
            ensure!(removed == 0, "{}: required fields are missing from {} but it decoded as {}", F::NAME, show(&shapes), show(&g));
            ensure!(g == want, "{}: {} decoded as {} instead of {}", F::NAME, show(&shapes), show(&g), show(&want));
            ensure!(t == tail && a == after, "{}: after {} came {t} {a:?} instead of {tail} {after:?}", F::NAME, show(&shapes));
            c.events("fields left out took their default", dropped);
            c.events("unknown fields and variants ignored", added);
            c.events("fields moved", moved);
            c.event("edited encodings decoded");
        }
        Err(e) => {
            ensure!(removed > 0, "{}: {} should decode as {} but: {e}", F::NAME, show(&shapes), show(&want));
            c.event("missing required fields refused");
        }
    }
    Ok(())
}

/// Storage cannot skip: an unknown field is an error, not garbage.
fn storage_unknown<F: Fmt>(c: &mut Case<'_>, text: bool) -> R
where
    Known: for<'de> Decode<'de, F::Mode, musli::alloc::System>,
{
    let mut e = Edit { r: &mut c.rng, text, json: false, drop: true, shuffle: true, unknown: true, require: false, dropped: 0, added: 0, moved: 0, removed: 0, tuple: false, max: max_len(F::OPT) as usize };
    let (s, want) = Known::make(&mut e);
    if e.added == 0 {
        return Ok(());
    }
    let b = F::to_vec(&(&s, 7u8))?;
    c.seen_bytes(&b);
    if let Ok(v) = F::from_slice::<(Known, u8)>(&b) {
        fail!("{}: {} has unknown fields which {} cannot skip, but it decoded as {} (known fields {})", F::NAME, show(&s), F::NAME, show(&v), show(&want));
    }
    c.event("unknown fields refused by storage");
    Ok(())
}

// Derived versions of a model, written by one and read by the other.
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct V1 {
    #[musli(Text, name = "id")]
    #[musli(Binary, name = 0)]
    id: u64,
    #[musli(Text, name = "label")]
    #[musli(Binary, name = 3)]
    label: String,
    #[musli(Text, name = "gone")]
    #[musli(Binary, name = 9)]
    #[musli(default)]
    gone: Vec<(u8, Option<String>)>,
    #[musli(Text, name = "state")]
    #[musli(Binary, name = 4)]
    state: S1,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct V2 {
    #[musli(Text, name = "state")]
    #[musli(Binary, name = 4)]
    state: S2,
    #[musli(Text, name = "label")]
    #[musli(Binary, name = 3)]
    label: String,
    #[musli(Text, name = "new")]
    #[musli(Binary, name = 5)]
    #[musli(default)]
    new: Vec<S2>,
    #[musli(Text, name = "id")]
    #[musli(Binary, name = 0)]
    id: u64,
    #[musli(Text, name = "more")]
    #[musli(Binary, name = 70000)]
    #[musli(default)]
    more: Option<Box<V1>>,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum S1 {
    #[musli(Text, name = "on")]
    #[musli(Binary, name = 0)]
    On { since: i64, by: String },
    #[musli(Text, name = "off")]
    #[musli(Binary, name = 1)]
    Off,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum S2 {
    #[musli(Text, name = "off")]
    #[musli(Binary, name = 1)]
    Off,
    #[musli(Text, name = "on")]
    #[musli(Binary, name = 0)]
    On {
        #[musli(Text, name = "by")]
        #[musli(Binary, name = 1)]
        by: String,
        #[musli(Text, name = "extra")]
        #[musli(Binary, name = 2)]
        #[musli(default)]
        extra: Option<(u8, String)>,
        #[musli(Text, name = "since")]
        #[musli(Binary, name = 0)]
        since: i64,
    },
}
impl Gen for S1 {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.bool() { S1::Off } else { S1::On { since: Gen::gen(r, d), by: Gen::gen(r, d) } }
    }
}
impl Gen for V1 {
    fn gen(r: &mut Rng, d: usize) -> Self {
        V1 { id: Gen::gen(r, d), label: Gen::gen(r, d), gone: Gen::gen(r, d + 1), state: Gen::gen(r, d) }
    }
}
impl Gen for S2 {
    fn gen(r: &mut Rng, d: usize) -> Self {
        if r.bool() { S2::Off } else { S2::On { since: Gen::gen(r, d), by: Gen::gen(r, d), extra: Gen::gen(r, d) } }
    }
}
impl Gen for V2 {
    fn gen(r: &mut Rng, d: usize) -> Self {
        V2 { id: Gen::gen(r, d), label: Gen::gen(r, d), new: Gen::gen(r, d + 1), state: Gen::gen(r, d), more: Gen::gen(r, d) }
    }
}
fn s12(s: S1) -> S2 {
    match s {
        S1::Off => S2::Off,
        S1::On { since, by } => S2::On { since, by, extra: None },
    }
}
fn s21(s: S2) -> S1 {
    match s {
        S2::Off => S1::Off,
        S2::On { since, by, .. } => S1::On { since, by },
    }
}

fn versions<F: Fmt>(c: &mut Case<'_>) -> R
where
    V1: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, musli::alloc::System>,
    V2: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, musli::alloc::System>,
    S1: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, musli::alloc::System>,
    S2: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, musli::alloc::System>,
{
    let n = c.rng.below(4);
    let old: Vec<V1> = (0..n).map(|_| Gen::gen(&mut c.rng, 1)).collect();
    let new: Vec<V2> = (0..n).map(|_| Gen::gen(&mut c.rng, 1)).collect();
    let tail: i128 = Gen::gen(&mut c.rng, 0);
    let b = F::to_vec(&(&old, tail))?;
    c.seen_bytes(&b);
    let want: Vec<V2> = old.iter().cloned().map(|v| V2 { id: v.id, label: v.label, new: vec![], state: s12(v.state), more: None }).collect();
    match F::from_slice::<(Vec<V2>, i128)>(&b) {
        Ok(g) => ensure!(g == (want.clone(), tail), "{}: {} of the old version read as {}", F::NAME, show(&old), show(&g)),
        Err(e) => fail!("{}: {} of the old version: {e}", F::NAME, show(&old)),
    }
    let b = F::to_vec(&(&new, tail))?;
    let want: Vec<V1> = new.iter().cloned().map(|v| V1 { id: v.id, label: v.label, gone: vec![], state: s21(v.state) }).collect();
    match F::from_slice::<(Vec<V1>, i128)>(&b) {
        Ok(g) => ensure!(g == (want.clone(), tail), "{}: {} of the new version read as {}", F::NAME, show(&new), show(&g)),
        Err(e) => fail!("{}: {} of the new version: {e}", F::NAME, show(&new)),
    }
    c.events("values read across versions", 2 * n as u64);
    Ok(())
}

/// The packed format takes trailing fields away or ignores nothing: same type only, in order.
fn main() {
    let mut g = Groups::new();
    macro_rules! add { ($($f:ty, $text:literal);* $(;)?) => { $(
        g.add(format!("struct/{}", <$f>::NAME), |c| edited::<$f, Known>(c, $text));
        g.add(format!("enum/{}", <$f>::NAME), |c| edited::<$f, Ev>(c, $text));
    )* } }
    add!(Storage, false; StorageText, true; StorageFixedBe, false; pstorage::VL2, false; pstorage::FL4, false;
         Wire, false; WireText, true; WireFixed, false; pwire::VB2, false; pwire::FB0, false; pwire::FL2, false;
         Descriptive, false; DescriptiveText, true; DescriptiveFixed, false; pdesc::FB0, false;
         Json, true; JsonBinary, false);
    macro_rules! open { ($($f:ty, $text:literal);* $(;)?) => { $( g.add(format!("open enum/{}", <$f>::NAME), |c| edited::<$f, Open>(c, $text)); )* } }
    open!(Wire, false; WireText, true; WireFixed, false; Descriptive, false; DescriptiveText, true; DescriptiveFixed, false; Json, true; JsonBinary, false);
    macro_rules! ver { ($($f:ty),*) => { $( g.add(format!("versions/{}", <$f>::NAME), versions::<$f>); )* } }
    ver!(Wire, WireText, WireFixed, Descriptive, DescriptiveText, DescriptiveFixed, Json, JsonBinary);
    g.add("unknown/storage", |c| storage_unknown::<Storage>(c, false));
    g.add("unknown/storage/text", |c| storage_unknown::<StorageText>(c, true));
    rt::main(g);
}
