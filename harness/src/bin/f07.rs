//! F07: JSON output is valid JSON, JSON input means what RFC 8259 says.
use musli::alloc::System;
use musli::value::{self, Value};
use musli::{Decode, Encode};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use vh::jsonref::{self, Bad, J};
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{Case, Groups, R};
use vh::shape::{self, Cfg, Shape};
use vh::{ensure, fail};

type Val = Value<System>;

// --- meaning --------------------------------------------------------------------

fn int_of(t: &str) -> Option<i128> {
    if t.contains(['.', 'e', 'E']) { None } else { t.parse().ok() }
}

/// Does a dynamic value stand for this document?
fn means(v: &Val, j: &J) -> R {
    match (j, v) {
        (J::Null, Value::Unit | Value::Option(None)) => Ok(()),
        (J::Bool(a), Value::Bool(b)) if a == b => Ok(()),
        (J::Str(a), Value::String(b)) if a == b.as_str() => Ok(()),
        (J::Num(t), Value::Number(..)) => {
            if !t.contains(['.', 'e', 'E']) {
                if let Ok(n) = t.parse::<u128>() {
                    return match value::decode::<u128>(v) {
                        Ok(g) if g == n => Ok(()),
                        g => Err(format!("number {t} became {v:?} ({g:?})")),
                    };
                }
            }
            if let Some(n) = int_of(t) {
                return match value::decode::<i128>(v) {
                    Ok(g) if g == n => Ok(()),
                    g => Err(format!("number {t} became {v:?} ({g:?})")),
                };
            }
            let want: f64 = t.parse().unwrap();
            match value::decode::<f64>(v) {
                Ok(g) if g == want => Ok(()),
                // The nearest float of a whole number may be held as an integer.
                g => Err(format!("number {t} became {v:?} ({g:?}) instead of {want:?}")),
            }
        }
        (J::Arr(a), Value::Sequence(b)) if a.len() == b.len() => a.iter().zip(b.iter()).try_for_each(|(a, b)| means(b, a)),
        (J::Obj(a), Value::Map(b)) if a.len() == b.len() => a.iter().zip(b.iter()).try_for_each(|((k, a), (bk, b))| {
            match bk {
                Value::String(s) if s.as_str() == k => {}
                _ => return Err(format!("key {k:?} became {bk:?}")),
            }
            means(b, a)
        }),
        _ => Err(format!("{} became {v:?}", show(j))),
    }
}

/// Typed targets: does the value stand for the document?
trait Means: for<'de> Decode<'de, musli::mode::Text, System> + std::fmt::Debug {
    /// Some of a document might not be looked at, and then need not be well-formed.
    const SKIPS: bool = false;
    fn means(&self, j: &J) -> bool;
}
impl Means for Val {
    fn means(&self, j: &J) -> bool {
        means(self, j).is_ok()
    }
}
impl Means for bool {
    fn means(&self, j: &J) -> bool {
        *j == J::Bool(*self)
    }
}
impl Means for String {
    fn means(&self, j: &J) -> bool {
        matches!(j, J::Str(s) if s == self)
    }
}
impl Means for char {
    fn means(&self, j: &J) -> bool {
        matches!(j, J::Str(s) if *s == self.to_string())
    }
}
impl Means for f64 {
    fn means(&self, j: &J) -> bool {
        matches!(j, J::Num(t) if t.parse::<f64>().unwrap().to_bits() == self.to_bits())
    }
}
impl Means for f32 {
    fn means(&self, j: &J) -> bool {
        matches!(j, J::Num(t) if t.parse::<f32>().unwrap().to_bits() == self.to_bits())
    }
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl Means for $t {
        fn means(&self, j: &J) -> bool {
            matches!(j, J::Num(t) if vh::num::exact(t) == vh::num::Exact::Integer(vh::num::IntTy::int(*self)))
        }
    })* };
}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl<T: Means> Means for Option<T> {
    fn means(&self, j: &J) -> bool {
        match self {
            Some(v) => v.means(j),
            None => *j == J::Null,
        }
    }
}
impl<T: Means> Means for Vec<T> {
    fn means(&self, j: &J) -> bool {
        matches!(j, J::Arr(v) if v.len() == self.len() && v.iter().zip(self).all(|(j, t)| t.means(j)))
    }
}
impl<T: Means, U: Means> Means for (T, U) {
    const SKIPS: bool = true;
    fn means(&self, j: &J) -> bool {
        matches!(j, J::Arr(v) if v.len() >= 2 && self.0.means(&v[0]) && self.1.means(&v[1]))
    }
}
impl<T: Means> Means for BTreeMap<String, T> {
    fn means(&self, j: &J) -> bool {
        let J::Obj(v) = j else { return false };
        let last: HashMap<&str, &J> = v.iter().map(|(k, v)| (k.as_str(), v)).collect();
        last.len() == self.len() && last.iter().all(|(k, j)| self.get(*k).is_some_and(|t| t.means(j)))
    }
}
impl Means for BTreeMap<i32, Val> {
    fn means(&self, j: &J) -> bool {
        let J::Obj(v) = j else { return false };
        let mut last = HashMap::new();
        for (k, v) in v {
            // Numbers in keys are read as integers are: known finding "json-integer-trailing-point".
            let k = without_points(k.trim_start_matches([' ', '\t', '\r', '\n']).as_bytes());
            match jsonref::parse(&k) {
                Ok((J::Num(t), n)) if n == k.len() => last.insert(vh::num::exact(&t), v),
                _ => return false,
            };
        }
        self.len() == last.len() && self.iter().all(|(k, t)| last.get(&vh::num::Exact::Integer(vh::num::IntTy::int(*k))).is_some_and(|j| t.means(j)))
    }
}

#[derive(Debug, Encode, Decode)]
struct Rec {
    id: i64,
    #[musli(default)]
    name: Option<String>,
    #[musli(default)]
    list: Vec<f64>,
    #[musli(default)]
    flag: Option<bool>,
    #[musli(default)]
    any: Option<Vec<bool>>,
}
fn get<'a>(v: &'a [(String, J)], k: &str) -> Option<&'a J> {
    v.iter().rev().find(|(x, _)| x == k).map(|(_, j)| j)
}
impl Means for Rec {
    const SKIPS: bool = true;
    fn means(&self, j: &J) -> bool {
        let J::Obj(v) = j else { return false };
        get(v, "id").is_some_and(|j| self.id.means(j))
            && get(v, "name").map_or(self.name.is_none(), |j| self.name.means(j))
            && get(v, "list").map_or(self.list.is_empty(), |j| self.list.means(j))
            && get(v, "flag").map_or(self.flag.is_none(), |j| self.flag.means(j))
            && get(v, "any").map_or(self.any.is_none(), |j| self.any.means(j))
    }
}

fn text(b: &[u8]) -> Cow<'_, str> {
    String::from_utf8_lossy(b)
}

// --- output ---------------------------------------------------------------------

fn expect(s: &Shape, j: &J) -> R {
    let bad = || Err(format!("{} is written as {}", show(s), show(j)));
    let num = |want: String| match j {
        J::Num(t) if *t == want => Ok(()),
        _ => Err(format!("{} is written as {}", show(s), show(j))),
    };
    let key = |s: &Shape, k: &str| -> R {
        let want = match s {
            Shape::Str(s) => s.clone(),
            Shape::U32(v) => v.to_string(),
            Shape::Char(v) => v.to_string(),
            _ => return Ok(()),
        };
        if want == k { Ok(()) } else { Err(format!("key {want:?} is written as {k:?}")) }
    };
    match (s, j) {
        (Shape::Empty | Shape::None, J::Null) => Ok(()),
        (Shape::Bool(a), J::Bool(b)) if a == b => Ok(()),
        (Shape::Char(a), J::Str(b)) if a.to_string() == *b => Ok(()),
        (Shape::Str(a), J::Str(b)) if a == b => Ok(()),
        (Shape::U8(v), _) => num(v.to_string()),
        (Shape::U16(v), _) => num(v.to_string()),
        (Shape::U32(v), _) => num(v.to_string()),
        (Shape::U64(v), _) => num(v.to_string()),
        (Shape::U128(v), _) => num(v.to_string()),
        (Shape::Usize(v), _) => num(v.to_string()),
        (Shape::I8(v), _) => num(v.to_string()),
        (Shape::I16(v), _) => num(v.to_string()),
        (Shape::I32(v), _) => num(v.to_string()),
        (Shape::I64(v), _) => num(v.to_string()),
        (Shape::I128(v), _) => num(v.to_string()),
        (Shape::Isize(v), _) => num(v.to_string()),
        (Shape::F32(v), J::Num(t)) if t.parse::<f32>().unwrap().to_bits() == *v => Ok(()),
        (Shape::F64(v), J::Num(t)) if t.parse::<f64>().unwrap().to_bits() == *v => Ok(()),
        (Shape::Bytes(a), J::Arr(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(a, b)| expect(&Shape::U8(*a), b)),
        (Shape::Array(a), J::Arr(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(a, b)| expect(&Shape::U8(*a), b)),
        (Shape::Some(s), j) => expect(s, j),
        (Shape::Seq(a) | Shape::Pack(a), J::Arr(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(a, b)| expect(a, b)),
        (Shape::Map(a), J::Obj(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|((ak, av), (bk, bv))| {
            key(ak, bk)?;
            expect(av, bv)
        }),
        (Shape::Variant(t, d), J::Obj(b)) if b.len() == 1 => {
            key(t, &b[0].0)?;
            expect(d, &b[0].1)
        }
        _ => bad(),
    }
}

fn valid(b: &[u8]) -> Result<J, String> {
    let j = match jsonref::parse(b) {
        Ok((j, n)) if n == b.len() => j,
        Ok((_, n)) => fail!("{} is not JSON: a document followed by {}", text(b), text(&b[n..])),
        Err(e) => fail!("{} is not JSON: {e:?}", text(b)),
    };
    match serde_json::from_slice::<serde_json::Value>(b) {
        Ok(_) => Ok(j),
        Err(e) if e.to_string().contains("out of range") => Ok(j),
        Err(e) => Err(format!("{} is not JSON: {e}", text(b))),
    }
}

fn trees<F: Fmt>(c: &mut Case<'_>) -> R
where
    Shape: Encode<F::Mode>,
{
    let s = shape::gen(&mut c.rng, Cfg { depth: 4, ..Cfg::JSON }, 0);
    let b = F::to_vec(&s)?;
    c.seen_bytes(&b);
    c.sample(|| text(&b).to_string());
    let j = valid(&b)?;
    expect(&s, &j).map_err(|e| format!("{}: {e}; {}", F::NAME, text(&b)))?;
    c.event("documents written");
    c.events("nodes written", s.nodes() as u64);
    Ok(())
}
/// Whatever the type, output is a document.
fn typed<F: Fmt, T: Gen + Encode<F::Mode> + std::fmt::Debug>(c: &mut Case<'_>) -> R {
    let v = T::gen(&mut c.rng, 0);
    let b = F::to_vec(&v)?;
    c.seen_bytes(&b);
    valid(&b).map_err(|e| format!("{}: {}: {e}", F::NAME, show(&v)))?;
    c.event("documents written");
    Ok(())
}
/// All floats, including those JSON has no number for.
fn floats(c: &mut Case<'_>) -> R {
    let (a, b) = (c.rng.u32(), c.rng.u64());
    for v in [f32::from_bits(a), f32::NAN, f32::INFINITY, gen_f32_finite(&mut c.rng)] {
        if let Ok(out) = Json::to_vec(&(v, 1u8)) {
            let J::Arr(j) = valid(&out)? else { fail!("float {v:?}: {}", text(&out)) };
            match &j[0] {
                J::Num(t) => ensure!(t.parse::<f32>().unwrap().to_bits() == v.to_bits(), "f32 {v:?} ({:#x}) is written as {t}", v.to_bits()),
                o => ensure!(!v.is_finite(), "f32 {v:?} is written as {o:?}"),
            }
            c.event("floats written");
        } else {
            ensure!(!v.is_finite(), "f32 {v:?} cannot be written");
        }
    }
    for v in [f64::from_bits(b), f64::NAN, f64::NEG_INFINITY, gen_f64_finite(&mut c.rng)] {
        if let Ok(out) = Json::to_vec(&(v, 1u8)) {
            let J::Arr(j) = valid(&out)? else { fail!("float {v:?}: {}", text(&out)) };
            match &j[0] {
                J::Num(t) => ensure!(t.parse::<f64>().unwrap().to_bits() == v.to_bits(), "f64 {v:?} ({:#x}) is written as {t}", v.to_bits()),
                o => ensure!(!v.is_finite(), "f64 {v:?} is written as {o:?}"),
            }
            c.event("floats written");
        } else {
            ensure!(!v.is_finite(), "f64 {v:?} cannot be written");
        }
    }
    c.seen(b);
    Ok(())
}

// --- input ----------------------------------------------------------------------

/// The same meaning in any notation.
fn documents(c: &mut Case<'_>) -> R {
    let j = jsonref::gen(&mut c.rng, 0);
    let mut t = String::new();
    jsonref::write(&mut c.rng, &j, &mut t);
    let n = t.len();
    // What follows does not matter.
    if c.rng.chance(1, 3) && !t.ends_with(|c: char| c.is_ascii_digit()) {
        t.push_str(*c.rng.pick(&["", " ", ",", "]", "x", "\n1", "\"", "{}"]));
    }
    c.seen_bytes(t.as_bytes());
    c.sample(|| t.clone());
    // The reference itself is checked against the other library.
    match serde_json::from_str::<serde_json::Value>(&t[..n]) {
        Ok(_) => c.event("references confirmed by serde_json"),
        Err(e) if e.to_string().contains("out of range") => {}
        Err(e) => fail!("HARNESS: {t} is not JSON: {e}"),
    }
    ensure!(jsonref::parse(t.as_bytes()) == Ok((j.clone(), n)), "HARNESS: {t} does not read back");
    let mut b = t.as_bytes();
    let v: Val = match Json::advance(&mut b) {
        Ok(v) => v,
        Err(e) => {
            if overflows(&j) {
                c.event("numbers beyond the largest float refused");
                return Ok(());
            }
            fail!("{t} is refused: {e}")
        }
    };
    ensure!(b.len() == t.len() - n, "{t}: {} bytes remain instead of {}", b.len(), t.len() - n);
    means(&v, &j).map_err(|e| format!("{t}: {e}"))?;
    c.event("documents understood");
    let w: Val = Json::from_str(&t[..n]).map_err(|e| format!("{t} is refused as a string: {e}"))?;
    means(&w, &j).map_err(|e| format!("{t} as a string: {e}"))?;
    // A skipped document ends at the same place.
    let mut b = t.as_bytes();
    let skipped = Json::advance::<Skipped>(&mut b);
    ensure!(skipped.is_ok() && b.len() == t.len() - n, "{t} skipped: {skipped:?}, {} bytes remain instead of {}", b.len(), t.len() - n);
    c.event("documents skipped");
    Ok(())
}
fn overflows(j: &J) -> bool {
    match j {
        J::Num(t) => t.parse::<f64>().unwrap().is_infinite(),
        J::Arr(v) => v.iter().any(overflows),
        J::Obj(v) => v.iter().any(|(_, j)| overflows(j)),
        _ => false,
    }
}
#[derive(Debug)]
struct Skipped;
impl<'de, M: 'static> Decode<'de, M, System> for Skipped {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: musli::Decoder<'de, Mode = M, Allocator = System>>(d: D) -> Result<Self, D::Error> {
        d.skip()?;
        Ok(Skipped)
    }
}

/// Numbers as floats: correctly rounded, in any notation.
fn numbers(c: &mut Case<'_>) -> R {
    let t = jsonref::number(&mut c.rng);
    c.seen_bytes(t.as_bytes());
    c.sample(|| t.clone());
    let (want32, want64): (f32, f64) = (t.parse().unwrap(), t.parse().unwrap());
    let mut pad = String::new();
    jsonref::gen_ws(&mut c.rng, &mut pad);
    let doc = format!("{pad}{t}");
    match Json::from_str::<f64>(&doc) {
        Ok(g) => {
            ensure!(g.to_bits() == want64.to_bits(), "{doc:?} read as f64 gives {g:?} ({:#x}) instead of {want64:?} ({:#x})", g.to_bits(), want64.to_bits());
            c.event("floats read");
        }
        Err(e) => ensure!(want64.is_infinite(), "{doc:?} is refused as f64: {e}"),
    }
    match Json::from_str::<f32>(&doc) {
        Ok(g) => {
            ensure!(g.to_bits() == want32.to_bits(), "{doc:?} read as f32 gives {g:?} ({:#x}) instead of {want32:?} ({:#x})", g.to_bits(), want32.to_bits());
            c.event("floats read");
        }
        Err(e) => ensure!(want32.is_infinite(), "{doc:?} is refused as f32: {e}"),
    }
    let doc = format!("[{pad}{t}{pad},{pad}{t}{pad}]");
    match Json::from_str::<(f64, f32)>(&doc) {
        Ok(g) => ensure!((g.0.to_bits(), g.1.to_bits()) == (want64.to_bits(), want32.to_bits()), "{doc:?} gives {g:?}"),
        Err(e) => ensure!(want64.is_infinite() || want32.is_infinite(), "{doc:?} is refused: {e}"),
    }
    let v: Result<Val, _> = Json::from_str(&format!("{pad}{t}"));
    match v {
        Ok(v) => means(&v, &J::Num(t.clone()))?,
        Err(e) => ensure!(want64.is_infinite(), "{t} is refused as a value: {e}"),
    }
    Ok(())
}

/// Text that need not be JSON.
fn mutant(r: &mut Rng, j: &J) -> Vec<u8> {
    let mut t = String::new();
    jsonref::write(r, j, &mut t);
    let mut b = t.into_bytes();
    const BITS: &[&[u8]] = &[
        b",", b":", b"[", b"]", b"{", b"}", b"\"", b"\\", b"null", b"nul", b"nulll", b"true", b"tru", b"True", b"fals", b"falsey", b"-", b"+", b"+1", b".", b".5", b"5.", b"1.e5", b"1e", b"1e+", b"01", b"-01", b"00", b"0x10", b"1_000", b"-", b"--1", b"1-", b"1e5.5", b"1.2.3",
        b"NaN", b"nan", b"inf", b"Infinity", b"-Infinity", b"'", b"'a'", b"/**/", b"//", b"#", b"\\u", b"\\u12", b"\\u12g4", b"\\x41", b"\\'", b"\\0", b"\\ud800", b"\\udc00\\ud800", b"\\ud800\\u0041", b"\\ud83d\\ude00", b"\\u+123", b"\\u 123", b"\0", b"\x01", b"\x1f", b"\x7f", b"\n", b"\t", b"\x0b", b"\x0c", b"\xa0", b"\xc2\xa0", b"\xef\xbb\xbf", b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x28\xa1", b"\xc3", b",,", b"[,", b",]", b",}", b"{,", b"\"a\"", b"\"a\":", b"1", b" ", b"1 2", b"e", b"E",
    ];
    for _ in 0..1 + r.below(2) {
        let n = b.len();
        match r.below(9) {
            0 => b.truncate(r.below(n + 1)),
            1 if n > 0 => {
                b.remove(r.below(n));
            }
            2 if n > 0 => {
                let at = r.below(n);
                let x = b[at];
                b.insert(at, x);
            }
            3 if n > 0 => {
                let at = r.below(n);
                b[at] ^= 1 << r.below(8);
            }
            4 if n > 1 => {
                let at = r.below(n - 1);
                b.swap(at, at + 1);
            }
            5 if n > 0 => {
                // Replace something.
                let at = r.below(n);
                let x = *r.pick(BITS);
                b.splice(at..at + 1, x.iter().copied());
            }
            _ => {
                // Tokens next to structure matter most.
                let spots: Vec<usize> = (0..=n).filter(|i| r.chance(1, 6) || *i == n || *i == 0 || b"[]{},:\"0-".contains(&b[*i])).collect();
                let at = *r.pick(&spots);
                let x = *r.pick(BITS);
                b.splice(at..at, x.iter().copied());
            }
        }
    }
    b
}

/// Numbers which end in a point are accepted by the integer parser.
fn without_points(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for (i, x) in b.iter().enumerate() {
        if *x == b'.' && i > 0 && b[i - 1].is_ascii_digit() && !b.get(i + 1).is_some_and(|x| x.is_ascii_digit()) {
            out.extend_from_slice(b".0");
        } else {
            out.push(*x);
        }
    }
    out
}

fn judge<T: Means>(c: &mut Case<'_>, b: &[u8]) -> R {
    let mut rest = b;
    let what = std::any::type_name::<T>();
    let got = Json::advance::<T>(&mut rest);
    let Ok(v) = got else {
        c.event("texts refused");
        return Ok(());
    };
    let used = &b[..b.len() - rest.len()];
    c.event("texts accepted");
    match jsonref::parse(used) {
        Ok((j, n)) => {
            ensure!(n == used.len(), "{} read as {what}: {} consumed, of which {} is not part of the document", text(b), text(used), text(&used[n..]));
            ensure!(v.means(&j), "{} read as {what} gives {}", text(b), show(&v));
        }
        Err(Bad::Lone) => c.event("lone surrogates accepted"),
        Err(Bad::Malformed(_)) => {
            let fixed = without_points(used);
            if fixed != used && matches!(jsonref::parse(&fixed), Ok((j, n)) if n == fixed.len() && v.means(&j)) {
                c.known("json-integer-trailing-point");
                return Ok(());
            }
            if T::SKIPS {
                c.event("malformed parts skipped");
                return Ok(());
            }
            fail!("{} read as {what} gives {}, but {} is not JSON", text(b), show(&v), text(used));
        }
    }
    // The other ways in agree.
    if let Ok(s) = std::str::from_utf8(b) {
        let again = Json::from_str::<T>(s);
        ensure!(again.is_ok(), "{s} read as {what} from a string: {again:?}");
    }
    Ok(())
}

fn hostile<T: Means + Gen2>(c: &mut Case<'_>) -> R {
    let j = T::like(&mut c.rng);
    let b = if c.rng.chance(1, 6) {
        let mut t = String::new();
        jsonref::write(&mut c.rng, &j, &mut t);
        t.into_bytes()
    } else {
        mutant(&mut c.rng, &j)
    };
    c.seen_bytes(&b);
    c.sample(|| text(&b).to_string());
    judge::<T>(c, &b)
}

/// A document that fits the type.
trait Gen2 {
    fn like(r: &mut Rng) -> J;
}
impl Gen2 for Val {
    fn like(r: &mut Rng) -> J {
        jsonref::gen(r, 1)
    }
}
macro_rules! like {
    ($($t:ty => |$r:ident| $e:expr),* $(,)?) => { $(impl Gen2 for $t { fn like($r: &mut Rng) -> J { $e } })* };
}
fn small_int(r: &mut Rng) -> J {
    J::Num(match r.below(3) {
        0 => format!("{}", r.below(300)),
        1 => format!("{}", r.edge_bits() as i64),
        _ => vh::num::gen_number_text(r),
    })
}
like! {
    bool => |r| J::Bool(r.bool()),
    char => |r| J::Str(gen_char(r).to_string()),
    String => |r| J::Str(gen_string(r)),
    f64 => |r| J::Num(jsonref::number(r)),
    f32 => |r| J::Num(jsonref::number(r)),
    u8 => |r| small_int(r),
    u64 => |r| small_int(r),
    u128 => |r| small_int(r),
    i16 => |r| small_int(r),
    i64 => |r| small_int(r),
    i128 => |r| small_int(r),
    Option<bool> => |r| if r.bool() { J::Null } else { J::Bool(r.bool()) },
    Vec<Option<i32>> => |r| J::Arr((0..r.below(5)).map(|_| if r.bool() { J::Null } else { J::Num(r.below(100).to_string()) }).collect()),
    Vec<String> => |r| J::Arr((0..r.below(4)).map(|_| J::Str(gen_string(r))).collect()),
    Vec<f64> => |r| J::Arr((0..r.below(4)).map(|_| J::Num(jsonref::number(r))).collect()),
    Vec<Val> => |r| J::Arr((0..r.below(4)).map(|_| jsonref::gen(r, 2)).collect()),
    (u32, String) => |r| J::Arr(vec![J::Num(r.below(100).to_string()), J::Str(gen_string(r))]),
    BTreeMap<String, i32> => |r| J::Obj((0..r.below(4)).map(|_| (gen_string(r), J::Num(r.below(100).to_string()))).collect()),
    BTreeMap<String, Vec<bool>> => |r| J::Obj((0..r.below(4)).map(|_| (gen_string(r), J::Arr((0..r.below(3)).map(|_| J::Bool(r.bool())).collect()))).collect()),
    BTreeMap<i32, Val> => |r| J::Obj((0..r.below(4)).map(|_| (r.below(200).to_string(), jsonref::gen(r, 3))).collect()),
    Rec => |r| {
        let mut v = vec![("id".to_string(), J::Num(r.below(1000).to_string()))];
        if r.bool() { v.push(("name".into(), if r.bool() { J::Null } else { J::Str(gen_string(r)) })); }
        if r.bool() { v.push(("list".into(), J::Arr((0..r.below(3)).map(|_| J::Num(jsonref::number(r))).collect()))); }
        if r.bool() { v.push(("flag".into(), J::Bool(r.bool()))); }
        if r.bool() { v.push(("any".into(), if r.bool() { J::Null } else { J::Arr((0..r.below(3)).map(|_| J::Bool(r.bool())).collect()) })); }
        r.shuffle(&mut v);
        J::Obj(v)
    },
}

fn main() {
    let mut g = Groups::new();
    g.add("trees/json", trees::<Json>);
    g.add("trees/json/binary", trees::<JsonBinary>);
    g.add("everything/json", typed::<Json, Everything>);
    g.add("everything/json/binary", typed::<JsonBinary, Everything>);
    g.add("strings/json", typed::<Json, (Strs, Named, Vec<NamedE>, BTreeMap<String, String>, Vec<char>)>);
    g.add("keys/json", typed::<Json, (BTreeMap<i128, u8>, BTreeMap<u64, ()>, HashMap<String, i8>, BTreeMap<i64, bool>)>);
    g.add("library/json", typed::<Json, (std::net::IpAddr, std::ops::Range<u32>, std::ffi::CString, Result<u32, String>, std::path::PathBuf)>);
    g.add("floats", floats);
    g.add("documents", documents);
    g.add("numbers", numbers);
    macro_rules! hostiles { ($($n:literal: $t:ty),* $(,)?) => { $( g.add(concat!("hostile/", $n), hostile::<$t>); )* } }
    hostiles! {
        "value": Val, "bool": bool, "char": char, "string": String, "f64": f64, "f32": f32, "u8": u8, "u64": u64, "u128": u128, "i16": i16, "i64": i64, "i128": i128,
        "option bool": Option<bool>, "vec option": Vec<Option<i32>>, "vec string": Vec<String>, "vec f64": Vec<f64>, "vec value": Vec<Val>, "pair": (u32, String), "map": BTreeMap<String, i32>, "map vec": BTreeMap<String, Vec<bool>>, "map number": BTreeMap<i32, Val>, "struct": Rec,
    }
    vh::rt::main(g);
}
