//! F05: arbitrary bytes never panic, over-read, over-allocate or give invalid values.
use std::borrow::Cow;
use std::collections::*;
use std::fmt::Debug;
use musli::alloc::System;
use musli::{Decode, Decoder, Encode};
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{self, counting, guard, Case, Groups, R};
use vh::shape::{self, Cfg};
use vh::{ensure, fail};

// --- hostile inputs -------------------------------------------------------------

fn soup(r: &mut Rng) -> Vec<u8> {
    const T: &[&str] = &[
        "{", "}", "[", "]", ",", ":", "\"", "\\", "\"a\"", "\"\\u", "\"\\ud83d\"", "\"\\udc00\"", "\"\\ud83d\\ude00\"", "\"\\u0000\"", "\"\\x\"", "\"\\", "null", "nul", "true", "tru", "false", "fals", "0", "-", "-0", "1",
        "01", "1.", ".5", "1e", "1e+", "1E-", "1e5", "-1.5e-7", "1e999999999999999999999", "1e-999999999999999999999", "0e99999999999", "1e309", "18446744073709551616", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105729",
        "99999999999999999999999999999999999999999999999999", "0.00000000000000000000000000000000001", "NaN", "inf", "-Infinity", " ", "\n", "\t", "\r", "/*", "//", "\u{feff}", "\"é\"", "\"\u{10ffff}\"", "{\"0\":", "[[", "]]", "{}", "[]", "\"\"", "u", "\u{0}", "\"\u{1f}\"", "1,", "[1,]", "{\"a\":1,}",
    ];
    let mut b = Vec::new();
    for _ in 0..r.below(24) {
        match r.below(20) {
            0 => b.push(r.u8()),
            1 => b.extend_from_slice(&[0xed, 0xa0, 0x80][..1 + r.below(3)]),
            _ => b.extend_from_slice(r.pick(T).as_bytes()),
        }
    }
    b
}

fn raw(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => r.below(4),
        1..=3 => r.below(24),
        4 => r.below(100),
        _ => r.below(400),
    };
    let style = r.below(5);
    (0..n)
        .map(|_| match style {
            0 => r.u8(),
            // Kinds with small inline data.
            1 => (r.below(8) as u8) << 5 | *r.pick(&[0u8, 1, 2, 3, 4, 8, 30, 31]),
            2 => *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0xfe]),
            3 => {
                if r.bool() {
                    r.below(4) as u8
                } else {
                    r.u8()
                }
            }
            _ => 0xff,
        })
        .collect()
}

const HUGE: &[&[u8]] = &[
    b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01",
    b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x03",
    b"\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x00",
    b"\xff\xff\xff\xff\xff\xff\xff\xff",
    b"\xff\xff\xff\xff\xff\xff\xff\x7f",
    b"\x00\x00\x00\x00\x00\x00\x00\x80",
    b"\xff\xff\xff\xff",
    b"\xff\xff\xff\x7f",
    b"\x80\x80\x80\x80\x08",
    b"\xff\xff",
    b"\x9f\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01",
    b"\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01",
];

fn mutate(r: &mut Rng, mut b: Vec<u8>, json: bool) -> Vec<u8> {
    for _ in 0..1 + r.below(3) {
        let n = b.len();
        let at = r.below(n + 1);
        match r.below(11) {
            0 => b.truncate(at),
            1 | 2 if n > 0 => {
                let at = r.below(n);
                b[at] ^= 1 << r.below(8);
            }
            3 if n > 0 => {
                let at = r.below(n);
                b[at] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xfe, 0x1f, 0x3f, 0x5f, 0x9f, 0xbf, 0xdf]);
            }
            4 if n > 0 => {
                let to = (at + 1 + r.below(8)).min(n);
                b.drain(at.min(to)..to);
            }
            5 if n > 0 => {
                let to = (at + 1 + r.below(12)).min(n);
                let c: Vec<u8> = b[at.min(to)..to].to_vec();
                let k = r.below(b.len() + 1);
                b.splice(k..k, c);
            }
            6 => {
                let h = r.pick(HUGE).to_vec();
                b.splice(at..at, h);
            }
            7 => {
                let h = r.pick(HUGE).to_vec();
                let to = (at + h.len()).min(n);
                b.splice(at..to, h);
            }
            8 => {
                let s = if json { soup(r) } else { raw(r) };
                b.splice(at..at, s.into_iter().take(12));
            }
            9 if json && n > 0 => {
                let at = r.below(n);
                b[at] = *r.pick(b"[]{}\",:\\eE.-+09tfn u/\x00\x1f\x80\xff");
            }
            _ => b.push(r.u8()),
        }
    }
    b.truncate(4000);
    b
}

/// Peak memory allowed while decoding.
fn allowed<T>(len: usize) -> usize {
    // Cautious preallocations of up to 1 MiB are deliberate, and nested lists
    // of a typed model may do so at every level; growth doubles.
    // Every level of a dynamic value may make a small one.
    let value = std::any::type_name::<T>().contains("Value");
    (6 << 20) + len * 3 * (if value { 4096 } else { 256 } + size_of::<T>())
}

enum Got {
    Value,
    Error,
}

fn try_one<'de, F: Fmt, T>(c: &mut Case<'_>, b: &'de [u8], check: &dyn Fn(&T) -> R) -> Result<Got, String>
where
    T: Debug + Decode<'de, F::Mode, System>,
{
    let how = c.rng.below(5);
    let reader = c.rng.below(10);
    counting::reset();
    let before = counting::live();
    let r = guard(|| match how {
        0 => F::from_slice::<T>(b),
        1 | 2 => F::via_reader::<T>(b, reader),
        _ => {
            let mut rd = b;
            let r = F::advance::<T>(&mut rd);
            if rd.len() > b.len() || (!rd.is_empty() && rd.as_ptr_range().end != b.as_ptr_range().end) {
                return Err("VIOLATION: the rest of the input is not a suffix of it".into());
            }
            r
        }
    });
    let peak = counting::peak();
    match r {
        Err(p) => fail!("{}: decoding {} panicked: {p}; bytes {}", F::NAME, std::any::type_name::<T>(), hex(b)),
        Ok(Ok(v)) => {
            ensure!(peak <= before.max(0) as usize + allowed::<T>(b.len()), "{}: decoding {} from {} bytes took {peak} bytes of memory; bytes {}", F::NAME, std::any::type_name::<T>(), b.len(), hex(b));
            if let Err(p) = guard(|| check(&v)).and_then(|r| r) {
                fail!("{}: decoding {} gave an invalid value: {p}; bytes {}", F::NAME, std::any::type_name::<T>(), hex(b));
            }
            Ok(Got::Value)
        }
        Ok(Err(e)) => {
            ensure!(!e.starts_with("VIOLATION"), "{}: {e}; bytes {}", F::NAME, hex(b));
            ensure!(peak <= before.max(0) as usize + allowed::<T>(b.len()), "{}: failing to decode {} from {} bytes took {peak} bytes of memory; bytes {}", F::NAME, std::any::type_name::<T>(), b.len(), hex(b));
            Ok(Got::Error)
        }
    }
}

fn hostile<F: Fmt>(c: &mut Case<'_>, valid: impl FnOnce(&mut Rng) -> Result<Vec<u8>, String>) -> Result<Vec<u8>, String> {
    let json = F::KIND == Kind::Json;
    let b = match c.rng.below(8) {
        0 => {
            c.event("inputs of random bytes");
            raw(&mut c.rng)
        }
        1 => {
            c.event("inputs of random bytes");
            if json { soup(&mut c.rng) } else { raw(&mut c.rng) }
        }
        2 => {
            let mut b = valid(&mut c.rng).unwrap_or_default();
            let n = c.rng.below(b.len() + 1);
            b.truncate(n);
            c.event("inputs cut short");
            b
        }
        _ => {
            c.event("inputs mutated");
            let b = valid(&mut c.rng).unwrap_or_default();
            mutate(&mut c.rng, b, json)
        }
    };
    c.seen_bytes(&b);
    Ok(b)
}

fn note(c: &mut Case<'_>, g: Got) {
    match g {
        Got::Value => c.event("hostile inputs decoded to valid values"),
        Got::Error => c.event("hostile inputs refused"),
    }
}

fn one<F: Fmt, T>(c: &mut Case<'_>) -> R
where
    T: Debug + Gen + Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
{
    let b = hostile::<F>(c, |r| F::to_vec(&T::gen(r, 0)))?;
    // A copy of the exact size, so that sanitizers see any over-read.
    let b = b.into_boxed_slice();
    let g = try_one::<F, T>(c, &b, &|v| {
        // Touch everything that was decoded.
        touch(v);
        Ok(())
    })?;
    note(c, g);
    Ok(())
}

/// Format a value, up to some length.
fn touch(v: &impl Debug) {
    struct Limited(usize);
    impl std::fmt::Write for Limited {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += std::hint::black_box(s.bytes().filter(|b| *b != 0).count());
            if self.0 > 1 << 16 {
                // Lists go on formatting after an error.
                std::panic::resume_unwind(Box::new(Enough));
            }
            Ok(())
        }
    }
    struct Enough;
    let w = std::panic::AssertUnwindSafe(|| std::fmt::write(&mut Limited(0), format_args!("{v:?}")));
    if let Err(e) = std::panic::catch_unwind(w) {
        if !e.is::<Enough>() {
            std::panic::resume_unwind(e);
        }
    }
}

/// Some formats by weight; each case decodes one type with one of them.
fn any<T>(c: &mut Case<'_>, no: &[&str]) -> R
where
    T: Debug + Gen + Encode<musli::mode::Binary> + for<'de> Decode<'de, musli::mode::Binary, System>,
    T: Encode<musli::mode::Text> + for<'de> Decode<'de, musli::mode::Text, System>,
{
    let pack = !no.contains(&"packed");
    match c.rng.below(13) {
        0 => one::<Storage, T>(c),
        1 => one::<Wire, T>(c),
        2 => one::<Descriptive, T>(c),
        3 | 4 => one::<Json, T>(c),
        5 if pack => one::<Packed, T>(c),
        6 => one::<StorageFixed, T>(c),
        7 => one::<WireFixed, T>(c),
        8 => one::<StorageText, T>(c),
        9 => one::<DescriptiveText, T>(c),
        10 => one::<JsonBinary, T>(c),
        11 => one::<StorageFixedBe, T>(c),
        _ => one::<DescriptiveFixed, T>(c),
    }
}

macro_rules! reg {
    ($g:ident, $name:literal, $t:ty $(, no = [$($no:ident),*])?) => {
        $g.add(concat!("type/", $name), |c| any::<$t>(c, &[$($(stringify!($no)),*)?]));
    };
}
macro_rules! opt_one {
    ($f:ty, ($g:ident, $label:literal, $t:ty)) => {
        $g.add(format!("opt/{}/{}", <$f>::NAME, $label), one::<$f, $t>);
    };
}

// --- types without a model ---------------------------------------------------------

/// Skips one value.
#[derive(Debug)]
struct Skip;
impl<'de, M: 'static, A: musli::Allocator> Decode<'de, M, A> for Skip {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        d.skip()?;
        Ok(Skip)
    }
}
fn free<F: Fmt, T>(c: &mut Case<'_>) -> R
where
    T: Debug + for<'de> Decode<'de, F::Mode, System>,
{
    let json = F::KIND == Kind::Json;
    let b = hostile::<F>(c, |r| F::to_vec(&shape::gen(r, Cfg { depth: 4, json, ..Cfg::ALL }, 0)))?;
    let b = b.into_boxed_slice();
    let g = try_one::<F, T>(c, &b, &|v| { touch(v); Ok(()) })?;
    note(c, g);
    Ok(())
}
fn typed_on_tree<F: Fmt, T>(c: &mut Case<'_>) -> R
where
    T: Debug + for<'de> Decode<'de, F::Mode, System>,
{
    free::<F, T>(c)
}

// --- validity ----------------------------------------------------------------------

fn utf8(s: &str) -> R {
    // As bytes that the compiler knows nothing about.
    let b: Vec<u8> = std::hint::black_box(s.as_bytes()).to_vec();
    match String::from_utf8(std::hint::black_box(b)) {
        Ok(_) => Ok(()),
        Err(e) => Err(format!("the string holds bytes which are not UTF-8: {e}")),
    }
}
fn bytes_of<T>(v: &T) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v as *const T as *const u8, size_of::<T>()) }
}
fn is_bool(v: &bool) -> R {
    let b = std::hint::black_box(bytes_of(v))[0];
    if b < 2 { Ok(()) } else { Err(format!("a bool holds {b}")) }
}
fn is_char(v: &char) -> R {
    let b = u32::from_ne_bytes(std::hint::black_box(bytes_of(v)).try_into().unwrap());
    if char::from_u32(b).is_some() { Ok(()) } else { Err(format!("a char holds {b:#x}")) }
}
fn within(b: &[u8], s: &[u8]) -> R {
    let (r, q) = (b.as_ptr_range(), s.as_ptr_range());
    if s.is_empty() || (q.start >= r.start && q.end <= r.end) { Ok(()) } else { Err("a borrowed value lies outside the input".into()) }
}

fn strings<F: Fmt>(c: &mut Case<'_>) -> R
where
    str: Encode<F::Mode>,
    String: for<'de> Decode<'de, F::Mode, System>,
    Vec<String>: for<'de> Decode<'de, F::Mode, System>,
    Box<str>: for<'de> Decode<'de, F::Mode, System>,
    BTreeMap<String, char>: for<'de> Decode<'de, F::Mode, System>,
    char: Encode<F::Mode> + for<'de> Decode<'de, F::Mode, System>,
    musli::alloc::String<System>: for<'de> Decode<'de, F::Mode, System>,
    std::ffi::CString: for<'de> Decode<'de, F::Mode, System>,
    std::path::PathBuf: for<'de> Decode<'de, F::Mode, System>,
    musli::value::Value<System>: for<'de> Decode<'de, F::Mode, System>,
    std::borrow::Cow<'static, str>: Encode<F::Mode>,
    for<'de> std::borrow::Cow<'de, str>: Decode<'de, F::Mode, System>,
    for<'de> &'de str: Decode<'de, F::Mode, System>,
    for<'de> &'de [u8]: Decode<'de, F::Mode, System>,
    Vec<String>: Encode<F::Mode>,
{
    const BAD: &[&[u8]] = &[b"\x80", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3", b"\xed\xb0\x80", b"\xf8\x88\x80\x80\x80"];
    let json = F::KIND == Kind::Json;
    let mut broken = false;
    let list = c.rng.chance(1, 3);
    let mut b = if list {
        let v: Vec<String> = (0..c.rng.below(4)).map(|_| gen_string(&mut c.rng)).collect();
        F::to_vec(&v)?
    } else {
        F::to_vec(&*gen_string(&mut c.rng))?
    };
    if c.rng.chance(3, 4) && b.len() > 3 {
        // Overwrite, keeping the length.
        let bad = *c.rng.pick(BAD);
        let lo = 1 + c.rng.below(b.len() - 1);
        for (i, x) in bad.iter().enumerate() {
            if lo + i + (json as usize) < b.len() {
                b[lo + i] = *x;
                broken = true;
            }
        }
        if json && c.rng.bool() {
            let esc = *c.rng.pick(&["\\ud800", "\\udfff", "\\ud83d\\ud83d", "\\ud83dx", "\\ud83d\\n", "\\uD83D\\uDE00", "\\u00", "\\uzzzz", "\\ud83d\\u", "\\u+123", "\\ud83d\\udbff"]);
            let at = 1 + c.rng.below(b.len() - 1);
            b.splice(at..at, esc.bytes());
        }
    } else {
        b = mutate(&mut c.rng, b, json);
    }
    let _ = broken;
    c.seen_bytes(&b);
    let b = b.into_boxed_slice();
    let bb = &b;
    macro_rules! go { ($t:ty, $f:expr) => {{ let f: &dyn Fn(&$t) -> R = &$f; let g = try_one::<F, $t>(c, bb, f)?; note(c, g); }} }
    if list {
        go!(Vec<String>, |v| v.iter().try_for_each(|s| utf8(s)));
    } else {
        go!(String, |s| utf8(s));
        go!(Box<str>, |s| utf8(s));
        go!(std::borrow::Cow<'_, str>, |s| utf8(s));
        go!(&str, |s| { utf8(s)?; within(bb, s.as_bytes()) });
        go!(&[u8], |s| within(bb, s));
        go!(musli::alloc::String<System>, |s| utf8(s));
        go!(std::path::PathBuf, |s| match s.to_str() { Some(s) => utf8(s), None => Ok(()) });
        go!(std::ffi::CString, |s| { let b = s.as_bytes_with_nul(); if b.iter().position(|x| *x == 0) == Some(b.len() - 1) { Ok(()) } else { Err("a CString with a misplaced nul".into()) } });
        go!(char, |v| is_char(v));
        go!(BTreeMap<String, char>, |m| m.iter().try_for_each(|(k, v)| { utf8(k)?; is_char(v) }));
    }
    if F::KIND == Kind::Descriptive || json {
        go!(musli::value::Value<System>, value_ok);
    }
    c.event("string inputs checked for validity");
    Ok(())
}
fn value_ok(v: &musli::value::Value<System>) -> R {
    use musli::value::Value::*;
    match v {
        String(s) => utf8(s),
        Bool(b) => is_bool(b),
        Char(c) => is_char(c),
        Sequence(s) => s.iter().try_for_each(value_ok),
        Map(m) => m.iter().try_for_each(|(k, v)| { value_ok(k)?; value_ok(v) }),
        Variant(b) => { value_ok(&b.0)?; value_ok(&b.1) }
        Option(Some(v)) => value_ok(v),
        _ => Ok(()),
    }
}

/// Types with invalid bit patterns behind the bitwise paths.
#[derive(Debug, Clone, Copy, PartialEq, Encode, Decode)]
#[musli(packed)]
#[repr(C)]
struct Bits {
    a: u8,
    b: bool,
    c: u16,
    d: char,
    e: std::num::NonZeroU32,
    f: u32,
}
impl Gen for Bits {
    fn gen(r: &mut Rng, d: usize) -> Self {
        Bits { a: r.u8(), b: r.bool(), c: Gen::gen(r, d), d: gen_char(r), e: Gen::gen(r, d), f: r.u32() }
    }
}
fn bits_ok(v: &Bits) -> R {
    is_bool(&v.b)?;
    is_char(&v.d)?;
    let e = u32::from_ne_bytes(std::hint::black_box(bytes_of(&v.e)).try_into().unwrap());
    if e == 0 { Err("a non-zero number holds zero".into()) } else { Ok(()) }
}
fn bits<F: Fmt<Mode = musli::mode::Binary>>(c: &mut Case<'_>) -> R {
    type Row = (Vec<Bits>, Vec<bool>, Vec<char>, [bool; 2], [Bits; 1], Vec<(bool, char)>, Option<std::num::NonZeroU8>);
    let v: Row = (Gen::gen(&mut c.rng, 2), Gen::gen(&mut c.rng, 2), Gen::gen(&mut c.rng, 2), [c.rng.bool(), true], [Gen::gen(&mut c.rng, 0)], Gen::gen(&mut c.rng, 2), Gen::gen(&mut c.rng, 2));
    let b = hostile::<F>(c, |_| F::to_vec(&v))?.into_boxed_slice();
    let g = try_one::<F, Row>(c, &b, &|v| {
        v.0.iter().chain(&v.4).try_for_each(bits_ok)?;
        v.1.iter().chain(&v.3).try_for_each(is_bool)?;
        v.2.iter().try_for_each(is_char)?;
        v.5.iter().try_for_each(|(b, c)| { is_bool(b)?; is_char(c) })?;
        match &v.6 { Some(n) if n.get() == 0 => Err("zero".into()), _ => Ok(()) }
    })?;
    note(c, g);
    c.event("packed inputs checked for validity");
    Ok(())
}

// --- nesting -----------------------------------------------------------------------

const DEEP: usize = 300_000;
const DEEPS: &[(&str, &str)] = &[
    ("wire skip", ""),
    ("descriptive skip", ""),
    ("json skip", "json-skip-recursion"),
    ("json skip map", "json-skip-recursion"),
    ("json value", "value-recursion"),
    ("descriptive value", "value-recursion"),
];
/// Deeply nested input, in a process of its own: running out of stack ends it.
fn deep_child(name: &str) -> ! {
    let json: Vec<u8> = b"[".repeat(DEEP);
    let ok = match name {
        "wire skip" => { let _ = Wire::from_slice::<(Skip,)>(&[&[0x81][..], &[0x81; DEEP]].concat()); true }
        "descriptive skip" => { let _ = Descriptive::from_slice::<(Skip,)>(&[0x61; DEEP]); true }
        "json skip" => { let _ = Json::from_slice::<Skip>(&json); true }
        "json skip map" => { let _ = Json::from_slice::<Skip>(&b"{\"\":".repeat(DEEP)); true }
        "json value" => { let _ = Json::from_slice::<musli::value::Value<System>>(&json); true }
        "descriptive value" => { let _ = Descriptive::from_slice::<musli::value::Value<System>>(&[0x61; DEEP]); true }
        _ => false,
    };
    std::process::exit(if ok { 0 } else { 3 })
}
fn deep(c: &mut Case<'_>) -> R {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    for (name, known) in DEEPS {
        let o = std::process::Command::new(&exe).env("VH_DEEP", name).output().map_err(|e| e.to_string())?;
        if o.status.success() {
            c.event("deeply nested inputs survived");
        } else if !known.is_empty() && String::from_utf8_lossy(&o.stderr).contains("overflow") {
            c.known(known);
        } else {
            fail!("{name}: {DEEP} nested containers ended the process: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr));
        }
    }
    Ok(())
}

// --- readers called directly -------------------------------------------------------

macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        ensure!(a == b, "{}: {a:?}, not {b:?}", format_args!($($t)*));
    }};
}
struct Seen<'a, 'de>(&'a mut Option<Cow<'de, [u8]>>);
#[musli::de::unsized_visitor]
impl<'de, C: musli::Context> musli::de::UnsizedVisitor<'de, C, [u8]> for Seen<'_, 'de> {
    type Ok = ();
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bytes")
    }
    fn visit_borrowed(self, _: C, b: &'de [u8]) -> Result<(), C::Error> {
        *self.0 = Some(Cow::Borrowed(b));
        Ok(())
    }
    fn visit_ref(self, _: C, b: &[u8]) -> Result<(), C::Error> {
        *self.0 = Some(Cow::Owned(b.to_vec()));
        Ok(())
    }
}
/// How many bytes to ask for, when `left` of them remain.
fn amount(r: &mut Rng, left: usize) -> usize {
    match r.below(12) {
        0 => usize::MAX - r.below(64),
        1 => usize::MAX - left.wrapping_sub(r.below(4)),
        2 => isize::MAX as usize - r.below(4) + r.below(8),
        3 => left + 1 + r.below(4),
        4 => left,
        5 => r.u64() as usize,
        // Such that the end of it lies anywhere in the address space.
        6 => 0usize.wrapping_sub(r.below(1 << 16)),
        _ => r.below(left.min(40) + 2),
    }
}
macro_rules! reading { ($name:ident, $next:ident) => {
fn $name<'de, D: musli::reader::Reader<'de>>(c: &mut Case<'_>, d: &mut D, mut left: &'de [u8]) -> Result<Option<&'de [u8]>, String> {
    let cx = musli::context::new().with_error::<musli::storage::Error>();
    let cx = &cx;
    for _ in 0..1 + c.rng.below(12) {
        let n = amount(&mut c.rng, left.len());
        let fits = n <= left.len();
        let op = c.rng.below(11);
        // What was read, when it did.
        let (asked, got): (usize, Result<Option<Vec<u8>>, _>) = match op {
            0 => (n, d.skip(cx, n).map(|()| None)),
            1 | 2 => {
                let mut seen = None;
                let r = d.read_bytes(cx, n, Seen(&mut seen));
                if let Some(Cow::Borrowed(b)) = &seen {
                    ensure!(b.is_empty() || b.as_ptr() == left.as_ptr(), "read_bytes({n}) lends other bytes than the next ones");
                    ensure!(b.len() <= left.len(), "read_bytes({n}) lends {} of {} bytes", b.len(), left.len());
                }
                ensure!(r.is_err() || seen.is_some(), "read_bytes({n}) called no visitor");
                (n, r.map(|()| seen.map(|s| s.into_owned())))
            }
            3 => {
                let n = n.min(1 << 12);
                let mut b = vec![0u8; n].into_boxed_slice();
                let r = d.read(cx, &mut b);
                (n, r.map(|()| Some(b.into_vec())))
            }
            4 => {
                let n = n.min(1 << 12);
                let mut b = vec![0u8; n].into_boxed_slice();
                let r = unsafe { d.read_bytes_uninit(cx, b.as_mut_ptr(), n) };
                (n, r.map(|()| Some(b.into_vec())))
            }
            5 => (1, d.read_byte(cx).map(|b| Some(vec![b]))),
            6 => (8, d.read_array::<_, 8>(cx).map(|b| Some(b.to_vec()))),
            7 => (0, d.read_array::<_, 0>(cx).map(|b| Some(b.to_vec()))),
            8 => {
                ensure_eq!(d.peek(), left.first().copied(), "peek with {} bytes left", left.len());
                ensure_eq!(d.is_eof(), left.is_empty(), "is_eof with {} bytes left", left.len());
                continue;
            }
            9 => {
                if let Some(mut t) = d.try_clone() {
                    $next(c, &mut t, left)?;
                }
                continue;
            }
            10 => {
                let by = amount(&mut c.rng, left.len());
                use musli::reader::Reader;
                let mut l = d.borrow_mut().limit(by);
                ensure_eq!(l.remaining(), by, "the remainder of a limit of {by}");
                let some = &left[..by.min(left.len())];
                match $next(c, &mut l, some)? {
                    Some(rest) => {
                        let used = some.len() - rest.len();
                        ensure_eq!(l.remaining(), by - used, "the remainder of a limit of {by} after {used} bytes");
                        left = &left[used..];
                    }
                    None => return Ok(None),
                }
                continue;
            }
            _ => unreachable!(),
        };
        let fits = if asked == n { fits } else { asked <= left.len() };
        match got {
            Ok(got) => {
                ensure!(fits, "op {op}: read {asked} bytes of {}", left.len());
                if let Some(got) = got {
                    ensure!(got == left[..asked], "op {op}: read {} where the next {asked} bytes are {}", hex(&got), hex(&left[..asked]));
                }
                left = &left[asked..];
                c.event("direct reads that fit");
            }
            Err(_) => {
                ensure!(!fits, "op {op}: refused to read {asked} of {} bytes", left.len());
                c.event("direct reads refused");
                // What a reader holds after an error is its own affair.
                let _ = d.peek();
                let _ = d.skip(cx, n);
                return Ok(None);
            }
        }
    }
    ensure_eq!(d.peek(), left.first().copied(), "peek at the end, with {} bytes left", left.len());
    Ok(Some(left))
}
} }
reading!(reading, reading1);
reading!(reading1, reading2);
reading!(reading2, no_more);
fn no_more<'de, D>(_: &mut Case<'_>, _: &mut D, left: &'de [u8]) -> Result<Option<&'de [u8]>, String> {
    Ok(Some(left))
}
fn readers(c: &mut Case<'_>) -> R {
    use musli::reader::{Reader, SliceReader};
    let n = c.rng.below(60);
    let b = c.rng.bytes(n).into_boxed_slice();
    c.seen_bytes(&b);
    match c.rng.below(5) {
        0 => {
            let mut r = &b[..];
            if let Some(left) = reading(c, &mut r, &b)? {
                ensure!(r.as_ptr() == left.as_ptr() && r.len() == left.len(), "a slice has {} bytes left, not {}", r.len(), left.len());
            }
        }
        1 | 2 => {
            let mut r = SliceReader::new(&b);
            if let Some(left) = reading(c, &mut r, &b)? {
                ensure_eq!(r.remaining(), left.len(), "remaining() of a SliceReader");
                ensure!(r.as_slice().as_ptr() == left.as_ptr() && r.as_slice().len() == left.len(), "as_slice() of a SliceReader is another slice");
            }
        }
        3 => {
            let by = c.rng.below(n + 9);
            let some = &b[..by.min(n)];
            let mut r = SliceReader::new(&b).limit(by).limit(by + 1);
            reading1(c, &mut r, some)?;
        }
        _ => {
            let by = c.rng.below(n + 9);
            let some = &b[..by.min(n)];
            let mut r = &mut Reader::limit(&b[..], by);
            reading1(c, &mut r, some)?;
        }
    }
    Ok(())
}

fn main() {
    if let Ok(n) = std::env::var("VH_DEEP") {
        deep_child(&n);
    }
    let mut g = Groups::new();
    if !cfg!(miri) {
        g.add_n("deep", 1, deep);
    }
    for i in 0..6 {
        g.add(format!("readers/{i}"), readers);
    }
    include!("../f01_types.rs");
    vh::each_option!(opt_one, pstorage, g, "core", OptCore);
    vh::each_option!(opt_one, pwire, g, "core", OptCore);
    vh::each_option!(opt_one, pdesc, g, "core", OptCore);
    vh::each_option!(opt_one, ppacked, g, "packeds", (PackedS, Vec<PackedBits>, Vec<char>, Vec<bool>, Vec<i32>, Vec<std::num::NonZeroU32>));
    macro_rules! frees { ($($f:ty),*) => { $(
        g.add(format!("skip/{}", <$f>::NAME), free::<$f, Skip>);
        g.add(format!("skips/{}", <$f>::NAME), free::<$f, (Skip, Vec<Skip>)>);
        g.add(format!("struct from tree/{}", <$f>::NAME), typed_on_tree::<$f, Everything>);
    )* } }
    frees!(Wire, WireFixed, Descriptive, DescriptiveFixed, Json, WireText, DescriptiveText, JsonBinary, pwire::FB0, pdesc::VB1);
    macro_rules! vals { ($($f:ty),*) => { $( g.add(format!("value/{}", <$f>::NAME), free::<$f, musli::value::Value<System>>); )* } }
    vals!(Descriptive, DescriptiveFixed, Json, pdesc::FB0, pdesc::VB1);
    macro_rules! strs { ($($f:ty),*) => { $( g.add(format!("strings/{}", <$f>::NAME), strings::<$f>); )* } }
    strs!(Storage, Wire, Descriptive, Json, Packed, StorageText, JsonBinary, WireFixed, DescriptiveFixed);
    macro_rules! bitss { ($($f:ty),*) => { $( g.add(format!("bits/{}", <$f>::NAME), bits::<$f>); )* } }
    bitss!(Storage, StorageFixed, StorageFixedBe, Packed, PackedBe, Wire, WireFixed, Descriptive, pstorage::FL0, pstorage::FB4, ppacked::VL0, ppacked::FL4);
    rt::main(g);
}
