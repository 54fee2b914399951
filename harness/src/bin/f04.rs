//! F04: a number read as another integer type is the same number or an error.
use vh::model::*;
use vh::num::*;
use vh::rt::{self, Case, Groups, R};
use vh::{ensure, fail};
use musli::mode::{Binary, Text};

trait Num: IntTy + Gen + musli::Encode<Binary> + musli::Encode<Text> + for<'de> musli::Decode<'de, Binary, musli::alloc::System> + for<'de> musli::Decode<'de, Text, musli::alloc::System> {}
impl<T> Num for T where T: IntTy + Gen + musli::Encode<Binary> + musli::Encode<Text> + for<'de> musli::Decode<'de, Binary, musli::alloc::System> + for<'de> musli::Decode<'de, Text, musli::alloc::System> {}

/// Values of S near the limits of both types.
fn pick<S: Num, T: Num>(c: &mut Case<'_>) -> S {
    for _ in 0..4 {
        if c.rng.bool() {
            break;
        }
        let m = (1u128 << (T::BITS - 1)).wrapping_mul(if c.rng.bool() { 1 } else { 2 });
        let m = m.wrapping_add(c.rng.below(5) as u128).wrapping_sub(2);
        if let Some(v) = S::from_int(Int::new(c.rng.bool(), m)) {
            return v;
        }
    }
    S::gen(&mut c.rng, 0)
}

fn judge<S: Num, T: Num>(c: &mut Case<'_>, what: &str, v: S, got: Result<T, String>, exact_required: bool) -> R {
    let want = T::from_int(v.int());
    match (want, got) {
        (Some(w), Ok(g)) => {
            ensure!(w == g, "{what}: {v:?}_{} read as {} gave {g:?}", S::NAME, T::NAME);
            c.event("representable: same number");
        }
        (Some(_), Err(e)) => {
            if exact_required {
                fail!("{what}: {v:?}_{} fits in {} but reading it failed: {e}", S::NAME, T::NAME);
            }
            c.event("representable: refused by a format without numeric kinds");
        }
        (None, Ok(g)) => fail!("{what}: {v:?}_{} does not fit in {} but was read as {g:?}", S::NAME, T::NAME),
        (None, Err(_)) => c.event("out of range: refused"),
    }
    Ok(())
}

fn described<F: Fmt<Mode = Binary>, S: Num, T: Num>(c: &mut Case<'_>) -> R {
    let v = pick::<S, T>(c);
    let b = F::to_vec(&v)?;
    c.seen_bytes(&b);
    c.sample(|| format!("{v:?}_{} as {}", S::NAME, T::NAME));
    judge(c, F::NAME, v, F::from_slice::<T>(&b), true)?;
    // In sequence position, where a misread length also shows.
    let b = F::to_vec(&(v, 77u8))?;
    let got = F::from_slice::<(T, u8)>(&b);
    if let Ok((_, x)) = &got {
        ensure!(*x == 77, "{}: element after {v:?}_{} read as {} became {x}", F::NAME, S::NAME, T::NAME);
    }
    judge(c, F::NAME, v, got.map(|x| x.0), true)
}

fn json<F: Fmt, S: Num, T: Num>(c: &mut Case<'_>) -> R {
    let v = pick::<S, T>(c);
    let s = musli::json::to_string(&v).map_err(|e| e.to_string())?;
    c.seen_bytes(s.as_bytes());
    judge(c, "json", v, musli::json::from_str::<T>(&s).map_err(|e| e.to_string()), true)
}

type Val = musli::value::Value<musli::alloc::System>;

fn dynamic<F: Fmt, S: Num, T: Num>(c: &mut Case<'_>) -> R {
    let v = pick::<S, T>(c);
    c.seen((v.int().mag as u64) ^ ((v.int().mag >> 64) as u64));
    let val = musli::value::encode(v).map_err(|e| e.to_string())?;
    judge(c, "dynamic value", v, musli::value::decode::<T>(&val).map_err(|e| e.to_string()), true)?;
    // Through each self-descriptive format and then a dynamic value.
    let b = musli::descriptive::to_vec(&v).map_err(|e| e.to_string())?;
    let val: Val = musli::descriptive::from_slice(&b).map_err(|e| e.to_string())?;
    judge(c, "descriptive -> dynamic value", v, musli::value::decode::<T>(&val).map_err(|e| e.to_string()), true)?;
    let b = musli::json::to_string(&v).map_err(|e| e.to_string())?;
    let val: Val = musli::json::from_str(&b).map_err(|e| e.to_string())?;
    judge(c, "json -> dynamic value", v, musli::value::decode::<T>(&val).map_err(|e| e.to_string()), true)
}

/// Formats without numeric kinds: same signedness and at least 16 bits, where
/// the integers are variable length and so self-delimiting.
fn narrow<F: Fmt<Mode = Binary>, S: Num, T: Num>(c: &mut Case<'_>) -> R {
    let v = pick::<S, T>(c);
    let b = F::to_vec(&v)?;
    c.seen_bytes(&b);
    judge(c, F::NAME, v, F::from_slice::<T>(&b), true)
}

/// A float is not an integer unless it is whole.
fn floats<T: Num>(c: &mut Case<'_>) -> R {
    let v = match c.rng.below(3) {
        0 => f64::gen(&mut c.rng, 0),
        1 => c.rng.edge_bits() as i64 as f64,
        _ => (c.rng.below(2000) as f64 - 1000.0) / 4.0,
    };
    c.seen(v.to_bits());
    let whole = |v: f64| -> Option<Int> {
        if v.is_finite() && v.trunc() == v && v.abs() < 3.3e38 { Some(Int::new(v < 0.0, v.abs() as u128)) } else { None }
    };
    let check = |what: &str, v: f64, got: Result<T, String>| -> R {
        if let Ok(g) = got {
            ensure!(whole(v).and_then(T::from_int) == Some(g), "{what}: float {v:?} read as {} gave {g:?}", T::NAME);
        }
        Ok(())
    };
    let val = musli::value::encode(v).map_err(|e| e.to_string())?;
    check("dynamic value", v, musli::value::decode::<T>(&val).map_err(|e| e.to_string()))?;
    let val = musli::value::encode(v as f32).map_err(|e| e.to_string())?;
    check("dynamic value f32", (v as f32) as f64, musli::value::decode::<T>(&val).map_err(|e| e.to_string()))?;
    check("descriptive", v, Descriptive::from_slice::<T>(&Descriptive::to_vec(&v)?))?;
    check("descriptive f32", (v as f32) as f64, Descriptive::from_slice::<T>(&Descriptive::to_vec(&(v as f32))?))?;
    check("descriptive fixed", v, DescriptiveFixed::from_slice::<T>(&DescriptiveFixed::to_vec(&v)?))?;
    c.event("floats read as integers");
    Ok(())
}

/// JSON number texts against exact decimal arithmetic.
fn texts<T: Num>(c: &mut Case<'_>) -> R {
    let s = gen_number_text(&mut c.rng);
    c.seen_bytes(s.as_bytes());
    c.sample(|| s.clone());
    let want = match exact(&s) {
        Exact::Integer(i) => T::from_int(i),
        _ => None,
    };
    if cfg!(not(feature = "fmt")) && s.contains(['.', 'e', 'E']) {
        // Without `parse-full` only plain integers are understood, and a reader stops at
        // the end of what it understands: here there has to be a bracket.
        let got = musli::json::from_str::<(T,)>(&format!("[{s}]"));
        ensure!(got.is_err(), "json text {s} was read as the plain {} {got:?}", T::NAME);
        c.event("texts: refused");
        return Ok(());
    }
    let doc = if c.rng.bool() { s.clone() } else { format!(" {s} ") };
    let got = musli::json::from_str::<T>(doc.trim_end()).map_err(|e| e.to_string());
    match (want, got) {
        (Some(w), Ok(g)) => {
            ensure!(w == g, "json text {s} read as {} gave {g:?}", T::NAME);
            c.event("texts: same number");
        }
        (None, Ok(g)) => fail!("json text {s} is not a {} but was read as {g:?}", T::NAME),
        (Some(w), Err(e)) => {
            // Notations other than a plain integer may be refused when their
            // digits or exponent do not fit; a negative zero has no unsigned form.
            let odd = (s.starts_with('-') && !T::SIGNED) || s.contains(['.', 'e', 'E']) && !fits::<T>(&s);
            ensure!(odd, "json text {s} is {w:?} but reading it as {} failed: {e}", T::NAME);
            c.event("texts: unusual notation refused");
        }
        (None, Err(_)) => c.event("texts: refused"),
    }
    Ok(())
}

/// Whether the written digits fit the unsigned width of T and the exponent 31 bits.
fn fits<T: Num>(s: &str) -> bool {
    let t = s.trim_start_matches('-');
    let (m, e) = t.split_once(['e', 'E']).unwrap_or((t, "0"));
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    let lim = |d: &str| d.trim_start_matches('0').is_empty() || d.trim_start_matches('0').parse::<u128>().is_ok_and(|v| T::BITS == 128 || v >> T::BITS == 0);
    lim(i) && lim(f.trim_end_matches('0')) && e.parse::<i32>().is_ok()
}

/// Raw continuation bytes against an independent decoder.
fn continuation<T: Num>(c: &mut Case<'_>) -> R {
    let n = 1 + c.rng.below(T::BITS as usize / 7 + 3);
    let mut b: Vec<u8> = (0..n).map(|_| match c.rng.below(4) { 0 => 0xff, 1 => 0x80, _ => c.rng.u8() | 0x80 }).collect();
    *b.last_mut().unwrap() &= match c.rng.below(4) { 0 => 0x7f, 1 => 0x01, 2 => 0x03, _ => 0x0f };
    c.seen_bytes(&b);
    // Reference value, None when it is beyond 128 bits.
    let mut v: Option<u128> = Some(0);
    for (i, x) in b.iter().enumerate() {
        let bits = (x & 0x7f) as u128;
        let sh = 7 * i as u32;
        if bits != 0 && (sh >= 128 || (bits << sh) >> sh != bits) {
            v = None;
        }
        if let (Some(w), true) = (v, sh < 128) {
            v = Some(w | bits << sh);
        }
    }
    let want = v.and_then(|v| if T::SIGNED {
        let i = Int::new(v & 1 == 1, if v & 1 == 1 { (v >> 1) + 1 } else { v >> 1 });
        T::from_int(i)
    } else { T::from_int(Int::new(false, v)) });
    let mut wire = vec![0b0001_1111u8];
    wire.clear();
    // The wire tag for "continuation follows" is whatever the encoder emits for a large value.
    let probe = Wire::to_vec(&u64::MAX)?;
    wire.push(probe[0]);
    wire.extend_from_slice(&b);
    for (what, got) in [("storage", Storage::from_slice::<T>(&b)), ("wire", Wire::from_slice::<T>(&wire))] {
        match (want, got) {
            (Some(w), Ok(g)) => ensure!(w == g, "{what}: continuation {} as {} gave {g:?}", hex(&b), T::NAME),
            (None, Ok(g)) => fail!("{what}: continuation {} does not fit in {} but was read as {g:?}", hex(&b), T::NAME),
            // An over-long encoding may be refused.
            (Some(w), Err(e)) => ensure!(b.len() as u32 * 7 > T::BITS + 6 || b.last() == Some(&0), "{what}: continuation {} is {w:?} but was refused as {}: {e}", hex(&b), T::NAME),
            (None, Err(_)) => {}
        }
    }
    c.event("continuations compared with the reference");
    Ok(())
}

macro_rules! pairs {
    ($g:ident, $f:ident, $fmt:ty, $label:literal, [$($s:ident)*] $ts:tt) => { $( pairs!(@ $g, $f, $fmt, $label, $s $ts); )* };
    (@ $g:ident, $f:ident, $fmt:ty, $label:literal, $s:ident [$($t:ident)*]) => { $( $g.add(concat!($label, "/", stringify!($s), " as ", stringify!($t)), |c| $f::<$fmt, $s, $t>(c)); )* };
}

fn main() {
    let mut g = Groups::new();
    pairs!(g, described, Descriptive, "descriptive", [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize] [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize]);
    pairs!(g, described, DescriptiveFixed, "descriptive fixed", [u8 u16 u64 i8 i32 i128] [u8 u16 u32 u64 i8 i16 i64 u128]);
    pairs!(g, json, Json, "json", [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize] [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize]);
    pairs!(g, dynamic, Json, "dynamic", [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize] [u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize]);
    pairs!(g, narrow, Storage, "storage", [u16 u32 u64 u128] [u16 u32 u64 u128 usize]);
    pairs!(g, narrow, Storage, "storage", [i16 i32 i64 i128] [i16 i32 i64 i128]);
    pairs!(g, narrow, Wire, "wire", [u16 u32 u64 u128] [u16 u32 u64 u128 usize]);
    pairs!(g, narrow, Wire, "wire", [i16 i32 i64 i128] [i16 i32 i64 i128]);
    macro_rules! per { ($($t:ident)*) => { $(
        g.add(concat!("floats/", stringify!($t)), |c| floats::<$t>(c));
        g.add(concat!("texts/", stringify!($t)), |c| texts::<$t>(c));
    )* } }
    per!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    macro_rules! cont { ($($t:ident)*) => { $( g.add(concat!("continuation/", stringify!($t)), |c| continuation::<$t>(c)); )* } }
    cont!(u16 u32 u64 u128 i16 i32 i64 i128);
    rt::main(g);
}
