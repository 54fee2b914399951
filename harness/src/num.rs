//! Exact decimal arithmetic on JSON number texts, independent of the code under test.
use crate::rng::Rng;

/// An exact integer in a range that covers every supported integer type.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Int {
    pub neg: bool,
    pub mag: u128,
}

impl Int {
    pub fn new(neg: bool, mag: u128) -> Self {
        Int { neg: neg && mag != 0, mag }
    }
}

pub trait IntTy: Copy + std::fmt::Debug + PartialEq {
    const NAME: &'static str;
    const BITS: u32;
    const SIGNED: bool;
    fn int(self) -> Int;
    fn from_int(i: Int) -> Option<Self>;
}
macro_rules! unsigned { ($($t:ident)*) => { $(impl IntTy for $t {
    const NAME: &'static str = stringify!($t);
    const BITS: u32 = <$t>::BITS;
    const SIGNED: bool = false;
    fn int(self) -> Int { Int::new(false, self as u128) }
    fn from_int(i: Int) -> Option<Self> { if i.neg || i.mag > <$t>::MAX as u128 { None } else { Some(i.mag as $t) } }
})* } }
macro_rules! signed { ($($t:ident)*) => { $(impl IntTy for $t {
    const NAME: &'static str = stringify!($t);
    const BITS: u32 = <$t>::BITS;
    const SIGNED: bool = true;
    fn int(self) -> Int { Int::new(self < 0, (self as i128).unsigned_abs()) }
    fn from_int(i: Int) -> Option<Self> {
        let lim = <$t>::MAX as u128;
        if i.neg { if i.mag > lim + 1 { None } else { Some((i.mag as i128).wrapping_neg() as $t) } }
        else if i.mag > lim { None } else { Some(i.mag as $t) }
    }
})* } }
unsigned!(u8 u16 u32 u64 u128 usize);
signed!(i8 i16 i32 i64 i128 isize);

/// The meaning of a decimal text.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Exact {
    Integer(Int),
    /// An integer larger than 128 bits.
    Huge,
    Fraction,
}

/// Evaluate a valid JSON number exactly.
pub fn exact(text: &str) -> Exact {
    let (neg, t) = match text.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, text),
    };
    let (mant, e) = match t.find(['e', 'E']) {
        Some(i) => {
            let es = &t[i + 1..];
            let (eneg, ed) = if let Some(x) = es.strip_prefix('-') { (true, x) } else { (false, es.strip_prefix('+').unwrap_or(es)) };
            let mut v: i64 = 0;
            for c in ed.bytes() {
                v = (v * 10 + (c - b'0') as i64).min(1 << 40);
            }
            (&t[..i], if eneg { -v } else { v })
        }
        None => (t, 0),
    };
    let (ip, fp) = mant.split_once('.').unwrap_or((mant, ""));
    let mut d: Vec<u8> = ip.bytes().chain(fp.bytes()).map(|c| c - b'0').collect();
    let mut e = e - fp.len() as i64;
    let lead = d.iter().take_while(|&&x| x == 0).count();
    d.drain(..lead);
    while d.last() == Some(&0) {
        d.pop();
        e += 1;
    }
    if d.is_empty() {
        return Exact::Integer(Int::new(false, 0));
    }
    if e < 0 {
        return Exact::Fraction;
    }
    if d.len() as i64 + e > 40 {
        return Exact::Huge;
    }
    let mut v: u128 = 0;
    for x in d.iter().copied().chain(std::iter::repeat(0).take(e as usize)) {
        match v.checked_mul(10).and_then(|v| v.checked_add(x as u128)) {
            Some(n) => v = n,
            None => return Exact::Huge,
        }
    }
    Exact::Integer(Int::new(neg, v))
}

/// A valid JSON number, biased towards values near integer type boundaries
/// written in unusual but equal ways.
pub fn gen_number_text(r: &mut Rng) -> String {
    let base = match r.below(4) {
        0 => r.below(1000) as u128,
        1 => {
            // Around a type boundary.
            let b = *r.pick(&[7u32, 8, 15, 16, 31, 32, 53, 63, 64, 127, 128]);
            let m = if b == 128 { u128::MAX } else { (1u128 << b).wrapping_sub(1) };
            m.saturating_add(r.below(4) as u128).saturating_sub(r.below(3) as u128)
        }
        2 => 10u128.pow(r.below(39) as u32).saturating_mul(1 + r.below(9) as u128),
        _ => r.edge_bits(),
    };
    let mut s = String::new();
    if r.chance(2, 5) {
        s.push('-');
    }
    let digits = base.to_string();
    match r.below(8) {
        0..=2 => s.push_str(&digits),
        3 => {
            // Beyond every type.
            s.push_str(&digits);
            for _ in 0..r.below(12) {
                s.push((b'0' + r.below(10) as u8) as char);
            }
            let body = s.trim_start_matches('-');
            if body.len() > 1 && body.starts_with('0') {
                let neg = s.starts_with('-');
                s = format!("{}{}", if neg { "-" } else { "" }, "7");
            }
        }
        4 => {
            // Move the point left and compensate with an exponent.
            let k = r.below(digits.len() + 1);
            let (a, b) = digits.split_at(digits.len() - k);
            s.push_str(if a.is_empty() { "0" } else { a });
            if !b.is_empty() {
                s.push('.');
                s.push_str(b);
                for _ in 0..r.below(3) {
                    s.push('0');
                }
            }
            let adj = r.below(5) as i64 - if r.chance(1, 3) { 2 } else { 0 };
            let e = k as i64 + if r.bool() { 0 } else { adj };
            s.push(*r.pick(&['e', 'E']));
            if e >= 0 && r.bool() {
                s.push('+');
            }
            if e < 0 || !r.chance(1, 8) {
                s.push_str(&e.to_string());
            } else {
                s.push_str(&format!("0{e}"));
            }
        }
        5 => {
            // Trailing zeros compensated by a negative exponent.
            let k = r.below(6);
            s.push_str(&digits);
            if digits != "0" {
                for _ in 0..k {
                    s.push('0');
                }
            }
            s.push_str(&format!("e-{}", if r.chance(1, 4) { k + 1 } else { k }));
        }
        6 => {
            s.push_str(&digits);
            s.push('.');
            for _ in 0..1 + r.below(4) {
                s.push(if r.chance(3, 4) { '0' } else { (b'0' + r.below(10) as u8) as char });
            }
        }
        _ => {
            s.push_str(&(base % 1000).to_string());
            let e = match r.below(4) {
                0 => r.below(5) as i64,
                1 => r.below(45) as i64,
                2 => -(r.below(45) as i64),
                _ => *r.pick(&[308i64, 309, -324, -400, 2147483647, 2147483648, -2147483648, 99999999999, -99999999999]),
            };
            s.push_str(&format!("e{e}"));
        }
    }
    s
}
