//! A strict RFC 8259 reader and a writer of documents in many equal notations,
//! independent of the code under test.
use crate::model::gen_string;
use crate::rng::Rng;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// The text of the number.
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// Not JSON.
    Malformed(usize),
    /// A surrogate without its other half: allowed by the grammar, without a meaning.
    Lone,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    lone: bool,
}
type Res<T> = Result<T, Bad>;

/// Reads one value, with any white space before it, and tells where it ends.
pub fn parse(b: &[u8]) -> Result<(J, usize), Bad> {
    let mut p = P { b, i: 0, lone: false };
    let v = p.value()?;
    if p.lone {
        return Err(Bad::Lone);
    }
    Ok((v, p.i))
}

impl P<'_> {
    fn bad<T>(&self) -> Res<T> {
        Err(Bad::Malformed(self.i))
    }
    fn ws(&mut self) {
        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.b.get(self.i) {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        self.b.get(self.i).copied().unwrap_or(0)
    }
    fn word(&mut self, w: &str, v: J) -> Res<J> {
        if self.b[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            Ok(v)
        } else {
            self.bad()
        }
    }
    fn value(&mut self) -> Res<J> {
        self.ws();
        match self.peek() {
            b'n' => self.word("null", J::Null),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'"' => Ok(J::Str(self.string()?)),
            b'-' | b'0'..=b'9' => self.number(),
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return self.bad(),
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if self.peek() != b':' {
                        return self.bad();
                    }
                    self.i += 1;
                    v.push((k, self.value()?));
                    self.ws();
                    match self.peek() {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return self.bad(),
                    }
                }
            }
            _ => self.bad(),
        }
    }
    fn digits(&mut self) -> Res<()> {
        let from = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        if self.i == from {
            return self.bad();
        }
        Ok(())
    }
    fn number(&mut self) -> Res<J> {
        let from = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        if self.peek() == b'0' {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.peek() == b'.' {
            self.i += 1;
            self.digits()?;
        }
        if let b'e' | b'E' = self.peek() {
            self.i += 1;
            if let b'+' | b'-' = self.peek() {
                self.i += 1;
            }
            self.digits()?;
        }
        Ok(J::Num(String::from_utf8(self.b[from..self.i].to_vec()).unwrap()))
    }
    fn hex4(&mut self) -> Res<u32> {
        let mut v = 0;
        for _ in 0..4 {
            v = v * 16 + (self.peek() as char).to_digit(16).ok_or(Bad::Malformed(self.i))?;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Res<String> {
        if self.peek() != b'"' {
            return self.bad();
        }
        self.i += 1;
        let mut out: Vec<u8> = Vec::new();
        loop {
            let Some(&c) = self.b.get(self.i) else { return self.bad() };
            self.i += 1;
            match c {
                b'"' => break,
                0..=0x1f => return self.bad(),
                b'\\' => {
                    let e = self.peek();
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let hi = self.hex4()?;
                            let mut ch = char::from_u32(hi);
                            if (0xd800..0xdc00).contains(&hi) && self.b[self.i..].starts_with(b"\\u") {
                                let back = self.i;
                                self.i += 2;
                                let lo = self.hex4()?;
                                if (0xdc00..0xe000).contains(&lo) {
                                    ch = char::from_u32(0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00));
                                } else {
                                    self.i = back;
                                }
                            }
                            match ch {
                                Some(ch) => ch,
                                None => {
                                    self.lone = true;
                                    '\u{fffd}'
                                }
                            }
                        }
                        _ => {
                            self.i -= 1;
                            return self.bad();
                        }
                    };
                    out.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                }
                c => out.push(c),
            }
        }
        String::from_utf8(out).or_else(|_| self.bad())
    }
}

// --- documents ------------------------------------------------------------------

pub fn gen_ws(r: &mut Rng, out: &mut String) {
    if r.chance(1, 4) {
        for _ in 0..1 + r.below(3) {
            out.push(*r.pick(&[' ', ' ', '\n', '\t', '\r']));
        }
    }
}
pub fn write_str(r: &mut Rng, s: &str, out: &mut String) {
    let style = r.below(4);
    out.push('"');
    for c in s.chars() {
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '/' => Some("\\/"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            _ => None,
        };
        let must = c < ' ' || c == '"' || c == '\\';
        let esc = must || match style {
            0 => false,
            1 => r.chance(1, 12),
            2 => r.bool(),
            _ => !c.is_ascii() || r.chance(1, 30),
        };
        if !esc {
            out.push(c);
            continue;
        }
        match short {
            Some(s) if r.chance(2, 3) => out.push_str(s),
            _ => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    let s = format!("{u:04x}");
                    out.push_str("\\u");
                    for h in s.chars() {
                        out.push(if r.bool() { h.to_ascii_uppercase() } else { h });
                    }
                }
            }
        }
    }
    out.push('"');
}
pub fn write(r: &mut Rng, j: &J, out: &mut String) {
    gen_ws(r, out);
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => out.push_str(n),
        J::Str(s) => write_str(r, s, out),
        J::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(r, x, out);
                gen_ws(r, out);
            }
            gen_ws(r, out);
            out.push(']');
        }
        J::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gen_ws(r, out);
                write_str(r, k, out);
                gen_ws(r, out);
                out.push(':');
                write(r, x, out);
                gen_ws(r, out);
            }
            gen_ws(r, out);
            out.push('}');
        }
    }
}
pub fn gen(r: &mut Rng, d: usize) -> J {
    let n = if d == 0 { 12 } else { 9 };
    match r.below(if d >= 5 { 6 } else { n }) {
        0 => J::Null,
        1 => J::Bool(r.bool()),
        2 | 3 => J::Num(number(r)),
        4 | 5 => J::Str(gen_string(r)),
        6 | 7 | 9 => J::Arr((0..crate::model::clen(r, d)).map(|_| gen(r, d + 1)).collect()),
        _ => {
            let mut v: Vec<(String, J)> = Vec::new();
            for _ in 0..crate::model::clen(r, d) {
                let k = gen_string(r);
                if v.iter().all(|(o, _)| *o != k) {
                    v.push((k, gen(r, d + 1)));
                }
            }
            J::Obj(v)
        }
    }
}

// --- numbers --------------------------------------------------------------------

fn digits(r: &mut Rng, n: usize) -> String {
    (0..n)
        .map(|_| {
            let d = r.below(10) as u8;
            (b'0' + *r.pick(&[0, 0, 9, 1, 5, d, d])) as char
        })
        .collect()
}
/// Any valid number.
pub fn number(r: &mut Rng) -> String {
    match r.below(12) {
        0..=2 => format!("{}", r.edge_bits() as i128),
        3 => format!("{}", r.edge_bits()),
        4 => format!("{:?}", crate::model::gen_f64_finite(r)),
        5 => format!("{:e}", crate::model::gen_f64_finite(r)),
        6 => {
            let v = crate::model::gen_f64_finite(r);
            let n = r.below(25);
            if v.abs() < 1e30 { format!("{v:.n$}") } else { format!("{v:.n$e}") }
        }
        7 => halfway(r),
        8 => format!("{:?}", crate::model::gen_f32_finite(r)),
        _ => {
            let mut s = String::new();
            if r.chance(1, 3) {
                s.push('-');
            }
            if r.bool() {
                s.push('0');
            } else {
                s.push((b'1' + r.below(9) as u8) as char);
                let n = *r.pick(&[0, 1, 2, 8, 15, 17, 18, 19, 20, 37, 38, 39, 60]);
                s.push_str(&digits(r, n));
            }
            if r.bool() {
                s.push('.');
                let n = *r.pick(&[1, 1, 2, 5, 16, 18, 19, 20, 40, 120]);
                s.push_str(&digits(r, n));
            }
            if r.bool() {
                s.push(*r.pick(&['e', 'E']));
                s.push_str(r.pick(&["", "+", "-"]));
                let e = match r.below(6) {
                    0 => r.below(400),
                    1 => 290 + r.below(50),
                    2 => 30 + r.below(20),
                    3 => *r.pick(&[0, 1, 65535, 65536, 1 << 20, 2147483647]),
                    _ => r.below(25),
                };
                s.push_str(&"0".repeat(r.below(12) / 9));
                s.push_str(&e.to_string());
            }
            s
        }
    }
}

/// A decimal expansion at, or right next to, the middle of two neighbouring floats.
fn halfway(r: &mut Rng) -> String {
    let (m, e) = if r.chance(1, 3) {
        let b = r.u32() & 0x7fff_ffff;
        let exp = ((b >> 23) as i32).min(254);
        let f = (b & 0x7f_ffff) as u64;
        if exp == 0 { (f, -149) } else { (f | 1 << 23, exp - 150) }
    } else {
        let b = match r.below(3) {
            0 => r.u64(),
            1 => (1023 - 60 + r.below(140) as u64) << 52 | r.u64() >> 12,
            _ => r.u64() >> 12 | (r.below(3) as u64) << 52,
        } & (u64::MAX >> 1);
        let exp = ((b >> 52) as i32).min(2046);
        let f = b & ((1 << 52) - 1);
        if exp == 0 { (f, -1074) } else { (f | 1 << 52, exp - 1075) }
    };
    // (2m + 1) * 2^(e - 1), or the float itself.
    let (m, e) = if r.chance(4, 5) { (2 * m as u128 + 1, e - 1) } else { (m as u128, e) };
    let mut big = Big::new(m);
    let mut scale = 0usize;
    if e >= 0 {
        for _ in 0..e {
            big.mul(2);
        }
    } else {
        for _ in 0..-e {
            big.mul(5);
        }
        scale = -e as usize;
    }
    let mut s = big.text();
    match r.below(5) {
        0 => {
            // A little more.
            let n = if r.chance(1, 3) { 600 + r.below(250) } else { r.below(30) };
            s.push_str(&"0".repeat(n));
            s.push('1');
            scale += s.len() - big.text().len();
        }
        1 if s.len() > 18 => {
            // A little less: cut.
            let cut = r.below(s.len() - 17);
            s.truncate(s.len() - cut);
            if scale >= cut {
                scale -= cut;
            } else {
                s.push_str(&"0".repeat(cut - scale));
                scale = 0;
            }
        }
        _ => {}
    }
    let neg = if r.chance(1, 4) { "-" } else { "" };
    match r.below(3) {
        0 => {
            // Scientific.
            let (a, b) = s.split_at(1);
            let exp = b.len() as i64 - scale as i64;
            if b.is_empty() { format!("{neg}{a}e{exp}") } else { format!("{neg}{a}.{b}E{exp}") }
        }
        1 => format!("{neg}{s}e-{scale}"),
        _ => {
            if scale == 0 {
                format!("{neg}{s}")
            } else if s.len() > scale {
                let (a, b) = s.split_at(s.len() - scale);
                format!("{neg}{a}.{b}")
            } else {
                format!("{neg}0.{}{s}", "0".repeat(scale - s.len()))
            }
        }
    }
}
struct Big(Vec<u32>);
impl Big {
    fn new(mut v: u128) -> Self {
        let mut d = Vec::new();
        loop {
            d.push((v % 1_000_000_000) as u32);
            v /= 1_000_000_000;
            if v == 0 {
                return Big(d);
            }
        }
    }
    fn mul(&mut self, k: u64) {
        let mut c = 0u64;
        for d in &mut self.0 {
            let v = *d as u64 * k + c;
            *d = (v % 1_000_000_000) as u32;
            c = v / 1_000_000_000;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    fn text(&self) -> String {
        let mut s = self.0.last().unwrap().to_string();
        for d in self.0.iter().rev().skip(1) {
            s.push_str(&format!("{d:09}"));
        }
        s
    }
}
