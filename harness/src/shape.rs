//! A tree of everything the data model can express: it can be encoded through
//! the real encoders, encoded by an independent reference implementation of
//! the documented layouts, and walked by a decoder that stops or skips at will.
use crate::model::{gen_bytes, gen_char, gen_string, Kind, O_DEF};
use crate::rng::Rng;
use musli::de::{Decoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, VariantDecoder};
use musli::en::{EntriesEncoder, EntryEncoder, MapEncoder, SequenceEncoder, VariantEncoder};
use musli::options::Options;
use musli::{Context, Decode, Encode, Encoder};
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq)]
pub enum Shape {
    Empty,
    Bool(bool),
    Char(char),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    /// Bits.
    F32(u32),
    F64(u64),
    Usize(usize),
    Isize(isize),
    Str(String),
    Bytes(Vec<u8>),
    Array([u8; 4]),
    None,
    Some(Box<Shape>),
    Seq(Vec<Shape>),
    Map(Vec<(Shape, Shape)>),
    Variant(Box<Shape>, Box<Shape>),
    Pack(Vec<Shape>),
}

use Shape::*;

/// What may be generated.
#[derive(Clone, Copy)]
pub struct Cfg {
    pub depth: usize,
    /// JSON: keys must be strings or numbers, floats finite, and an option must
    /// not hold something that itself is written as null.
    pub json: bool,
    /// Fixed pointer widths limit lengths and usize values.
    pub max_len: u128,
    pub pack: bool,
    pub arrays: bool,
}

impl Cfg {
    pub const ALL: Cfg = Cfg { depth: 3, json: false, max_len: u128::MAX, pack: true, arrays: true };
    pub const JSON: Cfg = Cfg { depth: 3, json: true, max_len: u128::MAX, pack: true, arrays: true };
}

pub fn gen_key(r: &mut Rng, c: Cfg) -> Shape {
    if c.json {
        return if r.chance(3, 4) { Str(gen_string(r)) } else { U32(r.edge_bits() as u32) };
    }
    match r.below(4) {
        0 => Usize(r.below(200)),
        1 => Str(gen_string(r)),
        _ => gen_scalar(r, c),
    }
}

pub fn gen_scalar(r: &mut Rng, c: Cfg) -> Shape {
    match r.below(if c.json { 19 } else { 20 }) {
        0 => Bool(r.bool()),
        1 => Char(gen_char(r)),
        2 => U8(r.u8()),
        3 => U16(r.edge_bits() as u16),
        4 => U32(r.edge_bits() as u32),
        5 => U64(r.edge_bits() as u64),
        6 => U128(r.edge_bits()),
        7 => I8(r.u8() as i8),
        8 => I16(r.edge_bits() as i16),
        9 => I32(r.edge_bits() as i32),
        10 => I64(r.edge_bits() as i64),
        11 => I128(r.edge_bits() as i128),
        12 => {
            let v = if c.json { crate::model::gen_f32_finite(r) } else { f32::from_bits(r.u32()) };
            F32(v.to_bits())
        }
        13 => {
            let v = if c.json { crate::model::gen_f64_finite(r) } else { f64::from_bits(r.u64()) };
            F64(v.to_bits())
        }
        14 => Usize((r.edge_bits() as usize).min(c.max_len.min(usize::MAX as u128) as usize)),
        15 => {
            let v = r.edge_bits() as isize;
            if c.max_len < u64::MAX as u128 {
                Isize((v as usize % (c.max_len as usize + 1)) as isize)
            } else {
                Isize(v)
            }
        }
        16 => Str(gen_len_string(r, c)),
        17 => Bytes(gen_bytes_max(r, c)),
        18 => {
            if c.arrays {
                Array([r.u8(), r.u8(), r.u8(), r.u8()])
            } else {
                Bool(true)
            }
        }
        _ => Empty,
    }
}

fn gen_len_string(r: &mut Rng, c: Cfg) -> String {
    let mut s = gen_string(r);
    while s.len() as u128 > c.max_len {
        s.pop();
    }
    s
}
fn gen_bytes_max(r: &mut Rng, c: Cfg) -> Vec<u8> {
    let mut s = gen_bytes(r);
    s.truncate(c.max_len.min(usize::MAX as u128) as usize);
    s
}

pub fn gen(r: &mut Rng, c: Cfg, d: usize) -> Shape {
    if d >= c.depth {
        return gen_scalar(r, c);
    }
    let n = |r: &mut Rng| match r.below(30) {
        0 => *r.pick(&[30, 31, 32, 61, 62, 63, 64, 70]),
        1..=3 => 0,
        _ => 1 + r.below(4),
    };
    match r.below(13) {
        0 => None,
        1 => {
            let v = gen(r, c, d + 1);
            if c.json && matches!(v, None | Some(_) | Empty) {
                Some(Box::new(Bool(r.bool())))
            } else {
                Some(Box::new(v))
            }
        }
        2 | 3 => {
            let n = n(r);
            // A large collection holds scalars.
            let dd = if n > 8 { c.depth } else { d + 1 };
            Seq((0..n).map(|_| gen(r, c, dd)).collect())
        }
        4..=6 => {
            let n = n(r).min(if c.max_len == 255 { 127 } else { usize::MAX });
            let dd = if n > 8 { c.depth } else { d + 1 };
            Map((0..n).map(|_| (gen_key(r, c), gen(r, c, dd))).collect())
        }
        7 => Variant(Box::new(gen_key(r, c)), Box::new(gen(r, c, d + 1))),
        8 if c.pack => gen_pack(r, c),
        _ => gen_scalar(r, c),
    }
}

pub fn gen_pack(r: &mut Rng, c: Cfg) -> Shape {
    let n = *r.pick(&[0, 1, 1, 2, 3, 5, 20]);
    let mut v = Vec::new();
    let mut size = 0;
    for _ in 0..n {
        let x = gen_scalar(r, c);
        let s = match &x {
            Str(s) => s.len() + 10,
            Bytes(s) => s.len() + 10,
            _ => 20,
        };
        size += s;
        if size as u128 > c.max_len {
            break;
        }
        v.push(x);
    }
    Pack(v)
}

impl Shape {
    pub fn nodes(&self) -> usize {
        1 + match self {
            Some(v) => v.nodes(),
            Seq(v) | Pack(v) => v.iter().map(|v| v.nodes()).sum(),
            Map(v) => v.iter().map(|(k, v)| k.nodes() + v.nodes()).sum(),
            Variant(a, b) => a.nodes() + b.nodes(),
            _ => 0,
        }
    }
}

impl<M: 'static> Encode<M> for Shape {
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        match self {
            Empty => e.encode_empty(),
            Bool(v) => e.encode_bool(*v),
            Char(v) => e.encode_char(*v),
            U8(v) => e.encode_u8(*v),
            U16(v) => e.encode_u16(*v),
            U32(v) => e.encode_u32(*v),
            U64(v) => e.encode_u64(*v),
            U128(v) => e.encode_u128(*v),
            I8(v) => e.encode_i8(*v),
            I16(v) => e.encode_i16(*v),
            I32(v) => e.encode_i32(*v),
            I64(v) => e.encode_i64(*v),
            I128(v) => e.encode_i128(*v),
            F32(v) => e.encode_f32(f32::from_bits(*v)),
            F64(v) => e.encode_f64(f64::from_bits(*v)),
            Usize(v) => e.encode_usize(*v),
            Isize(v) => e.encode_isize(*v),
            Str(v) => {
                if v.len() % 3 == 2 {
                    e.collect_string(&Pieces(v))
                } else {
                    e.encode_string(v)
                }
            }
            Bytes(v) => {
                if v.len() % 3 == 1 {
                    let (a, b) = v.split_at(v.len() / 2);
                    e.encode_bytes_vectored(v.len(), [a, b])
                } else if v.len() % 6 == 3 {
                    e.encode_bytes_vectored(v.len(), v.chunks(3))
                } else if v.len() % 6 == 0 {
                    e.encode_bytes_vectored(v.len(), [&v[..], &[]])
                } else {
                    e.encode_bytes(v)
                }
            }
            Array(v) => e.encode_array(v),
            None => e.encode_none(),
            Some(v) => v.encode(e.encode_some()?),
            // The same value has to be the same bytes whichever way it's
            // written, so the way follows from the value.
            Seq(v) => {
                let h = v.len() / 2;
                match way(v) % 6 {
                    0 => e.encode_slice(v),
                    1 => e.encode_slices(v.len(), [&v[..h], &[], &v[h..]]),
                    2 => e.encode_sequence_fn(v.len(), |s| {
                        s.encode_slice(&v[..h])?;
                        for x in &v[h..] {
                            x.encode(s.encode_next()?)?;
                        }
                        Ok(())
                    }),
                    3 => {
                        let mut s = e.encode_sequence(v.len())?;
                        if let Option::Some((x, v)) = v.split_first() {
                            s.push(x)?;
                            s.encode_slices([&v[..h], &v[h..]])?;
                        }
                        s.finish_sequence()
                    }
                    _ => {
                        let mut s = e.encode_sequence(v.len())?;
                        for x in v {
                            s.push(x)?;
                        }
                        s.finish_sequence()
                    }
                }
            }
            Map(v) => match way(v.iter().map(|x| &x.1)) % 5 {
                0 => {
                    let mut m = e.encode_map(v.len())?;
                    for (i, (k, x)) in v.iter().enumerate() {
                        if i % 2 == 0 {
                            m.insert_entry(k, x)?;
                        } else {
                            let mut en = m.encode_entry()?;
                            k.encode(en.encode_key()?)?;
                            x.encode(en.encode_value()?)?;
                            en.finish_entry()?;
                        }
                    }
                    m.finish_map()
                }
                1 => e.encode_map_fn(v.len(), |m| {
                    for (k, x) in v {
                        m.encode_entry_fn(|en| {
                            k.encode(en.encode_key()?)?;
                            en.encode_value()?.encode(x)?;
                            Ok(())
                        })?;
                    }
                    Ok(())
                }),
                2 => {
                    // What is written into the map of another.
                    let mut m = e.encode_map(v.len())?;
                    let (a, b) = v.split_at(v.len() / 2);
                    for (k, x) in a {
                        m.insert_entry(k, x)?;
                    }
                    m.as_encoder().encode_map_fn(b.len(), |m| {
                        for (k, x) in b {
                            m.insert_entry(k, x)?;
                        }
                        Ok(())
                    })?;
                    m.finish_map()
                }
                _ => {
                    let mut m = e.encode_map_entries(v.len())?;
                    for (i, (k, x)) in v.iter().enumerate() {
                        if i % 2 == 0 {
                            m.insert_entry(k, x)?;
                        } else {
                            k.encode(m.encode_entry_key()?)?;
                            x.encode(m.encode_entry_value()?)?;
                        }
                    }
                    m.finish_entries()
                }
            },
            Variant(t, d) => match &**d {
                Empty if t.nodes() % 2 == 1 => e.encode_unit_variant(t),
                Seq(v) if v.len() % 2 == 0 => {
                    let mut s = e.encode_sequence_variant(t, v.len())?;
                    for x in v {
                        s.push(x)?;
                    }
                    s.finish_sequence()
                }
                Map(v) if v.len() % 2 == 0 => {
                    let mut s = e.encode_map_variant(t, v.len())?;
                    for (k, x) in v {
                        s.insert_entry(k, x)?;
                    }
                    s.finish_map()
                }
                _ => match way([&**d]) % 3 {
                    0 => {
                        let mut v = e.encode_variant()?;
                        t.encode(v.encode_tag()?)?;
                        d.encode(v.encode_data()?)?;
                        v.finish_variant()
                    }
                    1 => e.encode_variant_fn(|v| {
                        v.encode_tag()?.encode(t)?;
                        v.encode_data()?.encode(d)?;
                        Ok(())
                    }),
                    _ => e.encode_variant()?.insert_variant(t, d),
                },
            },
            Pack(v) => match way(v) % 3 {
                0 => e.encode_pack_fn(|s| {
                    for x in v {
                        x.encode(s.encode_next()?)?;
                    }
                    Ok(())
                }),
                1 => {
                    let mut s = e.encode_pack()?;
                    let h = v.len() / 2;
                    s.encode_slice(&v[..h])?;
                    s.encode_slices([&v[h..]])?;
                    s.finish_sequence()
                }
                _ => {
                    let mut s = e.encode_pack()?;
                    for x in v {
                        s.push(x)?;
                    }
                    s.finish_sequence()
                }
            },
        }
    }
    fn as_encode(&self) -> &Self {
        self
    }
}

/// A number to choose by how something is written.
fn way<'a>(v: impl IntoIterator<Item = &'a Shape>) -> usize {
    let mut n = 7usize;
    for x in v {
        let m = match x {
            Bool(x) => *x as usize,
            U8(x) => *x as usize,
            I8(x) => *x as usize,
            U16(x) => *x as usize,
            I32(x) => *x as usize,
            F64(x) => *x as usize,
            U64(x) => *x as usize,
            Str(x) => x.len() + 11,
            Bytes(x) => x.len() + 5,
            x => x.nodes(),
        };
        n = n.wrapping_mul(31).wrapping_add(m);
    }
    // The same on machines of 32 bits.
    (n as u32).wrapping_mul(2654435769) as usize >> 20
}

struct Pieces<'a>(&'a str);
impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        use std::fmt::Write;
        let mut mid = self.0.len() / 2;
        while !self.0.is_char_boundary(mid) {
            mid += 1;
        }
        f.write_str(&self.0[..mid])?;
        for c in self.0[mid..].chars() {
            f.write_char(c)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------
// Reference layouts
// ---------------------------------------------------------------------------

#[derive(Clone, Copy)]
pub struct Lay {
    pub var: bool,
    pub le: bool,
    /// Bytes of a fixed-width length, 0 for variable.
    pub len: usize,
}

impl Lay {
    pub const DEF: Lay = Lay { var: true, le: true, len: 0 };
}

pub fn leb(out: &mut Vec<u8>, mut v: u128) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn fixed(out: &mut Vec<u8>, v: u128, n: usize, le: bool) {
    let b = v.to_le_bytes();
    if le {
        out.extend_from_slice(&b[..n]);
    } else {
        out.extend(b[..n].iter().rev());
    }
}
pub fn zig(v: i128) -> u128 {
    if v >= 0 {
        (v as u128) * 2
    } else {
        (-(v + 1)) as u128 * 2 + 1
    }
}
/// `Err` when the length does not fit the configured width.
fn usz(out: &mut Vec<u8>, v: usize, o: Lay) -> Result<(), ()> {
    if o.len == 0 {
        leb(out, v as u128);
    } else {
        if o.len < 8 && v >> (8 * o.len) != 0 {
            return Err(());
        }
        fixed(out, v as u128, o.len, o.le);
    }
    Ok(())
}

pub fn reference(kind: Kind, v: &Shape, o: Lay) -> Result<Vec<u8>, ()> {
    let mut out = Vec::new();
    match kind {
        Kind::Storage => storage(&mut out, v, o, false)?,
        Kind::Packed => storage(&mut out, v, o, true)?,
        Kind::Wire => wire(&mut out, v, o)?,
        Kind::Descriptive => desc(&mut out, v, o)?,
        Kind::Json => unreachable!(),
    }
    Ok(out)
}

fn storage(out: &mut Vec<u8>, v: &Shape, o: Lay, pack: bool) -> Result<(), ()> {
    let uns = |out: &mut Vec<u8>, v: u128, n: usize| if o.var { leb(out, v) } else { fixed(out, v, n, o.le) };
    let sig = |out: &mut Vec<u8>, v: i128, n: usize| if o.var { leb(out, zig(v)) } else { fixed(out, v as u128, n, o.le) };
    match v {
        Empty => usz(out, 0, o)?,
        Bool(v) => out.push(*v as u8),
        Char(v) => uns(out, *v as u128, 4),
        U8(v) => out.push(*v),
        I8(v) => out.push(*v as u8),
        U16(v) => uns(out, *v as u128, 2),
        U32(v) => uns(out, *v as u128, 4),
        U64(v) => uns(out, *v as u128, 8),
        U128(v) => uns(out, *v, 16),
        I16(v) => sig(out, *v as i128, 2),
        I32(v) => sig(out, *v as i128, 4),
        I64(v) => sig(out, *v as i128, 8),
        I128(v) => sig(out, *v, 16),
        F32(v) => uns(out, *v as u128, 4),
        F64(v) => uns(out, *v as u128, 8),
        Usize(v) => usz(out, *v, o)?,
        Isize(v) => usz(out, *v as usize, o)?,
        Str(s) => {
            usz(out, s.len(), o)?;
            out.extend_from_slice(s.as_bytes());
        }
        Bytes(s) => {
            usz(out, s.len(), o)?;
            out.extend_from_slice(s);
        }
        Array(s) => out.extend_from_slice(s),
        None => {
            if !pack {
                out.push(0)
            }
        }
        Some(v) => {
            if !pack {
                out.push(1);
            }
            storage(out, v, o, pack)?;
        }
        Seq(v) => {
            usz(out, v.len(), o)?;
            for x in v {
                storage(out, x, o, pack)?;
            }
        }
        Map(v) => {
            usz(out, v.len(), o)?;
            for (k, x) in v {
                storage(out, k, o, pack)?;
                storage(out, x, o, pack)?;
            }
        }
        Variant(t, d) => {
            storage(out, t, o, pack)?;
            storage(out, d, o, pack)?;
        }
        Pack(v) => {
            for x in v {
                storage(out, x, o, true)?;
            }
        }
    }
    Ok(())
}

fn prefixed(out: &mut Vec<u8>, kind: u8, max: usize, n: usize, o: Lay) -> Result<(), ()> {
    if n < max {
        out.push(kind | n as u8);
        Ok(())
    } else {
        out.push(kind | max as u8);
        usz(out, n, o)
    }
}

fn wire(out: &mut Vec<u8>, v: &Shape, o: Lay) -> Result<(), ()> {
    const PREFIX: u8 = 0x40;
    const SEQ: u8 = 0x80;
    const CONT: u8 = 0xc0;
    let small = |out: &mut Vec<u8>, v: u128| {
        if v < 63 {
            out.push(CONT | v as u8)
        } else {
            out.push(CONT | 63);
            leb(out, v)
        }
    };
    let uns = |out: &mut Vec<u8>, v: u128, n: usize| {
        if o.var {
            small(out, v)
        } else {
            out.push(PREFIX | n as u8);
            fixed(out, v, n, o.le)
        }
    };
    let us = |out: &mut Vec<u8>, v: usize| {
        if o.len == 0 {
            small(out, v as u128);
            Ok(())
        } else {
            out.push(PREFIX | o.len as u8);
            usz(out, v, o)
        }
    };
    match v {
        Empty => out.push(SEQ),
        Bool(v) => out.push(CONT | *v as u8),
        Char(v) => uns(out, *v as u128, 4),
        U8(v) => uns(out, *v as u128, 1),
        I8(v) => uns(out, *v as u8 as u128, 1),
        U16(v) => uns(out, *v as u128, 2),
        U32(v) => uns(out, *v as u128, 4),
        U64(v) => uns(out, *v as u128, 8),
        U128(v) => uns(out, *v, 16),
        I16(v) => uns(out, zig(*v as i128), 2),
        I32(v) => uns(out, zig(*v as i128), 4),
        I64(v) => uns(out, zig(*v as i128), 8),
        I128(v) => uns(out, zig(*v), 16),
        F32(v) => uns(out, *v as u128, 4),
        F64(v) => uns(out, *v as u128, 8),
        Usize(v) => us(out, *v)?,
        Isize(v) => us(out, *v as usize)?,
        Str(s) => {
            prefixed(out, PREFIX, 63, s.len(), o)?;
            out.extend_from_slice(s.as_bytes());
        }
        Bytes(s) => {
            prefixed(out, PREFIX, 63, s.len(), o)?;
            out.extend_from_slice(s);
        }
        Array(s) => {
            prefixed(out, PREFIX, 63, s.len(), o)?;
            out.extend_from_slice(s);
        }
        None => out.push(SEQ),
        Some(v) => {
            out.push(SEQ | 1);
            wire(out, v, o)?;
        }
        Seq(v) => {
            prefixed(out, SEQ, 63, v.len(), o)?;
            for x in v {
                wire(out, x, o)?;
            }
        }
        Map(v) => {
            prefixed(out, SEQ, 63, v.len() * 2, o)?;
            for (k, x) in v {
                wire(out, k, o)?;
                wire(out, x, o)?;
            }
        }
        Variant(t, d) => {
            out.push(SEQ | 2);
            wire(out, t, o)?;
            wire(out, d, o)?;
        }
        Pack(v) => {
            let mut b = Vec::new();
            for x in v {
                storage(&mut b, x, o, true)?;
            }
            prefixed(out, PREFIX, 63, b.len(), o)?;
            out.extend_from_slice(&b);
        }
    }
    Ok(())
}

fn desc(out: &mut Vec<u8>, v: &Shape, o: Lay) -> Result<(), ()> {
    const NUMBER: u8 = 0b010_00000;
    const SEQ: u8 = 0b011_00000;
    const MAP: u8 = 0b100_00000;
    const BYTES: u8 = 0b101_00000;
    const STRING: u8 = 0b110_00000;
    const MARK: u8 = 0b111_00000;
    // Width code (3..=7) and kind: 0 signed, 1 unsigned, 2 float.
    let num = |out: &mut Vec<u8>, w: u8, k: u8, v: u128| {
        out.push(NUMBER | w << 2 | k);
        leb(out, v);
    };
    match v {
        Empty => out.push(MARK | 6),
        Bool(v) => out.push(MARK | if *v { 2 } else { 3 }),
        Char(v) => {
            out.push(MARK | 5);
            leb(out, *v as u128);
        }
        U8(v) => num(out, 3, 1, *v as u128),
        U16(v) => num(out, 4, 1, *v as u128),
        U32(v) => num(out, 5, 1, *v as u128),
        U64(v) => num(out, 6, 1, *v as u128),
        U128(v) => num(out, 7, 1, *v),
        I8(v) => num(out, 3, 0, zig(*v as i128)),
        I16(v) => num(out, 4, 0, zig(*v as i128)),
        I32(v) => num(out, 5, 0, zig(*v as i128)),
        I64(v) => num(out, 6, 0, zig(*v as i128)),
        I128(v) => num(out, 7, 0, zig(*v)),
        F32(v) => num(out, 5, 2, *v as u128),
        F64(v) => num(out, 6, 2, *v as u128),
        Usize(v) => num(out, 6, 1, *v as u128),
        Isize(v) => num(out, 6, 0, zig(*v as i128)),
        Str(s) => {
            prefixed(out, STRING, 31, s.len(), o)?;
            out.extend_from_slice(s.as_bytes());
        }
        Bytes(s) => {
            prefixed(out, BYTES, 31, s.len(), o)?;
            out.extend_from_slice(s);
        }
        Array(s) => {
            prefixed(out, BYTES, 31, s.len(), o)?;
            out.extend_from_slice(s);
        }
        None => out.push(MARK),
        Some(v) => {
            out.push(MARK | 1);
            desc(out, v, o)?;
        }
        Seq(v) => {
            prefixed(out, SEQ, 31, v.len(), o)?;
            for x in v {
                desc(out, x, o)?;
            }
        }
        Map(v) => {
            prefixed(out, MAP, 31, v.len(), o)?;
            for (k, x) in v {
                desc(out, k, o)?;
                desc(out, x, o)?;
            }
        }
        Variant(t, d) => {
            out.push(MARK | 4);
            desc(out, t, o)?;
            desc(out, d, o)?;
        }
        Pack(v) => {
            let mut b = Vec::new();
            for x in v {
                storage(&mut b, x, o, true)?;
            }
            prefixed(out, BYTES, 31, b.len(), o)?;
            out.extend_from_slice(&b);
        }
    }
    Ok(())
}

/// The layout the options describe (decoded from the documented bit layout of the builder's arguments).
pub fn lay(var: bool, le: bool, len: usize) -> Lay {
    Lay { var, le, len }
}
pub const DEFAULT_OPT: Options = O_DEF;

// ---------------------------------------------------------------------------
// Walking decoder
// ---------------------------------------------------------------------------

/// What the walker does at each container.
#[derive(Clone)]
pub struct Plan {
    pub rng: Rng,
    /// Out of 16: chance to stop early, and to skip an element.
    pub stop: usize,
    pub skip: usize,
    pub stops: u64,
    pub skips: u64,
    pub mismatch: Option<String>,
    /// Out of 16: chance to let the data say what it is, if the format can.
    pub any: usize,
    pub visits: u64,
    /// Lengths which were announced.
    pub hints: u64,
    /// Maps whose last entries were read as the rest of it.
    pub rest: u64,
    /// What is visited is the text of JSON, whose keys are text.
    pub json: bool,
}

impl Plan {
    pub fn new(rng: Rng, stop: usize, skip: usize) -> Self {
        Plan { rng, stop, skip, stops: 0, skips: 0, mismatch: Option::None, any: 0, visits: 0, hints: 0, rest: 0, json: false }
    }
    fn stop(&mut self) -> bool {
        let x = self.rng.chance(self.stop, 16);
        self.stops += x as u64;
        x
    }
    fn skip(&mut self) -> bool {
        let x = self.rng.chance(self.skip, 16);
        self.skips += x as u64;
        x
    }
    fn differ(&mut self, m: String) {
        if self.mismatch.is_none() {
            self.mismatch = Option::Some(m);
        }
    }
}

macro_rules! leaf {
    ($p:ident, $v:ident, $got:expr, $eq:expr) => {{
        let got = $got;
        let eq: &dyn Fn(&_) -> bool = &$eq;
        if !eq(&got) {
            $p.differ(format!("{:?} was read as {:?}", $v, got));
        }
        Ok(())
    }};
}

/// Decode what `v` describes and compare, skipping and stopping as planned.
pub fn walk<'de, D: Decoder<'de>>(d: D, v: &Shape, p: &mut Plan, in_pack: bool) -> Result<(), D::Error> {
    let cx = d.cx();
    if p.any != 0 && !in_pack && (p.json || !matches!(v, Pack(_))) && p.rng.chance(p.any, 16) {
        if p.json {
            let v = as_json(v);
            return d.decode_any(AnyVisit { v: &v, p });
        }
        return d.decode_any(AnyVisit { v, p });
    }
    match v {
        Empty => d.decode_empty(),
        Bool(x) => leaf!(p, v, d.decode_bool()?, |g: &bool| g == x),
        Char(x) => leaf!(p, v, d.decode_char()?, |g: &char| g == x),
        U8(x) => leaf!(p, v, d.decode_u8()?, |g: &u8| g == x),
        U16(x) => leaf!(p, v, d.decode_u16()?, |g: &u16| g == x),
        U32(x) => leaf!(p, v, d.decode_u32()?, |g: &u32| g == x),
        U64(x) => leaf!(p, v, d.decode_u64()?, |g: &u64| g == x),
        U128(x) => leaf!(p, v, d.decode_u128()?, |g: &u128| g == x),
        I8(x) => leaf!(p, v, d.decode_i8()?, |g: &i8| g == x),
        I16(x) => leaf!(p, v, d.decode_i16()?, |g: &i16| g == x),
        I32(x) => leaf!(p, v, d.decode_i32()?, |g: &i32| g == x),
        I64(x) => leaf!(p, v, d.decode_i64()?, |g: &i64| g == x),
        I128(x) => leaf!(p, v, d.decode_i128()?, |g: &i128| g == x),
        F32(x) => leaf!(p, v, d.decode_f32()?, |g: &f32| g.to_bits() == *x),
        F64(x) => leaf!(p, v, d.decode_f64()?, |g: &f64| g.to_bits() == *x),
        Usize(x) => leaf!(p, v, d.decode_usize()?, |g: &usize| g == x),
        Isize(x) => leaf!(p, v, d.decode_isize()?, |g: &isize| g == x),
        Str(x) => {
            let got = d.decode_unsized(|s: &str| Ok(s.to_string()))?;
            leaf!(p, v, got, |g: &String| g == x)
        }
        Bytes(x) => {
            let got = d.decode_unsized_bytes(|s: &[u8]| Ok(s.to_vec()))?;
            leaf!(p, v, got, |g: &Vec<u8>| g == x)
        }
        Array(x) => leaf!(p, v, d.decode_array::<4>()?, |g: &[u8; 4]| g == x),
        None => {
            if d.decode_option()?.is_some() {
                p.differ("None was read as present".into());
                return Err(cx.message("walk: option present"));
            }
            Ok(())
        }
        Some(x) => match d.decode_option()? {
            Option::Some(d) => walk(d, x, p, in_pack),
            Option::None => {
                p.differ(format!("{v:?} was read as absent"));
                Ok(())
            }
        },
        Seq(xs) => match p.rng.below(3) {
            // A wrong hint isn't allowed.
            0 => d.decode_sequence_hint(xs.len(), |s| walk_seq(s, xs, p)),
            1 => d.decode_sequence_hint(Option::<usize>::None, |s| walk_seq(s, xs, p)),
            _ => d.decode_sequence(|s| walk_seq(s, xs, p)),
        },
        Map(xs) => match p.rng.below(5) {
            0 => d.decode_map_hint(xs.len(), |m| walk_map(m, xs, p)),
            1 => d.decode_map_hint(Option::<usize>::None, |m| walk_map(m, xs, p)),
            2 => d.decode_map(|m| walk_map(m, xs, p)),
            3 => d.decode_map_entries(|m| walk_entries(m, xs, p)),
            // The first entries one by one, and then the rest.
            _ => d.decode_map(|m| {
                let n = p.rng.below(xs.len() + 1);
                let (a, b) = xs.split_at(n);
                for (k, x) in a {
                    let Option::Some(mut e) = m.decode_entry()? else {
                        p.differ(format!("map of {} ended early", xs.len()));
                        return Ok(());
                    };
                    walk_key(e.decode_key()?, k, p)?;
                    walk(e.decode_value()?, x, p, false)?;
                }
                let mut m = m.decode_remaining_entries()?;
                walk_entries(&mut m, b, p)?;
                p.rest += 1;
                // The rest has to be ended, by whoever asked for it.
                m.end_entries()
            }),
        },
        Variant(t, x) => d.decode_variant(|m| walk_variant(m, t, x, p, in_pack)),
        Pack(xs) => {
            let stop_ok = !in_pack;
            d.decode_pack(|s| {
                for x in xs {
                    if stop_ok && p.stop() {
                        return Ok(());
                    }
                    walk_flat(s.decode_next()?, x, p)?;
                }
                Ok(())
            })
        }
    }
}

fn walk_key<'de, D: Decoder<'de>>(d: D, k: &Shape, p: &mut Plan) -> Result<(), D::Error> {
    let any = p.any;
    // In JSON a key is text, whatever it stands for.
    if p.json && !matches!(k, Str(_)) {
        p.any = 0;
    }
    let r = walk(d, k, p, false);
    p.any = any;
    r
}

fn walk_seq<'de, D: ?Sized + SequenceDecoder<'de>>(s: &mut D, xs: &[Shape], p: &mut Plan) -> Result<(), D::Error> {
    hint(p, s.size_hint(), xs.len(), "elements");
    let exact = p.rng.bool();
    for x in xs {
        if p.stop() {
            return Ok(());
        }
        let next = if exact {
            s.decode_next()?
        } else {
            match s.try_decode_next()? {
                Option::Some(n) => n,
                Option::None => {
                    p.differ(format!("sequence of {} ended early", xs.len()));
                    return Ok(());
                }
            }
        };
        if p.skip() {
            next.skip()?;
        } else {
            walk(next, x, p, false)?;
        }
    }
    if p.rng.bool() && s.try_decode_next()?.is_some() {
        p.differ(format!("sequence of {} has more elements", xs.len()));
    }
    Ok(())
}

fn walk_map<'de, D: ?Sized + MapDecoder<'de>>(m: &mut D, xs: &[(Shape, Shape)], p: &mut Plan) -> Result<(), D::Error> {
    hint(p, m.size_hint(), xs.len(), "entries");
    for (k, x) in xs {
        if p.stop() {
            return Ok(());
        }
        let mut e = match m.decode_entry()? {
            Option::Some(e) => e,
            Option::None => {
                p.differ(format!("map of {} ended early", xs.len()));
                return Ok(());
            }
        };
        if p.skip() {
            e.decode_key()?.skip()?;
        } else {
            walk_key(e.decode_key()?, k, p)?;
        }
        if p.skip() {
            e.decode_value()?.skip()?;
        } else {
            walk(e.decode_value()?, x, p, false)?;
        }
    }
    if p.rng.bool() && m.decode_entry()?.is_some() {
        p.differ(format!("map of {} has more entries", xs.len()));
        return Err(m.cx().message("walk: more entries"));
    }
    Ok(())
}

fn walk_entries<'de, D: ?Sized + EntriesDecoder<'de>>(m: &mut D, xs: &[(Shape, Shape)], p: &mut Plan) -> Result<(), D::Error> {
    for (k, x) in xs {
        if p.stop() {
            return Ok(());
        }
        let kd = match m.decode_entry_key()? {
            Option::Some(e) => e,
            Option::None => {
                p.differ(format!("map of {} ended early", xs.len()));
                return Ok(());
            }
        };
        if p.skip() {
            kd.skip()?;
        } else {
            walk_key(kd, k, p)?;
        }
        let vd = m.decode_entry_value()?;
        if p.skip() {
            vd.skip()?;
        } else {
            walk(vd, x, p, false)?;
        }
    }
    if p.rng.bool() && m.decode_entry_key()?.is_some() {
        p.differ(format!("map of {} has more entries", xs.len()));
        return Err(m.cx().message("walk: more entries"));
    }
    Ok(())
}

fn walk_variant<'de, D: ?Sized + VariantDecoder<'de>>(m: &mut D, t: &Shape, x: &Shape, p: &mut Plan, in_pack: bool) -> Result<(), D::Error> {
    if p.skip() {
        m.decode_tag()?.skip()?;
    } else {
        walk_key(m.decode_tag()?, t, p)?;
    }
    if p.skip() {
        m.decode_value()?.skip()
    } else {
        walk(m.decode_value()?, x, p, in_pack)
    }
}

/// Elements of a pack are scalars (no skipping in storage).
fn walk_flat<'de, D: Decoder<'de>>(d: D, v: &Shape, p: &mut Plan) -> Result<(), D::Error> {
    let (a, b) = (p.stop, p.skip);
    p.stop = 0;
    p.skip = 0;
    let r = match v {
        Seq(_) | Map(_) | Variant(..) | Some(_) | None | Pack(_) => Err(d.cx().message("walk: unsupported in a pack")),
        _ => walk_scalar(d, v, p),
    };
    p.stop = a;
    p.skip = b;
    r
}

fn walk_scalar<'de, D: Decoder<'de>>(d: D, v: &Shape, p: &mut Plan) -> Result<(), D::Error> {
    match v {
        Empty => d.decode_empty(),
        Bool(x) => leaf!(p, v, d.decode_bool()?, |g: &bool| g == x),
        Char(x) => leaf!(p, v, d.decode_char()?, |g: &char| g == x),
        U8(x) => leaf!(p, v, d.decode_u8()?, |g: &u8| g == x),
        U16(x) => leaf!(p, v, d.decode_u16()?, |g: &u16| g == x),
        U32(x) => leaf!(p, v, d.decode_u32()?, |g: &u32| g == x),
        U64(x) => leaf!(p, v, d.decode_u64()?, |g: &u64| g == x),
        U128(x) => leaf!(p, v, d.decode_u128()?, |g: &u128| g == x),
        I8(x) => leaf!(p, v, d.decode_i8()?, |g: &i8| g == x),
        I16(x) => leaf!(p, v, d.decode_i16()?, |g: &i16| g == x),
        I32(x) => leaf!(p, v, d.decode_i32()?, |g: &i32| g == x),
        I64(x) => leaf!(p, v, d.decode_i64()?, |g: &i64| g == x),
        I128(x) => leaf!(p, v, d.decode_i128()?, |g: &i128| g == x),
        F32(x) => leaf!(p, v, d.decode_f32()?, |g: &f32| g.to_bits() == *x),
        F64(x) => leaf!(p, v, d.decode_f64()?, |g: &f64| g.to_bits() == *x),
        Usize(x) => leaf!(p, v, d.decode_usize()?, |g: &usize| g == x),
        Isize(x) => leaf!(p, v, d.decode_isize()?, |g: &isize| g == x),
        Str(x) => {
            let got = d.decode_unsized(|s: &str| Ok(s.to_string()))?;
            leaf!(p, v, got, |g: &String| g == x)
        }
        Bytes(x) => {
            let got = d.decode_unsized_bytes(|s: &[u8]| Ok(s.to_vec()))?;
            leaf!(p, v, got, |g: &Vec<u8>| g == x)
        }
        Array(x) => leaf!(p, v, d.decode_array::<4>()?, |g: &[u8; 4]| g == x),
        _ => unreachable!(),
    }
}

thread_local! {
    /// Shapes the next `Walk` values decode, in order, and the plan.
    pub static WALK: RefCell<Option<(Vec<Shape>, usize, Plan)>> = const { RefCell::new(Option::None) };
}

/// A type whose decoder walks the next queued shape.
#[derive(Debug, PartialEq)]
pub struct Walk;

impl<'de, M: 'static, A: musli::Allocator> Decode<'de, M, A> for Walk {
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let (shape, mut plan) = WALK.with(|w| {
            let mut w = w.borrow_mut();
            let (shapes, at, plan) = w.as_mut().unwrap();
            let s = shapes[*at % shapes.len()].clone();
            *at += 1;
            (s, plan.clone())
        });
        let r = walk(d, &shape, &mut plan, false);
        WALK.with(|w| w.borrow_mut().as_mut().unwrap().2 = plan);
        r.map(|_| Walk)
    }
}

/// Run `f` with `shapes` queued for `Walk`; returns the plan as it ended.
pub fn with_walk<T>(shapes: Vec<Shape>, plan: Plan, f: impl FnOnce() -> T) -> (T, Plan) {
    WALK.with(|w| *w.borrow_mut() = Option::Some((shapes, 0, plan)));
    let r = f();
    let plan = WALK.with(|w| w.borrow_mut().take().unwrap().2);
    (r, plan)
}

impl Shape {
    /// Whether a pack stands anywhere inside.
    pub fn has_pack(&self) -> bool {
        match self {
            Pack(_) => true,
            Some(v) => v.has_pack(),
            Seq(v) => v.iter().any(Shape::has_pack),
            Map(v) => v.iter().any(|(k, v)| k.has_pack() || v.has_pack()),
            Variant(t, v) => t.has_pack() || v.has_pack(),
            _ => false,
        }
    }
}

// --- reading without a type ------------------------------------------------------

/// A number which was visited.
#[derive(Debug, Clone, Copy)]
enum Num {
    U(u128),
    I(i128),
    F32(f32),
    F64(f64),
}

fn same_number(v: &Shape, got: Num, json: bool) -> bool {
    let int = |want: Num| match (want, got) {
        (Num::U(a), Num::U(b)) => a == b,
        (Num::I(a), Num::I(b)) => a == b,
        (Num::U(a), Num::I(b)) | (Num::I(b), Num::U(a)) => b >= 0 && b as u128 == a,
        _ => false,
    };
    // Text doesn't tell how wide a number is.
    let float = |x: f64| match got {
        Num::U(n) => n as f64 == x,
        Num::I(n) => n as f64 == x,
        Num::F32(n) => n as f64 == x,
        Num::F64(n) => n == x,
    };
    match v {
        U8(x) => int(Num::U(*x as u128)),
        U16(x) => int(Num::U(*x as u128)),
        U32(x) => int(Num::U(*x as u128)),
        U64(x) => int(Num::U(*x as u128)),
        U128(x) => int(Num::U(*x)),
        Usize(x) => int(Num::U(*x as u128)),
        I8(x) => int(Num::I(*x as i128)),
        I16(x) => int(Num::I(*x as i128)),
        I32(x) => int(Num::I(*x as i128)),
        I64(x) => int(Num::I(*x as i128)),
        I128(x) => int(Num::I(*x)),
        Isize(x) => int(Num::I(*x as i128)),
        F32(x) => match got {
            Num::F32(n) => n.to_bits() == *x,
            Num::F64(n) => json && n as f32 == f32::from_bits(*x),
            Num::U(n) => json && n as f32 == f32::from_bits(*x),
            Num::I(n) => json && n as f32 == f32::from_bits(*x),
        },
        F64(x) => match got {
            Num::F64(n) => n.to_bits() == *x || (json && n == f64::from_bits(*x)),
            _ => json && float(f64::from_bits(*x)),
        },
        _ => false,
    }
}

/// What is visited for a shape, in JSON.
fn as_json(v: &Shape) -> std::borrow::Cow<'_, Shape> {
    use std::borrow::Cow;
    let row = |b: &[u8]| Cow::Owned(Seq(b.iter().map(|b| U8(*b)).collect()));
    match v {
        Char(c) => Cow::Owned(Str(c.to_string())),
        Bytes(b) => row(b),
        Array(b) => row(b),
        Pack(xs) => Cow::Owned(Seq(xs.clone())),
        Variant(t, x) => Cow::Owned(Map(vec![((**t).clone(), (**x).clone())])),
        None => Cow::Owned(Empty),
        Some(x) => as_json(x),
        F32(x) if !f32::from_bits(*x).is_finite() => Cow::Owned(Empty),
        F64(x) if !f64::from_bits(*x).is_finite() => Cow::Owned(Empty),
        v => Cow::Borrowed(v),
    }
}

struct AnyVisit<'a> {
    v: &'a Shape,
    p: &'a mut Plan,
}

impl AnyVisit<'_> {
    fn number<E>(self, n: Num) -> Result<(), E> {
        if !same_number(self.v, n, self.p.json) {
            self.p.differ(format!("{:?} was visited as the number {n:?}", self.v));
        }
        self.p.visits += 1;
        Ok(())
    }
    fn leaf<E>(self, ok: bool, what: &str) -> Result<(), E> {
        if !ok {
            self.p.differ(format!("{:?} was visited as {what}", self.v));
        }
        self.p.visits += 1;
        Ok(())
    }
}

fn hint(p: &mut Plan, h: musli::de::SizeHint, n: usize, what: &str) {
    if let Option::Some(h) = h.into_option() {
        if h != n {
            p.differ(format!("{n} {what} are announced as {h}"));
        }
        p.hints += 1;
    }
}

#[musli::de::visitor]
impl<'de, C: musli::Context> musli::de::Visitor<'de, C> for AnyVisit<'_> {
    type Ok = ();
    type String = Self;
    type Bytes = Self;

    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.v)
    }
    fn visit_empty(self, _: C) -> Result<(), Self::Error> {
        let ok = matches!(self.v, Empty);
        self.leaf(ok, "nothing")
    }
    fn visit_bool(self, _: C, b: bool) -> Result<(), Self::Error> {
        let ok = matches!(self.v, Bool(x) if *x == b);
        self.leaf(ok, &format!("{b}"))
    }
    fn visit_char(self, _: C, c: char) -> Result<(), Self::Error> {
        let ok = matches!(self.v, Char(x) if *x == c);
        self.leaf(ok, &format!("{c:?}"))
    }
    fn visit_u8(self, _: C, n: u8) -> Result<(), Self::Error> {
        self.number(Num::U(n as u128))
    }
    fn visit_u16(self, _: C, n: u16) -> Result<(), Self::Error> {
        self.number(Num::U(n as u128))
    }
    fn visit_u32(self, _: C, n: u32) -> Result<(), Self::Error> {
        self.number(Num::U(n as u128))
    }
    fn visit_u64(self, _: C, n: u64) -> Result<(), Self::Error> {
        self.number(Num::U(n as u128))
    }
    fn visit_u128(self, _: C, n: u128) -> Result<(), Self::Error> {
        self.number(Num::U(n))
    }
    fn visit_usize(self, _: C, n: usize) -> Result<(), Self::Error> {
        self.number(Num::U(n as u128))
    }
    fn visit_i8(self, _: C, n: i8) -> Result<(), Self::Error> {
        self.number(Num::I(n as i128))
    }
    fn visit_i16(self, _: C, n: i16) -> Result<(), Self::Error> {
        self.number(Num::I(n as i128))
    }
    fn visit_i32(self, _: C, n: i32) -> Result<(), Self::Error> {
        self.number(Num::I(n as i128))
    }
    fn visit_i64(self, _: C, n: i64) -> Result<(), Self::Error> {
        self.number(Num::I(n as i128))
    }
    fn visit_i128(self, _: C, n: i128) -> Result<(), Self::Error> {
        self.number(Num::I(n))
    }
    fn visit_isize(self, _: C, n: isize) -> Result<(), Self::Error> {
        self.number(Num::I(n as i128))
    }
    fn visit_f32(self, _: C, n: f32) -> Result<(), Self::Error> {
        self.number(Num::F32(n))
    }
    fn visit_f64(self, _: C, n: f64) -> Result<(), Self::Error> {
        self.number(Num::F64(n))
    }
    fn visit_none(self, _: C) -> Result<(), Self::Error> {
        let ok = matches!(self.v, None);
        self.leaf(ok, "absent")
    }
    fn visit_some<D>(self, d: D) -> Result<(), Self::Error>
    where
        D: Decoder<'de, Cx = C, Error = C::Error, Allocator = C::Allocator>,
    {
        self.p.visits += 1;
        match self.v {
            Some(x) => walk(d, x, self.p, false),
            _ => {
                self.p.differ(format!("{:?} was visited as present", self.v));
                d.skip()
            }
        }
    }
    fn visit_sequence<D>(self, s: &mut D) -> Result<(), Self::Error>
    where
        D: ?Sized + SequenceDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        self.p.visits += 1;
        match self.v {
            Seq(xs) => walk_seq(s, xs, self.p),
            _ => self.leaf(false, "a sequence"),
        }
    }
    fn visit_map<D>(self, m: &mut D) -> Result<(), Self::Error>
    where
        D: ?Sized + MapDecoder<'de, Cx = C, Error = Self::Error, Allocator = Self::Allocator>,
    {
        self.p.visits += 1;
        match self.v {
            Map(xs) => walk_map(m, xs, self.p),
            _ => self.leaf(false, "a map"),
        }
    }
    fn visit_string(self, _: C, h: musli::de::SizeHint) -> Result<Self::String, Self::Error> {
        if let Str(s) = self.v {
            hint(self.p, h, s.len(), "bytes of text");
        }
        Ok(self)
    }
    fn visit_bytes(self, _: C, h: musli::de::SizeHint) -> Result<Self::Bytes, Self::Error> {
        match self.v {
            Bytes(s) => hint(self.p, h, s.len(), "bytes"),
            Array(s) => hint(self.p, h, s.len(), "bytes"),
            _ => {}
        }
        Ok(self)
    }
    fn visit_variant<D>(self, d: &mut D) -> Result<(), Self::Error>
    where
        D: ?Sized + musli::de::VariantDecoder<'de, Cx = C, Error = C::Error, Allocator = C::Allocator>,
    {
        self.p.visits += 1;
        match self.v {
            Variant(t, x) => walk_variant(d, t, x, self.p, false),
            _ => self.leaf(false, "a variant"),
        }
    }
}

#[musli::de::unsized_visitor]
impl<C: musli::Context> musli::de::UnsizedVisitor<'_, C, str> for AnyVisit<'_> {
    type Ok = ();
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.v)
    }
    fn visit_ref(self, _: C, s: &str) -> Result<(), Self::Error> {
        let ok = matches!(self.v, Str(x) if x == s);
        self.leaf(ok, &format!("{s:?}"))
    }
}
#[musli::de::unsized_visitor]
impl<C: musli::Context> musli::de::UnsizedVisitor<'_, C, [u8]> for AnyVisit<'_> {
    type Ok = ();
    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.v)
    }
    fn visit_ref(self, _: C, s: &[u8]) -> Result<(), Self::Error> {
        let ok = match self.v {
            Bytes(x) => x == s,
            Array(x) => x == s,
            _ => false,
        };
        self.leaf(ok, &format!("the bytes {s:?}"))
    }
}
