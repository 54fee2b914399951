//! F06: every sink and allocator receives the same bytes, within bounds.
use musli::alloc::{Disabled, Slice, System};
use musli::{Encode, FixedBytes};
use std::io::{self, ErrorKind, Write};
use vh::model::*;
use vh::rng::Rng;
use vh::rt::{Case, Groups, R};
use vh::shape::{self, Cfg};
use vh::{ensure, fail};

/// A writer which takes a few bytes at a time and fails at a given point.
struct Faulty<'a> {
    got: Vec<u8>,
    r: &'a mut Rng,
    /// Bytes accepted before `end` happens.
    left: usize,
    end: End,
    max: usize,
    interrupt: bool,
    flushed: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Never,
    Error,
    Zero,
}
impl Write for Faulty<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupt && self.r.chance(1, 3) {
            return Err(ErrorKind::Interrupted.into());
        }
        if self.end != End::Never && self.left == 0 {
            return match self.end {
                End::Zero => Ok(0),
                _ => Err(io::Error::other("the disk is full")),
            };
        }
        let n = b.len().min(self.max).min(if self.end == End::Never { usize::MAX } else { self.left });
        self.got.extend_from_slice(&b[..n]);
        self.left = self.left.saturating_sub(n);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed += 1;
        Ok(())
    }
}

fn slices(c: &mut Case<'_>, n: usize, b: &[u8], name: &str, mut f: impl FnMut(&mut [u8]) -> Result<usize, String>) -> R {
    let mut sizes = vec![n, n + 1 + c.rng.below(20), 0, n.saturating_sub(1)];
    for _ in 0..4 {
        sizes.push(c.rng.below(n + 1));
    }
    for size in sizes {
        let mem: Vec<u8> = c.rng.bytes(size + 24);
        let mut out = mem.clone();
        let from = 8 + c.rng.below(8);
        let got = f(&mut out[from..from + size]);
        match got {
            Ok(w) => {
                ensure!(size >= n, "{name}: {n} bytes were written to a slice of {size}");
                ensure!(w == n, "{name}: {w} bytes reported instead of {n}");
                ensure!(out[from..from + n] == *b, "{name}: a slice of {size} receives {} instead of {}", hex(&out[from..from + n]), hex(b));
                ensure!(out[..from] == mem[..from] && out[from + n..] == mem[from + n..], "{name}: bytes beyond the {n} reported were changed in a slice of {size}");
                c.event("slices compared");
            }
            Err(e) => {
                ensure!(size < n, "{name}: {n} bytes do not fit in a slice of {size}: {e}");
                ensure!(out[..from] == mem[..from] && out[from + size..] == mem[from + size..], "{name}: bytes outside a slice of {size}, too small for {n}, were changed");
                c.event("slices too small refused");
            }
        }
    }
    Ok(())
}

fn fixed<const N: usize, F: Fmt, T: ?Sized + Encode<F::Mode>>(c: &mut Case<'_>, v: &T, b: &[u8]) -> R {
    let n = b.len();
    match F::to_fixed::<N, T>(v) {
        Ok(x) => {
            ensure!(n <= N, "{}: {n} bytes written to a fixed array of {N}", F::NAME);
            ensure!(x.as_slice() == b && x.len() == n && x.is_empty() == (n == 0) && x.remaining() == N - n, "{}: a fixed array of {N} receives {} instead of {}", F::NAME, hex(&x), hex(b));
            ensure!(x.into_bytes().map(|x| x.to_vec()) == (n == N).then(|| b.to_vec()), "{}: into_bytes() of a fixed array of {N} with {n} bytes", F::NAME);
            c.event("fixed arrays compared");
        }
        Err(e) => {
            ensure!(n > N, "{}: {n} bytes do not fit a fixed array of {N}: {e}", F::NAME);
            c.event("fixed arrays too small refused");
        }
    }
    // Appending to what is there.
    let had = c.rng.below(N + 1);
    let pre = c.rng.bytes(had);
    let mut x = FixedBytes::<N>::with_capacity(c.rng.below(N + 1));
    ensure!(x.extend_from_slice(&pre) && x.as_slice() == pre, "extend_from_slice on a fixed array of {N}");
    match F::encode(&mut x, v) {
        Ok(()) => {
            ensure!(had + n <= N && x[..had] == pre[..] && x[had..] == *b, "{}: appending {n} bytes to {had} in a fixed array of {N} gives {}", F::NAME, hex(&x));
            c.event("fixed arrays compared");
        }
        Err(_) => {
            ensure!(had + n > N, "{}: {n} bytes after {had} do not fit a fixed array of {N}", F::NAME);
            ensure!(x.len() <= N && x[..had] == pre[..], "{}: earlier bytes of a fixed array changed", F::NAME);
            c.event("fixed arrays too small refused");
        }
    }
    Ok(())
}

fn writers(c: &mut Case<'_>, b: &[u8], name: &str, mut f: impl FnMut(&mut Faulty<'_>) -> Result<(), String>) -> R {
    let n = b.len();
    for _ in 0..3 {
        let end = *c.rng.pick(&[End::Never, End::Error, End::Zero]);
        let left = if c.rng.chance(1, 4) { n } else { c.rng.below(n + 2) };
        let max = *c.rng.pick(&[1, 2, 3, 7, usize::MAX]);
        let interrupt = c.rng.bool();
        let mut r = Rng::new(c.rng.u64());
        let mut w = Faulty { got: Vec::new(), r: &mut r, left, end, max, interrupt, flushed: 0 };
        let got = f(&mut w);
        let fits = end == End::Never || n <= left;
        match got {
            Ok(()) => {
                ensure!(fits, "{name}: {n} bytes are reported written although the writer failed after {left} ({end:?})");
                ensure!(w.got == b, "{name}: a writer receives {} instead of {}", hex(&w.got), hex(b));
                c.event("writers compared");
            }
            Err(e) => {
                ensure!(!fits, "{name}: writing {n} bytes fails: {e}");
                ensure!(w.got == b[..left], "{name}: a writer which fails after {left} bytes received {} of {}", hex(&w.got), hex(b));
                c.event("failing writers reported");
            }
        }
    }
    Ok(())
}

fn contexts<F: Fmt, T: ?Sized + Encode<F::Mode>>(c: &mut Case<'_>, v: &T, b: &[u8]) -> R {
    let n = b.len();
    let mut at = 0;
    macro_rules! with {
        ($name:literal, $cx:expr, $may_fail:expr) => {{
            let cx = $cx;
            at += 1;
            let mut tail = vec![1u8, 2];
            let got: Result<Vec<u8>, String> = match (at + c.rng.below(4)) % 5 {
                0 => F::to_vec_with(&cx, v).map_err(|_| "fails".into()),
                1 => F::encode_with(&cx, &mut tail, v).map(|()| tail.split_off(2)).map_err(|_| "fails".into()),
                2 => {
                    let mut out = vec![0; n + 3];
                    F::to_slice_with(&cx, &mut out, v).map(|n| out[..n].to_vec()).map_err(|_| "fails".into())
                }
                3 => {
                    let mut w = Vec::new();
                    F::to_writer_with(&cx, &mut w, v).map(|()| w).map_err(|_| "fails".into())
                }
                _ if n <= 64 => F::to_fixed_with::<_, 64, T>(&cx, v).map(|x| x.to_vec()).map_err(|_| "fails".into()),
                _ => {
                    let mut w = Vec::new();
                    F::encode_with(&cx, musli::wrap::wrap(&mut w), v).map(|()| w).map_err(|_| "fails".into())
                }
            };
            match got {
                Ok(x) => {
                    ensure!(x == b, "{}: {} gives {} instead of {}", F::NAME, $name, hex(&x), hex(b));
                    c.event("allocators compared");
                }
                Err(e) => ensure!($may_fail, "{}: encoding with {} {e}", F::NAME, $name),
            }
        }};
    }
    with!("the system allocator", musli::context::new_in(System::new()), false);
    with!("the system allocator and a trace", musli::context::new_in(System::new()).with_trace().with_type(), false);
    with!("no allocator", musli::context::new_in(Disabled::new()), true);
    let mut mem = vec![0u8; 1 << 16];
    let slice = Slice::new(&mut mem[..]);
    with!("a fixed buffer", musli::context::new_in(&slice), false);
    with!("a fixed buffer in use", musli::context::new_in(&slice), false);
    with!("a fixed buffer and a trace", musli::context::new_in(&slice).with_trace(), false);
    let mut small = vec![0u8; c.rng.below(400)];
    let small = Slice::new(&mut small[..]);
    with!("a small fixed buffer", musli::context::new_in(&small), true);
    musli::alloc::default(|a| -> R {
        with!("the default allocator", musli::context::new_in(a), false);
        Ok(())
    })?;
    let _ = at;
    Ok(())
}

fn sinks<F: Fmt, T: ?Sized + Encode<F::Mode>>(c: &mut Case<'_>, v: &T) -> R {
    let Ok(b) = F::to_vec(v) else {
        // A length the width cannot express; no sink can help.
        let mut out = vec![0; 1 << 12];
        ensure!(F::to_slice(&mut out, v).is_err() && F::to_writer(io::sink(), v).is_err(), "{}: only a vector refuses", F::NAME);
        return Ok(());
    };
    let n = b.len();
    c.seen_bytes(&b);
    ensure!(F::to_vec(v).as_deref() == Ok(&b[..]), "{}: encoding twice gives different bytes", F::NAME);

    let pre_n = c.rng.below(9);
    let pre = c.rng.bytes(pre_n);
    let mut x = Vec::with_capacity(pre_n + c.rng.below(n + 2));
    x.extend_from_slice(&pre);
    match F::encode(&mut x, v) {
        Ok(()) => ensure!(x[..pre_n] == pre[..] && x[pre_n..] == b[..], "{}: appending to a vector of {pre_n} gives {} instead of {}", F::NAME, hex(&x), hex(&b)),
        Err(e) => fail!("{}: appending to a vector fails: {e}", F::NAME),
    }
    c.event("vectors compared");

    slices(c, n, &b, F::NAME, |out| F::to_slice(out, v))?;
    // The slice as a writer tells how much is left.
    slices(c, n, &b, F::NAME, |out| {
        let len = out.len();
        F::encode(out, v).map(|left| len - left)
    })?;
    let cx = musli::context::new();
    slices(c, n, &b, F::NAME, |out| F::to_slice_with(&cx, out, v).map_err(|_| "fails".to_string()))?;

    fixed::<0, F, T>(c, v, &b)?;
    fixed::<1, F, T>(c, v, &b)?;
    fixed::<5, F, T>(c, v, &b)?;
    fixed::<24, F, T>(c, v, &b)?;
    fixed::<300, F, T>(c, v, &b)?;

    writers(c, &b, F::NAME, |w| F::to_writer(w, v))?;
    writers(c, &b, F::NAME, |w| F::encode(musli::wrap::wrap(w), v))?;
    contexts::<F, T>(c, v, &b)?;

    if F::KIND == Kind::Json {
        ensure!(std::str::from_utf8(&b).is_ok(), "{}: not text: {}", F::NAME, hex(&b));
    }
    Ok(())
}

macro_rules! trees {
    ($g:ident, $($f:ident)*) => {$(
        $g.add(format!("tree {}", $f::NAME), |c| {
            let cfg = match $f::KIND {
                Kind::Json => Cfg::JSON,
                _ => Cfg { max_len: max_len($f::OPT), ..Cfg::ALL },
            };
            let v = if $f::KIND == Kind::Packed { shape::gen_pack(&mut c.rng, cfg) } else { shape::gen(&mut c.rng, cfg, 0) };
            c.sample(|| format!("{v:?}"));
            sinks::<$f, _>(c, &v)
        });
    )*};
}
macro_rules! typed {
    ($g:ident, $($f:ident)*; $t:ty) => {$(
        $g.add(format!("{} {}", stringify!($t), $f::NAME), |c| {
            let v = <$t as Gen>::gen(&mut c.rng, 0);
            sinks::<$f, $t>(c, &v)
        });
    )*};
}

fn fixed_bytes(c: &mut Case<'_>) -> R {
    const N: usize = 19;
    let mut x = FixedBytes::<N>::new();
    let mut m: Vec<u8> = Vec::new();
    for _ in 0..40 {
        match c.rng.below(5) {
            0 => {
                x.clear();
                m.clear();
            }
            1 => {
                let b = c.rng.u8();
                ensure!(x.push(b) == (m.len() < N), "push at {}", m.len());
                if m.len() < N {
                    m.push(b);
                }
            }
            2 => {
                let n = c.rng.below(N);
                let b = c.rng.bytes(n);
                ensure!(x.extend_from_slice(&b) == (m.len() + n <= N), "extend_from_slice of {n} at {}", m.len());
                if m.len() + n <= N {
                    m.extend_from_slice(&b);
                }
            }
            3 => {
                let n = c.rng.below(N);
                let b = c.rng.bytes(n);
                let cx = musli::context::new();
                ensure!(x.write_bytes(&cx, &b).is_ok() == (m.len() + n <= N), "write_bytes of {n} at {}", m.len());
                if m.len() + n <= N {
                    m.extend_from_slice(&b);
                }
            }
            _ => {
                x.as_mut_slice().reverse();
                m.reverse();
            }
        }
        ensure!(x.as_slice() == m && x.len() == m.len() && x.remaining() == N - m.len() && x.is_empty() == m.is_empty(), "a fixed array holds {} instead of {}", hex(&x), hex(&m));
    }
    ensure!(FixedBytes::<N>::with_capacity(N).remaining() == N, "with_capacity");
    c.seen_bytes(&m);
    c.event("fixed arrays used by hand");
    Ok(())
}

fn json_string(c: &mut Case<'_>) -> R {
    let v = shape::gen(&mut c.rng, Cfg::JSON, 0);
    let b = musli::json::to_vec(&v).map_err(|e| e.to_string())?;
    let s = musli::json::to_string(&v).map_err(|e| e.to_string())?;
    ensure!(s.as_bytes() == b, "to_string gives {s:?} instead of {}", hex(&b));
    let cx = musli::context::new();
    let s = musli::json::Encoding::new().to_string_with(&cx, &v).map_err(|_| "to_string_with fails")?;
    ensure!(s.as_bytes() == b, "to_string_with gives {s:?} instead of {}", hex(&b));
    c.seen_bytes(&b);
    c.event("strings compared");
    Ok(())
}

fn main() {
    let mut g = Groups::new();
    trees!(g, Storage Wire Descriptive Json Packed StorageText WireText DescriptiveText JsonBinary StorageFixed StorageFixedBe WireFixed DescriptiveFixed PackedBe);
    typed!(g, Storage Wire Descriptive Json; Everything);
    typed!(g, Storage Wire Descriptive Json Packed; (PackedS, Vec<PackedPad>, Vec<u8>, Vec<u32>));
    typed!(g, Storage Wire Descriptive Json; Strs);
    typed!(g, Storage Wire Descriptive Json; Vec<En>);
    typed!(g, StorageFixed StorageFixedBe DescriptiveFixed WireFixed Packed PackedBe; (Vec<PackedBits>, Vec<PackedBool>, [u64; 4], Vec<i128>, Vec<char>));
    g.add("fixed bytes", fixed_bytes);
    g.add("json strings", json_string);
    vh::rt::main(g);
}
