//! F11: diagnostics locate the failure and never change the outcome.
//!
//! Every leaf of a value can be made to fail when it is decoded or encoded, and
//! the path which the trace reports for it is compared with the path to that
//! leaf in the value itself, as it is rendered by an independent printer.
use musli::alloc::{Allocator, Disabled, System};
use musli::context::{self, ErrorMarker};
use musli::de::Decoder;
use musli::en::Encoder;
use musli::{Context, Decode, Encode};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt;
use vh::model::{self, hex, Fmt};
use vh::quota::{Quota, Q};
use vh::rng::Rng;
use vh::rt::{self, Case, Groups, R};
use vh::shape::{self, Shape};
use vh::{ensure, fail};

// --- poison -------------------------------------------------------------------

thread_local! {
    /// The leaf which fails, and the way in which it does.
    static POISON: Cell<(u32, u8)> = const { Cell::new((u32::MAX, 0)) };
    /// The number of leaves touched.
    static TOUCHED: Cell<u64> = const { Cell::new(0) };
}

#[derive(Debug)]
struct Poisoned(u32);
impl fmt::Display for Poisoned {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "poisoned {}", self.0)
    }
}
impl std::error::Error for Poisoned {}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Leaf(u32);
impl fmt::Display for Leaf {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "leaf{:08}", self.0)
    }
}
impl<M> Encode<M> for Leaf {
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        TOUCHED.with(|t| t.set(t.get() + 1));
        let cx = e.cx();
        let (p, how) = POISON.with(|p| p.get());
        if p == self.0 {
            return Err(match how {
                0 => cx.message(format_args!("poisoned {p}")),
                _ => cx.custom(Poisoned(p)),
            });
        }
        e.encode_string(&self.to_string())
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
impl<'de, M, A: Allocator> Decode<'de, M, A> for Leaf {
    const IS_BITWISE_DECODE: bool = false;
    fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
        let cx = d.cx();
        let start = cx.mark();
        let n = d.decode_unsized(|s: &str| match s.strip_prefix("leaf").and_then(|s| if s.len() == 8 { s.parse().ok() } else { None }) {
            Some(n) => Ok(n),
            None => Err(cx.message("not a leaf")),
        })?;
        TOUCHED.with(|t| t.set(t.get() + 1));
        let (p, how) = POISON.with(|p| p.get());
        if p == n {
            return Err(match how {
                0 => cx.message(format_args!("poisoned {p}")),
                1 => cx.message_at(&start, format_args!("poisoned {p}")),
                2 => cx.custom(Poisoned(p)),
                _ => cx.custom_at(&start, Poisoned(p)),
            });
        }
        Ok(Leaf(n))
    }
}

fn poisoned<T>(id: u32, how: u8, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            POISON.with(|p| p.set((u32::MAX, 0)));
        }
    }
    let _r = Reset;
    POISON.with(|p| p.set((id, how)));
    f()
}

// --- values -------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
enum Node {
    Nil,
    One(Leaf),
    Named {
        #[musli(Binary, name = 9)]
        #[musli(Text, name = "renamed")]
        a: Leaf,
        b: Option<Box<Node>>,
        #[musli(default, skip_encoding_if = Option::is_none)]
        c: Option<Leaf>,
    },
    #[musli(packed)]
    Packed(Leaf, Leaf),
    #[musli(transparent)]
    Wrap(Box<Node>),
    List(Vec<Node>),
    Deque { q: VecDeque<Leaf>, r: Vec<Vec<Leaf>> },
    Pair((Leaf, Node2)),
    Arr([Leaf; 3]),
    Keyed {
        #[musli(trace)]
        m: BTreeMap<Leaf, Node>,
    },
    Hashed {
        #[musli(trace)]
        m: HashMap<u32, Leaf>,
        last: Leaf,
    },
    Plain(BTreeMap<u32, Leaf>),
    St(Box<Rec>),
    Tup(Rec2, Leaf),
    Tag(Tagged),
    Adj(Adjacent),
    Un(Untagged),
}

/// A recursion through a tuple.
type Node2 = Box<Node>;

#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(name_all = "name")]
struct Rec {
    first: Leaf,
    pk: Pk,
    tr: Tr,
    rest: Vec<Pk>,
    deep: Node,
    unit: (),
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
struct Rec2(Leaf, #[musli(default)] Option<Box<Rec>>, Tr2);
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(packed)]
struct Pk {
    x: Leaf,
    y: Leaf,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(transparent)]
struct Tr(Leaf);
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(transparent)]
struct Tr2 {
    inner: Box<Node>,
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag(value = "type", type = str), name_all = "name")]
enum Tagged {
    Empty,
    #[musli(name_all = "name")]
    Lf { l: Leaf },
    #[musli(name_all = "name")]
    Deep { list: Vec<Node>, end: Leaf },
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(tag(value = "t", type = str), content(value = "c", type = str), name_all = "name")]
enum Adjacent {
    Empty,
    #[musli(name_all = "name")]
    Lf { l: Leaf },
    #[musli(name_all = "name")]
    Deep { list: Vec<Node>, end: Leaf },
}
#[derive(Debug, Clone, PartialEq, Encode, Decode)]
#[musli(untagged)]
enum Untagged {
    #[musli(name_all = "name")]
    Two { a: Leaf, b: Vec<Leaf>, missing: Leaf },
    #[musli(name_all = "name")]
    A { a: Leaf, b: Vec<Leaf>, z: Leaf },
    #[musli(name_all = "name")]
    Deep { d: Vec<Node>, last: u32 },
    #[musli(name_all = "name")]
    Other { e: Vec<Leaf> },
}

struct G<'a> {
    r: &'a mut Rng,
    next: u32,
    budget: u32,
    /// Types which have to buffer or go back in the input.
    tags: u8,
    /// Do not generate packs inside of tagged types.
    tagged_packs: bool,
    /// No packs.
    no_packs: bool,
}

impl G<'_> {
    fn leaf(&mut self) -> Leaf {
        self.next += 1;
        Leaf(self.next - 1)
    }
    fn leaves(&mut self, n: usize) -> Vec<Leaf> {
        (0..self.r.below(n)).map(|_| self.leaf()).collect()
    }
    fn nodes(&mut self, d: u32) -> Vec<Node> {
        (0..self.r.below(4)).map(|_| self.node(d)).collect()
    }
    fn tagged(&mut self, d: u32) -> Vec<Node> {
        let old = self.no_packs;
        self.no_packs |= !self.tagged_packs;
        let out = self.nodes(d);
        self.no_packs = old;
        out
    }
    fn pk(&mut self) -> Pk {
        Pk { x: self.leaf(), y: self.leaf() }
    }
    fn rec(&mut self, d: u32) -> Rec {
        Rec { first: self.leaf(), pk: self.pk(), tr: Tr(self.leaf()), rest: (0..self.r.below(3)).map(|_| self.pk()).collect(), deep: self.node(d), unit: () }
    }
    fn node(&mut self, d: u32) -> Node {
        if d == 0 || self.budget == 0 {
            return if self.r.chance(1, 4) { Node::Nil } else { Node::One(self.leaf()) };
        }
        self.budget -= 1;
        let d = d - 1;
        let mut kind = self.r.below([15, 18, 20][self.tags as usize]);
        if self.no_packs && matches!(kind, 3 | 7 | 12 | 13 | 14) {
            kind = 5;
        }
        match kind {
            0 => Node::One(self.leaf()),
            1 | 2 => Node::Named {
                a: self.leaf(),
                b: if self.r.bool() { Some(Box::new(self.node(d))) } else { None },
                c: if self.r.bool() { Some(self.leaf()) } else { None },
            },
            3 => Node::Packed(self.leaf(), self.leaf()),
            4 => Node::Wrap(Box::new(self.node(d))),
            5 => Node::List(self.nodes(d)),
            6 => Node::Deque { q: self.leaves(4).into(), r: (0..self.r.below(3)).map(|_| self.leaves(3)).collect() },
            7 => Node::Pair((self.leaf(), Box::new(self.node(d)))),
            8 => Node::Arr([self.leaf(), self.leaf(), self.leaf()]),
            9 => Node::Keyed { m: (0..self.r.below(3)).map(|_| (self.leaf(), self.node(d))).collect() },
            10 => Node::Hashed { m: (0..self.r.below(3)).map(|_| (self.r.below(5) as u32 * 1000, self.leaf())).collect(), last: self.leaf() },
            11 => Node::Plain((0..self.r.below(3)).map(|_| (self.r.below(5) as u32, self.leaf())).collect()),
            12 | 13 => Node::St(Box::new(self.rec(d))),
            14 => Node::Tup(
                Rec2(self.leaf(), if self.r.bool() { Some(Box::new(self.rec(d))) } else { None }, Tr2 { inner: Box::new(self.node(d)) }),
                self.leaf(),
            ),
            18 => Node::Tag(match self.r.below(3) {
                0 => Tagged::Empty,
                1 => Tagged::Lf { l: self.leaf() },
                _ => Tagged::Deep { list: self.tagged(d), end: self.leaf() },
            }),
            19 => Node::Adj(match self.r.below(3) {
                0 => Adjacent::Empty,
                1 => Adjacent::Lf { l: self.leaf() },
                _ => Adjacent::Deep { list: self.tagged(d), end: self.leaf() },
            }),
            15 | 16 => Node::Un(match self.r.below(4) {
                0 => Untagged::Two { a: self.leaf(), b: self.leaves(3), missing: self.leaf() },
                1 => Untagged::A { a: self.leaf(), b: self.leaves(3), z: self.leaf() },
                2 => Untagged::Deep { d: self.nodes(d), last: self.r.u32() },
                _ => Untagged::Other { e: self.leaves(4) },
            }),
            _ => Node::List(self.nodes(d)),
        }
    }
}

// --- the paths of a value -----------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
enum Step {
    Struct(&'static str),
    Enum(&'static str),
    Variant(&'static str),
    Named(&'static str),
    Unnamed(u32),
    Index(usize),
    Key(String),
}
use Step::*;

/// Render a path.
fn render(steps: &[Step], capped: usize) -> String {
    #[derive(PartialEq)]
    enum Last {
        Start,
        Type,
        Enum,
        Field,
    }
    let mut out = String::new();
    let mut close = 0;
    let mut last = Last::Start;
    for s in steps {
        match s {
            Struct(n) | Variant(n) | Enum(n) => {
                if matches!(last, Last::Type | Last::Field) {
                    out.push_str(" = ");
                }
                out.push_str(n);
                last = Last::Type;
                if let Enum(_) = s {
                    out.push_str("::");
                    last = Last::Enum;
                }
            }
            Named(_) | Unnamed(_) | Index(_) | Key(_) => {
                if last == Last::Type {
                    out.push_str(" { ");
                    close += 1;
                }
                out.push_str(&match s {
                    Named(n) => format!(".{n}"),
                    Unnamed(n) => format!(".{n}"),
                    Index(n) => format!("[{n}]"),
                    Key(n) => format!("[{n}]"),
                    _ => unreachable!(),
                });
                last = Last::Field;
            }
        }
    }
    for _ in 0..close {
        out.push_str(" }");
    }
    match capped {
        0 => {}
        1 => out.push_str(" .. *one capped step*"),
        n => out.push_str(&format!(" .. *{n} capped steps*")),
    }
    out
}

#[derive(Clone, Debug)]
struct Found {
    id: u32,
    path: Vec<Step>,
    /// The leaf is inside of an untagged enum, whose path has this length.
    untagged: Option<usize>,
    /// Untagged enums which have been tried before it.
    tried: bool,
    /// Is the key of a map.
    key: bool,
    /// The leaf is inside of something buffered, so it has no position.
    buffered: bool,
}

struct W {
    path: Vec<Step>,
    types: bool,
    /// Collecting the paths used while encoding.
    enc: bool,
    untagged: Option<usize>,
    tried: bool,
    buffered: bool,
    any_buffered: bool,
    found: Vec<Found>,
    all: HashSet<String>,
}

impl W {
    fn new(types: bool, enc: bool) -> Self {
        W { path: Vec::new(), types, enc, untagged: None, tried: false, buffered: false, any_buffered: false, found: Vec::new(), all: HashSet::new() }
    }
    fn at(&mut self, s: Step, f: impl FnOnce(&mut Self)) {
        let visible = self.types || !matches!(s, Struct(_) | Enum(_));
        if !visible {
            return f(self);
        }
        self.path.push(s);
        self.note();
        f(self);
        self.path.pop();
    }
    fn note(&mut self) {
        if self.untagged.is_none() || self.enc {
            self.all.insert(render(&self.path, 0));
        }
    }
    fn leaf(&mut self, l: &Leaf) {
        self.found.push(Found { id: l.0, path: self.path.clone(), untagged: self.untagged, tried: self.tried, key: false, buffered: self.buffered });
    }
    fn key(&mut self, l: &Leaf) {
        self.leaf(l);
        self.found.last_mut().unwrap().key = true;
    }
    fn leaves<'a>(&mut self, it: impl IntoIterator<Item = &'a Leaf>) {
        for (i, l) in it.into_iter().enumerate() {
            self.at(Index(i), |w| w.leaf(l));
        }
    }
    fn nodes(&mut self, v: &[Node]) {
        for (i, n) in v.iter().enumerate() {
            self.at(Index(i), |w| w.node(n));
        }
    }
    fn named(&mut self, n: &'static str, f: impl FnOnce(&mut Self)) {
        self.at(Named(n), f);
    }
    fn pk(&mut self, p: &Pk) {
        self.at(Struct("Pk"), |w| {
            w.named("x", |w| w.leaf(&p.x));
            w.named("y", |w| w.leaf(&p.y));
        });
    }
    fn rec(&mut self, r: &Rec) {
        self.at(Struct("Rec"), |w| {
            w.named("first", |w| w.leaf(&r.first));
            w.named("pk", |w| w.pk(&r.pk));
            w.named("tr", |w| w.at(Struct("Tr"), |w| w.leaf(&r.tr.0)));
            w.named("rest", |w| {
                for (i, p) in r.rest.iter().enumerate() {
                    w.at(Index(i), |w| w.pk(p));
                }
            });
            w.named("deep", |w| w.node(&r.deep));
            w.named("unit", |_| ());
        });
    }
    fn node(&mut self, n: &Node) {
        self.at(Enum("Node"), |w| match n {
            Node::Nil => w.at(Variant("Nil"), |_| ()),
            Node::One(l) => w.at(Variant("One"), |w| w.at(Unnamed(0), |w| w.leaf(l))),
            Node::Named { a, b, c } => w.at(Variant("Named"), |w| {
                w.named("a", |w| w.leaf(a));
                w.named("b", |w| {
                    if let Some(b) = b {
                        w.node(b)
                    }
                });
                if let Some(c) = c {
                    w.named("c", |w| w.leaf(c));
                }
            }),
            Node::Packed(a, b) => w.at(Variant("Packed"), |w| {
                w.at(Unnamed(0), |w| w.leaf(a));
                w.at(Unnamed(1), |w| w.leaf(b));
            }),
            Node::Wrap(n) => w.at(Variant("Wrap"), |w| w.node(n)),
            Node::List(v) => w.at(Variant("List"), |w| w.at(Unnamed(0), |w| w.nodes(v))),
            Node::Deque { q, r } => w.at(Variant("Deque"), |w| {
                w.named("q", |w| w.leaves(q));
                w.named("r", |w| {
                    for (i, v) in r.iter().enumerate() {
                        w.at(Index(i), |w| w.leaves(v));
                    }
                });
            }),
            Node::Pair((a, b)) => w.at(Variant("Pair"), |w| {
                w.at(Unnamed(0), |w| {
                    w.leaf(a);
                    w.node(b);
                })
            }),
            Node::Arr(a) => w.at(Variant("Arr"), |w| {
                w.at(Unnamed(0), |w| w.leaves(a))
            }),
            Node::Keyed { m } => w.at(Variant("Keyed"), |w| {
                w.named("m", |w| {
                    for (k, v) in m {
                        if w.enc {
                            w.at(Key(k.to_string()), |w| w.key(k));
                        } else {
                            w.key(k);
                        }
                        w.at(Key(k.to_string()), |w| w.node(v));
                    }
                })
            }),
            Node::Hashed { m, last } => w.at(Variant("Hashed"), |w| {
                w.named("m", |w| {
                    for (k, v) in m {
                        w.at(Key(k.to_string()), |w| w.leaf(v));
                    }
                });
                w.named("last", |w| w.leaf(last));
            }),
            Node::Plain(m) => w.at(Variant("Plain"), |w| {
                w.at(Unnamed(0), |w| {
                    for v in m.values() {
                        w.leaf(v);
                    }
                })
            }),
            Node::St(r) => w.at(Variant("St"), |w| w.at(Unnamed(0), |w| w.rec(r))),
            Node::Tup(r, l) => w.at(Variant("Tup"), |w| {
                w.at(Unnamed(0), |w| {
                    w.at(Struct("Rec2"), |w| {
                        w.at(Unnamed(0), |w| w.leaf(&r.0));
                        w.at(Unnamed(1), |w| {
                            if let Some(r) = &r.1 {
                                w.rec(r)
                            }
                        });
                        w.at(Unnamed(2), |w| w.at(Struct("Tr2"), |w| w.node(&r.2.inner)));
                    })
                });
                w.at(Unnamed(1), |w| w.leaf(l));
            }),
            Node::Tag(t) => w.at(Variant("Tag"), |w| {
                w.at(Unnamed(0), |w| {
                    let outer = std::mem::replace(&mut w.buffered, true);
                    w.any_buffered = true;
                    w.at(Enum("Tagged"), |w| match t {
                        Tagged::Empty => w.at(Variant("Empty"), |_| ()),
                        Tagged::Lf { l } => w.at(Variant("Lf"), |w| w.named("l", |w| w.leaf(l))),
                        Tagged::Deep { list, end } => w.at(Variant("Deep"), |w| {
                            w.named("list", |w| w.nodes(list));
                            w.named("end", |w| w.leaf(end));
                        }),
                    });
                    w.buffered = outer;
                })
            }),
            Node::Adj(t) => w.at(Variant("Adj"), |w| {
                w.at(Unnamed(0), |w| {
                    let outer = std::mem::replace(&mut w.buffered, true);
                    w.any_buffered = true;
                    w.at(Enum("Adjacent"), |w| match t {
                        Adjacent::Empty => w.at(Variant("Empty"), |_| ()),
                        Adjacent::Lf { l } => w.at(Variant("Lf"), |w| w.named("l", |w| w.leaf(l))),
                        Adjacent::Deep { list, end } => w.at(Variant("Deep"), |w| {
                            w.named("list", |w| w.nodes(list));
                            w.named("end", |w| w.leaf(end));
                        }),
                    });
                    w.buffered = outer;
                })
            }),
            Node::Un(u) => w.at(Variant("Un"), |w| {
                w.at(Unnamed(0), |w| {
                    w.at(Enum("Untagged"), |w| {
                        let outer = w.untagged;
                        w.untagged = outer.or(Some(w.path.len()));
                        let v = match u {
                            Untagged::Two { .. } => "Two",
                            Untagged::A { .. } => "A",
                            Untagged::Deep { .. } => "Deep",
                            Untagged::Other { .. } => "Other",
                        };
                        let inner = |w: &mut W| match u {
                            Untagged::Two { a, b, missing } => {
                                w.named("a", |w| w.leaf(a));
                                w.named("b", |w| w.leaves(b));
                                w.named("missing", |w| w.leaf(missing));
                            }
                            Untagged::A { a, b, z } => {
                                w.named("a", |w| w.leaf(a));
                                w.named("b", |w| w.leaves(b));
                                w.named("z", |w| w.leaf(z));
                            }
                            Untagged::Deep { d, .. } => {
                                w.named("d", |w| w.nodes(d));
                                w.named("last", |_| ());
                            }
                            Untagged::Other { e } => w.named("e", |w| w.leaves(e)),
                        };
                        if w.enc {
                            w.at(Variant(v), inner);
                        } else {
                            inner(w);
                        }
                        w.untagged = outer;
                        w.tried |= outer.is_none();
                    })
                })
            }),
        })
    }
}

// --- formats ------------------------------------------------------------------

/// Somewhere a value can be read back from.
trait Src: 'static {
    type Enc: Clone + Send;
    const NAME: &'static str;
    /// Supports the types which go back in the input.
    const TAGS: u8;
    /// Positions are bytes of the encoding.
    const BYTES: bool;
    const JSON: bool;
    fn encode<C: Context>(cx: C, n: &Node) -> Result<Self::Enc, C::Error>;
    fn decode<C: Context>(cx: C, e: &Self::Enc) -> Result<Node, C::Error>;
    fn bytes(e: &Self::Enc) -> &[u8];
    fn cut(e: &Self::Enc, n: usize) -> Self::Enc;
    fn hit(e: &Self::Enc, at: usize, v: u8) -> Self::Enc;
}

macro_rules! via {
    ($($f:ident $tags:expr, $json:expr;)*) => {
        $(struct $f;
        impl Src for $f {
            type Enc = Vec<u8>;
            const NAME: &'static str = model::$f::NAME;
            const TAGS: u8 = $tags;
            const BYTES: bool = true;
            const JSON: bool = $json;
            fn encode<C: Context>(cx: C, n: &Node) -> Result<Vec<u8>, C::Error> {
                model::$f::to_vec_with(cx, n)
            }
            fn decode<C: Context>(cx: C, e: &Vec<u8>) -> Result<Node, C::Error> {
                model::$f::from_slice_with(cx, e)
            }
            fn bytes(e: &Vec<u8>) -> &[u8] {
                e
            }
            fn cut(e: &Vec<u8>, n: usize) -> Vec<u8> {
                e[..n].to_vec()
            }
            fn hit(e: &Vec<u8>, at: usize, v: u8) -> Vec<u8> {
                let mut e = e.clone();
                e[at] = v;
                e
            }
        })*
    };
}
via! {
    Storage 0, false;
    StorageFixed 0, false;
    Wire 1, false;
    WireText 1, false;
    Descriptive 2, false;
    DescriptiveText 2, false;
    Json 2, true;
    // NB: what a tag is looked for in is buffered as a value, which names its
    // fields by strings if it comes from JSON.
    JsonBinary 1, true;
}

/// JSON which is read by advancing a slice.
struct JsonAdvance;
impl Src for JsonAdvance {
    type Enc = Vec<u8>;
    const NAME: &'static str = "json/advance";
    const TAGS: u8 = 0;
    const BYTES: bool = true;
    const JSON: bool = true;
    fn encode<C: Context>(cx: C, n: &Node) -> Result<Vec<u8>, C::Error> {
        model::Json::to_vec_with(cx, n)
    }
    fn decode<C: Context>(cx: C, e: &Vec<u8>) -> Result<Node, C::Error> {
        model::Json::advance_with(cx, &mut &e[..])
    }
    fn bytes(e: &Vec<u8>) -> &[u8] {
        e
    }
    fn cut(e: &Vec<u8>, n: usize) -> Vec<u8> {
        e[..n].to_vec()
    }
    fn hit(e: &Vec<u8>, at: usize, v: u8) -> Vec<u8> {
        Json::hit(e, at, v)
    }
}

/// Wire through a limited slice reader.
struct Limited;
impl Src for Limited {
    type Enc = Vec<u8>;
    const NAME: &'static str = "wire/limited";
    const TAGS: u8 = 0;
    const BYTES: bool = true;
    const JSON: bool = false;
    fn encode<C: Context>(cx: C, n: &Node) -> Result<Vec<u8>, C::Error> {
        model::Wire::to_vec_with(cx, n)
    }
    fn decode<C: Context>(cx: C, e: &Vec<u8>) -> Result<Node, C::Error> {
        use musli::Reader;
        let mut rd = musli::reader::SliceReader::new(e).limit(e.len());
        musli::wire::Encoding::new().decode_with(cx, &mut rd)
    }
    fn bytes(e: &Vec<u8>) -> &[u8] {
        e
    }
    fn cut(e: &Vec<u8>, n: usize) -> Vec<u8> {
        e[..n].to_vec()
    }
    fn hit(e: &Vec<u8>, at: usize, v: u8) -> Vec<u8> {
        Json::hit(e, at, v)
    }
}

/// Dynamic values, by way of descriptive bytes.
struct Dynamic;
impl Src for Dynamic {
    type Enc = Vec<u8>;
    const NAME: &'static str = "value";
    const TAGS: u8 = 2;
    const BYTES: bool = false;
    const JSON: bool = false;
    fn encode<C: Context>(cx: C, n: &Node) -> Result<Vec<u8>, C::Error> {
        model::Descriptive::to_vec_with(cx, n)
    }
    fn decode<C: Context>(cx: C, e: &Vec<u8>) -> Result<Node, C::Error> {
        let v: Result<musli::value::Value<System>, _> = model::Descriptive::from_slice(e);
        match v {
            Ok(v) => musli::value::decode_with::<_, Node, musli::mode::Binary>(cx, &v),
            Err(_) => {
                cx.clear();
                Err(cx.message("malformed"))
            }
        }
    }
    fn bytes(e: &Vec<u8>) -> &[u8] {
        e
    }
    fn cut(e: &Vec<u8>, n: usize) -> Vec<u8> {
        e[..n].to_vec()
    }
    fn hit(e: &Vec<u8>, at: usize, v: u8) -> Vec<u8> {
        Json::hit(e, at, v)
    }
}

/// An error line split into the path, the message and the position.
fn split(line: &str) -> Option<(&str, &str, Option<(usize, usize)>)> {
    // NB: the path might end in the name of an enum, followed by its variant.
    let i = line.match_indices(": ").map(|(i, _)| i).find(|&i| i == 0 || line.as_bytes()[i - 1] != b':')?;
    let (path, rest) = (&line[..i], &line[i + 2..]);
    if let Some(i) = rest.rfind(" (at byte") {
        let t = rest[i..].strip_suffix(')')?;
        let pos = if let Some(n) = t.strip_prefix(" (at byte ") {
            let n = n.parse().ok()?;
            (n, n)
        } else {
            let (a, b) = t.strip_prefix(" (at bytes ")?.split_once('-')?;
            (a.parse().ok()?, b.parse().ok()?)
        };
        return Some((path, &rest[..i], Some(pos)));
    }
    Some((path, rest, None))
}

fn errors<A: Allocator, C>(cx: &musli::context::DefaultContext<A, musli::context::Trace, C>) -> Vec<String>
where
    C: musli::context::ErrorMode<A>,
{
    cx.errors().map(|e| e.to_string()).collect()
}

fn find(b: &[u8], what: &str, key: bool) -> Option<usize> {
    // The text of a key may also occur in nothing else, leaves are unique.
    _ = key;
    b.windows(what.len()).position(|w| w == what.as_bytes())
}

/// The position of a poisoned leaf.
fn check_pos<S: Src>(e: &S::Enc, id: u32, how: u8, key: bool, pos: Option<(usize, usize)>) -> R {
    if !S::BYTES {
        return Ok(());
    }
    let text = Leaf(id).to_string();
    let at = find(S::bytes(e), &text, key).ok_or("leaf not found in the encoding")?;
    let end = at + text.len() + usize::from(S::JSON);
    let (a, b) = pos.unwrap_or((0, 0));
    ensure!(b == end, "position ends at {b} instead of {end}");
    if how % 2 == 1 {
        ensure!(a < at && a + 24 > at, "position starts at {a}, but the leaf at {at}");
    } else {
        ensure!(a == b, "a range {a}-{b} for a single position");
    }
    Ok(())
}

fn make(c: &mut Case<'_>, tags: u8, json: bool) -> Node {
    let (depth, budget) = *c.rng.pick(&[(2, 8), (3, 20), (4, 40), (6, 40)]);
    let mut g = G { r: &mut c.rng, next: 0, budget, tags, tagged_packs: !json, no_packs: false };
    g.node(depth)
}

/// Every leaf is named exactly.
fn leaves<S: Src>(c: &mut Case<'_>) -> R {
    let n = make(c, S::TAGS, S::JSON);
    let cx0 = context::new().with_trace();
    let e = match S::encode(&cx0, &n) {
        Ok(e) => e,
        Err(_) => fail!("{}: encoding {n:?} failed: {}", S::NAME, cx0.report()),
    };
    c.seen_bytes(S::bytes(&e));
    let types = c.rng.bool();
    let mut w = W::new(types, false);
    w.node(&n);
    c.sample(|| format!("{}: {} leaves of {n:?}", S::NAME, w.found.len()));
    let cx = context::new().with_trace();
    let cx = if types { cx.with_type() } else { cx };
    match S::decode(&cx, &e) {
        Ok(m) => ensure!(m == n, "{}: {n:?} was decoded as {m:?}", S::NAME),
        Err(_) => fail!("{}: decoding {n:?} failed: {}", S::NAME, cx.report()),
    }
    for f in &w.found {
        let how = c.rng.below(4) as u8;
        let cap = context::new().with_trace().with_capture::<String>();
        let cap = if types { cap.with_type() } else { cap };
        let ctx = |got: &[String]| format!("{}: leaf {} of {n:?}\n encoded {}\n expected the path `{}`, reported {got:?}", S::NAME, f.id, hex(S::bytes(&e)), render(&f.path, 0));
        // One context is used again and again, the other is new.
        let r = poisoned(f.id, how, || S::decode(&cx, &e));
        let got = errors(&cx);
        ensure!(r.is_err(), "{}: decoding succeeded", ctx(&got));
        let r = poisoned(f.id, how, || S::decode(&cap, &e));
        ensure!(r.is_err(), "{}: decoding succeeded", ctx(&got));
        let got2 = errors(&cap);
        ensure!(got == got2, "{}\n the used context reports otherwise than a new one, which reports {got2:?}", ctx(&got));
        ensure!(!got.is_empty(), "{}: nothing reported", ctx(&got));
        let depth = f.untagged.unwrap_or(f.path.len());
        let want = render(&f.path[..depth], 0);
        let message = format!("poisoned {}", f.id);
        for (i, g) in got.iter().enumerate() {
            let Some((path, msg, pos)) = split(g) else {
                fail!("{}: unknown error format", ctx(&got));
            };
            ensure!(path == want, "{}: wrong path `{path}`", ctx(&got));
            if msg == message {
                if f.untagged.is_none() {
                    ensure!(i + 1 == got.len(), "{}: errors after the last", ctx(&got));
                }
                if !f.buffered {
                    check_pos::<S>(&e, f.id, how, f.key, pos).map_err(|e| format!("{}: {e}", ctx(&got)))?;
                }
            }
            if let (true, Some((a, b))) = (S::BYTES && !w.any_buffered, pos) {
                ensure!(a <= b && b <= S::bytes(&e).len(), "{}: position out of the input", ctx(&got));
            }
        }
        ensure!(got.iter().any(|g| split(g).is_some_and(|g| g.1 == message)), "{}: the message is missing", ctx(&got));
        if !f.tried && f.untagged.is_none() {
            ensure!(got.len() == 1, "{}: more than one error", ctx(&got));
        }
        let last = split(got.last().unwrap()).unwrap().1.to_string();
        match cap.result() {
            Err(e) => ensure!(e == last, "{}: captured {e:?}", ctx(&got)),
            Ok(()) => fail!("{}: nothing captured", ctx(&got)),
        }
        c.event("failures located");
        c.seen(vh::rng::hash_str(&want));
    }
    // And the context still works.
    match S::decode(&cx, &e) {
        Ok(m) => ensure!(m == n, "{}: {n:?} was decoded as {m:?} after failures", S::NAME),
        Err(_) => fail!("{}: decoding {n:?} failed after failures: {}", S::NAME, cx.report()),
    }
    if !w.tried {
        ensure!(cx.errors().next().is_none(), "{}: errors are reported after success: {}", S::NAME, cx.report());
    }
    Ok(())
}

/// Every leaf which cannot be encoded is named exactly.
fn encoding<S: Src>(c: &mut Case<'_>) -> R {
    let n = make(c, S::TAGS, S::JSON);
    let mut w = W::new(false, true);
    w.node(&n);
    let cx = context::new().with_trace();
    for f in &w.found {
        let how = c.rng.below(2) as u8;
        let r = poisoned(f.id, how, || S::encode(&cx, &n).is_err());
        let got = errors(&cx);
        let want = render(&f.path, 0);
        ensure!(r, "{}: encoding {n:?} succeeded when leaf {} failed", S::NAME, f.id);
        let ok = got.len() == 1 && split(&got[0]).is_some_and(|(p, m, _)| p == want && m == format!("poisoned {}", f.id));
        ensure!(ok, "{}: encoding {n:?} failed at `{want}` (leaf {}), reported {got:?}", S::NAME, f.id);
        c.event("failures located");
        c.seen(vh::rng::hash_str(&want));
    }
    if S::encode(&cx, &n).is_err() {
        fail!("{}: encoding {n:?} failed: {}", S::NAME, cx.report());
    }
    Ok(())
}

/// The outcome does not depend on the context, for good and for bad data.
fn outcomes<S: Src>(c: &mut Case<'_>) -> R {
    let n = make(c, S::TAGS, S::JSON);
    let e = S::encode(&context::new().with_error::<String>(), &n).map_err(|e| format!("{}: encoding {n:?} failed: {e}", S::NAME))?;
    let len = S::bytes(&e).len();
    let mut w = W::new(false, false);
    w.node(&n);
    let t = context::new().with_trace();
    let tt = context::new().with_trace().with_type();
    let tc = context::new().with_trace().with_capture::<String>();
    let cap = context::new().with_capture::<String>();
    for round in 0..12 {
        let (d, cut) = match c.rng.below(3) {
            _ if round == 0 => (e.clone(), false),
            0 => (S::cut(&e, c.rng.below(len)), true),
            1 => {
                let mut d = e.clone();
                for _ in 0..=c.rng.below(3) {
                    let at = c.rng.below(len);
                    let v = match c.rng.below(3) {
                        0 => c.rng.u8(),
                        1 => S::bytes(&d)[at] ^ (1 << c.rng.below(8)),
                        _ => S::bytes(&d)[c.rng.below(len)],
                    };
                    d = S::hit(&d, at, v);
                }
                (d, false)
            }
            _ => (S::hit(&e, c.rng.below(len), *c.rng.pick(&[0, 1, 0x7f, 0x80, 0xff, b'"', b'}', b','])), false),
        };
        let plain = S::decode(&context::new().with_error::<String>(), &d);
        let ctx = |m: &str| format!("{}: {m} for {n:?} as {}", S::NAME, hex(S::bytes(&d)));
        let marker = S::decode(&context::new(), &d);
        let a = S::decode(&t, &d);
        let b = S::decode(&tt, &d);
        let k = S::decode(&tc, &d);
        let l = S::decode(&cap, &d);
        let same = |o: &Result<Node, ErrorMarker>| match (o, &plain) {
            (Ok(a), Ok(b)) => a == b,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        ensure!(same(&a), "{}", ctx(&format!("tracing turned {plain:?} into {a:?}")));
        ensure!(same(&b), "{}", ctx(&format!("tracing types turned {plain:?} into {b:?}")));
        ensure!(same(&k), "{}", ctx(&format!("tracing and capturing turned {plain:?} into {k:?}")));
        ensure!(same(&l), "{}", ctx(&format!("capturing turned {plain:?} into {l:?}")));
        let bare = marker.is_ok() == plain.is_ok();
        ensure!(bare, "{}", ctx("another error type changed the outcome"));
        c.event("outcomes compared");
        c.seen(vh::rng::hash_bytes(S::bytes(&d)));
        let ea = errors(&t);
        match &plain {
            Ok(_) => c.event("successes"),
            Err(p) => {
                c.event("failures");
                let ek = errors(&tc);
                ensure!(ea == ek, "{}", ctx(&format!("capturing changed the report from {ea:?} to {ek:?}")));
                ensure!(!ea.is_empty(), "{}", ctx("failed without an error"));
                let (path, msg, pos) = split(ea.last().unwrap()).ok_or_else(|| ctx(&format!("unknown error format {ea:?}")))?;
                if msg.matches(": ").count() == 0 && !p.contains(": ") {
                    ensure!(msg == p, "{}", ctx(&format!("tracing reported {msg:?} instead of {p:?}")));
                }
                for (m, r) in [("with", tc.result()), ("without", cap.result())] {
                    match r {
                        Err(e) => ensure!(e == *p, "{}", ctx(&format!("captured {e:?} {m} tracing instead of {p:?}"))),
                        Ok(()) => fail!("{}", ctx(&format!("captured nothing {m} tracing"))),
                    }
                }
                // NB: damage might turn one variant into another.
                let buffered = S::TAGS == 2 && (w.any_buffered || ["Tag", "Adj", "Un"].iter().any(|n| path.contains(n)));
                if let (true, Some((a, b))) = (S::BYTES && !buffered, pos) {
                    ensure!(a <= b && b <= S::bytes(&d).len(), "{}", ctx(&format!("position out of the input: {ea:?}")));
                }
                // What is missing from the end is somewhere in the value.
                if cut && S::BYTES {
                    ensure!(path.is_empty() || w.all.contains(path), "{}", ctx(&format!("no such path: {ea:?}")));
                    c.event("truncations located");
                }
                let types = errors(&tt);
                ensure!(types.len() == ea.len(), "{}", ctx(&format!("types changed {ea:?} into {types:?}")));
            }
        }
    }
    Ok(())
}

/// A trace for which memory runs out.
fn refused<S: Src>(c: &mut Case<'_>) -> R {
    // NB: what is buffered needs memory, what is tried does not.
    let tags = if c.rng.bool() { S::TAGS.min(1) } else { 0 };
    let n = make(c, tags, tags != 0 && S::JSON);
    let e = S::encode(&context::new().with_error::<String>(), &n)?;
    let types = c.rng.bool();
    let mut w = W::new(types, false);
    w.node(&n);
    if w.found.is_empty() {
        return Ok(());
    }
    fn one<S: Src, A: Allocator>(c: &mut Case<'_>, n: &Node, e: &S::Enc, w: &W, types: bool, alloc: A, what: &str) -> R {
        let cx = context::new_in(alloc).with_trace();
        let cx = if types { cx.with_type() } else { cx };
        for _ in 0..3 {
            let f = c.rng.pick(&w.found).clone();
            let how = c.rng.below(4) as u8;
            let r = poisoned(f.id, how, || S::decode(&cx, e));
            let ctx = |got: &[String]| format!("{} with {what}: leaf {} of {n:?}\n expected the path `{}`, reported {got:?}", S::NAME, f.id, render(&f.path[..f.untagged.unwrap_or(f.path.len())], 0));
            let got = errors(&cx);
            ensure!(r.is_err(), "{}: decoding succeeded", ctx(&got));
            let tried = f.tried || f.untagged.is_some();
            ensure!(tried || got.len() <= 1, "{}: more than one error", ctx(&got));
            for (path, msg, pos) in got.iter().filter_map(|g| split(g)) {
                let hit = msg == format!("poisoned {}", f.id);
                ensure!(tried || hit, "{}: wrong message", ctx(&got));
                let m = f.untagged.unwrap_or(f.path.len());
                let Some(capped) = (0..=m).find(|&k| render(&f.path[..m - k], k) == path) else {
                    fail!("{}: not the path", ctx(&got));
                };
                if capped > 0 {
                    c.event("paths cut short");
                    if w.tried {
                        c.event("paths cut short where alternatives are tried");
                    }
                } else {
                    c.event("whole paths");
                }
                if hit {
                    check_pos::<S>(e, f.id, how, f.key, pos).map_err(|e| format!("{}: {e}", ctx(&got)))?;
                }
            }
            if got.iter().all(|g| split(g).is_none()) {
                ensure!(got.is_empty(), "{}: unknown error format", ctx(&got));
                c.event("errors without room");
            }
            match S::decode(&cx, e) {
                Ok(m) => ensure!(m == *n, "{} with {what}: {n:?} was decoded as {m:?}", S::NAME),
                Err(_) => fail!("{} with {what}: decoding {n:?} failed: {}", S::NAME, cx.report()),
            }
            ensure!(w.tried || cx.errors().next().is_none(), "{} with {what}: errors after success: {}", S::NAME, cx.report());
            c.event("outcomes compared");
        }
        Ok(())
    }
    match c.rng.below(3) {
        0 => one::<S, _>(c, &n, &e, &w, types, Disabled::new(), "no memory"),
        1 => {
            let size = c.rng.below(1500);
            let mut buf = vec![0u8; size];
            let alloc = musli::alloc::Slice::new(&mut buf[..]);
            one::<S, _>(c, &n, &e, &w, types, &alloc, &format!("{size} bytes of memory"))
        }
        _ => {
            let q = Quota::new();
            let at = c.rng.below(24) as u64;
            let on = c.rng.bool();
            q.arm(at, on);
            one::<S, _>(c, &n, &e, &w, types, Q(&q), &format!("request {at}{} refused", if on { " and all later ones" } else { "" }))
        }
    }
}

// --- reuse --------------------------------------------------------------------

/// A sequence of operations in various formats on the same contexts.
fn reuse(c: &mut Case<'_>) -> R {
    let t = context::new().with_trace().with_capture::<String>();
    let plain = context::new().with_capture::<String>();
    let mut history = String::new();
    for _ in 0..24 {
        let n = make(c, 0, false);
        macro_rules! op {
            ($s:ident) => {{
                let e = $s::encode(&context::new().with_error::<String>(), &n)?;
                let mut w = W::new(false, false);
                w.node(&n);
                let id = match c.rng.below(3) {
                    0 => u32::MAX - 1,
                    _ if w.found.is_empty() => u32::MAX - 1,
                    _ => c.rng.pick(&w.found).id,
                };
                let how = c.rng.below(4) as u8;
                let encode = c.rng.chance(1, 4);
                let fresh = context::new().with_trace().with_capture::<String>();
                let (a, b, d) = if encode {
                    poisoned(id, how, || ($s::encode(&t, &n).is_ok(), $s::encode(&plain, &n).is_ok(), $s::encode(&fresh, &n).is_ok()))
                } else {
                    poisoned(id, how, || ($s::decode(&t, &e).is_ok(), $s::decode(&plain, &e).is_ok(), $s::decode(&fresh, &e).is_ok()))
                };
                history.push_str(&format!("{} {} {:?} with leaf {id} failing\n", $s::NAME, if encode { "encode" } else { "decode" }, n));
                ensure!(a == d && b == d, "another outcome ({a} and {b}, but {d} in a new context) after\n{history}");
                let (x, y) = (t.report().to_string(), fresh.report().to_string());
                ensure!(x == y, "reported {x:?}, but {y:?} in a new context, after\n{history}");
                // NB: an error which nobody asks for must not be found later.
                if c.rng.bool() {
                    let (x, y, z) = (t.result(), plain.result(), fresh.result());
                    ensure!(x == y && y == z, "captured {x:?} and {y:?}, but {z:?} in a new context, after\n{history}");
                    ensure!(x.is_ok() == d, "captured {x:?} although the outcome is {d}, after\n{history}");
                    ensure!(t.result().is_ok() && plain.result().is_ok(), "an error can be taken twice after\n{history}");
                } else {
                    c.event("captured errors left alone");
                }
                c.seen(vh::rng::hash_str(&format!("{}{:?}{id}{}", $s::NAME, n, encode)));
                c.event("operations on used contexts");
                if !d {
                    c.event("failures reported as new");
                }
            }};
        }
        match c.rng.below(7) {
            0 => op!(Storage),
            1 => op!(Wire),
            2 => op!(Descriptive),
            3 => op!(Json),
            4 => op!(Dynamic),
            5 => op!(JsonAdvance),
            _ => op!(Limited),
        }
    }
    Ok(())
}

// --- what is held -----------------------------------------------------------------

/// Errors, iterators and reports which are still held while a context is used
/// again either keep what they say, or the context refuses.
fn held(c: &mut Case<'_>) -> R {
    let t = context::new().with_trace().with_capture::<String>();
    macro_rules! fails {
        ($cx:expr) => {{
            let n = make(c, 0, false);
            let mut w = W::new(false, false);
            w.node(&n);
            let id = if w.found.is_empty() { u32::MAX - 1 } else { c.rng.pick(&w.found).id };
            let how = c.rng.below(4) as u8;
            match c.rng.below(3) {
                0 => {
                    let e = Storage::encode(&context::new().with_error::<String>(), &n)?;
                    rt::guard(|| poisoned(id, how, || Storage::decode($cx, &e).is_ok()))
                }
                1 => {
                    let e = Json::encode(&context::new().with_error::<String>(), &n)?;
                    rt::guard(|| poisoned(id, how, || Json::decode($cx, &e).is_ok()))
                }
                _ => rt::guard(|| poisoned(id, how, || Wire::encode($cx, &n).is_ok())),
            }
        }};
    }
    for _ in 0..8 {
        let _ = fails!(&t).map_err(|e| format!("a context nothing is held of: {e}"))?;
        let before: Vec<String> = errors(&t);
        let text = t.report().to_string();
        ensure!(text.lines().count() == before.len() || before.iter().any(|e| e.contains('\n')), "{} errors, but reported as {text:?}", before.len());
        let what = c.rng.below(5);
        let names = ["an iterator", "a cloned iterator", "errors", "a report", "errors of an iterator which is gone"];
        let mut its = Vec::new();
        let mut errs = Vec::new();
        let mut rep = None;
        match what {
            0 => its.push(t.errors()),
            1 => {
                let it = t.errors();
                its.push(it.clone());
                drop(it);
            }
            2 => {
                let mut it = t.errors();
                errs.extend(it.next());
                its.push(it);
            }
            3 => rep = Some(t.report()),
            _ => errs.extend(t.errors()),
        }
        let any = !its.is_empty() || !errs.is_empty() || rep.is_some();
        let r = match c.rng.below(3) {
            0 => rt::guard(|| {
                
                t.clear();
                true
            }),
            1 => rt::guard(|| {
                
                let _ = (&t).message("another");
                true
            }),
            _ => fails!(&t),
        };
        match r {
            Ok(_) => c.event(if any { "used while held" } else { "used with nothing held" }),
            Err(e) => {
                ensure!(any && e.contains("shared use"), "with {} held: {e}", names[what]);
                c.event("refused to be used while held");
            }
        }
        // Reports the library hands out are read again, also if it went on.
        let n = errs.len();
        let mut now: Vec<String> = errs.iter().map(|e| e.to_string()).collect();
        for it in its.drain(..) {
            now.extend(it.map(|e| e.to_string()));
        }
        if let Some(rep) = &rep {
            let s = rep.to_string();
            ensure!(s == text, "a report which is held said {text:?} and now {s:?}");
        } else {
            ensure!(now == before, "{} ({n} taken) said {before:?} and now {now:?}", names[what]);
        }
        drop((rep, errs));
        // Nothing is held, so it works as if nothing happened.
        
        rt::guard(|| t.clear()).map_err(|e| format!("nothing is held any more, but: {e}"))?;
        ensure!(t.errors().next().is_none() && t.result().is_ok(), "a cleared context reports something");
        c.seen(vh::rng::hash_str(&text) ^ what as u64);
    }
    Ok(())
}

type Home = musli::context::DefaultContext<musli::alloc::System, musli::context::NoTrace, musli::context::Capture<Tracked>>;

thread_local! {
    static HOME: &'static Home = Box::leak(Box::new(context::new().with_capture::<Tracked>()));
    static BORN: std::cell::RefCell<(u64, std::collections::BTreeSet<u64>, Option<u64>)> = const { std::cell::RefCell::new((0, std::collections::BTreeSet::new(), None)) };
    static NESTED: Cell<u8> = const { Cell::new(0) };
}

/// An error whose construction and destructor use the context it was made for.
struct Tracked(u64);
impl Tracked {
    fn new() -> Self {
        again();
        BORN.with(|b| {
            let mut b = b.borrow_mut();
            b.0 += 1;
            let id = b.0;
            b.1.insert(id);
            Tracked(id)
        })
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        BORN.with(|b| {
            let mut b = b.borrow_mut();
            if !b.1.remove(&self.0) {
                b.2 = Some(self.0);
            }
        });
        again();
    }
}
fn again() {
    
    let how = NESTED.with(|n| n.replace(0));
    let cx = HOME.with(|h| *h);
    match how {
        1 => drop(cx.result()),
        2 => cx.clear(),
        3 => drop(cx.message("within")),
        _ => {}
    }
}
impl<A> musli::context::ContextError<A> for Tracked {
    fn custom<T: 'static + Send + Sync + std::error::Error>(_: A, _: T) -> Self {
        Tracked::new()
    }
    fn message<T: fmt::Display>(_: A, _: T) -> Self {
        Tracked::new()
    }
}

/// Captured errors are dropped once, also those which use the context again.
fn tracked(c: &mut Case<'_>) -> R {
    
    let cx = HOME.with(|h| *h);
    for _ in 0..20 {
        NESTED.with(|n| n.set(c.rng.below(4) as u8));
        match c.rng.below(5) {
            0 => drop(cx.result()),
            1 => cx.clear(),
            2 => drop(cx.message("a message")),
            3 => drop(cx.custom(Poisoned(1))),
            _ => drop(Storage::decode(cx, &vec![c.rng.u64() as u8; 3])),
        }
        c.event("captured errors used again from within");
    }
    NESTED.with(|n| n.set(0));
    drop(cx.result());
    let (left, twice) = BORN.with(|b| {
        let mut b = b.borrow_mut();
        let n = (b.1.len(), b.2.take());
        b.1.clear();
        n
    });
    ensure!(twice.is_none(), "a captured error was dropped twice");
    ensure!(left == 0, "{left} captured errors were never dropped");
    let h = c.rng.u64();
    c.seen(h);
    Ok(())
}

// --- what is missing ------------------------------------------------------------

#[derive(Debug, Encode)]
#[musli(name_all = "name")]
struct Less {
    a: Leaf,
    #[musli(skip_encoding_if = Option::is_none)]
    b: Option<Leaf>,
    #[musli(skip_encoding_if = Option::is_none)]
    c: Option<Leaf>,
    #[musli(skip_encoding_if = Option::is_none)]
    extra: Option<Leaf>,
    next: Option<Box<Less>>,
    list: Vec<Less>,
}
#[derive(Debug, Decode)]
#[allow(dead_code)]
#[musli(name_all = "name")]
struct More {
    a: Leaf,
    // NB: required, even if it's an option.
    b: Option<Leaf>,
    #[musli(default)]
    c: Option<Leaf>,
    next: Option<Box<More>>,
    list: Vec<More>,
}

fn gen_less(g: &mut G<'_>, d: u32, lacking: &mut bool) -> Less {
    let lack = !*lacking && g.r.chance(1, 5);
    *lacking |= lack;
    Less {
        a: g.leaf(),
        b: if lack { None } else { Some(g.leaf()) },
        c: if g.r.bool() { Some(g.leaf()) } else { None },
        extra: if g.r.chance(1, 4) { Some(g.leaf()) } else { None },
        next: if d > 0 && g.r.bool() { Some(Box::new(gen_less(g, d - 1, lacking))) } else { None },
        list: if d > 0 { (0..g.r.below(3)).map(|_| gen_less(g, d - 1, lacking)).collect() } else { Vec::new() },
    }
}
fn lacking(l: &Less, p: &mut Vec<Step>) -> Option<Vec<Step>> {
    p.push(Struct("More"));
    let mut found = None;
    if let Some(n) = &l.next {
        p.push(Named("next"));
        found = lacking(n, p);
        p.pop();
    }
    for (i, n) in l.list.iter().enumerate() {
        if found.is_none() {
            p.push(Named("list"));
            p.push(Index(i));
            found = lacking(n, p);
            p.pop();
            p.pop();
        }
    }
    if found.is_none() && l.b.is_none() {
        found = Some(p.clone());
    }
    p.pop();
    found
}

/// A required field which is absent is reported at the type it is absent from.
fn missing(c: &mut Case<'_>) -> R {
    let mut any = false;
    let l = {
        let mut g = G { r: &mut c.rng, next: 0, budget: 0, tags: 0, tagged_packs: false, no_packs: false };
        gen_less(&mut g, 4, &mut any)
    };
    let types = c.rng.bool();
    let want = lacking(&l, &mut Vec::new()).map(|p| render(&p.into_iter().filter(|s| types || !matches!(s, Struct(_))).collect::<Vec<_>>(), 0));
    macro_rules! go {
        ($f:ident) => {{
            let b = model::$f::to_vec(&l)?;
            c.seen_bytes(&b);
            let cx = context::new().with_trace();
            let cx = if types { cx.with_type() } else { cx };
            let r: Result<More, _> = model::$f::from_slice_with(&cx, &b);
            let got = errors(&cx);
            match (&want, r) {
                (None, Ok(_)) => c.event("complete"),
                (Some(w), Err(_)) => {
                    let ok = got.len() == 1 && split(&got[0]).is_some_and(|(p, m, _)| p == w && m.contains('b'));
                    ensure!(ok, "{}: reading {l:?} lacks a field at `{w}`, reported {got:?}", model::$f::NAME);
                    c.event("failures located");
                }
                (w, r) => fail!("{}: reading {l:?} gave {r:?}, lacking {w:?}, reported {got:?}", model::$f::NAME),
            }
        }};
    }
    go!(Wire);
    go!(Descriptive);
    go!(Json);
    Ok(())
}

// --- keys which are repeated -----------------------------------------------------

/// Encodes as a map, with the keys as they come.
#[derive(Debug)]
struct Pairs<K>(Vec<(K, Leaf)>);
impl<M, K> Encode<M> for Pairs<K>
where
    K: Encode<M>,
{
    type Encode = Self;
    fn encode<E: Encoder<Mode = M>>(&self, e: E) -> Result<(), E::Error> {
        use musli::en::{EntryEncoder, MapEncoder};
        e.encode_map_fn(self.0.len(), |m| {
            for (k, v) in &self.0 {
                m.encode_entry_fn(|e| {
                    e.encode_key()?.encode(k)?;
                    e.encode_value()?.encode(v)?;
                    Ok(())
                })?;
            }
            Ok(())
        })
    }
    fn as_encode(&self) -> &Self {
        self
    }
}
#[derive(Debug, Encode)]
#[musli(name_all = "name")]
struct Rep {
    t: Pairs<u32>,
    s: Pairs<String>,
    h: Pairs<Leaf>,
    mid: Leaf,
    next: Vec<Rep>,
    last: Leaf,
}
#[derive(Debug, Decode)]
#[allow(dead_code)]
#[musli(name_all = "name")]
struct Unrep {
    #[musli(trace)]
    t: BTreeMap<u32, Leaf>,
    #[musli(trace)]
    s: HashMap<String, Leaf>,
    #[musli(trace)]
    h: BTreeMap<Leaf, Leaf>,
    mid: Leaf,
    next: Vec<Unrep>,
    last: Leaf,
}
impl PartialEq<Rep> for Unrep {
    fn eq(&self, o: &Rep) -> bool {
        self.t == o.t.0.iter().cloned().collect()
            && self.s == o.s.0.iter().cloned().collect()
            && self.h == o.h.0.iter().cloned().collect()
            && self.mid == o.mid
            && self.last == o.last
            && self.next.len() == o.next.len()
            && self.next.iter().zip(&o.next).all(|(a, b)| a == b)
    }
}
fn gen_rep(g: &mut G<'_>, d: u32) -> Rep {
    fn pairs<K: Clone>(g: &mut G<'_>, mut key: impl FnMut(&mut G<'_>) -> K) -> Pairs<K> {
        let mut v: Vec<(K, Leaf)> = Vec::new();
        for _ in 0..g.r.below(5) {
            let k = if v.is_empty() || g.r.bool() { key(g) } else { g.r.pick(&v).0.clone() };
            v.push((k, g.leaf()));
        }
        Pairs(v)
    }
    Rep {
        t: pairs(g, |g| *g.r.pick(&[0, 7, 300, u32::MAX])),
        s: pairs(g, |g| (*g.r.pick(&["", "a", "key", "a longer key"])).into()),
        h: pairs(g, |g| g.leaf()),
        mid: g.leaf(),
        next: if d > 0 { (0..g.r.below(3)).map(|_| gen_rep(g, d - 1)).collect() } else { Vec::new() },
        last: g.leaf(),
    }
}
fn rep_paths(w: &mut W, n: &Rep) {
    w.at(Struct("Unrep"), |w| {
        w.named("t", |w| n.t.0.iter().for_each(|(k, l)| w.at(Key(k.to_string()), |w| w.leaf(l))));
        w.named("s", |w| n.s.0.iter().for_each(|(k, l)| w.at(Key(k.clone()), |w| w.leaf(l))));
        w.named("h", |w| n.h.0.iter().for_each(|(k, l)| w.at(Key(k.to_string()), |w| w.leaf(l))));
        w.named("mid", |w| w.leaf(&n.mid));
        w.named("next", |w| {
            for (i, n) in n.next.iter().enumerate() {
                w.at(Index(i), |w| rep_paths(w, n));
            }
        });
        w.named("last", |w| w.leaf(&n.last));
    });
}

/// The path is right behind entries which replace others.
fn repeated(c: &mut Case<'_>) -> R {
    let (n, leaves) = {
        let mut g = G { r: &mut c.rng, next: 0, budget: 0, tags: 0, tagged_packs: false, no_packs: false };
        let n = gen_rep(&mut g, 2);
        (n, g.next)
    };
    let types = c.rng.bool();
    let mut w = W::new(types, false);
    rep_paths(&mut w, &n);
    let at = c.rng.below(w.found.len() + 1);
    let f = w.found.get(at);
    let how = c.rng.below(4) as u8;
    let id = f.map_or(leaves, |f| f.id);
    macro_rules! go {
        ($f:ident) => {{
            let b = model::$f::to_vec(&n)?;
            c.seen_bytes(&b);
            let cx = context::new().with_trace();
            let cx = if types { cx.with_type() } else { cx };
            let r: Result<Unrep, _> = poisoned(id, how, || model::$f::from_slice_with(&cx, &b));
            let got = errors(&cx);
            match (f, r) {
                (None, Ok(v)) => {
                    ensure!(v == n, "{}: {n:?} was read as {v:?}", model::$f::NAME);
                    c.event("complete");
                }
                (Some(f), Err(_)) => {
                    let want = render(&f.path, 0);
                    let ok = got.len() == 1 && split(&got[0]).is_some_and(|(p, m, _)| p == want && m == format!("poisoned {id}"));
                    ensure!(ok, "{}: failing at `{want}` was reported as {got:?} in {n:?}", model::$f::NAME);
                    c.event("failures behind repeated keys located");
                }
                (_, r) => fail!("{}: reading {n:?} gave {r:?}, failing at {f:?}, reported {got:?}", model::$f::NAME),
            }
        }};
    }
    go!(Storage);
    go!(Wire);
    go!(Descriptive);
    go!(Json);
    Ok(())
}

// --- values of another type ------------------------------------------------------

#[derive(Debug, Encode)]
#[musli(name_all = "name")]
struct Around<'a> {
    before: Leaf,
    v: &'a Shape,
    after: Leaf,
}
#[derive(Debug, Encode)]
#[musli(name_all = "name")]
struct Outer<'a> {
    list: Vec<Around<'a>>,
    end: Leaf,
}
#[derive(Debug, Decode)]
#[allow(dead_code)]
#[musli(name_all = "name")]
enum Choice {
    #[musli(name_all = "name")]
    A {
        x: u8,
    },
    B(u32),
}
#[derive(Debug, Decode)]
#[allow(dead_code)]
#[musli(name_all = "name")]
struct Holder {
    #[musli(default)]
    a: u16,
    #[musli(default)]
    b: Vec<i8>,
}

/// What is written for a type, which may or may not be able to read it.
fn gen_mismatch(r: &mut Rng, json: bool) -> Shape {
    let cfg = shape::Cfg { depth: 2, ..if json { shape::Cfg::JSON } else { shape::Cfg::ALL } };
    fn int(r: &mut Rng) -> Shape {
        match r.below(5) {
            0 => Shape::I16(r.edge_bits() as i16),
            1 => Shape::U32(r.edge_bits() as u32),
            2 => Shape::I64(r.edge_bits() as i64),
            3 => Shape::U128(r.edge_bits()),
            _ => Shape::I32(r.below(300) as i32 - 150),
        }
    }
    fn key(r: &mut Rng, json: bool) -> Shape {
        match r.below(5) {
            0 => Shape::Str((*r.pick(&["", "a", "-", "-0", "007", "1.5", "1e3", "12 ", " 1", "+1", "256", "-129", "99999999999999999999", "x", "b"])).into()),
            1 if !json => Shape::Bool(r.bool()),
            1 | 2 => Shape::Str(format!("{}", r.below(400) as i32 - 200)),
            _ => int(r),
        }
    }
    fn list<T>(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
        (0..r.below(5)).map(|_| f(r)).collect()
    }
    match r.below(10) {
        0 | 1 => int(r),
        2 => Shape::Seq(list(r, int)),
        3 => Shape::Map(list(r, |r| (key(r, json), int(r)))),
        4 => Shape::Map(list(r, |r| (key(r, json), shape::gen(r, cfg, 1)))),
        5 => Shape::Str((*r.pick(&["", "a", "ab", "\u{20ac}", "B", "A", "x", "true", "1"])).into()),
        6 => Shape::Map(list(r, |r| (Shape::Str((*r.pick(&["a", "b", "A", "B", "x"])).into()), if r.bool() { int(r) } else { Shape::Seq(list(r, int)) }))),
        _ => shape::gen(r, cfg, 0),
    }
}

macro_rules! mismatches {
    ($($name:ident $ty:ty;)*) => {
        const MISMATCHES: usize = [$(stringify!($name)),*].len();

        /// A value is refused in its place if, and only if, it is refused alone,
        /// and the failure is in its place.
        fn mismatch(c: &mut Case<'_>) -> R {
            let json = c.rng.bool();
            let at = c.rng.below(MISMATCHES);
            let v = gen_mismatch(&mut c.rng, json);
            let n = c.rng.below(3) as u32;
            let outer = Outer { list: (0..=n).map(|i| Around { before: Leaf(2 * i), v: if i == n { &v } else { &Shape::None }, after: Leaf(2 * i + 1) }).collect(), end: Leaf(90) };
            let mut i = 0;
            $({
                if at == i {
                    #[derive(Debug, Decode)]
                    #[allow(dead_code)]
                    #[musli(name_all = "name")]
                    struct Placed {
                        before: Leaf,
                        v: $ty,
                        after: Leaf,
                    }
                    /// The ones ahead can be read as anything.
                    #[derive(Debug)]
                    enum Item {
                        Ahead,
                        Here(Placed),
                    }
                    thread_local! { static LEFT: Cell<u32> = const { Cell::new(0) } }
                    impl<'de, M, A: Allocator> Decode<'de, M, A> for Item
                    where
                        Placed: Decode<'de, M, A>,
                        Skipped: Decode<'de, M, A>,
                    {
                        const IS_BITWISE_DECODE: bool = false;
                        fn decode<D: Decoder<'de, Mode = M, Allocator = A>>(d: D) -> Result<Self, D::Error> {
                            let left = LEFT.with(|l| l.replace(l.get().wrapping_sub(1)));
                            if left == 0 {
                                return Ok(Item::Here(d.decode()?));
                            }
                            let _: Skipped = d.decode()?;
                            Ok(Item::Ahead)
                        }
                    }
                    #[derive(Debug, Decode)]
                    #[musli(name_all = "name")]
                    struct Read {
                        list: Vec<Item>,
                        end: Leaf,
                    }
                    macro_rules! go {
                        ($f:ident, $part:path, $dynamic:expr) => {{
                            let what = format!("{}{}: {v:?} read as {}", model::$f::NAME, if $dynamic { " by way of a value" } else { "" }, stringify!($ty));
                            let text = model::$f::to_vec(&v)?;
                            let mut rest = &text[..];
                            let alone: Result<$ty, _> = if $dynamic {
                                let v: musli::value::Value<System> = model::$f::from_slice(&text)?;
                                rest = &[];
                                musli::value::decode_with::<_, $ty, musli::mode::Binary>(&context::new().with_trace(), &v).map_err(|_| ())
                            } else {
                                $part(&mut rest).map_err(|_| ())
                            };
                            if alone.is_ok() && !rest.is_empty() {
                                ensure!(json, "{what} stops ahead of {:?}", String::from_utf8_lossy(rest));
                                c.event("values read in part");
                                return Ok(());
                            }
                            let b = model::$f::to_vec(&outer)?;
                            c.seen_bytes(&b);
                            let cx = context::new().with_trace();
                            LEFT.with(|l| l.set(n));
                            let r: Result<Read, _> = if $dynamic {
                                let v: musli::value::Value<System> = model::$f::from_slice(&b)?;
                                musli::value::decode_with::<_, Read, musli::mode::Binary>(&cx, &v)
                            } else {
                                model::$f::from_slice_with(&cx, &b)
                            };
                            let got = errors(&cx);
                            match (alone, r) {
                                (Ok(a), Ok(r)) => {
                                    ensure!(r.end == Leaf(90) && r.list.len() == n as usize + 1, "{what}: in its place: {r:?}");
                                    let Some(Item::Here(p)) = r.list.last() else { fail!("{what}: in its place: {r:?}") };
                                    ensure!(p.before == Leaf(2 * n) && p.after == Leaf(2 * n + 1), "{what}: in its place: {p:?}");
                                    ensure!(format!("{:?}", p.v) == format!("{a:?}"), "{what}: alone {a:?}, in its place {:?}", p.v);
                                    c.event("values of another type read alike");
                                }
                                (Err(()), Err(_)) => {
                                    let place = format!(".list[{n}].v");
                                    let Some((p, _, pos)) = got.first().and_then(|g| split(g)) else { fail!("{what}: reported {got:?}") };
                                    ensure!(p.strip_prefix(&place[..]).is_some_and(|p| p.is_empty() || p.starts_with(['.', '[', ' '])), "{what}: reported {got:?} instead of at {place}");
                                    if !$dynamic {
                                        let text = |i| Leaf(i).to_string();
                                        let lo = find(&b, &text(2 * n), false).ok_or("before not found")? + text(0).len();
                                        let hi = find(&b, &text(2 * n + 1), false).ok_or("after not found")?;
                                        let Some((x, y)) = pos else { fail!("{what}: no position in {got:?}") };
                                        ensure!(lo <= x && x <= y && y <= hi, "{what}: reported {got:?}, but the value is in {lo}-{hi}");
                                    }
                                    c.event("refused values located");
                                }
                                (a, r) => fail!("{what}: alone {a:?}, in its place {r:?}, reported {got:?}"),
                            }
                        }};
                    }
                    if json {
                        go!(Json, musli::json::decode, false);
                    } else {
                        go!(Descriptive, musli::descriptive::decode, false);
                        go!(Descriptive, musli::descriptive::decode, true);
                    }
                }
                i += 1;
            })*
            _ = i;
            Ok(())
        }
    };
}

#[derive(Debug, Decode)]
#[allow(dead_code)]
#[musli(name_all = "name")]
struct Skipped {
    before: Leaf,
    v: Option<Leaf>,
    after: Leaf,
}

mismatches! {
    A1 u8; A2 u16; A3 u32; A4 u64; A5 u128; A6 i8; A7 i16; A8 i32; A9 i64; A10 i128; A11 usize; A12 isize;
    B1 f32; B2 f64; B3 bool; B4 char; B5 String; B6 Vec<u8>; B7 Option<u32>; B8 Option<String>; B9 ();
    C1 Vec<u16>; C2 Vec<i8>; C3 [i32; 3]; C4 (u8, String); C5 (u32, i64, u128); C6 Vec<Option<i16>>; C7 BTreeSet<u64>;
    D1 BTreeMap<u32, i32>; D2 BTreeMap<i8, u64>; D3 BTreeMap<String, u8>; D4 HashMap<i64, Vec<u8>>; D5 BTreeMap<u128, ()>; D6 BTreeMap<i128, Option<u8>>;
    D7 BTreeMap<u8, String>; D8 BTreeMap<u16, u16>; D9 BTreeMap<u64, i128>; D10 BTreeMap<i16, bool>; D11 BTreeMap<i32, f64>; D12 BTreeMap<usize, isize>;
    D13 BTreeMap<String, BTreeMap<String, u32>>; D14 BTreeMap<bool, u32>; D15 BTreeMap<char, u32>;
    E1 Choice; E2 Vec<Choice>; E3 Holder; E4 Option<Holder>; E5 BTreeMap<String, Holder>; E6 Result<u8, String>; E8 std::num::NonZeroU16;
    E9 std::net::IpAddr; E10 std::ops::Range<u8>; E11 Leaf; E12 std::num::Wrapping<i16>; E13 Box<str>; E14 std::ffi::CString; E15 std::collections::VecDeque<bool>;
}

fn main() {
    let mut g = Groups::new();
    macro_rules! all {
        ($($s:ident)*) => {
            $(
                g.add(format!("leaves/{}", $s::NAME), leaves::<$s>);
                g.add(format!("outcomes/{}", $s::NAME), outcomes::<$s>);
            )*
        };
    }
    all!(Storage StorageFixed Wire WireText Descriptive DescriptiveText Json JsonBinary JsonAdvance Limited Dynamic);
    macro_rules! some {
        ($($s:ident)*) => {
            $(
                g.add(format!("refused/{}", $s::NAME), refused::<$s>);
                g.add(format!("encoding/{}", $s::NAME), encoding::<$s>);
            )*
        };
    }
    some!(Storage Wire Descriptive Json);
    g.add("refused/value", refused::<Dynamic>);
    g.add("reuse", reuse);
    g.add("held", held);
    g.add("tracked", tracked);
    g.add("missing", missing);
    g.add("repeated", repeated);
    g.add("mismatch", mismatch);
    rt::main(g);
}
