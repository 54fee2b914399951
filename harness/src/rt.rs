//! The monitor runtime: generates cases, runs them against the real code with
//! panics caught, allocation bounded and crashes attributable to a case, and
//! reports what was observed.
use crate::rng::{hash_str, mix, Rng};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub events: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub group: &'static str,
    pub thorough: bool,
    st: &'a mut Stats,
    sample_ok: bool,
}

impl Case<'_> {
    pub fn event(&mut self, key: &'static str) {
        *self.st.events.entry(key).or_default() += 1;
    }
    pub fn events(&mut self, key: &'static str, n: u64) {
        *self.st.events.entry(key).or_default() += n;
    }
    /// Record a fingerprint of a non-trivial thing that was observed.
    pub fn seen(&mut self, h: u64) {
        if self.st.distinct.len() < 1_500_000 {
            self.st.distinct.insert(mix(h, hash_str(self.group)));
        }
    }
    /// A listed known finding was met (the driver refuses unlisted ones).
    pub fn known(&mut self, id: &str) {
        *self.st.known.entry(id.to_string()).or_default() += 1;
    }
    pub fn seen_bytes(&mut self, b: &[u8]) {
        self.seen(crate::rng::hash_bytes(b));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample_ok {
            self.sample_ok = false;
            let mut s = f();
            if s.len() > 400 {
                let mut n = 400;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.st.samples.push(format!("{}: {}", self.group, s));
        }
    }
}

/// A family of cases. `max` bounds the number of cases (u64::MAX: time only).
pub struct Group {
    pub name: &'static str,
    pub max: u64,
    pub f: Box<dyn Fn(&mut Case<'_>) -> R + Send + Sync>,
}

pub struct Groups(pub Vec<Group>);

/// Whether a case has to give back every byte it took from the heap.
static NO_LEAKS: AtomicBool = AtomicBool::new(false);

impl Groups {
    pub fn new() -> Self {
        Groups(Vec::new())
    }
    /// Every case has to give back all the memory which it took.
    pub fn no_leaks(&mut self) {
        NO_LEAKS.store(true, Ordering::Relaxed);
    }
    pub fn add(&mut self, name: impl Into<String>, f: impl Fn(&mut Case<'_>) -> R + Send + Sync + 'static) {
        self.add_n(name, u64::MAX, f)
    }
    pub fn add_n(&mut self, name: impl Into<String>, max: u64, f: impl Fn(&mut Case<'_>) -> R + Send + Sync + 'static) {
        let name: &'static str = Box::leak(name.into().into_boxed_str());
        assert!(self.0.iter().all(|g| g.name != name), "duplicate group {name}");
        self.0.push(Group { name, max, f: Box::new(f) });
    }
}

// ---------------------------------------------------------------------------
// Bounded allocation
// ---------------------------------------------------------------------------

pub mod counting {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;

    thread_local! {
        static LIVE: Cell<isize> = const { Cell::new(0) };
        static PEAK: Cell<isize> = const { Cell::new(0) };
        static LARGEST: Cell<usize> = const { Cell::new(0) };
        static COUNT: Cell<u64> = const { Cell::new(0) };
        static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
        static REFUSE: Cell<usize> = const { Cell::new(usize::MAX) };
    }

    /// Counts live bytes per thread; a case that goes past its limit ends the
    /// process with a message naming the size (a crash attributed to the case).
    pub struct Counting;

    fn over(n: usize) -> ! {
        let _ = super::raw_stderr(b"ALLOCATION-LIMIT exceeded by a request of ");
        let mut buf = [0u8; 24];
        let mut i = buf.len();
        let mut n = n;
        loop {
            i -= 1;
            buf[i] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        let _ = super::raw_stderr(&buf[i..]);
        let _ = super::raw_stderr(b" bytes\n");
        std::process::abort()
    }

    fn on(add: isize, size: usize) {
        let _ = LIVE.try_with(|l| {
            let v = l.get().saturating_add(add);
            l.set(v);
            if add > 0 {
                COUNT.with(|c| c.set(c.get() + 1));
                PEAK.with(|p| p.set(p.get().max(v)));
                LARGEST.with(|p| p.set(p.get().max(size)));
                let limit = LIMIT.with(|l| l.get());
                if limit != usize::MAX && (size > limit || v > 0 && v as usize > limit) && !std::thread::panicking() {
                    LIMIT.with(|l| l.set(usize::MAX));
                    over(size);
                }
            }
        });
    }

    /// A request which failed took nothing.
    fn kept(p: *mut u8, n: isize) -> *mut u8 {
        if p.is_null() {
            let _ = LIVE.try_with(|l| l.set(l.get().saturating_sub(n)));
        }
        p
    }

    fn refused(n: usize) -> bool {
        REFUSE.try_with(|r| n >= r.get()).unwrap_or(false)
    }

    // -----------------------------------------------------------------------
    // Every block carries the layout it was asked for in front of it and a
    // guard word behind it, so that giving it back as something else, or having
    // written past its end, is noticed. Sanitizers and Miri see the plain
    // allocator, since they watch this themselves.
    // -----------------------------------------------------------------------
    #[cfg(not(any(miri, vh_san)))]
    mod raw {
        use super::*;

        const MAGIC: usize = 0x5a17_c0de_9b3d_e10f_u64 as usize;
        const HEAD: usize = 32;
        const TAIL: usize = 8;

        fn outer(l: Layout) -> Option<(Layout, usize)> {
            let align = l.align().max(16);
            let off = HEAD.max(align);
            let size = l.size().checked_add(off + TAIL)?;
            Some((Layout::from_size_align(size, align).ok()?, off))
        }

        unsafe fn mark(p: *mut u8, l: Layout, off: usize) -> *mut u8 {
            if p.is_null() {
                return p;
            }
            let u = p.add(off);
            let h = u.sub(HEAD).cast::<usize>();
            h.write(l.size());
            h.add(1).write(l.align());
            h.add(2).write(MAGIC);
            u.add(l.size()).cast::<u64>().write_unaligned(MAGIC as u64);
            u
        }

        unsafe fn check(u: *mut u8, l: Layout) -> *mut u8 {
            let h = u.sub(HEAD).cast::<usize>();
            let (size, align, magic) = (h.read(), h.add(1).read(), h.add(2).read());
            let why: &[u8] = if magic != MAGIC {
                b"LAYOUT-MISMATCH a block is given back which is not live, or what is in front of it was overwritten\n"
            } else if size != l.size() {
                b"LAYOUT-MISMATCH a block is given back with a size which it was not asked for with\n"
            } else if align != l.align() {
                b"LAYOUT-MISMATCH a block is given back with an alignment which it was not asked for with\n"
            } else if u.add(size).cast::<u64>().read_unaligned() != MAGIC as u64 {
                b"LAYOUT-MISMATCH what is behind a block was overwritten\n"
            } else {
                h.add(2).write(0);
                let (_, off) = outer(l).unwrap();
                return u.sub(off);
            };
            let _ = crate::rt::raw_stderr(why);
            std::process::abort()
        }

        pub unsafe fn alloc(l: Layout) -> *mut u8 {
            match outer(l) {
                Some((o, off)) => mark(System.alloc(o), l, off),
                None => std::ptr::null_mut(),
            }
        }
        pub unsafe fn alloc_zeroed(l: Layout) -> *mut u8 {
            match outer(l) {
                Some((o, off)) => mark(System.alloc_zeroed(o), l, off),
                None => std::ptr::null_mut(),
            }
        }
        pub unsafe fn dealloc(u: *mut u8, l: Layout) {
            let p = check(u, l);
            System.dealloc(p, outer(l).unwrap().0)
        }
        pub unsafe fn realloc(u: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let new = Layout::from_size_align_unchecked(n, l.align());
            let Some((o, off)) = outer(new) else { return std::ptr::null_mut() };
            let p = check(u, l);
            let q = System.realloc(p, outer(l).unwrap().0, o.size());
            if q.is_null() {
                // The old block stays as it was.
                mark(p, l, off);
                return q;
            }
            mark(q, new, off)
        }
    }
    #[cfg(any(miri, vh_san))]
    mod raw {
        use super::*;
        pub unsafe fn alloc(l: Layout) -> *mut u8 {
            System.alloc(l)
        }
        pub unsafe fn alloc_zeroed(l: Layout) -> *mut u8 {
            System.alloc_zeroed(l)
        }
        pub unsafe fn dealloc(p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        pub unsafe fn realloc(p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            System.realloc(p, l, n)
        }
    }

    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if refused(l.size()) {
                return std::ptr::null_mut();
            }
            on(l.size() as isize, l.size());
            kept(raw::alloc(l), l.size() as isize)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            on(l.size() as isize, l.size());
            kept(raw::alloc_zeroed(l), l.size() as isize)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            on(-(l.size() as isize), l.size());
            raw::dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if refused(n) {
                return std::ptr::null_mut();
            }
            on(n as isize - l.size() as isize, n);
            kept(raw::realloc(p, l, n), n as isize - l.size() as isize)
        }
    }

    pub fn reset() {
        LIVE.with(|l| l.set(0));
        PEAK.with(|l| l.set(0));
        LARGEST.with(|l| l.set(0));
        COUNT.with(|l| l.set(0));
    }
    /// Requests of this many bytes or more fail.
    pub fn set_refuse(n: usize) {
        REFUSE.with(|l| l.set(n));
    }
    pub fn set_limit(n: usize) {
        LIMIT.with(|l| l.set(n));
    }
    pub fn peak() -> usize {
        PEAK.with(|p| p.get()).max(0) as usize
    }
    pub fn live() -> isize {
        LIVE.with(|p| p.get())
    }
    pub fn largest() -> usize {
        LARGEST.with(|p| p.get())
    }
    pub fn count() -> u64 {
        COUNT.with(|p| p.get())
    }
}

fn raw_stderr(b: &[u8]) -> std::io::Result<()> {
    std::io::stderr().write_all(b)
}

// ---------------------------------------------------------------------------
// Panic capture
// ---------------------------------------------------------------------------

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
    }));
}

pub fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<panic>".to_string()
    }
}

/// Run `f`, turning a panic into `Err("panic: …")`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| payload(&*e));
            Err(format!("panic: {m}"))
        }
    }
}

// ---------------------------------------------------------------------------
// Runner
// ---------------------------------------------------------------------------

pub struct Opts {
    pub seed: u64,
    pub secs: f64,
    pub iters: Option<u64>,
    pub threads: usize,
    pub out: Option<String>,
    pub slots: Option<String>,
    pub thorough: bool,
    pub replay: Option<(String, u64, u64)>,
    pub only: Option<String>,
    pub case_cpu: u64,
    pub alloc_limit: usize,
    /// Only run groups whose index is `.0` modulo `.1`.
    pub shard: (usize, usize),
}

fn parse_opts() -> Opts {
    let mut o = Opts {
        seed: 1,
        secs: 5.0,
        iters: None,
        threads: 1,
        out: None,
        slots: None,
        thorough: false,
        replay: None,
        only: None,
        case_cpu: 60,
        alloc_limit: 1 << 30,
        shard: (0, 1),
    };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--seed" => o.seed = v().parse().unwrap(),
            "--secs" => o.secs = v().parse().unwrap(),
            "--iters" => o.iters = Some(v().parse().unwrap()),
            "--threads" => o.threads = v().parse().unwrap(),
            "--out" => o.out = Some(v()),
            "--slots" => o.slots = Some(v()),
            "--only" => o.only = Some(v()),
            "--case-cpu" => o.case_cpu = v().parse().unwrap(),
            "--shard" => {
                let s = v();
                let (a, b) = s.split_once('/').unwrap();
                o.shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--alloc-limit" => o.alloc_limit = v().parse().unwrap(),
            "--thorough" => o.thorough = true,
            "--replay" => {
                // group@index@seed
                let s = v();
                let mut p = s.rsplitn(3, '@');
                let seed = p.next().unwrap().parse().unwrap();
                let index = p.next().unwrap().parse().unwrap();
                o.replay = Some((p.next().unwrap().to_string(), index, seed));
            }
            x => panic!("unknown option {x}"),
        }
    }
    o
}

struct Shared {
    groups: Vec<Group>,
    next: Vec<AtomicU64>,
    dead: Vec<AtomicBool>,
    turn: AtomicUsize,
    violations: Mutex<Vec<(String, u64, u64, String)>>,
    per_group: Vec<AtomicU64>,
}

fn run_one(g: &Group, index: u64, seed: u64, thorough: bool, st: &mut Stats, sample_ok: bool, limit: usize) -> Result<R, String> {
    let r = run_once(g, index, seed, thorough, st, sample_ok, limit);
    if !NO_LEAKS.load(Ordering::Relaxed) || !matches!(r, Ok(Ok(()))) || counting::live() <= 0 {
        return r;
    }
    // What is kept for good (the monitor's own records, anything initialised
    // once) is kept by the first run only.
    let mut least = isize::MAX;
    for _ in 0..3 {
        let r = run_once(g, index, seed, thorough, st, false, limit);
        if !matches!(r, Ok(Ok(()))) {
            return r;
        }
        least = least.min(counting::live());
        if least <= 0 {
            return Ok(Ok(()));
        }
    }
    Ok(Err(format!("{least} bytes of the heap are still held when everything is done, each time this is run")))
}

fn run_once(g: &Group, index: u64, seed: u64, thorough: bool, st: &mut Stats, sample_ok: bool, limit: usize) -> Result<R, String> {
    let mut case = Case { rng: Rng::new(seed), index, group: g.name, thorough, st, sample_ok };
    counting::reset();
    counting::set_limit(limit);
    let r = guard(|| (g.f)(&mut case));
    counting::set_limit(usize::MAX);
    counting::set_refuse(usize::MAX);
    r
}

pub fn main(groups: Groups) {
    let o = parse_opts();
    if std::env::var_os("VERIF_SHOW_PANICS").is_none() {
        install_hook();
    }
    let groups: Vec<Group> = groups
        .0
        .into_iter()
        .filter(|g| o.only.as_ref().map_or(true, |p| p.split('|').any(|p| g.name.contains(p))))
        .enumerate()
        .filter(|(i, _)| o.replay.is_some() || i % o.shard.1 == o.shard.0)
        .map(|(_, g)| g)
        .collect();

    if let Some((name, index, seed)) = &o.replay {
        let g = groups.iter().find(|g| g.name == name).expect("group");
        let mut st = Stats::default();
        match run_one(g, *index, *seed, o.thorough, &mut st, true, o.alloc_limit).and_then(|r| r) {
            Ok(()) => {
                println!("REPLAY ok");
                for s in &st.samples {
                    println!("{s}");
                }
                std::process::exit(0)
            }
            Err(e) => {
                println!("REPLAY violation: {e}");
                std::process::exit(1)
            }
        }
    }

    let n = groups.len();
    let sh = Arc::new(Shared {
        next: (0..n).map(|_| AtomicU64::new(0)).collect(),
        dead: (0..n).map(|_| AtomicBool::new(false)).collect(),
        per_group: (0..n).map(|_| AtomicU64::new(0)).collect(),
        groups,
        turn: AtomicUsize::new(0),
        violations: Mutex::new(Vec::new()),
    });
    let start = Instant::now();
    let deadline = Duration::from_secs_f64(o.secs);
    let o = Arc::new(o);
    let mut hs = Vec::new();
    let hang: Arc<Vec<AtomicU64>> = Arc::new((0..o.threads).map(|_| AtomicU64::new(0)).collect());
    let finished = Arc::new(AtomicUsize::new(0));

    for t in 0..o.threads {
        let sh = sh.clone();
        let o = o.clone();
        let hang = hang.clone();
        let finished = finished.clone();
        let run = move || worker(t, &sh, &o, &hang, start, deadline, &finished);
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(run).unwrap());
    }

    // Watchdog: a case that does not finish is reported as a suspected hang
    // (the driver confirms it with a CPU-time limited replay).
    if !cfg!(miri) {
        let mut last: Vec<(u64, Instant)> = hang.iter().map(|h| (h.load(Ordering::Relaxed), Instant::now())).collect();
        while finished.load(Ordering::SeqCst) < o.threads {
            std::thread::sleep(Duration::from_millis(50));
            for (i, h) in hang.iter().enumerate() {
                let v = h.load(Ordering::Relaxed);
                if v != last[i].0 {
                    last[i] = (v, Instant::now());
                } else if v != 0 && v != u64::MAX && last[i].1.elapsed() > Duration::from_secs(o.case_cpu) {
                    eprintln!("HANG thread={i}");
                    std::process::exit(124);
                }
            }
        }
    }
    let mut all = Vec::new();
    for h in hs {
        all.push(h.join().expect("worker"));
    }
    finish(all, &sh, start.elapsed().as_millis() as u64);
}

fn worker(
    t: usize,
    sh: &Shared,
    o: &Opts,
    hang: &[AtomicU64],
    start: Instant,
    deadline: Duration,
    finished: &AtomicUsize,
) -> Stats {
    let mut st = Stats::default();
    let mut slot = o.slots.as_ref().map(|d| std::fs::File::create(format!("{d}/slot.{t}")).unwrap());
    let mut samples_left: BTreeMap<usize, u32> = BTreeMap::new();
    let mut tick = 1u64;
    let ngroups = sh.groups.len();
    let mut rounds_idle = 0;
    'outer: loop {
        if ngroups == 0 {
            break;
        }
        if o.iters.is_none() && start.elapsed() >= deadline && sh.turn.load(Ordering::Relaxed) >= ngroups {
            break;
        }
        if rounds_idle > ngroups {
            break;
        }
        let turn = sh.turn.fetch_add(1, Ordering::Relaxed);
        let gi = turn % ngroups;
        let g = &sh.groups[gi];
        let cap = o.iters.map_or(g.max, |n| n.min(g.max));
        if sh.dead[gi].load(Ordering::Relaxed) || sh.next[gi].load(Ordering::Relaxed) >= cap {
            rounds_idle += 1;
            if o.iters.is_none() && start.elapsed() >= deadline {
                break;
            }
            continue;
        }
        rounds_idle = 0;
        let slice_start = Instant::now();
        loop {
            let idx = sh.next[gi].fetch_add(1, Ordering::Relaxed);
            if idx >= cap {
                break;
            }
            let seed = mix(mix(o.seed, hash_str(g.name)), idx);
            if let Some(f) = &mut slot {
                use std::os::unix::fs::FileExt;
                let line = format!("{}@{}@{}\n{:<60}", g.name, idx, seed, "");
                let _ = f.write_at(line.as_bytes(), 0);
            }
            if cfg!(miri) {
                eprintln!("CASE {}@{}@{}", g.name, idx, seed);
            }
            hang[t].store(tick, Ordering::Relaxed);
            tick += 1;
            let left = samples_left.entry(gi).or_insert(1);
            let sample_ok = t == 0 && *left > 0 && idx >= 2;
            let before = st.samples.len();
            let r = run_one(g, idx, seed, o.thorough, &mut st, sample_ok, o.alloc_limit);
            if st.samples.len() > before {
                *left -= 1;
            }
            hang[t].store(u64::MAX, Ordering::Relaxed);
            st.evaluations += 1;
            sh.per_group[gi].fetch_add(1, Ordering::Relaxed);
            match r.and_then(|r| r) {
                Ok(()) => {}
                Err(msg) => {
                    let mut v = sh.violations.lock().unwrap();
                    v.push((g.name.to_string(), idx, seed, msg));
                    let c = v.iter().filter(|x| x.0 == g.name).count();
                    if c >= 3 {
                        sh.dead[gi].store(true, Ordering::Relaxed);
                    }
                    let total = v.len();
                    drop(v);
                    if total > 200 {
                        break 'outer;
                    }
                    break;
                }
            }
            if o.iters.is_none() && slice_start.elapsed() > Duration::from_millis(if cfg!(miri) { 1 } else { 15 }) {
                break;
            }
        }
    }
    hang[t].store(u64::MAX, Ordering::Relaxed);
    finished.fetch_add(1, Ordering::SeqCst);
    st
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn finish(all: Vec<Stats>, sh: &Shared, ms: u64) {
    let mut evaluations = 0;
    let mut distinct = HashSet::new();
    let mut events: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for s in all {
        for (k, v) in &s.known {
            *known.entry(k.clone()).or_default() += v;
        }
        evaluations += s.evaluations;
        distinct.extend(s.distinct);
        for (k, v) in s.events {
            *events.entry(k).or_default() += v;
        }
        samples.extend(s.samples);
    }
    let mut j = String::new();
    let _ = write!(j, "{{\"evaluations\":{evaluations},\"distinct\":{},\"ms\":{ms},", distinct.len());
    j.push_str("\"events\":{");
    for (i, (k, v)) in events.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        let _ = write!(j, "{}:{v}", json_str(k));
    }
    j.push_str("},\"known\":{");
    for (i, (k, v)) in known.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        let _ = write!(j, "{}:{v}", json_str(k));
    }
    j.push_str("},\"groups\":{");
    for (i, g) in sh.groups.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        let _ = write!(j, "{}:{}", json_str(g.name), sh.per_group[i].load(Ordering::Relaxed));
    }
    j.push_str("},\"samples\":[");
    for (i, s) in samples.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        j.push_str(&json_str(s));
    }
    j.push_str("],\"violations\":[");
    let v = sh.violations.lock().unwrap();
    for (i, (g, idx, seed, msg)) in v.iter().enumerate() {
        if i > 0 {
            j.push(',');
        }
        let _ = write!(
            j,
            "{{\"group\":{},\"case\":{},\"message\":{}}}",
            json_str(g),
            json_str(&format!("{g}@{idx}@{seed}")),
            json_str(msg)
        );
    }
    j.push_str("]}");
    let out = std::env::args().skip_while(|a| a != "--out").nth(1);
    match out {
        Some(p) => std::fs::write(p, &j).unwrap(),
        None => println!("RESULT {j}"),
    }
    if out_is_none() {
        for (g, idx, seed, msg) in v.iter() {
            eprintln!("violation {g}@{idx}@{seed}: {msg}");
        }
    }
    std::process::exit(if v.is_empty() { 0 } else { 1 });
}

fn out_is_none() -> bool {
    !std::env::args().any(|a| a == "--out")
}
