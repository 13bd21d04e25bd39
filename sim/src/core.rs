//! The simulator's seed plumbing: one choice tape decides everything, one event log records it.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

// ---------------------------------------------------------------------------------- PRNG / tape

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5bd1_e995_1234_abcd))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

enum Src {
    Seed(Rng),
    Replay(Vec<u64>),
}

/// Every decision of a run is one draw `below(n)`; zero is always the simplest alternative (no
/// fault, smallest size, FIFO order). Recorded draws make up the replay file and are what the
/// minimiser edits. Past the end of a replayed tape every draw is zero.
pub struct Tape {
    src: Src,
    pos: usize,
    pub rec: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
}

const MAX_DRAWS: usize = 4_000_000;

impl Tape {
    pub fn from_seed(seed: u64) -> Self {
        Tape { src: Src::Seed(Rng::new(seed)), pos: 0, rec: Vec::new(), spans: Vec::new() }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Tape { src: Src::Replay(v), pos: 0, rec: Vec::new(), spans: Vec::new() }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if n <= 1 || self.pos >= MAX_DRAWS {
            0
        } else {
            match &mut self.src {
                Src::Seed(r) => {
                    // multiply-shift keeps the bias negligible
                    ((r.next() as u128 * n as u128) >> 64) as u64
                }
                Src::Replay(v) => v.get(self.pos).copied().unwrap_or(0).min(n - 1),
            }
        };
        if n > 1 {
            self.pos += 1;
            if let Src::Replay(v) = &self.src {
                // a shrunk run in which nothing but zeros is drawn may go round for ever
                assert!(self.pos < v.len().max(MAX_DRAWS) + MAX_DRAWS, "the tape has run out");
            }
            if self.rec.len() < MAX_DRAWS {
                self.rec.push(v);
            }
            dump_draw(v);
        }
        v
    }
    pub fn begin(&self) -> usize {
        self.rec.len()
    }
    pub fn end(&mut self, start: usize) {
        let e = self.rec.len();
        if e > start && self.spans.len() < 20_000 {
            self.spans.push((start, e));
        }
    }
}

thread_local! {
    static DUMP: RefCell<Option<std::fs::File>> = const { RefCell::new(None) };
}
/// Used by the hang/crash supervisor only: streams draws to a file so that the tape of a run which
/// never returns is known.
pub fn set_dump(f: Option<std::fs::File>) {
    DUMP.with(|d| *d.borrow_mut() = f);
}
fn dump_draw(v: u64) {
    DUMP.with(|d| {
        if let Some(f) = d.borrow_mut().as_mut() {
            use std::io::Write;
            let _ = f.write_all(format!("{}\n", v).as_bytes());
        }
    });
}

// ---------------------------------------------------------------------------------- violations

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Violation>;

pub fn viol<T>(class: &str, msg: String) -> Res<T> {
    Err(Violation { class: class.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond { return $crate::core::viol($class, format!($($arg)*)); }
    };
}

// ---------------------------------------------------------------------------------- run context

pub struct Run {
    pub t: Tape,
    /// simulated microseconds
    pub now: u64,
    pub hash: u64,
    pub sched: u64,
    pub events: u64,
    pub capture: bool,
    pub trace: Vec<String>,
    pub counts: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    /// what this run did that counts as a non-trivial exploration (rule per property)
    pub weight: u64,
    pub thorough: bool,
    pub summary: String,
    /// this world is fast enough for more than 65536 of everything
    pub vast: bool,
}

impl Run {
    pub fn new(t: Tape, capture: bool, thorough: bool) -> Self {
        Run {
            t,
            now: 0,
            hash: 0xcbf29ce484222325,
            sched: 0xcbf29ce484222325,
            events: 0,
            capture,
            trace: Vec::new(),
            counts: BTreeMap::new(),
            faults: BTreeMap::new(),
            weight: 0,
            thorough,
            summary: String::new(),
            vast: false,
        }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.t.below(n)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.t.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.t.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// true with probability num/den; false is the simple case
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.t.below(den) >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    /// sizes skewed to small with occasional large ones
    pub fn skewed(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        let cap = match self.below(4) {
            0 => max.min(3),
            1 => max.min(12),
            2 => max.min(60),
            _ => max,
        };
        self.urange(0, cap)
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let i = self.idx(xs.len());
        xs[i].clone()
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
        self.weight += 1;
    }
    pub fn ev(&mut self, s: String) {
        for b in s.as_bytes() {
            self.hash = (self.hash ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        self.hash = (self.hash ^ 0xff).wrapping_mul(0x100000001b3);
        self.events += 1;
        if self.capture && self.trace.len() < 5000 {
            self.trace.push(format!("t={}us {}", self.now, s));
        }
    }
    /// record a scheduling decision (what ran / was delivered next) in the schedule signature
    pub fn sig(&mut self, v: u64) {
        self.sched = (self.sched ^ mix(v)).wrapping_mul(0x100000001b3);
    }
}

#[macro_export]
macro_rules! ev {
    ($run:expr, $($arg:tt)*) => { $run.ev(format!($($arg)*)) };
}

/// Deterministic content: each (key, offset) byte is fixed, cheap to make, and distinct keys give
/// distinct content.
pub fn content_bytes(key: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(key);
    let mut out = Vec::with_capacity(len + 8);
    while out.len() < len {
        out.extend_from_slice(&r.next().to_le_bytes());
    }
    out.truncate(len);
    out
}

// ---------------------------------------------------------------------------------- lib guard

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static PANIC_AT: RefCell<Option<(bool, String, String)>> = const { RefCell::new(None) };
    static HASH_SEED: Cell<u64> = const { Cell::new(0x1234_5678) };
}

/// Marks that the code under test is running (panics are then its, not the harness').
pub struct InLib;
impl InLib {
    pub fn enter() -> InLib {
        IN_LIB.with(|c| {
            if c.get() == 0 {
                crate::alloc::enter();
            }
            c.set(c.get() + 1)
        });
        InLib
    }
}
impl Drop for InLib {
    fn drop(&mut self) {
        IN_LIB.with(|c| {
            c.set(c.get().saturating_sub(1));
            if c.get() == 0 {
                crate::alloc::leave();
            }
        });
    }
}
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    if let Some(k) = elsewhere() {
        return on_thread(k, f);
    }
    let _g = InLib::enter();
    f()
}

// ------------------------------------------------------------- threads behind a seam

/// In some runs the calls of the run are made on a number of threads in turn, as they are when
/// tasks are moved between the threads of an executor. Only one of them ever runs: the order stays
/// the run's own, what changes is everything that belongs to a thread.
struct Threads {
    rng: Rng,
    hash_seed: u64,
    helpers: Vec<Option<Helper>>,
    calls: u64,
}
struct Helper {
    jobs: Option<std::sync::mpsc::Sender<Job>>,
    done: std::sync::mpsc::Receiver<Done>,
    thread: Option<std::thread::JoinHandle<()>>,
}
struct Job(*mut (dyn FnMut() + 'static));
// the sender waits until the job is done
unsafe impl Send for Job {}
struct Done {
    memory: (i64, i64),
    panic: Option<(bool, String, String)>,
}
thread_local! {
    static THREADS: RefCell<Option<Threads>> = const { RefCell::new(None) };
}

pub fn start_threads(seed: u64) {
    let t = Threads { rng: Rng::new(seed), hash_seed: mix(seed ^ 0x7472_6561), helpers: (0..3).map(|_| None).collect(), calls: 0 };
    THREADS.with(|x| *x.borrow_mut() = Some(t));
}
/// How many calls were made on other threads.
pub fn stop_threads() -> u64 {
    let Some(t) = THREADS.with(|x| x.borrow_mut().take()) else { return 0 };
    for h in t.helpers.into_iter().flatten() {
        let Helper { jobs, thread, .. } = h;
        drop(jobs);
        if let Some(t) = thread {
            let _ = t.join();
        }
    }
    t.calls
}
fn elsewhere() -> Option<usize> {
    if IN_LIB.with(|c| c.get() > 0) {
        return None;
    }
    THREADS.with(|x| {
        let mut x = x.borrow_mut();
        let t = x.as_mut()?;
        let k = (t.rng.next() >> 20) as usize % 4;
        if k == 3 {
            return None;
        }
        t.calls += 1;
        if t.helpers[k].is_none() {
            let (jobs, rx) = std::sync::mpsc::channel::<Job>();
            let (tx, done) = std::sync::mpsc::channel();
            let hs = mix(t.hash_seed.wrapping_add(k as u64));
            let thread = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    set_hash_seed(hs);
                    while let Ok(j) = rx.recv() {
                        unsafe { (*j.0)() };
                        let d = Done { memory: crate::alloc::of_last(), panic: take_panic() };
                        if tx.send(d).is_err() {
                            break;
                        }
                    }
                })
                .expect("spawn helper thread");
            t.helpers[k] = Some(Helper { jobs: Some(jobs), done, thread: Some(thread) });
        }
        Some(k)
    })
}
fn on_thread<T>(k: usize, f: impl FnOnce() -> T) -> T {
    let mut out = None;
    let mut f = Some(f);
    let mut job = || {
        let f = f.take().expect("called once");
        out = Some(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _g = InLib::enter();
            f()
        })));
    };
    let job: &mut dyn FnMut() = &mut job;
    // sound: this call does not return before the job has
    let job = Job(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(job) });
    let d = THREADS.with(|x| {
        let x = x.borrow();
        let h = x.as_ref().and_then(|t| t.helpers[k].as_ref()).expect("started");
        h.jobs.as_ref().expect("open").send(job).expect("helper lives");
        h.done.recv().expect("helper lives")
    });
    crate::alloc::set_last(d.memory);
    match out.expect("done") {
        Ok(v) => v,
        Err(e) => {
            PANIC_AT.with(|p| *p.borrow_mut() = d.panic);
            std::panic::resume_unwind(e)
        }
    }
}
pub fn reset_lib() {
    IN_LIB.with(|c| c.set(0));
    crate::alloc::leave();
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let in_lib = IN_LIB.with(|c| c.get() > 0);
        if !in_lib {
            eprintln!("harness panic at {}: {}", loc, msg);
        }
        PANIC_AT.with(|p| *p.borrow_mut() = Some((in_lib, loc, msg)));
    }));
}
pub fn take_panic() -> Option<(bool, String, String)> {
    PANIC_AT.with(|p| p.borrow_mut().take())
}

// ------------------------------------------------------------- process randomness behind a seam

pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|c| c.set(s));
}

/// std's HashMap takes its keys from this libc call (once per thread). Owning it makes hash
/// iteration order a function of the run's tape.
///
/// # Safety
/// same contract as libc's getrandom
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.with(|c| c.get());
    for i in 0..len {
        s = mix(s.wrapping_add(i as u64));
        *buf.add(i) = s as u8;
    }
    HASH_SEED.with(|c| c.set(s));
    len as isize
}

/// Runs `f` on a fresh thread whose hash maps are keyed from `seed`; panics propagate.
pub fn with_hash_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = s.spawn(move || {
            set_hash_seed(seed);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            match r {
                Ok(v) => Ok(v),
                Err(_) => Err(take_panic()),
            }
        });
        match h.join() {
            Ok(Ok(v)) => v,
            Ok(Err(p)) => {
                let (l, at, m) = p.unwrap_or((false, "?".into(), "?".into()));
                // re-raise with the original location kept for the report
                RERAISE.with(|r| *r.borrow_mut() = Some((l, at, m)));
                std::panic::resume_unwind(Box::new("reraised"));
            }
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}
thread_local! {
    static RERAISE: RefCell<Option<(bool, String, String)>> = const { RefCell::new(None) };
}
pub fn take_reraise() -> Option<(bool, String, String)> {
    RERAISE.with(|p| p.borrow_mut().take())
}

/// The one buffer a node hands blocks over in: overwritten with junk after every use.
#[derive(Default)]
pub struct Wire(Vec<u8>);
impl Wire {
    pub fn lend<T>(&mut self, b: &[u8], f: impl FnOnce(&[u8]) -> T) -> T {
        self.0.clear();
        self.0.extend_from_slice(b);
        let r = f(&self.0);
        self.0.fill(0xee);
        r
    }
}
