//! Exploration core: spaces (indexed finite sets of cases), the context that counts what was covered,
//! memory with guard pages, the intercepted clock, and panic capture.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, Ordering};

// ---------------------------------------------------------------- libc
#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}
extern "C" {
    pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    pub fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    pub fn syscall(n: i64, ...) -> i64;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}
pub const PAGE: usize = 4096;

// ---------------------------------------------------------------- clock
/// The clock of the process is owned by the harness: `clock_gettime` below shadows libc's, so every
/// read of Instant::now()/SystemTime::now()/Local::now() in the code under test is answered here.
pub struct Clock {
    pub on: Cell<bool>,
    /// monotonic clock, ns
    pub mono: Cell<i64>,
    /// realtime clock, ns since epoch
    pub real: Cell<i64>,
    /// ns the clock advances after every read
    pub jitter: Cell<i64>,
    pub reads: Cell<u64>,
}
thread_local! {
    pub static CLOCK: Clock = const { Clock { on: Cell::new(false), mono: Cell::new(0), real: Cell::new(0), jitter: Cell::new(0), reads: Cell::new(0) } };
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    let faked = CLOCK
        .try_with(|c| {
            if !c.on.get() {
                return false;
            }
            let real = id == 0 || id == 5;
            let t = if real { c.real.get() } else { c.mono.get() };
            c.reads.set(c.reads.get() + 1);
            c.mono.set(c.mono.get() + c.jitter.get());
            c.real.set(c.real.get() + c.jitter.get());
            (*ts).sec = t.div_euclid(1_000_000_000);
            (*ts).nsec = t.rem_euclid(1_000_000_000);
            true
        })
        .unwrap_or(false);
    if faked {
        return 0;
    }
    syscall(228, id as i64, ts as usize) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Timespec, _tz: *mut u8) -> i32 {
    let mut ts = Timespec::default();
    let r = clock_gettime(0, &mut ts);
    (*tv).sec = ts.sec;
    (*tv).nsec = ts.nsec / 1000;
    r
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = Timespec::default();
    clock_gettime(0, &mut ts);
    if !t.is_null() {
        *t = ts.sec;
    }
    ts.sec
}
pub fn set_mono(ns: i64) {
    CLOCK.with(|c| {
        c.on.set(true);
        c.mono.set(ns)
    })
}
pub fn set_real(ns: i64) {
    CLOCK.with(|c| {
        c.on.set(true);
        c.real.set(ns)
    })
}
pub fn clock_off() {
    CLOCK.with(|c| c.on.set(false))
}
pub fn wall() -> f64 {
    let mut ts = Timespec::default();
    unsafe { syscall(228, 1i64, &mut ts as *mut _ as usize) };
    ts.sec as f64 + ts.nsec as f64 * 1e-9
}

// ---------------------------------------------------------------- results
#[derive(Clone, Debug)]
pub struct Fail {
    /// identifies the specific input / call site, for the known-findings file
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail(key: impl Into<String>, msg: impl Into<String>) -> Fail {
    Fail { key: key.into(), msg: msg.into() }
}
#[macro_export]
macro_rules! bail {
    ($key:expr, $($a:tt)*) => { return Err($crate::core::fail($key, format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => { if !($c) { return Err($crate::core::fail($key, format!($($a)*))) } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub fn thorough(t: Tier) -> bool {
    t == Tier::Thorough
}

pub struct Viol {
    pub space: String,
    pub idx: u64,
    pub fail: Fail,
}

#[repr(C)]
pub struct Progress {
    pub space: u64,
    pub idx: u64,
    pub beat: u64,
    pub note_len: u64,
    pub note: [u8; 8192],
}

pub struct Ctx {
    pub tier: Tier,
    pub build: String,
    pub verbose: bool,
    pub evals: u64,
    pub nontrivial: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viol: Vec<Viol>,
    pub prog: *mut Progress,
    pub sample_due: bool,
}
impl Ctx {
    pub fn new(tier: Tier, build: &str, prog: *mut Progress) -> Ctx {
        Ctx {
            tier,
            build: build.into(),
            verbose: false,
            evals: 0,
            nontrivial: 0,
            states: 0,
            transitions: 0,
            traces: 0,
            counters: BTreeMap::new(),
            samples: vec![],
            viol: vec![],
            prog,
            sample_due: false,
        }
    }
    /// One case evaluated; `nt`: non-trivial by the property's rule.
    #[inline]
    pub fn case(&mut self, nt: bool) {
        self.evals += 1;
        self.nontrivial += nt as u64;
    }
    #[inline]
    pub fn beat(&mut self) {
        unsafe {
            let p = std::ptr::addr_of_mut!((*self.prog).beat);
            p.write_volatile(p.read_volatile().wrapping_add(1));
        }
    }
    /// Records what is about to be executed, so that a crash can be attributed. Cheap text only.
    pub fn note(&mut self, s: &str) {
        unsafe {
            let n = s.len().min(8192);
            std::ptr::copy_nonoverlapping(s.as_ptr(), std::ptr::addr_of_mut!((*self.prog).note) as *mut u8, n);
            std::ptr::addr_of_mut!((*self.prog).note_len).write_volatile(n as u64);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max:{k}");
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n)
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample_due && self.samples.len() < 8 {
            self.samples.push(f());
            self.sample_due = false;
        }
    }
    /// In verbose (isolated re-run) mode, describe the case before running it.
    #[inline]
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.note(&s);
            eprintln!("case: {s}");
        }
    }
}

pub type RunFn = Box<dyn Fn(u64, &mut Ctx) -> R>;
pub struct Space {
    pub name: String,
    pub len: u64,
    pub run: RunFn,
}
pub fn space(name: impl Into<String>, len: u64, run: impl Fn(u64, &mut Ctx) -> R + 'static) -> Space {
    Space { name: name.into(), len, run: Box::new(run) }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub exhaustive: bool,
    pub spaces: fn(Tier) -> Vec<Space>,
}

// ---------------------------------------------------------------- panics
thread_local! { pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}
/// Runs a call into the code under test; `Err` when it aborted (panicked).
#[inline]
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
/// As `catch`, without the message.
#[inline]
pub fn tri<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

// ---------------------------------------------------------------- guarded memory
/// Accessible region of `cap` bytes ending exactly at an inaccessible page, preceded by one.
pub struct Guard {
    pub base: *mut u8,
    pub cap: usize,
}
static MAPS: AtomicI32 = AtomicI32::new(0);
impl Guard {
    pub fn new(min_cap: usize) -> Guard {
        let pages = (min_cap + PAGE - 1) / PAGE;
        let total = (pages + 2) * PAGE;
        unsafe {
            let p = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(p as isize != -1, "mmap");
            assert_eq!(mprotect(p, PAGE, 0), 0);
            assert_eq!(mprotect(p.add((pages + 1) * PAGE), PAGE, 0), 0);
            MAPS.fetch_add(1, Ordering::Relaxed);
            Guard { base: p.add(PAGE), cap: pages * PAGE }
        }
    }
    /// Start of a region of `n` bytes that ends at the guard page.
    #[inline]
    pub fn tail(&self, n: usize) -> *mut u8 {
        debug_assert!(n <= self.cap);
        unsafe { self.base.add(self.cap - n) }
    }
    /// Copies `b` so that its last byte is the last accessible one.
    #[inline]
    pub fn put(&self, b: &[u8]) -> *mut u8 {
        let p = self.tail(b.len());
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
        p
    }
    #[inline]
    pub fn put16(&self, b: &[u16]) -> *mut u16 {
        let p = self.tail(b.len() * 2) as *mut u16;
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
        p
    }
    pub fn fill(&self, v: u8) {
        unsafe { std::ptr::write_bytes(self.base, v, self.cap) }
    }
}

// ---------------------------------------------------------------- enumeration helpers
/// mixed radix decoding of an index, least significant first
#[inline]
pub fn dig(i: &mut u64, n: u64) -> usize {
    let d = *i % n;
    *i /= n;
    d as usize
}

/// Boundary values of a signed type of `bits` bits: every power of two and of ten, their neighbours, negations.
pub fn bounds(bits: u32, signed: bool) -> Vec<i128> {
    let (lo, hi): (i128, i128) = if signed {
        (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
    } else {
        (0, (1i128 << bits) - 1)
    };
    let mut v = vec![];
    let mut push = |x: i128| {
        for d in -2..=2 {
            for s in [1i128, -1] {
                let y = x * s + d;
                if y >= lo && y <= hi {
                    v.push(y);
                }
            }
        }
    };
    for k in 0..=bits {
        push(1i128 << k);
    }
    let mut t = 1i128;
    while t <= hi {
        push(t);
        push(t * 3);
        t *= 10;
    }
    push(0);
    v.sort();
    v.dedup();
    v
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
