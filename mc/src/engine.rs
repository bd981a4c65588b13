//! Exhaustive exploration engine: enumerates every case of every family on all cores, records
//! what was covered, contains crashes and hangs of the code under test in a child process,
//! shrinks and records counterexamples.

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// a symbol of a case: a char for word properties, a raw number for schedules
pub trait Sym: Copy + Send + Sync + PartialEq + 'static {
    fn raw(self) -> u32;
    fn from_raw(v: u32) -> Option<Self>;
    const IS_CHAR: bool;
}
impl Sym for char {
    fn raw(self) -> u32 {
        self as u32
    }
    fn from_raw(v: u32) -> Option<char> {
        char::from_u32(v)
    }
    const IS_CHAR: bool = true;
}
impl Sym for u32 {
    fn raw(self) -> u32 {
        self
    }
    fn from_raw(v: u32) -> Option<u32> {
        Some(v)
    }
    const IS_CHAR: bool = false;
}

/// a finite, randomly accessible, exhaustively enumerated set of cases
pub trait Family<T>: Sync + Send {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    fn fill(&self, i: u64, out: &mut Vec<T>);
    /// rough cost of one case in units of a short word (chunking only)
    fn weight(&self) -> u64 {
        1
    }
}

/// what checking one case covered
#[derive(Default, Clone, Copy)]
pub struct Cov {
    /// steps of the implementation (next() calls / operations) taken
    pub transitions: u64,
    /// model executions compared with the implementation
    pub traces: u64,
    /// hash of the model state reached (0 = none)
    pub state: u64,
}

pub struct Check<'a, T> {
    pub families: Vec<Box<dyn Family<T>>>,
    pub make: Box<dyn Fn() -> Box<dyn FnMut(&[T]) -> Result<Cov, String> + 'a> + Sync + 'a>,
    /// may single symbols be deleted when shrinking?
    pub shrink: bool,
}

#[derive(Clone)]
pub struct Found {
    pub family: String,
    pub index: u64,
    pub case: Vec<u32>,
    pub chars: bool,
    pub msg: String,
}

#[derive(Default)]
pub struct Report {
    pub families: Vec<(String, u64)>,
    pub cases: u64,
    pub transitions: u64,
    pub traces: u64,
    pub states: u64,
    pub samples: Vec<String>,
    pub found: Option<Found>,
    pub notes: Vec<String>,
    pub exhaustive: bool,
}

impl Report {
    pub fn new() -> Report {
        Report { exhaustive: true, ..Default::default() }
    }
}

pub const SLOTS: usize = 64;
#[repr(C)]
pub struct Slot {
    pub active: AtomicU64,
    pub part: AtomicU64,
    pub family: AtomicU64,
    pub index: AtomicU64,
}
static mut SHARED: *mut Slot = std::ptr::null_mut();

/// stack of the exploring threads
pub static STACK: AtomicU64 = AtomicU64::new(2 << 20);

pub fn map_shared() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * std::mem::size_of::<Slot>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHARED = p as *mut Slot;
    }
}
pub fn slot(i: usize) -> &'static Slot {
    unsafe { &*SHARED.add(i) }
}

const STATE_BITS: usize = 27;
struct StateMap(Vec<AtomicU64>);
impl StateMap {
    fn new() -> StateMap {
        StateMap((0..(1usize << STATE_BITS) / 64).map(|_| AtomicU64::new(0)).collect())
    }
    #[inline]
    fn add(&self, h: u64) {
        let i = (h >> (64 - STATE_BITS)) as usize;
        let (w, b) = (i / 64, 1u64 << (i % 64));
        if self.0[w].load(Relaxed) & b == 0 {
            self.0[w].fetch_or(b, Relaxed);
        }
    }
    fn count(&self) -> u64 {
        self.0.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum()
    }
}

#[inline]
pub fn hash_chars(seed: u64, w: &[char]) -> u64 {
    let mut h = seed ^ 0x9E37_79B9_7F4A_7C15;
    for &c in w {
        h = (h ^ c as u64).wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 32;
    }
    h = h.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    h | 1
}

thread_local! {
    pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        PANIC_MSG.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = s;
            }
        });
    }));
}

/// run one closure, turning a panic into an error
pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", PANIC_MSG.with(|p| p.borrow().replace('\n', " ")))),
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS)
}

pub fn show_case(case: &[u32], chars: bool) -> String {
    let mut s = String::new();
    let n = case.len();
    let lim = 80;
    for (i, v) in case.iter().enumerate() {
        if n > lim && i == lim / 2 {
            s.push_str(&format!("...[{} more]...", n - lim));
        }
        if n > lim && i >= lim / 2 && i < n - lim / 2 {
            continue;
        }
        if chars {
            s.push_str(&format!("\\u{{{:X}}}", v));
        } else {
            if i > 0 {
                s.push(' ');
            }
            s.push_str(&format!("{}", v));
        }
    }
    s
}

pub fn explore<T: Sym>(part: u64, check: &Check<T>, rep: &mut Report) {
    if rep.found.is_some() {
        return;
    }
    let states = StateMap::new();
    let nthreads = threads();
    for (fi, fam) in check.families.iter().enumerate() {
        let t0 = Instant::now();
        let len = fam.len();
        let chunk = (16384 / fam.weight().max(1)).clamp(1, (len / (nthreads as u64 * 8)).max(1));
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let best: Mutex<Option<Found>> = Mutex::new(None);
        let tot = Mutex::new((0u64, 0u64, 0u64));
        std::thread::scope(|sc| {
            for t in 0..nthreads {
                let (next, stop, best, tot, states) = (&next, &stop, &best, &tot, &states);
                std::thread::Builder::new().stack_size(STACK.load(Relaxed) as usize).spawn_scoped(sc, move || {
                    let mut f = (check.make)();
                    let mut w: Vec<T> = Vec::new();
                    let s = slot(t);
                    s.part.store(part, Relaxed);
                    s.family.store(fi as u64, Relaxed);
                    let (mut n, mut tr, mut tc) = (0u64, 0u64, 0u64);
                    loop {
                        if stop.load(Relaxed) {
                            break;
                        }
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= len {
                            break;
                        }
                        s.active.store(1, Release);
                        let end = (a + chunk).min(len);
                        let mut i = a;
                        while i < end {
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                while i < end {
                                    s.index.store(i, Release);
                                    w.clear();
                                    fam.fill(i, &mut w);
                                    match f(&w) {
                                        Ok(c) => {
                                            n += 1;
                                            tr += c.transitions;
                                            tc += c.traces;
                                            if c.state != 0 {
                                                states.add(c.state);
                                            }
                                        }
                                        Err(m) => return Err(m),
                                    }
                                    i += 1;
                                }
                                Ok(())
                            }));
                            let err = match r {
                                Ok(Ok(())) => None,
                                Ok(Err(m)) => Some(m),
                                Err(_) => Some(format!(
                                    "panicked: {}",
                                    PANIC_MSG.with(|p| p.borrow().replace('\n', " "))
                                )),
                            };
                            if let Some(msg) = err {
                                stop.store(true, Relaxed);
                                let mut b = best.lock().unwrap();
                                if b.as_ref().map_or(true, |x| i < x.index) {
                                    *b = Some(Found {
                                        family: fam.name(),
                                        index: i,
                                        case: w.iter().map(|c| c.raw()).collect(),
                                        chars: T::IS_CHAR,
                                        msg,
                                    });
                                }
                                break;
                            }
                        }
                    }
                    s.active.store(0, Release);
                    let mut g = tot.lock().unwrap();
                    g.0 += n;
                    g.1 += tr;
                    g.2 += tc;
                })
                .expect("thread");
            }
        });
        let g = tot.into_inner().unwrap();
        if std::env::var("MC_VERBOSE").is_ok() {
            println!("  {:8.2} s {}", t0.elapsed().as_secs_f64(), fam.name());
        }
        rep.families.push((fam.name(), g.0));
        rep.cases += g.0;
        rep.transitions += g.1;
        rep.traces += g.2;
        if len > 0 && rep.samples.len() < 12 {
            let mut w = Vec::new();
            fam.fill(len * 2 / 3, &mut w);
            let r: Vec<u32> = w.iter().map(|c| c.raw()).collect();
            rep.samples.push(format!("{} [{}]: {}", fam.name(), len * 2 / 3, show_case(&r, T::IS_CHAR)));
        }
        if let Some(mut f) = best.into_inner().unwrap() {
            if check.shrink {
                shrink(check, &mut f);
            }
            rep.found = Some(f);
            break;
        }
    }
    rep.states += states.count();
}

fn shrink<T: Sym>(check: &Check<T>, f: &mut Found) {
    let t0 = Instant::now();
    let mut run = (check.make)();
    let mut try_case = |c: &[u32]| -> Option<String> {
        let w: Vec<T> = c.iter().map(|&v| T::from_raw(v)).collect::<Option<_>>()?;
        match guarded(|| run(&w)) {
            Ok(_) => None,
            Err(m) => Some(m),
        }
    };
    let mut step = (f.case.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut progress = false;
        while i < f.case.len() {
            if t0.elapsed() > Duration::from_secs(10) {
                return;
            }
            let mut c = f.case.clone();
            let e = (i + step).min(c.len());
            c.drain(i..e);
            if c.is_empty() {
                i += step;
                continue;
            }
            if let Some(m) = try_case(&c) {
                f.case = c;
                f.msg = m;
                progress = true;
            } else {
                i += step;
            }
        }
        if step == 1 {
            if !progress {
                break;
            }
        } else {
            step = (step / 2).max(1);
        }
    }
}

/// run one case alone (isolated re-execution); Ok(None) = held
pub fn run_one<T: Sym>(check: &Check<T>, fam: usize, index: u64) -> (Vec<u32>, Option<String>) {
    let mut w: Vec<T> = Vec::new();
    check.families[fam].fill(index, &mut w);
    let case: Vec<u32> = w.iter().map(|c| c.raw()).collect();
    let r = run_case(check, &case);
    (case, r)
}

pub fn run_case<T: Sym>(check: &Check<T>, case: &[u32]) -> Option<String> {
    let w: Vec<T> = case.iter().map(|&v| T::from_raw(v).expect("case symbol")).collect();
    // on a thread, with the stack the exploring threads have
    std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(STACK.load(Relaxed) as usize).spawn_scoped(sc, || {
            let mut run = (check.make)();
            guarded(|| run(&w)).err()
        })
        .expect("thread")
        .join()
        .unwrap_or_else(|_| Some("panicked".into()))
    })
}
