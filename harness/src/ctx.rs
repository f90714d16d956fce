//! Case runner: every case is `(kind, index)`; its random choices come from
//! `(seed, kind, index)`, so it can be replayed.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

pub struct Tracking;
thread_local! {
    static MAX_ALLOC: Cell<usize> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = MAX_ALLOC.try_with(|m| m.set(m.get().max(l.size())));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = MAX_ALLOC.try_with(|m| m.set(m.get().max(n)));
        System.realloc(p, l, n)
    }
}
pub fn reset_alloc() {
    MAX_ALLOC.with(|m| m.set(0));
}
pub fn max_alloc() -> usize {
    MAX_ALLOC.with(|m| m.get())
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, kind: &str, i: u64) -> Self {
        let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in kind.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h ^ i.wrapping_mul(0xD1342543DE82EF95));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub type Res = Result<(), String>;
pub struct Case<'a> {
    pub rng: Rng,
    pub index: u64,
    pub note: &'a RefCell<String>,
    pub known: &'a Mutex<Vec<String>>,
}
impl Case<'_> {
    /// remembers the current input, for the replay file
    pub fn note(&self, s: impl FnOnce() -> String) {
        let t = s();
        if ECHO.load(Ordering::Relaxed) {
            // the process may be killed by the case: check.py reads the last line
            println!("INPUT {}", t.replace('\n', " "));
        }
        *self.note.borrow_mut() = t;
    }
    /// a failure listed in /verif/known-findings.txt
    pub fn known(&self, id: &str) {
        let mut k = self.known.lock().unwrap();
        if !k.iter().any(|x| x == id) {
            k.push(id.to_string());
        }
    }
}

pub static ECHO: AtomicBool = AtomicBool::new(false);

pub struct Kind {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub serial: bool,
    pub run: fn(&mut Case) -> Res,
}
pub fn kind(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> Res) -> Kind {
    Kind { name, quick, thorough, serial: false, run }
}
pub fn serial(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> Res) -> Kind {
    Kind { name, quick, thorough, serial: true, run }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

thread_local! {
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// runs `f`, turning a panic into a text
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub struct Failure {
    pub kind: String,
    pub index: u64,
    pub input: String,
    pub what: String,
}
pub struct Report {
    pub evals: Vec<(String, u64)>,
    pub samples: Vec<(String, String)>,
    pub failure: Option<Failure>,
    pub known: Vec<String>,
}

pub fn run_kind(k: &Kind, seed: u64, from: u64, to: u64, rep: &mut Report, deadline: Instant) {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
    let next = AtomicU64::new(from);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let known = Mutex::new(std::mem::take(&mut rep.known));
    let fails: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    let samples: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
    let nth = if k.serial { 1 } else { 8 };
    // watchdog: index and start of the case every worker is in
    let t0 = Instant::now();
    let slots: Vec<(AtomicU64, AtomicUsize)> =
        (0..nth).map(|_| (AtomicU64::new(u64::MAX), AtomicUsize::new(0))).collect();
    let live = AtomicUsize::new(nth);
    std::thread::scope(|s| {
        for w in 0..nth {
            let (next, done, stop, known, fails, samples, slots, live) =
                (&next, &done, &stop, &known, &fails, &samples, &slots, &live);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= to || stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                            break;
                        }
                        slots[w].1.store(t0.elapsed().as_millis() as usize, Ordering::SeqCst);
                        slots[w].0.store(i, Ordering::SeqCst);
                        let note = RefCell::new(String::new());
                        let mut c = Case { rng: Rng::new(seed, k.name, i), index: i, note: &note, known };
                        let r = match guarded(|| (k.run)(&mut c)) {
                            Ok(r) => r,
                            Err(p) => Err(format!("panic: {p}")),
                        };
                        slots[w].0.store(u64::MAX, Ordering::SeqCst);
                        done.fetch_add(1, Ordering::SeqCst);
                        if i < 2 {
                            samples.lock().unwrap().push((i, note.borrow().clone()));
                        }
                        if let Err(e) = r {
                            stop.store(true, Ordering::SeqCst);
                            fails.lock().unwrap().push(Failure {
                                kind: k.name.to_string(),
                                index: i,
                                input: note.borrow().clone(),
                                what: e,
                            });
                            break;
                        }
                    }
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        let (slots, live) = (&slots, &live);
        let name = k.name;
        s.spawn(move || {
            while live.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                for (i, t) in slots {
                    let i = i.load(Ordering::SeqCst);
                    if i != u64::MAX
                        && t0.elapsed().as_millis() as usize > t.load(Ordering::SeqCst) + 150_000
                    {
                        // reported by check.py as a hang
                        println!("HANG {name} {i}");
                        std::process::exit(7);
                    }
                }
            }
        });
    });
    rep.evals.push((k.name.to_string(), done.load(Ordering::SeqCst)));
    rep.known = known.into_inner().unwrap();
    let mut sm = samples.into_inner().unwrap();
    sm.sort();
    for (i, t) in sm {
        if !t.is_empty() {
            rep.samples.push((format!("{}#{}", k.name, i), t));
        }
    }
    let mut f = fails.into_inner().unwrap();
    f.sort_by_key(|f| f.index);
    if let Some(f) = f.into_iter().next() {
        rep.failure = Some(f);
    }
}
