//! Exhaustive exploration engine: indexable case spaces, panic capture, hang and crash attribution.
use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail { pub key: String, pub msg: String }

/// Per-case context: collects comparisons and failures.
pub struct Cx { pub transitions: u64, pub states: u64, pub fails: Vec<Fail>, pub hits: BTreeMap<&'static str, u64>, slot: usize }

thread_local! { static QUIET: Cell<bool> = Cell::new(true); }

/// development aid: worst observed error per key, printed when VERIF_MEASURE is set
pub static MEAS: Mutex<BTreeMap<String, f64>> = Mutex::new(BTreeMap::new());
pub fn measuring() -> bool { static M: std::sync::OnceLock<bool> = std::sync::OnceLock::new(); *M.get_or_init(|| std::env::var("VERIF_MEASURE").is_ok()) }
pub fn measure(k: &str, v: impl FnOnce() -> f64) { if measuring() { let v = v(); let mut m = MEAS.lock().unwrap(); let e = m.entry(k.into()).or_insert(f64::NEG_INFINITY); if v > *e { *e = v; } } }

pub fn install_quiet_hook() { std::panic::set_hook(Box::new(|_| {})); }

pub fn pmsg(p: Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}

fn clip(s: String) -> String { if s.len() > 1500 { let mut k = 1500; while !s.is_char_boundary(k) { k -= 1; } format!("{}...", &s[..k]) } else { s } }

impl Cx {
    pub fn new(slot: usize) -> Cx { Cx { transitions: 0, states: 0, fails: vec![], hits: BTreeMap::new(), slot } }
    pub fn fail(&mut self, key: &str, msg: impl FnOnce() -> String) {
        if self.fails.len() < 64 { let m = clip(msg()); self.fails.push(Fail { key: key.to_string(), msg: m }); }
    }
    pub fn hit(&mut self, k: &'static str) { *self.hits.entry(k).or_insert(0) += 1; }
    /// Runs one implementation operation; a panic is a failure.
    pub fn op<T>(&mut self, key: &str, args: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        self.transitions += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(p) => { let m = pmsg(p); self.fail(&format!("{key}.panic"), || format!("{key}({}) panicked: {}", args(), m)); None }
        }
    }
    /// Implementation operation must produce exactly `want`.
    pub fn eq<T: PartialEq + Debug>(&mut self, key: &str, args: impl Fn() -> String, f: impl FnOnce() -> T, want: &T) -> bool {
        match self.op(key, || args(), f) {
            Some(g) => { if g == *want { true } else { self.fail(&format!("{key}.value"), || format!("{key}({}) returned {:?}, expected {:?}", args(), g, want)); false } }
            None => false,
        }
    }
    pub fn check(&mut self, key: &str, ok: bool, msg: impl FnOnce() -> String) -> bool { self.transitions += 1; if !ok { self.fail(key, msg); } ok }
    /// Implementation operation must refuse (panic); returning is a failure.
    pub fn refuses<T: Debug>(&mut self, key: &str, args: impl FnOnce() -> String, f: impl FnOnce() -> T) {
        self.transitions += 1;
        if let Ok(v) = catch_unwind(AssertUnwindSafe(f)) { self.fail(&format!("{key}.accepted"), || format!("{key}({}) returned {:?} instead of refusing", args(), v)); }
        else { self.hit("refused"); }
    }
    /// Long-running cases call this on progress.
    pub fn beat(&self) { if let Some(s) = unsafe { SLOTS.as_ref() } { s[self.slot].at.store(now_ms(), Relaxed); } }
}

pub struct Suite {
    pub name: String,
    pub bound: String,
    pub n: u64,
    pub desc: Box<dyn Fn(u64) -> String + Sync + Send>,
    pub run: Box<dyn Fn(u64, &mut Cx) + Sync + Send>,
}

impl Suite {
    pub fn new<T: Debug + 'static>(name: &str, bound: &str, n: u64, decode: impl Fn(u64) -> T + Sync + Send + Clone + 'static, run: impl Fn(T, &mut Cx) + Sync + Send + 'static) -> Suite {
        let d2 = decode.clone();
        Suite { name: name.into(), bound: bound.into(), n, desc: Box::new(move |i| clip(format!("{:?}", d2(i)))), run: Box::new(move |i, cx| run(decode(i), cx)) }
    }
    /// over a materialised list
    pub fn list<T: Debug + Clone + Send + Sync + 'static>(name: &str, bound: &str, items: Vec<T>, run: impl Fn(T, &mut Cx) + Sync + Send + 'static) -> Suite {
        let items = std::sync::Arc::new(items); let n = items.len() as u64;
        Suite::new(name, bound, n, move |i| items[i as usize].clone(), run)
    }
    /// over all ordered pairs of two materialised lists
    pub fn pairs<A: Debug + Clone + Send + Sync + 'static, B: Debug + Clone + Send + Sync + 'static>(name: &str, bound: &str, a: Vec<A>, b: Vec<B>, run: impl Fn(&A, &B, &mut Cx) + Sync + Send + 'static) -> Suite {
        let (a, b) = (std::sync::Arc::new(a), std::sync::Arc::new(b)); let n = a.len() as u64 * b.len() as u64;
        let (a2, b2) = (a.clone(), b.clone());
        let m = b.len() as u64;
        Suite { name: name.into(), bound: bound.into(), n, desc: Box::new(move |i| clip(format!("{:?} , {:?}", a2[(i / m) as usize], b2[(i % m) as usize]))), run: Box::new(move |i, cx| run(&a[(i / m) as usize], &b[(i % m) as usize], cx)) }
    }
}

// ---- in-flight slots, shared with the supervisor through a file mapping ----
#[repr(C)]
pub struct Slot { pub suite: AtomicU64, pub case: AtomicU64, pub at: AtomicU64, pub busy: AtomicU64 }
pub const NSLOT: usize = 64;
static mut SLOTS: Option<&'static [Slot; NSLOT]> = None;

extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }

pub fn limit_memory(bytes: u64) { let l = [bytes, bytes]; unsafe { setrlimit(9, &l); } }

pub fn map_slots(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("slot file");
    f.set_len((NSLOT * std::mem::size_of::<Slot>()) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), NSLOT * std::mem::size_of::<Slot>(), 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    unsafe { SLOTS = Some(&*(p as *const [Slot; NSLOT])); }
}
pub fn in_flight() -> Vec<(u64, u64)> { let mut v = vec![]; if let Some(s) = unsafe { SLOTS.as_ref() } { for s in s.iter() { if s.busy.load(Relaxed) == 1 { v.push((s.suite.load(Relaxed), s.case.load(Relaxed))); } } } v }
fn start() -> Instant { static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new(); *T.get_or_init(Instant::now) }
fn now_ms() -> u64 { start().elapsed().as_millis() as u64 }

#[derive(Default)]
pub struct SuiteResult { pub cases: u64, pub states: u64, pub transitions: u64, pub fails: Vec<(u64, Fail)>, pub hits: BTreeMap<&'static str, u64>, pub wall: f64, pub complete: bool }

/// a single case that makes no progress for this long is reported as non-terminating
pub fn hang_ms() -> u64 { static M: std::sync::OnceLock<u64> = std::sync::OnceLock::new(); *M.get_or_init(|| std::env::var("VERIF_HANG_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(if std::env::args().any(|a| a == "thorough") { 900_000 } else { 100_000 })) }
/// development aid (mutation campaign): stop at the first failing case
pub fn stop_first() -> bool { static M: std::sync::OnceLock<bool> = std::sync::OnceLock::new(); *M.get_or_init(|| std::env::var("VERIF_STOP1").is_ok()) }

/// Runs every case of the suite on all cores. Keeps, per key, the failure with the smallest index (plus a few more).
pub fn run_suite(si: u64, s: &Suite, threads: usize) -> SuiteResult {
    let t0 = Instant::now(); start();
    let next = AtomicU64::new(0); let stop = AtomicBool::new(false);
    let chunk = (s.n / (threads as u64 * 64)).clamp(1, 256);
    let out = Mutex::new(SuiteResult::default());
    let live = AtomicU64::new(threads as u64);
    let hung: Mutex<Option<u64>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, out, live) = (&next, &stop, &out, &live);
            std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || {
                let mut loc = SuiteResult::default();
                let slot = unsafe { SLOTS.as_ref() }.map(|x| &x[t]);
                let mut failed = 0u64;
                'o: loop {
                    let b = next.fetch_add(chunk, Relaxed); if b >= s.n { break; }
                    for i in b..(b + chunk).min(s.n) {
                        if stop.load(Relaxed) { break 'o; }
                        if let Some(sl) = slot { sl.suite.store(si, Relaxed); sl.case.store(i, Relaxed); sl.at.store(now_ms(), Relaxed); sl.busy.store(1, Relaxed); }
                        let mut cx = Cx::new(t);
                        if let Err(p) = catch_unwind(AssertUnwindSafe(|| (s.run)(i, &mut cx))) { let m = pmsg(p); let model = m.starts_with("model:"); cx.fails.push(Fail { key: if model { "MODEL".into() } else { "case.panic".into() }, msg: format!("case panicked: {}", clip(m)) }); }
                        loc.cases += 1; loc.transitions += cx.transitions; loc.states += if cx.states > 0 { cx.states } else { 1 };
                        for (k, v) in cx.hits { *loc.hits.entry(k).or_insert(0) += v; }
                        for f in cx.fails { failed += 1; if loc.fails.len() < 4000 { loc.fails.push((i, f)); } }
                        if let Some(sl) = slot { sl.busy.store(0, Relaxed); }
                        if failed > 20000 || failed > 0 && stop_first() { stop.store(true, Relaxed); }
                    }
                }
                let mut o = out.lock().unwrap();
                o.cases += loc.cases; o.states += loc.states; o.transitions += loc.transitions; o.fails.extend(loc.fails);
                for (k, v) in loc.hits { *o.hits.entry(k).or_insert(0) += v; }
                live.fetch_sub(1, Relaxed);
            }).unwrap();
        }
        // watchdog
        while live.load(Relaxed) > 0 {
            std::thread::sleep(Duration::from_millis(3));
            if let Some(sl) = unsafe { SLOTS.as_ref() } {
                let now = now_ms();
                for x in sl.iter() { if x.busy.load(Relaxed) == 1 { let at = x.at.load(Relaxed); if now > at + hang_ms() { let c = x.case.load(Relaxed); *hung.lock().unwrap() = Some(c);
                    // cannot unwind a hung thread: report and leave
                    let o = out.lock().map(|o| o.fails.len()).unwrap_or(0);
                    println!("HANG\t{}\t{}\t{}", s.name, c, o);
                    use std::io::Write; std::io::stdout().flush().unwrap();
                    std::process::exit(9);
                } } }
            }
        }
    });
    let mut r = out.into_inner().unwrap();
    r.fails.sort_by(|a, b| a.0.cmp(&b.0)); r.wall = t0.elapsed().as_secs_f64(); r.complete = r.cases == s.n;
    r
}
