use crate::json::*;
use iota_mam::trits::{TritSlice, Trits};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub type R = Result<(), String>;
pub static SEED: AtomicU64 = AtomicU64::new(1);
pub static THOROUGH: AtomicBool = AtomicBool::new(false);

pub fn tr(v: &[u8]) -> Trits { Trits::from_slice(TritSlice::from_slice(v.len(), v)) }
pub fn sl(v: &[u8]) -> TritSlice<'_> { TritSlice::from_slice(v.len(), v) }
pub fn tv(s: TritSlice) -> Vec<u8> { let mut v = vec![0u8; s.size()]; s.get_trits(&mut v); v }
pub fn tvt(t: &Trits) -> Vec<u8> { tv(t.slice()) }
pub fn short(v: &[u8]) -> String {
    let s: String = v.iter().take(60).map(|x| char::from(b'0' + x)).collect();
    if v.len() > 60 { format!("{}..({} trits)", s, v.len()) } else { s }
}
pub fn eqv(what: &str, got: &[u8], want: &[u8]) -> R {
    if got == want { return Ok(()) }
    let i = (0..got.len().min(want.len())).find(|&i| got[i] != want[i]).unwrap_or(got.len().min(want.len()));
    Err(format!("{}: got {} trits, want {} trits, first difference at {}; got {} want {}", what, got.len(), want.len(), i,
        short(&got[i.min(got.len())..]), short(&want[i.min(want.len())..])))
}
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> R {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, want {:?}", what, got, want)) }
}
pub fn ensure(c: bool, what: &str) -> R { if c { Ok(()) } else { Err(what.to_string()) } }

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: &str) -> Self {
        let mut h = 0xcbf29ce484222325u64 ^ SEED.load(Ordering::Relaxed).wrapping_mul(0x9E3779B97F4A7C15);
        for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        let mut r = Rng(h); r.next(); r.next(); r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn trits(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.below(3) as u8).collect() }
}
/// named pseudo-random trit string: the value of an atom of the specification
pub fn atom(name: &str, n: usize) -> Vec<u8> { Rng::new(name).trits(n) }

/// run code under test; a panic is data
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
    })
}

static STATS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
pub fn stat(k: &str, n: u64) { *STATS.lock().unwrap().entry(k.to_string()).or_insert(0) += n }
static NFAIL: AtomicUsize = AtomicUsize::new(0);
pub fn fail(family: &str, idx: usize, why: &str, case: &str) {
    if NFAIL.fetch_add(1, Ordering::SeqCst) < 20 {
        println!("FAIL {{\"family\":{},\"case\":{},\"why\":{},\"data\":{}}}", q(family), idx, q(why), if case.is_empty() { "null" } else { case });
    }
}
pub static KNOWN: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
/// a violation of the property for the reason named by key; run.py decides whether it is a listed finding
pub fn known(_property: &str, key: &str, why: &str) { KNOWN.lock().unwrap().entry(key.to_string()).or_insert(why.to_string()); }
pub fn finish() {
    for (k, v) in KNOWN.lock().unwrap().iter() { println!("KNOWN {{\"key\":{},\"why\":{}}}", q(k), q(v)) }
    for (k, v) in STATS.lock().unwrap().iter() { println!("STAT {} {}", k, v) }
    println!("STAT failures {}", NFAIL.load(Ordering::SeqCst));
    println!("DONE");
}
/// run every case in parallel; verbose mode names each case first (used after a crash)
pub fn run_cases(family: &str, lines: &[String], serial: bool, f: impl Fn(&J) -> R + Sync) {
    let next = AtomicUsize::new(0);
    let nthreads = if serial { 1 } else { std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4) };
    let busy: Vec<(AtomicUsize, AtomicU64)> = (0..nthreads).map(|_| (AtomicUsize::new(usize::MAX), AtomicU64::new(0))).collect();
    let t0 = std::time::Instant::now();
    let done = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for w in 0..nthreads {
            let (next, f, busy, done) = (&next, &f, &busy, &done);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= lines.len() { break }
                    busy[w].1.store(t0.elapsed().as_secs(), Ordering::SeqCst);
                    busy[w].0.store(i, Ordering::SeqCst);
                    if serial { println!("BEGIN {}", i); }
                    let j = parse(&lines[i]);
                    let r = match guarded(|| f(&j)) { Ok(r) => r, Err(p) => { if p.starts_with("harness:") { println!("TOOLERROR {}", p); std::process::exit(3) } Err(format!("panic: {}", p)) } };
                    if let Err(e) = r { fail(family, i, &e, &lines[i]) }
                    busy[w].0.store(usize::MAX, Ordering::SeqCst);
                }
                done.fetch_add(1, Ordering::SeqCst);
            }).unwrap();
        }
        // watchdog: a call that does not return is data too
        while done.load(Ordering::SeqCst) < nthreads {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for b in busy.iter() {
                let i = b.0.load(Ordering::SeqCst);
                if i != usize::MAX && t0.elapsed().as_secs() > b.1.load(Ordering::SeqCst) + 240 && b.0.load(Ordering::SeqCst) == i {
                    fail(family, i, "no return within 240 s", &lines[i]); finish(); std::process::exit(0);
                }
            }
        }
    });
    stat("cases", lines.len() as u64);
    stat(&format!("cases_{}", family), lines.len() as u64);
}

/// counts what the code under test asks of the heap; a request beyond 8 GB is refused
pub struct Track;
thread_local! { static HEAP: std::cell::Cell<(i64, i64)> = const { std::cell::Cell::new((0, 0)) } }
fn account(d: i64) { let _ = HEAP.try_with(|h| { let (c, p) = h.get(); h.set((c + d, p.max(c + d))) }); }
unsafe impl std::alloc::GlobalAlloc for Track {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { if l.size() > 8 << 30 { return std::ptr::null_mut() } account(l.size() as i64); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { if l.size() > 8 << 30 { return std::ptr::null_mut() } account(l.size() as i64); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { account(-(l.size() as i64)); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { if n > 8 << 30 { return std::ptr::null_mut() } account(n as i64 - l.size() as i64); std::alloc::System.realloc(p, l, n) }
}
/// most heap in use at a time while f runs on this thread, above what was in use before
pub fn heap_peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let before = HEAP.with(|h| { let (c, _) = h.get(); h.set((c, c)); c });
    let r = f();
    (r, HEAP.with(|h| h.get().1) - before)
}
