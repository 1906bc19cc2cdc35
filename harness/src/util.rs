//! Deterministic randomness, a watchdog for calls that never return, small helpers.
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

// ---- watchdog: each thread publishes the input it is working on ----
const SLOTS: usize = 128;
struct Slot { since: AtomicU64, ptr: AtomicUsize, len: AtomicUsize }
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { since: AtomicU64::new(0), ptr: AtomicUsize::new(0), len: AtomicUsize::new(0) };
static TABLE: [Slot; SLOTS] = [EMPTY; SLOTS];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(1);
thread_local! { static ME: usize = NEXT.fetch_add(1, Relaxed) % SLOTS; }

/// Run f on input s; if it does not return within the limit the process reports HANG and exits 42.
pub fn watched<R>(s: &str, f: impl FnOnce() -> R) -> R {
    let me = ME.with(|m| *m);
    let t = &TABLE[me];
    t.ptr.store(s.as_ptr() as usize, Relaxed);
    t.len.store(s.len(), Relaxed);
    t.since.store(CLOCK.load(Relaxed), Relaxed);
    let r = f();
    t.since.store(0, Relaxed);
    r
}

pub fn start_watchdog(limit_s: u64) {
    std::thread::spawn(move || {
        let t0 = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed().as_secs() + 1;
            CLOCK.store(now, Relaxed);
            for t in TABLE.iter() {
                let s = t.since.load(Relaxed);
                if s != 0 && now > s + limit_s {
                    let (p, l) = (t.ptr.load(Relaxed), t.len.load(Relaxed));
                    // the owning thread is stuck inside `watched`, so its input is still alive
                    let txt = unsafe { std::slice::from_raw_parts(p as *const u8, l.min(4000)) };
                    println!("HANG after {} s on input (UTF-8 hex, {} bytes): {}", limit_s, l,
                        txt.iter().map(|b| format!("{:02X}", b)).collect::<String>());
                    std::process::exit(42);
                }
            }
        }
    });
}

pub fn cps(s: &str) -> Vec<u32> { s.chars().map(|c| c as u32).collect() }
pub fn string(v: &[u32]) -> String { v.iter().map(|c| char::from_u32(*c).expect("scalar")).collect() }
pub fn compact<T: std::fmt::Debug>(v: &[T]) -> String { format!("{:?}", v).replace(' ', "") }
