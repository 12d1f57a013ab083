//! Small shared helpers: deterministic randomness, hex, panic capture, allocation metering.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03) }
    /// Independent stream for (seed, tag, index).
    pub fn stream(seed: u64, tag: &str, i: u64) -> Self {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in tag.bytes() { h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3); }
        let mut r = Rng::new(seed ^ h.rotate_left(17) ^ i.wrapping_mul(0xA24B_AED4_963E_E407));
        r.next(); r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn u32(&mut self) -> u32 { self.next() as u32 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn arr32(&mut self) -> [u8; 32] { let mut a = [0u8; 32]; for b in a.iter_mut() { *b = self.next() as u8 } a }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) { for i in (1..xs.len()).rev() { let j = self.below(i + 1); xs.swap(i, j) } }
}

pub fn hex(b: &[u8]) -> String {
    const H: &[u8] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push(H[(x >> 4) as usize] as char); s.push(H[(x & 15) as usize] as char); }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, b'A'..=b'F' => c - b'A' + 10, _ => panic!("bad hex") };
    (0..b.len() / 2).map(|i| d(b[2 * i]) << 4 | d(b[2 * i + 1])).collect()
}

thread_local! { static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if DEPTH.with(|d| d.get()) == 0 { eprintln!("panic: {}{} at {}", if loc.contains("/repo/") { "" } else { "HARNESS " }, msg, loc) }
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg.chars().take(200).collect::<String>(), loc));
    }));
}

/// Runs `f`; a panic of the code under test is data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub struct Meter;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(live, Relaxed);
        TOTAL.fetch_add(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n >= l.size() {
            let live = LIVE.fetch_add(n - l.size(), Relaxed) + n - l.size();
            PEAK.fetch_max(live, Relaxed);
            TOTAL.fetch_add(n, Relaxed);
        } else { LIVE.fetch_sub(l.size() - n, Relaxed); }
        System.realloc(p, l, n)
    }
}

/// Peak number of bytes allocated by `f` on top of what was live before.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(before))
}

/// Number of bytes `f` allocates altogether: a measure of work that does not depend on the clock.
pub fn totalled<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = TOTAL.load(Relaxed);
    let r = f();
    (r, TOTAL.load(Relaxed).wrapping_sub(before))
}
