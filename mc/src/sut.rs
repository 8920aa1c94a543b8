//! Ownership of the environment of the code under test: randomness, panics, hangs, heap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- randomness
// ring asks the kernel for randomness through libc's `syscall(SYS_getrandom, ..)`. The harness binary
// defines `syscall` itself, so every random byte drawn by the code under test is decided here.
thread_local! {
    static RNG: Cell<Option<([u8; 32], u64)>> = const { Cell::new(None) };
    static DRAWN: Cell<u64> = const { Cell::new(0) };
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(usize::max_value()) };
    static SECRETS: Cell<Option<&'static SecretSet>> = const { Cell::new(None) };
    // bytes allocated and not released by this thread, and the most there were since `meter_peak`
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn meter(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
/// Bytes allocated by this thread and not released.
pub fn live_bytes() -> i64 {
    LIVE.with(Cell::get)
}
/// The result of `f` and the most memory it held at any time beyond what was held before.
pub fn peak_bytes<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = live_bytes();
    PEAK.with(|p| p.set(base));
    let t = f();
    (t, PEAK.with(Cell::get) - base)
}

const SYS_GETRANDOM: i64 = 318;

extern "C" {
    fn __errno_location() -> *mut i32;
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM {
        DRAWN.with(|x| x.set(x.get() + b as u64));
        if let Some((seed, off)) = RNG.with(Cell::get) {
            let out = std::slice::from_raw_parts_mut(a as *mut u8, b as usize);
            // every aligned block of 32 bytes is the seed, so that unrelated draws do not shift the keys
            for (i, o) in out.iter_mut().enumerate() {
                *o = seed[((off + i as u64) % 32) as usize];
            }
            RNG.with(|r| r.set(Some((seed, off + b as u64))));
            return b;
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}

/// Runs `f` with the randomness drawn by this thread fixed to `seed`.
pub fn with_seed<T>(seed: [u8; 32], f: impl FnOnce() -> T) -> T {
    let old = RNG.with(|r| r.replace(Some((seed, 0))));
    let t = f();
    RNG.with(|r| r.set(old));
    t
}
pub fn drawn() -> u64 {
    DRAWN.with(Cell::get)
}

// ---------------------------------------------------------------- panics
pub fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Calls into the code under test; a panic becomes `Err`.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_SUT.with(|x| x.replace(true));
    let slot = my_slot();
    STARTS[slot].store(now_ms(), Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    STARTS[slot].store(0, Relaxed);
    IN_SUT.with(|x| x.set(was));
    r.map_err(|e| panic_msg(&*e))
}

// ---------------------------------------------------------------- hangs
const SLOTS: usize = 64;
static STARTS: [AtomicU64; SLOTS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; SLOTS]
};
static EXECS: [Mutex<Option<(String, Vec<u32>)>>; SLOTS] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: Mutex<Option<(String, Vec<u32>)>> = Mutex::new(None);
    [Z; SLOTS]
};
static NEXT: AtomicUsize = AtomicUsize::new(0);
static mut T0: Option<Instant> = None;
pub const HANG_MS: u64 = 60_000;

fn now_ms() -> u64 {
    unsafe { T0 }.map(|t| t.elapsed().as_millis() as u64 + 1).unwrap_or(1)
}
fn my_slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::max_value() {
            s.set(NEXT.fetch_add(1, Relaxed) % SLOTS);
        }
        s.get()
    })
}
pub fn begin_execution(name: &str, prefix: &[u32]) {
    let mut g = EXECS[my_slot()].lock().unwrap();
    match &mut *g {
        Some((n, p)) => {
            if n != name {
                *n = name.to_string();
            }
            p.clear();
            p.extend_from_slice(prefix);
        }
        None => *g = Some((name.to_string(), prefix.to_vec())),
    }
}
pub fn end_execution() {}

/// Called with (scenario, prefix, message) when the code under test does not return.
pub type Emergency = fn(&str, &[u32], &str) -> !;
static mut EMERGENCY: Option<Emergency> = None;

pub fn init(em: Emergency) {
    unsafe {
        T0 = Some(Instant::now());
        EMERGENCY = Some(em);
    }
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN_SUT.with(Cell::get) {
            default(i)
        }
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = now_ms();
        for (i, s) in STARTS.iter().enumerate() {
            let v = s.load(Relaxed);
            if v != 0 && now > v + HANG_MS {
                let e = EXECS[i].lock().unwrap().clone().unwrap_or_default();
                emergency(&e.0, &e.1, "a call does not return (60 s)");
            }
        }
    });
}
fn emergency(name: &str, prefix: &[u32], msg: &str) -> ! {
    match unsafe { EMERGENCY } {
        Some(f) => f(name, prefix, msg),
        None => std::process::abort(),
    }
}

// ---------------------------------------------------------------- heap
/// Byte strings that must not be found in memory given back to the allocator.
pub struct SecretSet {
    secrets: Vec<(String, [u8; 8])>,
    /// which pairs of bytes start a secret
    start: Vec<bool>,
    pub scanned: AtomicU64,
    pub bytes: AtomicU64,
}
impl SecretSet {
    /// Kept for ever: released memory may be scanned at any time.
    pub fn leak(secrets: Vec<(String, [u8; 8])>) -> &'static SecretSet {
        let mut start = vec![false; 1 << 16];
        for (_, s) in &secrets {
            start[s[0] as usize | (s[1] as usize) << 8] = true;
        }
        Box::leak(Box::new(SecretSet { secrets, start, scanned: AtomicU64::new(0), bytes: AtomicU64::new(0) }))
    }
}
thread_local! {
    static HITS: RefCell<Vec<String>> = RefCell::new(vec![]);
}
/// What the scans of this thread found since the last call.
pub fn take_hits() -> Vec<String> {
    HITS.with(|h| std::mem::replace(&mut *h.borrow_mut(), vec![]))
}
pub fn watch_heap(set: Option<&'static SecretSet>) {
    SECRETS.with(|s| s.set(set));
}

pub struct Heap;
const HUGE: usize = 4 << 30;

fn scan(set: &'static SecretSet, p: *mut u8, len: usize) {
    // no allocation is watched while scanning
    SECRETS.with(|s| s.set(None));
    set.scanned.fetch_add(1, Relaxed);
    set.bytes.fetch_add(len as u64, Relaxed);
    let mem = unsafe { std::slice::from_raw_parts(p, len) };
    for i in 0..(len + 1).saturating_sub(8) {
        if set.start[mem[i] as usize | (mem[i + 1] as usize) << 8] {
            for (name, s) in &set.secrets {
                if mem[i..i + 8] == s[..] {
                    HITS.with(|h| h.borrow_mut().push(format!("{} found in a released block of {} bytes", name, len)));
                }
            }
        }
    }
    SECRETS.with(|s| s.set(Some(set)));
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::race::atomically(|| {
            let p = self.do_alloc(l);
            crate::race::allocated(p, l.size());
            p
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::race::atomically(|| {
            crate::race::released(p);
            self.do_dealloc(p, l)
        })
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        meter(l.size() as i64);
        crate::race::atomically(|| {
            let p = System.alloc_zeroed(l);
            crate::race::allocated(p, l.size());
            p
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::race::atomically(|| {
            crate::race::released(p);
            let q = self.do_realloc(p, l, n);
            crate::race::allocated(q, n);
            q
        })
    }
}
impl Heap {
    unsafe fn do_alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HUGE && IN_SUT.try_with(Cell::get).unwrap_or(false) {
            let e = EXECS[my_slot()].lock().unwrap().clone().unwrap_or_default();
            IN_SUT.with(|x| x.set(false));
            emergency(&e.0, &e.1, "a call allocates more than 4 GiB at once");
        }
        meter(l.size() as i64);
        if let Ok(Some(_)) = SECRETS.try_with(Cell::get) {
            // what was left in this memory by others is not counted against the code under test
            return System.alloc_zeroed(l);
        }
        System.alloc(l)
    }
    unsafe fn do_dealloc(&self, p: *mut u8, l: Layout) {
        if let Ok(Some(set)) = SECRETS.try_with(Cell::get) {
            scan(set, p, l.size());
        }
        meter(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn do_realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if let Ok(Some(_)) = SECRETS.try_with(Cell::get) {
            // make the release of the old block visible
            let q = self.do_alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.do_dealloc(p, l);
            }
            return q;
        }
        meter(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static HEAP: Heap = Heap;
