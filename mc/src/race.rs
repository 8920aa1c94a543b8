//! Two threads on the real machine code: thread A is stopped before each of its instructions in turn, the
//! process is copied there, and in the copy thread B runs its operations completely before A goes on.
//!
//! Every execution with one preemption of A by B is explored, at the granularity of instructions. If B waits
//! for something A holds, A goes on, as it would under any scheduler. With `twice`, B is in turn stopped before
//! each of its instructions for A to finish first: all executions with two preemptions.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub type Job<T> = Box<dyn FnOnce() -> T>;
pub struct Plan<T> {
    pub a: Job<T>,
    /// alternatives: each runs in a copy of its own
    pub b: Vec<Job<T>>,
    /// which alternative, what A and B gave
    pub judge: Box<dyn Fn(usize, T, T) -> Result<(), String>>,
}

// ---------------------------------------------------------------- the little of libc that is needed
extern "C" {
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pthread_sigmask(how: i32, set: *const u64, old: *mut u64) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn dl_iterate_phdr(f: extern "C" fn(*const u64, usize, *mut u64) -> i32, data: *mut u64) -> i32;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
const SIGTRAP: i32 = 5;
const SA_SIGINFO: i32 = 4;
const TRAP_FLAG: u64 = 0x100;
/// Positions of RIP and EFLAGS in a `ucontext_t` of x86-64.
const RIP: usize = 5 + 16;
const EFL: usize = 5 + 17;

// ---------------------------------------------------------------- symbols
pub struct Symbols {
    base: u64,
    end: u64,
    syms: Vec<(u64, u64, String)>,
}
extern "C" fn first_object(info: *const u64, _: usize, data: *mut u64) -> i32 {
    unsafe { *data = *info };
    1
}
impl Symbols {
    pub fn load() -> Symbols {
        let f = std::fs::read("/proc/self/exe").expect("own binary");
        let n = |o: usize, l: usize| (0..l).rev().fold(0u64, |a, i| a << 8 | u64::from(f[o + i]));
        let (shoff, shsize, shnum) = (n(0x28, 8) as usize, n(0x3A, 2) as usize, n(0x3C, 2) as usize);
        let mut syms = vec![];
        for s in 0..shnum {
            let h = shoff + s * shsize;
            if n(h + 4, 4) == 2 {
                // SHT_SYMTAB and its strings
                let (off, size, link) = (n(h + 24, 8) as usize, n(h + 32, 8) as usize, n(h + 40, 4) as usize);
                let stroff = n(shoff + link * shsize + 24, 8) as usize;
                for i in 0..size / 24 {
                    let o = off + i * 24;
                    let (addr, len) = (n(o + 8, 8), n(o + 16, 8));
                    if f[o + 4] & 15 == 2 && addr != 0 {
                        let p = stroff + n(o, 4) as usize;
                        let l = f[p..].iter().position(|&c| c == 0).unwrap();
                        syms.push((addr, addr + len, String::from_utf8_lossy(&f[p..p + l]).into_owned()));
                    }
                }
            }
        }
        syms.sort();
        let mut base = 0;
        unsafe { dl_iterate_phdr(first_object, &mut base) };
        let end = syms.iter().map(|s| s.1).max().unwrap_or(0);
        Symbols { base, end, syms }
    }
    /// Is it the first instruction of a function?
    fn starts(&self, rip: u64) -> bool {
        let a = rip.wrapping_sub(self.base);
        self.syms.binary_search_by(|s| s.0.cmp(&a)).is_ok()
    }
    pub fn find(&self, rip: u64) -> Option<&str> {
        let a = rip.wrapping_sub(self.base);
        if a >= self.end {
            return None;
        }
        let i = self.syms.partition_point(|s| s.0 <= a);
        // symbols of assembly may have no size
        if i == 0 {
            None
        } else {
            Some(&self.syms[i - 1].2)
        }
    }
}
/// Crates the code under test depends on: they know nothing of its state.
const FOREIGN: &[&str] = &[
    "_ZN4ring", "_ZN22chacha20_poly1305_aead", "_ZN6flate2", "_ZN11miniz_oxide", "_ZN7adler32", "_ZN9untrusted",
    "_ZN10serde_json", "_ZN10serde_cbor", "_ZN7bincode", "_ZN5serde", "_ZN9crc32fast", "_ZN10zeroize",
];
fn foreign(name: &str) -> bool {
    // C and assembly belong to ring
    !name.starts_with("_ZN") || FOREIGN.iter().any(|p| name.starts_with(p))
}

// ---------------------------------------------------------------- instructions
/// Positions of the registers in a `ucontext_t`, by their number in instructions.
const REGS: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];

/// The address of the memory operand of an instruction; `Nowhere` if it touches only registers, the stack or
/// memory of the thread.
enum Operand {
    Nowhere,
    At(u64),
    Unknown,
}
unsafe fn operand(ctx: *const u64) -> Operand {
    use Operand::*;
    let reg = |n: usize| *ctx.add(5 + REGS[n]);
    let rip = *ctx.add(RIP);
    let mut p = rip as *const u8;
    let mut next = || {
        let b = *p;
        p = p.add(1);
        b
    };
    let (mut rex, mut own_segment, mut scale) = (0u8, false, 1i64);
    let mut op = next();
    loop {
        match op {
            0x64 => own_segment = true,
            0x26 | 0x2E | 0x36 | 0x3E | 0x65 | 0x66 | 0x67 | 0xF0 | 0xF2 | 0xF3 => (),
            _ => break,
        }
        op = next();
    }
    if op & 0xF0 == 0x40 {
        rex = op & 15;
        op = next();
    }
    let has = match op {
        0xC4 | 0xC5 => {
            let b = next();
            rex = (!b >> 5) & 4;
            let mut map = 1;
            if op == 0xC4 {
                rex = (!b >> 5) & 7;
                map = b & 31;
                next();
            }
            let o = next();
            if map == 2 && o & 0xFC == 0x90 {
                // gathers
                return Unknown;
            }
            !(map == 1 && o == 0x77)
        }
        0x62 => {
            let b = next();
            rex = (!b >> 5) & 3;
            rex |= (!b >> 7) << 2;
            next();
            scale = 16 << (next() >> 5 & 3);
            let o = next();
            if b & 7 == 2 && o & 0xFC == 0x90 {
                return Unknown;
            }
            true
        }
        0x0F => match next() {
            0x38 | 0x3A => {
                next();
                true
            }
            0x05 => return Unknown,
            0x0D | 0x18..=0x1F => return Nowhere,
            0x06 | 0x08 | 0x09 | 0x0B | 0x30..=0x37 | 0x77 | 0x80..=0x8F | 0xA0..=0xA2 | 0xA8..=0xAA | 0xC8..=0xCF => false,
            _ => true,
        },
        0x8D => return Nowhere,
        0x00..=0x3F => op & 7 < 4,
        0x63 | 0x69 | 0x6B | 0x80..=0x8F | 0xC0 | 0xC1 | 0xC6 | 0xC7 | 0xD0..=0xD3 | 0xD8..=0xDF | 0xF6 | 0xF7 | 0xFE | 0xFF => true,
        0xA0..=0xA7 | 0xAA..=0xAF | 0x6C..=0x6F | 0xD7 => return Unknown,
        _ => false,
    };
    if !has || own_segment {
        return Nowhere;
    }
    let m = next();
    let (md, rm) = (m >> 6, m & 7);
    if md == 3 {
        return Nowhere;
    }
    let mut a = 0u64;
    let mut disp = if md == 1 { 1 } else if md == 2 { 4 } else { 0 };
    let mut relative = false;
    if rm == 4 {
        let s = next();
        let (i, b) = ((s >> 3 & 7) | (rex & 2) << 2, s & 7);
        if i != 4 {
            a = a.wrapping_add(reg(i as usize) << (s >> 6));
        }
        if b == 5 && md == 0 {
            disp = 4;
        } else {
            a = a.wrapping_add(reg((b | (rex & 1) << 3) as usize));
        }
    } else if rm == 5 && md == 0 {
        relative = true;
        disp = 4;
    } else {
        a = reg((rm | (rex & 1) << 3) as usize);
    }
    if disp == 1 {
        a = a.wrapping_add((i64::from(*p as i8) * scale) as u64);
    } else if disp == 4 {
        a = a.wrapping_add((p as *const i32).read_unaligned() as u64);
    }
    if relative {
        // the length of an immediate operand does not matter for the page
        a = a.wrapping_add(p as u64 + 4);
    }
    At(a)
}
/// Memory that no other thread changes: what is not writable, and the stack of the thread.
fn own_memory() -> Vec<(u64, u64)> {
    let here = 0u8;
    let here = &here as *const u8 as u64;
    std::fs::read_to_string("/proc/self/maps")
        .unwrap()
        .lines()
        .filter_map(|l| {
            let mut it = l.split(|c| c == ' ' || c == '-');
            let a = u64::from_str_radix(it.next()?, 16).ok()?;
            let b = u64::from_str_radix(it.next()?, 16).ok()?;
            let writable = it.next()?.contains('w') || l[..40].contains("rw");
            if !writable || (a..b).contains(&here) {
                Some((a, b))
            } else {
                None
            }
        })
        .collect()
}

// ---------------------------------------------------------------- functions that are not stepped
// Functions that call nothing back and do not unwind run at full speed: their return address is exchanged for
// code that goes back to stepping.
const CLOSED: &[&str] = &[
    "GFp_", "__rust_alloc", "__rust_dealloc", "__rust_realloc", "_ZN22chacha20_poly1305_aead8chacha20",
    "_ZN22chacha20_poly1305_aead8poly1305", "_ZN11miniz_oxide7deflate", "_ZN11miniz_oxide7inflate",
];
std::arch::global_asm!(
    ".globl mc_step_again",
    "mc_step_again:",
    "lea rsp, [rsp - 8]",
    "push rax",
    "mov rax, [rip + {to}]",
    "mov [rsp + 8], rax",
    "pop rax",
    "pushfq",
    "or qword ptr [rsp], 0x100",
    "popfq",
    "ret",
    to = sym RETURN_TO,
);
static mut RETURN_TO: u64 = 0;
extern "C" {
    fn mc_step_again();
}

// ---------------------------------------------------------------- stepping
static STEPPING: AtomicBool = AtomicBool::new(false);
thread_local! {
    static IN_ALLOC: Cell<bool> = const { Cell::new(false) };
    static IS_B: Cell<bool> = const { Cell::new(false) };
}
/// Blocks allocated by A since it is stepped.
static mut FRESH: ([(u64, u64); 1024], usize) = ([(0, 0); 1024], 0);
#[inline]
pub fn allocated(p: *mut u8, n: usize) {
    if STEPPING.load(Relaxed) {
        unsafe {
            let f = &mut *std::ptr::addr_of_mut!(FRESH);
            if f.1 < f.0.len() {
                f.0[f.1] = (p as u64, p as u64 + n as u64);
                f.1 += 1;
            }
        }
    }
}
#[inline]
pub fn released(p: *mut u8) {
    if STEPPING.load(Relaxed) {
        unsafe {
            let f = &mut *std::ptr::addr_of_mut!(FRESH);
            if let Some(i) = f.0[..f.1].iter().position(|r| r.0 == p as u64) {
                f.1 -= 1;
                f.0[i] = f.0[f.1];
            }
        }
    }
}
fn fresh(a: u64) -> bool {
    unsafe {
        let f = &*std::ptr::addr_of!(FRESH);
        f.0[..f.1].iter().any(|r| r.0 <= a && a < r.1)
    }
}

/// The allocator is not preempted: it is not the code under test, and its locks would stay taken in the copy.
#[inline]
pub fn atomically<T>(f: impl FnOnce() -> T) -> T {
    if !STEPPING.load(Relaxed) {
        return f();
    }
    let was = IN_ALLOC.with(|x| x.replace(true));
    let t = f();
    IN_ALLOC.with(|x| x.set(was));
    t
}

struct Walk {
    symbols: Symbols,
    own: Vec<(u64, u64)>,
    everywhere: bool,
    share: (u64, u64),
    traps: u64,
    points: u64,
    copies: u64,
    waits: u64,
    child: bool,
    at: String,
    failed: Option<String>,
    /// starts B; true: B has finished
    start_b: Box<dyn FnMut(usize) -> bool>,
    alternatives: usize,
    twice: bool,
    over: bool,
    b_stops: u64,
    main_tid: i32,
}
static mut WALK: Option<Walk> = None;

extern "C" fn on_trap(_: i32, _: usize, ctx: *mut u64) {
    unsafe {
        let w = match &mut *std::ptr::addr_of_mut!(WALK) {
            Some(w) => w,
            None => return,
        };
        if w.child && !IS_B.with(Cell::get) || w.failed.is_some() {
            *ctx.add(EFL) &= !TRAP_FLAG;
            return;
        }
        w.traps += 1;
        if IN_ALLOC.with(Cell::get) {
            return;
        }
        let rip = *ctx.add(RIP);
        let name = w.symbols.find(rip);
        if name.map(|n| CLOSED.iter().any(|p| n.starts_with(p))).unwrap_or(false) && w.symbols.starts(rip) {
            let sp = *ctx.add(5 + REGS[4]) as *mut u64;
            RETURN_TO = *sp;
            *sp = mc_step_again as usize as u64;
            *ctx.add(EFL) &= !TRAP_FLAG;
            return;
        }
        if name.map(foreign).unwrap_or(false) {
            return;
        }
        if !w.everywhere {
            // stopping before what only this thread can see is the same as stopping after it
            match operand(ctx) {
                Operand::Nowhere => return,
                // filling and copying into a block made just now
                Operand::At(a) if name.is_none() && fresh(a) => return,
                Operand::At(a) if w.own.iter().any(|r| r.0 <= a && a < r.1) => return,
                _ => (),
            }
        }
        w.points += 1;
        if w.child {
            // B
            if w.points == w.b_stops {
                *ctx.add(EFL) &= !TRAP_FLAG;
                w.at = format!("{}, the other thread before {}", w.at, w.place(rip));
                park(w.main_tid);
            }
            return;
        }
        if w.points % w.share.1 != w.share.0 {
            return;
        }
        if !w.copies_for_all(Some((rip, ctx)), 0) && w.twice {
            // B is stopped before each of its instructions as well
            let mut j = 1;
            while w.failed.is_none() && !w.over {
                if w.copies_for_all(Some((rip, ctx)), j) {
                    break;
                }
                j += 1;
            }
            w.over = false;
        }
    }
}
impl Walk {
    /// Makes a copy for each alternative of B and waits for all; true in the copies.
    /// `b_stops`: before which of its instructions B is stopped for A to go on; 0: B is not stopped.
    unsafe fn copies_for_all(&mut self, here: Option<(u64, *mut u64)>, b_stops: u64) -> bool {
        let mut pids = [0; 64];
        for k in 0..self.alternatives {
            pids[k] = self.copy(k, here, b_stops);
            if self.child {
                return true;
            }
        }
        self.over = true;
        for k in 0..self.alternatives {
            self.over &= self.wait(pids[k], here);
        }
        false
    }
    /// A copy of the process; in the copy, alternative `k` of B is started.
    unsafe fn copy(&mut self, k: usize, here: Option<(u64, *mut u64)>, b_stops: u64) -> i32 {
        let w = self;
        w.copies += 1;
        match fork() {
            0 => {
                w.child = true;
                // both threads may wait for ever
                alarm(20);
                w.b_stops = b_stops;
                STEPPING.store(b_stops > 0, Relaxed);
                w.at = w.whereabouts(here);
                w.points = 0;
                (w.start_b)(k);
                if let Some((_, ctx)) = here {
                    *ctx.add(EFL) &= !TRAP_FLAG;
                }
                0
            }
            pid => pid,
        }
    }
    /// True: B ended before it was to be stopped.
    unsafe fn wait(&mut self, pid: i32, here: Option<(u64, *mut u64)>) -> bool {
        let mut st = 0;
        if pid <= 0 {
            self.failed = Some("E fork fails".into());
            return false;
        }
        while waitpid(pid, &mut st, 0) != pid {}
        match st {
            0 => {}
            0x200 => self.waits += 1,
            0x300 => return true,
            // the copy has said what
            0x100 => self.failed = Some(String::new()),
            14 => self.failed = Some(format!("V {}: the operations of the two threads do not return", self.whereabouts(here))),
            9 | 5 => self.failed = Some(format!("E a copy of the process is ended by signal {}", st)),
            _ => self.failed = Some(format!("V {}: the process ends with status {:#x}", self.whereabouts(here), st)),
        }
        false
    }
    fn place(&self, rip: u64) -> String {
        format!(
            "instruction {} ({:#x} in {})",
            self.traps,
            rip.wrapping_sub(self.symbols.base),
            self.symbols.find(rip).unwrap_or("libc")
        )
    }
    fn whereabouts(&self, here: Option<(u64, *mut u64)>) -> String {
        match here {
            Some((rip, _)) => format!("preempted before {}", self.place(rip)),
            None => "one after the other".to_string(),
        }
    }
}
/// B waits until A has finished, or waits for B.
fn park(main: i32) {
    PARKED.store(true, SeqCst);
    let t0 = Instant::now();
    let mut asleep = 0;
    while !A_DONE.load(SeqCst) {
        std::thread::sleep(Duration::from_micros(30));
        if t0.elapsed() > Duration::from_millis(3) {
            asleep = if sleeping(main) { asleep + 1 } else { 0 };
            if asleep > 3 || t0.elapsed() > Duration::from_secs(2) {
                return;
            }
        }
    }
}
static PARKED: AtomicBool = AtomicBool::new(false);
static A_DONE: AtomicBool = AtomicBool::new(false);
fn say(s: &str) {
    let s = format!("{}\n", s);
    unsafe { write(1, s.as_ptr(), s.len()) };
}

struct Slot<T> {
    jobs: Vec<Option<Job<T>>>,
    chosen: usize,
    out: Option<T>,
    thread: Option<std::thread::JoinHandle<()>>,
}
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}

/// What a thread of this process is doing.
fn sleeping(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid))
        .ok()
        .and_then(|s| s.rsplit(") ").next().map(|r| r.starts_with('S')))
        .unwrap_or(false)
}

#[inline(always)]
fn step() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
fn stop() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -0x101", "popfq") }
}
/// Explores this share of the preemption points of A and says what was found on standard output.
pub fn walk<T: 'static>(plan: Plan<T>, share: (u64, u64), everywhere: bool, twice: bool) -> i32 {
    let slot: &'static mut Slot<T> = Box::leak(Box::new(Slot { jobs: plan.b.into_iter().map(Some).collect(), chosen: 0, out: None, thread: None }));
    let alternatives = slot.jobs.len();
    let slot = slot as *mut Slot<T>;
    static DONE: AtomicBool = AtomicBool::new(false);
    static TID: AtomicU64 = AtomicU64::new(0);
    let start_b = move |k: usize| {
        unsafe { (*slot).chosen = k };
        let m = Moved(slot);
        let h = std::thread::spawn(move || {
            let m = m;
            TID.store(unsafe { crate::sut::syscall(186, 0, 0, 0, 0, 0, 0) } as u64, SeqCst);
            let s = unsafe { &mut *m.0 };
            let job = s.jobs[s.chosen].take().unwrap();
            let w = unsafe { (*std::ptr::addr_of_mut!(WALK)).as_mut().unwrap() };
            if w.b_stops > 0 {
                IS_B.with(|x| x.set(true));
                w.own.extend(own_memory());
                w.main_tid = std::process::id() as i32;
                w.traps = 0;
                // the thread was started in a signal handler
                let mut set = [0u64; 16];
                set[0] = 1 << (SIGTRAP - 1);
                unsafe { pthread_sigmask(1, set.as_ptr(), std::ptr::null_mut()) };
                step();
            }
            let out = job();
            stop();
            s.out = Some(out);
            DONE.store(true, SeqCst);
        });
        unsafe { (*slot).thread = Some(h) };
        // B runs to its end, unless it waits for A
        let t0 = Instant::now();
        let mut asleep = 0;
        while !DONE.load(SeqCst) && !PARKED.load(SeqCst) {
            std::thread::sleep(Duration::from_micros(30));
            let tid = TID.load(SeqCst);
            if t0.elapsed() > Duration::from_millis(3) && tid != 0 {
                asleep = if sleeping(tid as i32) { asleep + 1 } else { 0 };
                // it may also turn in circles; going on with A is a schedule like any other
                if asleep > 3 || t0.elapsed() > Duration::from_secs(2) {
                    return false;
                }
            }
        }
        true
    };
    unsafe {
        WALK = Some(Walk {
            symbols: Symbols::load(),
            own: own_memory(),
            everywhere,
            share,
            traps: 0,
            points: 0,
            copies: 0,
            waits: 0,
            child: false,
            at: String::new(),
            failed: None,
            start_b: Box::new(start_b),
            alternatives,
            twice,
            over: false,
            b_stops: 0,
            main_tid: std::process::id() as i32,
        });
        let sa = SigAction { handler: on_trap as usize, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
        sigaction(SIGTRAP, &sa, std::ptr::null_mut());
        STEPPING.store(true, SeqCst);
    }
    step();
    let a = (plan.a)();
    stop();
    A_DONE.store(true, SeqCst);
    let w = unsafe { (*std::ptr::addr_of_mut!(WALK)).as_mut().unwrap() };
    if !w.child {
        STEPPING.store(false, SeqCst);
        if w.failed.is_none() {
            // B after A
            unsafe { w.copies_for_all(None, 0) };
        }
    }
    if w.child {
        let mut waited = false;
        while !DONE.load(SeqCst) {
            waited = true;
            std::thread::sleep(Duration::from_micros(200));
        }
        STEPPING.store(false, SeqCst);
        let s = unsafe { &mut *slot };
        if let Some(h) = s.thread.take() {
            let _ = h.join();
        }
        let r = match s.out.take() {
            Some(b) => (plan.judge)(s.chosen, a, b),
            None => Err("the other thread panics".into()),
        };
        if let Err(e) = r {
            say(&format!("V {}: {}", w.at, e));
            unsafe { _exit(1) }
        }
        let over = w.b_stops > 0 && !PARKED.load(SeqCst);
        unsafe { _exit(if over { 3 } else if waited && w.b_stops == 0 { 2 } else { 0 }) }
    }
    match &w.failed {
        Some(f) => {
            if !f.is_empty() {
                say(f);
            }
            1
        }
        None if w.traps == 0 => {
            say("E this machine does not step");
            2
        }
        None => {
            say(&format!("OK {} {} {} {}", w.traps, w.points, w.copies, w.waits));
            0
        }
    }
}
