//! Simulated runtime: deterministic heap, deterministic process randomness, allocation-point
//! preemption, allocation fuel, and the baton scheduler for real threads.

use crate::prng::splitmix;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- libc (no libc crate needed)
pub mod c {
    #![allow(non_camel_case_types)]
    extern "C" {
        pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn fork() -> i32;
        pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        pub fn _exit(c: i32) -> !;
        pub fn pipe(fds: *mut i32) -> i32;
        pub fn read(fd: i32, b: *mut u8, n: usize) -> isize;
        pub fn write(fd: i32, b: *const u8, n: usize) -> isize;
        pub fn close(fd: i32) -> i32;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn poll(fds: *mut pollfd, n: u64, timeout: i32) -> i32;
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
        pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        pub fn personality(p: u64) -> i32;
    }
    #[repr(C)]
    pub struct pollfd {
        pub fd: i32,
        pub events: i16,
        pub revents: i16,
    }
}

// ---------------------------------------------------------------- page shared with the parent
#[repr(C)]
pub struct Page {
    pub step: AtomicU64,
    pub beat: AtomicU64,
    pub phase: AtomicU64,
    pub op: AtomicU64,
    /// lowest failing run index found so far by any worker
    pub best: AtomicU64,
}
pub static PAGE: AtomicUsize = AtomicUsize::new(0);

pub fn make_page() {
    unsafe {
        let p = c::mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        PAGE.store(p as usize, SeqCst);
    }
}
pub fn page() -> &'static Page {
    unsafe { &*(PAGE.load(SeqCst) as *const Page) }
}

pub const EXIT_FUEL: i32 = 77;
pub const EXIT_MEM: i32 = 78;
/// every client waits for a lock that no client can release
pub const EXIT_DEADLOCK: i32 = 79;

// ---------------------------------------------------------------- deterministic heap
const BASE: usize = 0x2000_0000_0000;
const RESERVE: usize = 48 << 30;
const NCLS: usize = 96;

struct Heap {
    next: usize,
    end: usize,
    free: [usize; NCLS],
    /// blocks below this address are never recycled (they predate the run)
    floor: usize,
}
pub struct Alloc {
    lock: AtomicBool,
    h: UnsafeCell<Heap>,
}
unsafe impl Sync for Alloc {}

#[global_allocator]
pub static HEAP: Alloc = Alloc {
    lock: AtomicBool::new(false),
    h: UnsafeCell::new(Heap {
        next: 0,
        end: 0,
        free: [0; NCLS],
        floor: 0,
    }),
};

pub static MEM_LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static FIXED_HEAP: AtomicBool = AtomicBool::new(false);

fn class(sz: usize) -> (usize, usize) {
    if sz <= 1024 {
        let c = (sz.max(1) + 15) / 16;
        (c - 1, c * 16)
    } else {
        let p = sz.next_power_of_two();
        (64 + (p.trailing_zeros() as usize - 11), p)
    }
}

impl Alloc {
    fn locked<R>(&self, f: impl FnOnce(&mut Heap) -> R) -> R {
        while self.lock.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let r = f(unsafe { &mut *self.h.get() });
        self.lock.store(false, Release);
        r
    }
    fn get(&self, size: usize, align: usize) -> *mut u8 {
        let (c, sz) = class(size.max(align));
        let p = self.locked(|h| {
            if h.next == 0 {
                unsafe {
                    // MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
                    let p = c::mmap(BASE as *mut u8, RESERVE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
                    let p = if p as usize == BASE {
                        FIXED_HEAP.store(true, SeqCst);
                        p
                    } else {
                        c::mmap(std::ptr::null_mut(), RESERVE / 8, 3, 0x2 | 0x20 | 0x4000, -1, 0)
                    };
                    if p as isize == -1 {
                        return 0;
                    }
                    h.next = p as usize;
                    h.end = p as usize + if p as usize == BASE { RESERVE } else { RESERVE / 8 };
                }
            }
            if align <= 16 && h.free[c] != 0 {
                let p = h.free[c];
                h.free[c] = unsafe { *(p as *const usize) };
                return p;
            }
            let mut p = h.next;
            if align > 16 {
                p = (p + align - 1) & !(align - 1);
            }
            if p + sz > h.end {
                return 0;
            }
            h.next = p + sz;
            p
        });
        if p > MEM_LIMIT.load(Relaxed) {
            unsafe { c::_exit(EXIT_MEM) }
        }
        p as *mut u8
    }
    /// start of a run: a fresh heap at a fixed address, whatever happened in this process before
    pub fn rebase(&self, limit: usize) {
        self.locked(|h| {
            let line = if FIXED_HEAP.load(SeqCst) { BASE + (8 << 30) } else { h.next };
            h.next = line.max(h.next);
            h.floor = h.next;
            h.free = [0; NCLS];
            MEM_LIMIT.store(h.next + limit, SeqCst);
        })
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hook();
        self.get(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (c, _) = class(l.size().max(l.align()));
        if l.align() <= 16 {
            self.locked(|h| {
                if p as usize >= h.floor {
                    *(p as *mut usize) = h.free[c];
                    h.free[c] = p as usize;
                }
            })
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let (c0, _) = class(l.size().max(l.align()));
        let (c1, _) = class(n.max(l.align()));
        if c0 == c1 {
            hook();
            return p;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

// ---------------------------------------------------------------- allocation points
struct Ctl {
    armed: Cell<bool>,
    count: Cell<u64>,
    trigger: Cell<u64>,
    fuel: Cell<u64>,
    fired: Cell<u64>,
    slot: Cell<usize>,
    from: Cell<u64>,
}
thread_local! {
    static CTL: Ctl = const { Ctl {
        armed: Cell::new(false), count: Cell::new(0), trigger: Cell::new(0), fuel: Cell::new(0),
        fired: Cell::new(0), slot: Cell::new(usize::MAX), from: Cell::new(0),
    } };
}

fn hook() {
    let _ = CTL.try_with(|t| {
        if t.armed.get() {
            let n = t.count.get() + 1;
            t.count.set(n);
            if n == t.trigger.get() {
                t.armed.set(false);
                t.fired.set(t.fired.get() + 1);
                park(t.slot.get());
                t.armed.set(true);
            }
            if n > t.fuel.get() {
                t.armed.set(false);
                unsafe { c::_exit(EXIT_FUEL) }
            }
        }
    });
}

/// start of a step: reset the allocation counter, set the preemption point
pub fn step_begin(trigger: u64) {
    CTL.with(|t| {
        t.count.set(0);
        t.trigger.set(trigger);
        t.from.set(0);
        t.fired.set(0);
    })
}
/// (allocations, preemptions) of the step so far
pub fn step_counts() -> (u64, u64) {
    CTL.with(|t| (t.count.get(), t.fired.get()))
}
/// allocations one call into the crate may make before it counts as not returning
/// CPU seconds of one run
pub static CPU: AtomicU64 = AtomicU64::new(20);
pub static CALL_FUEL: AtomicU64 = AtomicU64::new(30_000_000);

/// 1, or 20 while an operation that did not return is being confirmed
pub fn patience() -> u64 {
    PATIENCE.load(Relaxed)
}
pub static PATIENCE: AtomicU64 = AtomicU64::new(1);

/// enter / leave a call into the crate; leaving returns the allocations made by the call
pub fn arm(on: bool) -> u64 {
    CTL.with(|t| {
        t.armed.set(on);
        if on {
            t.from.set(t.count.get());
            t.fuel.set(t.count.get() + CALL_FUEL.load(Relaxed));
        }
        t.count.get() - t.from.get()
    })
}

// ---------------------------------------------------------------- process randomness
pub static RAND_STATE: AtomicU64 = AtomicU64::new(0x1234_5678);
pub static RAND_CALLS: AtomicU64 = AtomicU64::new(0);

/// std's RandomState takes its keys from getrandom(2); the simulator answers instead.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = RAND_STATE.load(SeqCst);
    RAND_CALLS.fetch_add(1, SeqCst);
    let mut i = 0;
    while i < len {
        let v = splitmix(&mut s).to_le_bytes();
        let m = (len - i).min(8);
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), buf.add(i), m) };
        i += m;
    }
    RAND_STATE.store(s, SeqCst);
    len as isize
}

// ---------------------------------------------------------------- baton scheduler
pub const MAXT: usize = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Idle,
    Running,
    Parked,
    /// waits for a lock (inside a call into the crate)
    Blocked,
    Done,
}
pub struct Shared {
    pub st: Mutex<[St; MAXT]>,
    pub cv: Condvar,
}
pub static SHARED: Shared = Shared {
    st: Mutex::new([St::Idle; MAXT]),
    cv: Condvar::new(),
};
pub static FALLBACKS: AtomicU64 = AtomicU64::new(0);

/// blocking calls of clients that became scheduling points
pub static BLOCKS: AtomicU64 = AtomicU64::new(0);

#[cfg(target_arch = "x86_64")]
unsafe fn raw_syscall(n: i64, a: [usize; 6]) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// std's locks block through syscall(SYS_futex, ...): a client that would block inside the crate hands
/// the baton back instead, and looks at the lock again when the scheduler lets it go on.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c3: usize, d: usize, e: usize, f: usize) -> i64 {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    if n == 202 && matches!(b & 0x7f, 0 | 9) && client_blocks() {
        if d != 0 {
            // a wait with a time limit: simulated time jumps to it
            *__errno_location() = 110;
            return -1;
        }
        return 0;
    }
    let r = raw_syscall(n, [a, b, c3, d, e, f]);
    if r < 0 && r > -4096 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r as i64
}

/// a client that spins on a lock politely
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if !client_blocks() {
        #[cfg(target_arch = "x86_64")]
        unsafe {
            raw_syscall(24, [0; 6]);
        }
    }
    0
}

fn client_blocks() -> bool {
    CTL.try_with(|t| {
        if !t.armed.get() || t.slot.get() >= MAXT {
            return false;
        }
        t.armed.set(false);
        BLOCKS.fetch_add(1, SeqCst);
        stop(t.slot.get(), St::Blocked);
        t.armed.set(true);
        true
    })
    .unwrap_or(false)
}

fn park(slot: usize) {
    if slot < MAXT {
        stop(slot, St::Parked)
    }
}

fn stop(slot: usize, how: St) {
    let mut g = SHARED.st.lock().unwrap_or_else(|e| e.into_inner());
    g[slot] = how;
    SHARED.cv.notify_all();
    while g[slot] != St::Running {
        g = SHARED.cv.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

pub fn set_slot(slot: usize) {
    CTL.with(|t| t.slot.set(slot))
}

fn lock() -> std::sync::MutexGuard<'static, [St; MAXT]> {
    SHARED.st.lock().unwrap_or_else(|e| e.into_inner())
}

/// scheduler side: let `slot` run until it is Parked, Blocked or Done.  If it does not get there because it
/// waits for a parked thread in some way the simulator does not see, give the parked threads the baton too.
pub fn run_until_stop(slot: usize, parked: &[usize]) -> St {
    let mut g = lock();
    // (a parked thread may already have been released by the fallback below)
    if parked.is_empty() || parked != [slot] {
        g[slot] = St::Running;
    } else if matches!(g[slot], St::Parked | St::Blocked) {
        g[slot] = St::Running;
    }
    let parked: &[usize] = if parked == [slot] { &[] } else { parked };
    SHARED.cv.notify_all();
    let mut waited = 0;
    loop {
        if matches!(g[slot], St::Parked | St::Blocked | St::Done) {
            return g[slot];
        }
        if parked.is_empty() {
            g = SHARED.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        } else {
            let (g2, to) = SHARED
                .cv
                .wait_timeout(g, Duration::from_millis(500))
                .unwrap_or_else(|e| e.into_inner());
            g = g2;
            if to.timed_out() {
                waited += 1;
                if waited >= 4 {
                    FALLBACKS.fetch_add(1, SeqCst);
                    for p in parked {
                        if g[*p] == St::Parked {
                            g[*p] = St::Running;
                        }
                    }
                    SHARED.cv.notify_all();
                }
            }
        }
    }
}
/// executing side: report completion and wait for the next command
pub fn report_done(slot: usize) {
    let mut g = lock();
    g[slot] = St::Done;
    SHARED.cv.notify_all();
}
pub fn wait_cmd(slot: usize) {
    let mut g = lock();
    while g[slot] != St::Running {
        g = SHARED.cv.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}
pub fn reset_slot(slot: usize) {
    lock()[slot] = St::Idle;
}
