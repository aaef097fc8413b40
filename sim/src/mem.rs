//! The allocator and the memory-protection call, as the simulator's seams.
//!
//! An engine's memory request (large, over-aligned) is answered from a pool of address
//! ranges according to the plan of the run; everything else goes to the system
//! allocator, or, on a green emitter, to an arena of that green thread (so that an
//! emitter preempted inside the allocator cannot block another one).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub const NSLOT: usize = 8;
pub const SLOT_SIZE: usize = 0x4000_0000; // 1 GiB of address space each
/// Slot bases. 1 and 2 straddle the 4 GiB line, 0 lies below 2 GiB, 6 and 7 high.
pub const SLOT_BASE: [usize; NSLOT] = [
    0x2000_0000,
    0xE000_0000,
    0x2_F000_0000,
    0x10_0000_0000,
    0x2000_0000_0000,
    0x3FFF_F000_0000,
    0x6000_0000_0000,
    0x7E00_7000_0000,
];
/// How much of each third of a request is pre-filled.
pub const DIRTY_LEN: usize = 128 * 1024;

#[derive(Clone, Copy)]
pub struct Slot {
    pub in_use: bool,
    pub used_ever: bool,
    pub req: usize,
    pub freed: bool,
}

pub struct AllocPlan {
    /// slot for the next engine request, or -1 for "first free"
    pub slot: i32,
    pub dirty: u8,
    pub fail: bool,
    /// fail the n-th protection call (0-based) made while armed; -1 none
    pub protect_fail: i32,
    pub protect_errno: i32,
    /// hand out freed slots again
    pub reuse: bool,
}

pub static mut SLOTS: [Slot; NSLOT] =
    [Slot { in_use: false, used_ever: false, req: 0, freed: false }; NSLOT];
pub static mut APLAN: AllocPlan = AllocPlan {
    slot: -1,
    dirty: 0,
    fail: false,
    protect_fail: -1,
    protect_errno: 12,
    reuse: false,
};
pub static ARMED: AtomicBool = AtomicBool::new(false);
pub static mut LAST_SLOT: i32 = -1;
pub static mut FREED: usize = 0;
pub static mut FREED_RANGES: [(usize, usize); 16] = [(0, 0); 16];
pub static mut BIG_REQS: usize = 0;
pub static mut BIG_REFUSED: usize = 0;
pub static mut PROTECT_CALLS: usize = 0;
pub static mut PROTECT_REFUSED: usize = 0;
/// Per emitter: (slot, dirt) of its next engine, and the slot it got.
pub static mut LANE_PLAN: [(i32, u8); crate::lanes::MAXL] = [(-1, 0); crate::lanes::MAXL];
pub static mut LANE_LAST: [i32; crate::lanes::MAXL] = [-1; crate::lanes::MAXL];
pub static DIRTY_FILLS: AtomicUsize = AtomicUsize::new(0);

pub struct SimAlloc;
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

fn is_engine(l: &Layout) -> bool {
    l.align() >= 4096 && l.size() >= 1 << 20
}

pub fn slot_of(p: usize) -> Option<usize> {
    (0..NSLOT).find(|&k| p >= SLOT_BASE[k] && p < SLOT_BASE[k] + SLOT_SIZE)
}

/// Memory of engines that lies outside the pool (a library that maps its own).
pub static mut OUTSIDE: [(usize, usize); 64] = [(0, 0); 64];
pub static mut NOUTSIDE: usize = 0;
pub fn note_outside(lo: usize, len: usize) {
    unsafe {
        OUTSIDE[NOUTSIDE % 64] = (lo, lo.wrapping_add(len));
        NOUTSIDE += 1;
    }
}
/// Engines beyond the pool: mapped on demand, taken back at the end of the run.
pub const EXTRA_BASE: usize = 0x6400_0000_0000;
pub const EXTRA_MAX: usize = 512;
pub static EXTRA: AtomicUsize = AtomicUsize::new(0);
static mut EXTRA_FREE: [usize; EXTRA_MAX] = [0; EXTRA_MAX];

fn in_extra(p: usize) -> bool {
    p >= EXTRA_BASE && p < EXTRA_BASE + EXTRA_MAX * SLOT_SIZE
}

unsafe fn extra_alloc(l: &Layout, dirty: u8) -> *mut u8 {
    let mut k = EXTRA_MAX;
    if APLAN.reuse {
        k = (0..EXTRA.load(Relaxed)).find(|&j| EXTRA_FREE[j] >= l.size()).unwrap_or(EXTRA_MAX);
    }
    let reused = k < EXTRA_MAX;
    if !reused {
        k = EXTRA.fetch_add(1, Relaxed);
    }
    let b = EXTRA_BASE + k * SLOT_SIZE;
    if k >= EXTRA_MAX || l.size() > SLOT_SIZE || b % l.align() != 0 {
        return System.alloc(*l);
    }
    if !reused {
        let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED;
        let r = libc::syscall(libc::SYS_mmap, b, l.size(), libc::PROT_READ | libc::PROT_WRITE, flags, -1i64, 0i64);
        if r as usize != b {
            return System.alloc(*l);
        }
    }
    EXTRA_FREE[k] = 0;
    let third = l.size() / 3;
    for t in 0..3 {
        fill(b + t * third, 4096.min(third), dirty);
    }
    b as *mut u8
}

/// Does an instruction at `p` belong to generated code?
pub fn generated(p: usize) -> bool {
    if slot_of(p).is_some() || in_extra(p) {
        return true;
    }
    unsafe { NOUTSIDE != 0 && (0..NOUTSIDE.min(64)).any(|k| OUTSIDE[k].0 <= p && p < OUTSIDE[k].1) }
}

unsafe fn fill(base: usize, len: usize, dirty: u8) {
    let p = base as *mut u8;
    match dirty {
        0 => {}
        1 => std::ptr::write_bytes(p, 0xcc, len),
        2 => std::ptr::write_bytes(p, 0xff, len),
        3 => std::ptr::write_bytes(p, 0x90, len),
        d => {
            let mut x = crate::rng::mix(d as u64 ^ (base as u64 >> 12));
            for k in 0..len / 8 {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                *(p as *mut u64).add(k) = x ^ (x >> 31);
            }
        }
    }
    if dirty != 0 {
        DIRTY_FILLS.fetch_add(1, Relaxed);
    }
}

pub unsafe fn sys_mprotect(a: usize, l: usize, p: i32) -> i32 {
    libc::syscall(libc::SYS_mprotect, a, l, p) as i32
}

/// Read-only memory behind an engine.
pub const GUARD: usize = 0x1_0000;
pub fn guard_at(size: usize) -> usize {
    (size + 4095) & !4095
}

unsafe fn engine_alloc(l: &Layout) -> *mut u8 {
    engine_alloc1(l)
}

unsafe fn engine_alloc1(l: &Layout) -> *mut u8 {
    BIG_REQS += 1;
    LAST_SLOT = -1;
    let lane = crate::lanes::id();
    let (want, dirty) = if lane == 0 { (APLAN.slot, APLAN.dirty) } else { LANE_PLAN[lane] };
    if lane != 0 {
        LANE_LAST[lane] = -1;
    }
    if APLAN.fail {
        BIG_REFUSED += 1;
        return std::ptr::null_mut();
    }
    let ok = |k: usize, reuse: bool| -> bool {
        let s = &*std::ptr::addr_of!(SLOTS[k]);
        (!s.in_use || (reuse && s.freed)) && SLOT_BASE[k] % l.align() == 0 && l.size() + 0x10_0000 <= SLOT_SIZE
    };
    let mut k = None;
    if APLAN.reuse {
        k = (0..NSLOT).find(|&j| SLOTS[j].freed && ok(j, true));
    }
    if k.is_none() && want >= 0 && ok(want as usize, false) {
        k = Some(want as usize);
    }
    if k.is_none() {
        k = (0..NSLOT).find(|&j| ok(j, false));
    }
    let Some(k) = k else { return extra_alloc(l, dirty) };
    SLOTS[k] = Slot { in_use: true, used_ever: true, req: l.size(), freed: false };
    LAST_SLOT = k as i32;
    if lane != 0 {
        LANE_LAST[lane] = k as i32;
    }
    let third = l.size() / 3;
    for t in 0..3 {
        fill(SLOT_BASE[k] + t * third, DIRTY_LEN.min(third), dirty);
    }
    // the neighbour: memory of somebody else, with another protection
    sys_mprotect(SLOT_BASE[k] + guard_at(l.size()), GUARD, libc::PROT_READ);
    SLOT_BASE[k] as *mut u8
}

/// The allocator is not preempted and its instructions are not counted: how many they
/// are depends on the history of the heap.
pub static mut HOLD: u32 = 0;
/// The main thread of a stepped run allocates from arena 0, so that addresses repeat.
pub static mut WINDOW: bool = false;

struct Held(bool);
impl Held {
    #[inline(always)]
    fn new() -> Held {
        // not single-stepped either: filling memory would take one trap per byte
        let was = crate::lanes::stepping();
        unsafe {
            std::ptr::write_volatile(std::ptr::addr_of_mut!(HOLD), std::ptr::read_volatile(std::ptr::addr_of!(HOLD)) + 1);
            if was {
                crate::green::gt_step_off();
            }
        }
        Held(was)
    }
}
impl Drop for Held {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe {
            if self.0 {
                crate::green::gt_step_on();
            }
            std::ptr::write_volatile(std::ptr::addr_of_mut!(HOLD), std::ptr::read_volatile(std::ptr::addr_of!(HOLD)) - 1);
        }
    }
}
#[inline(always)]
pub fn held() -> bool {
    unsafe { std::ptr::read_volatile(std::ptr::addr_of!(HOLD)) != 0 }
}

/// Which arena the caller allocates from.
#[inline(always)]
fn arena() -> Option<usize> {
    let g = crate::lanes::id();
    if g != 0 {
        Some(g)
    } else if unsafe { WINDOW } && crate::lanes::is_main() {
        Some(0)
    } else {
        None
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _h = hold_if();
        self.alloc1(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _h = hold_if();
        self.alloc_zeroed1(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _h = hold_if();
        self.dealloc1(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _h = hold_if();
        self.realloc1(p, l, n)
    }
}

/// Only threads under the scheduler count (others may run at the same time).
#[inline(always)]
fn hold_if() -> Option<Held> {
    if crate::lanes::id() != 0 || (unsafe { WINDOW } && crate::lanes::is_main()) {
        Some(Held::new())
    } else {
        None
    }
}

impl SimAlloc {
    unsafe fn alloc1(&self, l: Layout) -> *mut u8 {
        if is_engine(&l) && ARMED.load(Relaxed) {
            return engine_alloc(&l);
        }
        if let Some(g) = arena() {
            return arena_alloc(g, &l);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed1(&self, l: Layout) -> *mut u8 {
        if is_engine(&l) && ARMED.load(Relaxed) {
            let p = engine_alloc(&l);
            if !p.is_null() {
                let third = l.size() / 3;
                for t in 0..3 {
                    std::ptr::write_bytes(p.add(t * third), 0, DIRTY_LEN.min(third));
                }
            }
            return p;
        }
        if let Some(g) = arena() {
            let p = arena_alloc(g, &l);
            std::ptr::write_bytes(p, 0, l.size());
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc1(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if let Some(k) = slot_of(a) {
            // Given back: whoever gets it next scribbles over it.
            if FREED < 16 {
                FREED_RANGES[FREED] = (a, l.size());
            }
            FREED += 1;
            SLOTS[k].freed = true;
            sys_mprotect(SLOT_BASE[k], guard_at(l.size()), libc::PROT_READ | libc::PROT_WRITE);
            let third = l.size() / 3;
            for t in 0..3 {
                std::ptr::write_bytes(p.add(t * third), 0xcc, DIRTY_LEN.min(third));
            }
            return;
        }
        if in_extra(a) {
            FREED += 1;
            EXTRA_FREE[(a - EXTRA_BASE) / SLOT_SIZE] = l.size();
            sys_mprotect(a, l.size(), libc::PROT_READ | libc::PROT_WRITE);
            let third = l.size() / 3;
            for t in 0..3 {
                std::ptr::write_bytes(p.add(t * third), 0xcc, 4096.min(third));
            }
            return;
        }
        if a >= ARENA_BASE && a < ARENA_BASE + ARENA_N * ARENA_SIZE {
            arena_free(p, &l);
            return;
        }
        if crate::lanes::id() != 0 {
            // An emitter must not wait inside the system allocator: leak it.
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc1(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        let in_arena = a >= ARENA_BASE && a < ARENA_BASE + ARENA_N * ARENA_SIZE;
        if !in_arena && arena().is_none() && slot_of(a).is_none() {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc1(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc1(p, l);
        }
        q
    }
}

// ---- arenas of green emitters -------------------------------------------------------
pub const ARENA_N: usize = 8;
pub const ARENA_SIZE: usize = 0x2_0000_0000;
pub const ARENA_BASE: usize = 0x5000_0000_0000;
static mut ARENA_TOP: [usize; ARENA_N] = [0; ARENA_N];
static mut ARENA_START: [usize; ARENA_N] = [0; ARENA_N];
static mut ARENA_FREE: [[usize; 40]; ARENA_N] = [[0; 40]; ARENA_N];

/// A new run: fresh memory, at the same offsets from a 64 KiB boundary. What an earlier
/// run left behind keeps its memory.
pub fn arena_fresh() {
    unsafe {
        for g in 0..ARENA_N {
            ARENA_TOP[g] = (ARENA_TOP[g] + 0xffff) & !0xffff;
            ARENA_START[g] = ARENA_TOP[g];
            ARENA_FREE[g] = [0; 40];
        }
    }
}

fn class(l: &Layout) -> usize {
    let n = l.size().max(l.align()).max(16);
    n.next_power_of_two().trailing_zeros() as usize
}

unsafe fn arena_alloc(g: usize, l: &Layout) -> *mut u8 {
    let c = class(l);
    let f = ARENA_FREE[g][c];
    if f != 0 {
        ARENA_FREE[g][c] = *(f as *const usize);
        return f as *mut u8;
    }
    let n = 1usize << c;
    let top = (ARENA_TOP[g] + n - 1) & !(n - 1);
    if top + n > ARENA_SIZE {
        return std::ptr::null_mut();
    }
    ARENA_TOP[g] = top + n;
    (ARENA_BASE + g * ARENA_SIZE + top) as *mut u8
}

unsafe fn arena_free(p: *mut u8, l: &Layout) {
    let Some(g) = arena() else { return };
    let a = p as usize - ARENA_BASE;
    if a / ARENA_SIZE != g || a % ARENA_SIZE < ARENA_START[g] {
        return; // of another thread or run
    }
    let c = class(l);
    *(p as *mut usize) = ARENA_FREE[g][c];
    ARENA_FREE[g][c] = p as usize;
}

// ---- set-up and reset ---------------------------------------------------------------
pub fn init() {
    unsafe {
        let map = |b: usize, n: usize| {
            let r = libc::mmap(
                b as *mut _,
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            if r as usize != b {
                eprintln!("harness: cannot reserve {b:#x}");
                libc::_exit(2);
            }
        };
        for b in SLOT_BASE {
            map(b, SLOT_SIZE);
        }
        map(ARENA_BASE, ARENA_N * ARENA_SIZE);
    }
}

/// Forget everything about the memory of the last run.
pub fn reset() {
    unsafe {
        ARMED.store(false, Relaxed);
        for k in 0..NSLOT {
            if SLOTS[k].used_ever {
                sys_mprotect(SLOT_BASE[k], SLOT_SIZE, libc::PROT_READ | libc::PROT_WRITE);
                libc::madvise(SLOT_BASE[k] as *mut _, SLOT_SIZE, libc::MADV_DONTNEED);
            }
            SLOTS[k] = Slot { in_use: false, used_ever: false, req: 0, freed: false };
        }
        APLAN = AllocPlan { slot: -1, dirty: 0, fail: false, protect_fail: -1, protect_errno: 12, reuse: false };
        FREED = 0;
        PROTECT_CALLS = 0;
        LAST_SLOT = -1;
        NOUTSIDE = 0;
        let n = EXTRA.swap(0, Relaxed).min(EXTRA_MAX);
        if n > 0 {
            libc::syscall(libc::SYS_munmap, EXTRA_BASE, n * SLOT_SIZE);
            EXTRA_FREE = [0; EXTRA_MAX];
        }
    }
}

/// All engine memory goes back to the pool of a run that has dropped all engines
/// (used between the stages of one run).
pub fn release_all() {
    let f = unsafe { FREED };
    let refused = unsafe { BIG_REFUSED };
    reset();
    unsafe {
        FREED = f;
        BIG_REFUSED = refused;
    }
}

/// Interposed: `region::protect` ends here.
#[no_mangle]
pub unsafe extern "C" fn mprotect(addr: *mut libc::c_void, len: usize, prot: i32) -> i32 {
    if ARMED.load(Relaxed) {
        let n = PROTECT_CALLS;
        PROTECT_CALLS += 1;
        if APLAN.protect_fail == n as i32 {
            PROTECT_REFUSED += 1;
            *libc::__errno_location() = APLAN.protect_errno;
            return -1;
        }
    }
    sys_mprotect(addr as usize, len, prot)
}

/// Where memory the library maps for itself is put, so that addresses repeat.
static mut NEXT_MAP: usize = 0x6800_0000_0000;

/// Interposed: a large anonymous mapping made while an engine is created is its memory.
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut libc::c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut libc::c_void {
    let mut at = addr;
    if ARMED.load(Relaxed) && len >= 1 << 20 && flags & libc::MAP_ANONYMOUS != 0 && addr.is_null() {
        BIG_REQS += 1;
        if APLAN.fail {
            BIG_REFUSED += 1;
            *libc::__errno_location() = libc::ENOMEM;
            return libc::MAP_FAILED;
        }
        at = NEXT_MAP as *mut _;
        NEXT_MAP += (len + 0x3fff_ffff) & !0x3fff_ffff;
    }
    libc::syscall(libc::SYS_mmap, at, len, prot, flags, fd, off) as *mut libc::c_void
}
