//! Emitters as simulated threads. Each emitter is an OS thread of its own (so that
//! thread-local state is what it is in production), but only the holder of the baton
//! runs, and the schedule of the run decides, per operation and per machine
//! instruction, when the baton goes to whom. A wait inside a lock of the standard
//! library passes the baton on.
use crate::green::{die, gt_step_off, gt_step_on};
use std::cell::Cell;

pub const MAXL: usize = 8;

struct L {
    on: bool,
    n: usize,
    cur: usize,
    done: [bool; MAXL],
    sched: Vec<(u16, u8)>,
    pos: usize,
    ops: u32,
    left: u32,
    steps: u64,
    budget: u64,
    switches: u64,
    mid: u64,
    waits: u64,
    hash: u64,
    word: [i32; MAXL],
}

static mut LS: L = L {
    on: false,
    n: 0,
    cur: 0,
    done: [true; MAXL],
    sched: Vec::new(),
    pos: 0,
    ops: 0,
    left: 0,
    steps: 0,
    budget: 0,
    switches: 0,
    mid: 0,
    waits: 0,
    hash: 0,
    word: [0; MAXL],
};

fn l() -> &'static mut L {
    unsafe { &mut *std::ptr::addr_of_mut!(LS) }
}

thread_local! {
    static ID: Cell<usize> = const { Cell::new(0) };
    static MAIN: Cell<bool> = const { Cell::new(false) };
}

/// The thread that executes the runs.
#[inline(always)]
pub fn is_main() -> bool {
    MAIN.with(|c| c.get())
}
pub fn set_main() {
    MAIN.with(|c| c.set(true))
}

#[inline(always)]
pub fn id() -> usize {
    ID.with(|c| c.get())
}

pub fn steps() -> u64 {
    l().steps
}

pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    r
}

pub fn stepping() -> bool {
    let f: u64;
    unsafe { std::arch::asm!("pushfq", "pop {}", out(reg) f) };
    f & 0x100 != 0
}

unsafe fn wait_word(k: usize) {
    let p = std::ptr::addr_of_mut!(LS.word[k]);
    while std::ptr::read_volatile(p) == 0 {
        raw(libc::SYS_futex, p as i64, libc::FUTEX_WAIT as i64, 0, 0, 0, 0);
    }
    std::ptr::write_volatile(p, 0);
    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
}

unsafe fn wake(k: usize) {
    let p = std::ptr::addr_of_mut!(LS.word[k]);
    std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst);
    std::ptr::write_volatile(p, 1);
    raw(libc::SYS_futex, p as i64, libc::FUTEX_WAKE as i64, 1, 0, 0, 0);
}

/// Take the next slice of the schedule; `not`: a lane that cannot go on now.
fn next(g: &mut L, not: usize) -> usize {
    let mut r = [0usize; MAXL];
    let mut n = 0;
    for t in 1..=g.n {
        if !g.done[t] && t != not {
            r[n] = t;
            n += 1;
        }
    }
    if n == 0 {
        return 0;
    }
    let (k, p) = if g.pos < g.sched.len() {
        let x = g.sched[g.pos];
        g.pos += 1;
        x
    } else {
        (2 << 12 | 20, (g.cur % n) as u8)
    };
    g.ops = (k >> 12) as u32;
    g.left = ((k & 0xfff) as u32) * 4 + 1;
    r[p as usize % n]
}

unsafe fn hand(g: &mut L, to: usize) {
    let me = g.cur;
    if to == me {
        return;
    }
    g.switches += 1;
    g.hash = (g.hash ^ ((me as u64) << 8 | to as u64)).wrapping_mul(0x100000001b3).rotate_left(17);
    g.hash = (g.hash ^ g.steps).wrapping_mul(0x100000001b3).rotate_left(17);
    g.cur = to;
    wake(to);
}

/// A machine instruction of an emitter has been executed.
pub unsafe fn on_step(uc: *mut libc::ucontext_t) {
    if crate::mem::held() {
        return;
    }
    let g = l();
    g.steps += 1;
    if g.steps > g.budget {
        die("hang.steps", (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as u64, 0);
    }
    if g.left > 0 {
        g.left -= 1;
    }
    if g.left > 0 {
        return;
    }
    let me = g.cur;
    let to = next(g, 0);
    if to != me {
        g.mid += 1;
        let errno = *libc::__errno_location();
        hand(g, to);
        wait_word(me);
        *libc::__errno_location() = errno;
    }
    let g = l();
    if g.ops > 0 {
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    }
}

/// Around every operation of an emitter.
pub fn op(step: bool, f: impl FnOnce()) {
    let g = l();
    if g.ops > 0 {
        g.ops -= 1;
        f();
        return;
    }
    if !step {
        f();
        return;
    }
    unsafe { gt_step_on() };
    f();
    unsafe { gt_step_off() };
}

#[derive(Default, Clone, Copy)]
pub struct Ran {
    pub steps: u64,
    pub switches: u64,
    pub mid: u64,
    pub waits: u64,
    pub hash: u64,
}

struct Wrap<T>(T);
unsafe impl<T> Send for Wrap<T> {}

/// Run the emitters to completion under the schedule.
pub fn run(bodies: Vec<Box<dyn FnOnce()>>, sched: &[(u16, u8)], budget: u64) -> Ran {
    let g = l();
    let n = bodies.len();
    assert!(n < MAXL);
    g.n = n;
    g.cur = 0;
    for t in 1..=n {
        g.done[t] = false;
        g.word[t] = 0;
    }
    g.word[0] = 0;
    g.sched = sched.to_vec();
    g.pos = 0;
    g.steps = 0;
    g.switches = 0;
    g.mid = 0;
    g.waits = 0;
    g.hash = 0;
    g.budget = budget;
    let mut hs = vec![];
    for (k, b) in bodies.into_iter().enumerate() {
        let w = Wrap(b);
        let t = k + 1;
        hs.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    let w = w;
                    let Wrap(b) = w;
                    crate::green::altstack();
                    ID.with(|c| c.set(t));
                    unsafe { wait_word(t) };
                    b();
                    unsafe { gt_step_off() };
                    let g = l();
                    g.done[t] = true;
                    let to = next(g, 0);
                    ID.with(|c| c.set(0));
                    unsafe { hand(g, to) };
                })
                .expect("thread"),
        );
    }
    g.on = true;
    let to = next(g, 0);
    unsafe {
        hand(g, to);
        wait_word(0);
    }
    let g = l();
    g.on = false;
    for h in hs {
        let _ = h.join();
    }
    Ran { steps: g.steps, switches: g.switches, mid: g.mid, waits: g.waits, hash: g.hash }
}

/// Interposed: the waits of std's locks end here.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && id() != 0 && l().on {
        let op = b as i32 & 127;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let was = stepping();
            gt_step_off();
            let g = l();
            let me = g.cur;
            g.waits += 1;
            let to = next(g, me);
            if to == 0 || g.waits > 1_000_000 {
                die("hang.lock", 0, 0);
            }
            hand(g, to);
            wait_word(me);
            if was && l().ops == 0 {
                gt_step_on();
            }
            return 0;
        }
    }
    let r = raw(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}
