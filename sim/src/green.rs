//! Simulated threads. All of them live on one OS thread; each machine instruction of a
//! stepped thread traps (trap flag), and the SIGTRAP handler decides from the schedule
//! of the run whether the thread goes on or another one continues. A switch exchanges
//! the complete register file in the signal frame.
use std::arch::global_asm;

pub const MAXT: usize = 6;
pub const STACK: usize = 512 * 1024;
const FPMAX: usize = 16 * 1024;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum St {
    Absent,
    Runnable,
    /// executor without a call
    Idle,
    /// emitter waiting for all executors to be idle
    Waiting,
    Done,
}

pub struct SiteRec {
    pub addr: usize,
    pub id: u32,
    /// (index, address) of the allowed destinations: current, and the one being set
    pub cur: (u32, usize),
    pub next: (u32, usize),
    pub in_flight: bool,
}

#[derive(Clone, Copy)]
pub struct Pass {
    pub thread: u8,
    pub call: u32,
    pub site: u32,
    pub choice: u32,
}

pub struct Sched {
    pub on: bool,
    pub cur: usize,
    pub n: usize,
    pub st: [St; MAXT],
    pub sched: Vec<(u16, u8)>,
    pub pos: usize,
    pub left: u32,
    /// instructions counted
    pub steps: u64,
    pub budget: u64,
    pub switches: u64,
    /// switches that happened inside library code (stepped operation)
    pub lib_switches: u64,
    /// switches away from a thread that is inside generated code
    pub jit_switches: u64,
    pub hash: u64,
    /// library code of the emitter is being stepped
    pub lib: bool,
    /// preempt the emitter whenever this word of memory changes
    pub watch: usize,
    pub watch_val: u64,
    pub watch_hits: u64,
    pub sites: Vec<SiteRec>,
    pub passes: Vec<Pass>,
    pub cur_call: [u32; MAXT],
    in_site: [usize; MAXT],
    gregs: [[i64; 23]; MAXT],
    fp: [*mut u8; MAXT],
    fplen: [usize; MAXT],
    stacks: [usize; MAXT],
    pub yield_to: St,
    pub bad: Option<(&'static str, u64, u64)>,
}

pub static mut S: Sched = Sched {
    on: false,
    cur: 0,
    n: 0,
    st: [St::Absent; MAXT],
    sched: Vec::new(),
    pos: 0,
    left: 0,
    steps: 0,
    budget: 0,
    switches: 0,
    lib_switches: 0,
    jit_switches: 0,
    hash: 0,
    lib: false,
    watch: 0,
    watch_val: 0,
    watch_hits: 0,
    sites: Vec::new(),
    passes: Vec::new(),
    cur_call: [0; MAXT],
    in_site: [0; MAXT],
    gregs: [[0; 23]; MAXT],
    fp: [std::ptr::null_mut(); MAXT],
    fplen: [0; MAXT],
    stacks: [0; MAXT],
    yield_to: St::Runnable,
    bad: None,
};

global_asm!(
    ".globl gt_int3",
    "gt_int3:",
    "int3",
    ".globl gt_int3_after",
    "gt_int3_after:",
    "ret",
    // u64 gt_call(f, arg): call f(arg) with the trap flag set
    ".globl gt_call",
    "gt_call:",
    "push rbp",
    "mov rbp, rsp",
    "mov rax, rdi",
    "mov rdi, rsi",
    "pushfq",
    "or qword ptr [rsp], 0x100",
    "popfq",
    "call rax",
    "pushfq",
    "and qword ptr [rsp], -257",
    "popfq",
    "pop rbp",
    "ret",
    ".globl gt_step_on",
    "gt_step_on:",
    "pushfq",
    "or qword ptr [rsp], 0x100",
    "popfq",
    "ret",
    ".globl gt_step_off",
    "gt_step_off:",
    "pushfq",
    "and qword ptr [rsp], -257",
    "popfq",
    "ret",
    ".globl gt_entry",
    "gt_entry:",
    "mov rdi, r12",
    "call r13",
    "ud2",
);
extern "C" {
    fn gt_int3();
    fn gt_int3_after();
    pub fn gt_call(f: usize, arg: u64) -> u64;
    pub fn gt_step_on();
    pub fn gt_step_off();
    fn gt_entry();
}

#[inline(always)]
pub fn s() -> &'static mut Sched {
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}

fn in_jit(rip: usize) -> bool {
    crate::mem::generated(rip)
}

/// Report a crash of the simulated program and leave the process.
pub fn die(class: &str, a: u64, b: u64) -> ! {
    let g = s();
    let mut buf = [0u8; 256];
    let n = {
        use std::io::Write;
        let mut c = std::io::Cursor::new(&mut buf[..]);
        let _ = write!(
            c,
            "\nX {} op={} rip={:#x} addr={:#x} thread={} steps={}\n",
            class,
            unsafe { crate::CUR_OP },
            a,
            b,
            g.cur + crate::lanes::id(),
            g.steps + crate::lanes::steps()
        );
        c.position() as usize
    };
    unsafe {
        libc::syscall(libc::SYS_write, 1, buf.as_ptr(), n);
        libc::syscall(libc::SYS_exit_group, 77);
    }
    loop {}
}

fn mixh(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100000001b3).rotate_left(17)
}

unsafe fn save(g: &mut Sched, t: usize, uc: *mut libc::ucontext_t) {
    g.gregs[t] = (*uc).uc_mcontext.gregs;
    let fp = (*uc).uc_mcontext.fpregs as *mut u8;
    // struct _fpx_sw_bytes at offset 464: magic1, extended_size, features, xstate_size
    let magic = *(fp.add(464) as *const u32);
    let len = if magic == 0x46505853 { *(fp.add(468) as *const u32) as usize } else { 512 };
    if len > FPMAX {
        die("harness.fp", len as u64, 0);
    }
    std::ptr::copy_nonoverlapping(fp, g.fp[t], len);
    g.fplen[t] = len;
}

unsafe fn load(g: &mut Sched, t: usize, uc: *mut libc::ucontext_t) {
    (*uc).uc_mcontext.gregs = g.gregs[t];
    let fp = (*uc).uc_mcontext.fpregs as *mut u8;
    if g.fplen[t] != 0 {
        std::ptr::copy_nonoverlapping(g.fp[t], fp, g.fplen[t]);
    }
}

/// Next slice: (how many counted instructions, which of the runnable threads).
fn next_slice(g: &mut Sched) -> (u32, usize) {
    let mut runnable = [0usize; MAXT];
    let mut n = 0;
    for t in 0..g.n {
        if g.st[t] == St::Runnable {
            runnable[n] = t;
            n += 1;
        }
    }
    if n == 0 {
        if g.st[0] == St::Waiting {
            g.st[0] = St::Runnable;
            return (u32::MAX / 2, 0);
        }
        die("harness.deadlock", 0, 0);
    }
    if g.pos < g.sched.len() {
        let (k, p) = g.sched[g.pos];
        g.pos += 1;
        (k as u32 + 1, runnable[p as usize % n])
    } else {
        // Plan exhausted: round robin, long slices.
        let c = g.cur;
        let t = (1..=g.n).map(|d| (c + d) % g.n).find(|t| g.st[*t] == St::Runnable).unwrap();
        (400, t)
    }
}

unsafe fn reschedule(g: &mut Sched, uc: *mut libc::ucontext_t) {
    let (k, t) = next_slice(g);
    g.left = k;
    if t != g.cur {
        let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        g.switches += 1;
        if g.cur == 0 && g.lib {
            g.lib_switches += 1;
        }
        if in_jit(rip) {
            g.jit_switches += 1;
        }
        g.hash = mixh(g.hash, (g.cur as u64) << 8 | t as u64);
        g.hash = mixh(g.hash, g.steps);
        save(g, g.cur, uc);
        g.cur = t;
        load(g, t, uc);
    }
}

/// About to resume: note whether the next instruction is a patchable jump.
unsafe fn dispatch(g: &mut Sched, uc: *mut libc::ucontext_t) {
    let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
    let fl = (*uc).uc_mcontext.gregs[libc::REG_EFL as usize];
    if fl & 0x100 != 0 && !g.sites.is_empty() && in_jit(rip) {
        for k in 0..g.sites.len() {
            if g.sites[k].addr == rip {
                g.in_site[g.cur] = k + 1;
                return;
            }
        }
    }
}

extern "C" fn on_trap(_sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = ctx as *mut libc::ucontext_t;
        let g = s();
        let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        let trace = (*info).si_code == 2; // TRAP_TRACE
        if trace && crate::lanes::id() != 0 {
            crate::lanes::on_step(uc);
            return;
        }
        if !trace {
            if rip == gt_int3_after as *const () as usize && g.on {
                g.st[g.cur] = g.yield_to;
                g.yield_to = St::Runnable;
                if g.st[0] == St::Waiting && (1..g.n).all(|t| g.st[t] != St::Runnable) {
                    g.st[0] = St::Runnable;
                }
                reschedule(g, uc);
                dispatch(g, uc);
                return;
            }
            die("crash.int3", rip as u64, 0);
        }
        if !g.on {
            // a stray trap after the flag was cleared
            (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
            return;
        }
        let t = g.cur;
        let counted = if t == 0 { g.lib && !crate::mem::held() } else { in_jit(rip) };
        if t != 0 {
            let k = g.in_site[t];
            if k != 0 {
                g.in_site[t] = 0;
                let si = &g.sites[k - 1];
                let c = if rip == si.cur.1 {
                    Some(si.cur.0)
                } else if si.in_flight && rip == si.next.1 {
                    Some(si.next.0)
                } else {
                    None
                };
                match c {
                    Some(c) => {
                        if g.passes.len() < g.passes.capacity() {
                            let p = Pass { thread: t as u8, call: g.cur_call[t], site: si.id, choice: c };
                            g.passes.push(p);
                        }
                    }
                    None => die(
                        if si.in_flight { "site.torn" } else { "site.wrong" },
                        rip as u64,
                        si.addr as u64,
                    ),
                }
            }
        }
        if !counted {
            return;
        }
        g.steps += 1;
        if g.steps > g.budget {
            die("hang.steps", rip as u64, 0);
        }
        if g.left > 0 {
            g.left -= 1;
        }
        if t == 0 && g.watch != 0 {
            let v = std::ptr::read_unaligned(g.watch as *const u64);
            if v != g.watch_val {
                g.watch_val = v;
                g.watch_hits += 1;
                g.left = 0;
            }
        }
        if g.left == 0 {
            reschedule(g, uc);
        }
        dispatch(g, uc);
    }
}

extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = ctx as *mut libc::ucontext_t;
        let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        let class = match sig {
            libc::SIGSEGV => "crash.segv",
            libc::SIGILL => "crash.ill",
            libc::SIGBUS => "crash.bus",
            libc::SIGFPE => "crash.fpe",
            libc::SIGABRT => "crash.abort",
            _ => "hang.cpu",
        };
        die(class, rip, (*info).si_addr() as u64);
    }
}

fn map(n: usize) -> usize {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as usize
    }
}

/// An alternate signal stack for the calling OS thread.
pub fn altstack() {
    unsafe {
        let n = 256 * 1024;
        let ss = libc::stack_t { ss_sp: map(n) as *mut _, ss_flags: 0, ss_size: n };
        assert!(libc::sigaltstack(&ss, std::ptr::null_mut()) == 0);
    }
}

pub fn init() {
    altstack();
    unsafe {
        for t in 0..MAXT {
            S.fp[t] = ((map(FPMAX + 64) + 63) & !63) as *mut u8;
            S.stacks[t] = map(STACK);
        }
        let mut sa: libc::sigaction = std::mem::zeroed();
        libc::sigfillset(&mut sa.sa_mask);
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        sa.sa_sigaction = on_trap as *const () as usize;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
        sa.sa_sigaction = on_fault as *const () as usize;
        for sg in [libc::SIGSEGV, libc::SIGILL, libc::SIGBUS, libc::SIGFPE, libc::SIGABRT, libc::SIGPROF] {
            libc::sigaction(sg, &sa, std::ptr::null_mut());
        }
    }
}

/// CPU-time limit of the run.
pub fn cpu_limit(secs: i64) {
    unsafe {
        let tv = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        libc::syscall(libc::SYS_setitimer, 2i64, &tv as *const _ as i64, 0i64, 0i64, 0i64, 0i64);
    }
}

pub fn reset() {
    let g = s();
    g.on = false;
    g.cur = 0;
    g.n = 0;
    g.st = [St::Absent; MAXT];
    g.sched.clear();
    g.pos = 0;
    g.left = 0;
    g.steps = 0;
    g.switches = 0;
    g.lib_switches = 0;
    g.jit_switches = 0;
    g.hash = 0;
    g.lib = false;
    g.watch = 0;
    g.watch_hits = 0;
    g.sites.clear();
    g.passes.clear();
    g.in_site = [0; MAXT];
    g.cur_call = [0; MAXT];
    g.fplen = [0; MAXT];
    g.yield_to = St::Runnable;
    g.bad = None;
}

/// Start scheduling: the caller becomes thread 0; `n` further threads run `entry(t)`.
pub fn start(n: usize, entry: extern "C" fn(usize) -> !, sched: &[(u16, u8)], budget: u64) {
    let g = s();
    g.n = n + 1;
    g.st[0] = St::Runnable;
    g.sched.clear();
    g.sched.extend_from_slice(sched);
    g.budget = budget;
    for t in 1..=n {
        g.st[t] = St::Idle;
        g.gregs[t] = [0; 23];
        let top = (g.stacks[t] + STACK) & !15;
        g.gregs[t][libc::REG_RSP as usize] = top as i64;
        g.gregs[t][libc::REG_RIP as usize] = gt_entry as *const () as usize as i64;
        g.gregs[t][libc::REG_EFL as usize] = 0x202;
        g.gregs[t][libc::REG_R12 as usize] = t as i64;
        g.gregs[t][libc::REG_R13 as usize] = entry as *const () as usize as i64;
        // segment selectors as in the current context
        let mut cs: u16;
        let mut ss: u16;
        unsafe {
            std::arch::asm!("mov {0:x}, cs", out(reg) cs);
            std::arch::asm!("mov {0:x}, ss", out(reg) ss);
        }
        g.gregs[t][libc::REG_CSGSFS as usize] = (cs as i64) | ((ss as i64) << 48);
        g.fplen[t] = 0;
    }
    g.left = u32::MAX / 2;
    g.on = true;
    // The x87/SSE state of a new thread is that of the first switch.
}

pub fn stop() {
    s().on = false;
}

/// Give up the processor; the schedule decides who goes on.
pub fn yield_as(st: St) {
    let g = s();
    g.yield_to = st;
    unsafe { gt_int3() };
}
