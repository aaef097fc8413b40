//! The operating system as a dump sees it: files, pipes and a child process.
//! Inside a dump every call below is counted and may fail as planned; the child is
//! simulated (a deterministic disassembler writing into a pipe of 64 KiB) unless the
//! plan asks for the real one.
use crate::plan::{DumpEnv, SysFault};
use libc::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicPtr, Ordering};

pub const OPEN: u8 = 0;
pub const WRITE: u8 = 1;
pub const UNLINK: u8 = 2;
pub const PIPE: u8 = 3;
pub const SPAWN: u8 = 4;
pub const READ: u8 = 5;
pub const POLL: u8 = 6;
pub const WAIT: u8 = 7;
pub const IOCTL: u8 = 8;
pub const CLOSE: u8 = 9;
pub const NAMES: [&str; 10] = ["open", "write", "unlink", "pipe", "spawn", "read", "poll", "wait", "ioctl", "close"];

pub struct Child {
    out: Vec<u8>,
    err: Vec<u8>,
    out_w: usize,
    err_w: usize,
    out_r: usize,
    err_r: usize,
    pub out_fd: c_int,
    pub err_fd: c_int,
    out_nb: bool,
    err_nb: bool,
    turn: usize,
    exited: bool,
    pub reaped: bool,
    status: c_int,
}

pub struct Sys {
    pub on: bool,
    pub env: DumpEnv,
    pub counts: [u32; 10],
    pub fired: Vec<SysFault>,
    pub pipes: Vec<(c_int, c_int)>,
    pub dup: [c_int; 3],
    pub child: Option<Child>,
    pub spawned: u32,
    pub argv: Vec<Vec<u8>>,
    pub polls: u64,
    pub seen: Option<Vec<u8>>,
    /// the other dump did not wait for its child
    pub orphan: bool,
    /// files and directories that did not exist before
    pub made: Vec<std::path::PathBuf>,
}

pub static mut SYS: Sys = Sys {
    on: false,
    env: DumpEnv { faults: vec![], real: false, status: 0, cut: 0, garble: 0, err_len: 0, chunks: vec![], tmp: 0, other: None, call: None },
    counts: [0; 10],
    fired: vec![],
    pipes: vec![],
    dup: [-1; 3],
    child: None,
    spawned: 0,
    argv: vec![],
    polls: 0,
    seen: None,
    orphan: false,
    made: vec![],
};

/// What the thread of a dump that has to wait for ours uses.
static OWN: AtomicPtr<Sys> = AtomicPtr::new(std::ptr::null_mut());
thread_local! { static IS_OTHER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

pub fn sys() -> &'static mut Sys {
    let own = OWN.load(Ordering::Relaxed);
    if !own.is_null() && IS_OTHER.get() {
        return unsafe { &mut *own };
    }
    unsafe { &mut *std::ptr::addr_of_mut!(SYS) }
}

pub fn arm(env: &DumpEnv) {
    let s = sys();
    s.env = env.clone();
    s.counts = [0; 10];
    s.fired.clear();
    s.pipes.clear();
    s.dup = [-1; 3];
    s.child = None;
    s.spawned = 0;
    s.argv.clear();
    s.polls = 0;
    s.seen = None;
    s.orphan = false;
    s.made.clear();
    s.on = true;
}

pub fn disarm() {
    sys().on = false;
}

/// What another thread does meanwhile.
pub static mut OTHER: Option<Box<dyn FnOnce() + Send>> = None;

static mut WAITING: Option<std::thread::JoinHandle<()>> = None;
/// Dumps exclude each other: no use in trying again and again.
static mut EXCLUDE: bool = false;

fn meanwhile() {
    let Some(f) = (unsafe { (*std::ptr::addr_of_mut!(OTHER)).take() }) else { return };
    if unsafe { EXCLUDE } {
        return;
    }
    let fresh = Sys {
        on: true,
        env: DumpEnv { cut: u32::MAX, ..Default::default() },
        counts: [0; 10],
        fired: vec![],
        pipes: vec![],
        dup: [-1; 3],
        child: None,
        spawned: 0,
        argv: vec![],
        polls: 0,
        seen: None,
        orphan: false,
        made: vec![],
    };
    let kept = std::mem::replace(sys(), fresh);
    let h = std::thread::spawn(move || {
        IS_OTHER.set(true);
        f()
    });
    let t0 = std::time::Instant::now();
    while !h.is_finished() {
        if t0.elapsed().as_secs() >= 5 {
            // it waits for our dump to end
            let theirs = std::mem::replace(sys(), kept);
            OWN.store(Box::into_raw(Box::new(theirs)), Ordering::SeqCst);
            unsafe {
                WAITING = Some(h);
                EXCLUDE = true;
            }
            return;
        }
        std::thread::yield_now();
    }
    let _ = h.join();
    let left = sys().child.as_ref().map_or(false, |c| !c.reaped);
    let made = std::mem::take(&mut sys().made);
    *sys() = kept;
    sys().made.extend(made);
    if left {
        sys().orphan = true;
    }
}

/// The other dump has ended at the latest when ours has.
pub fn both_done() {
    if let Some(h) = unsafe { (*std::ptr::addr_of_mut!(WAITING)).take() } {
        let _ = h.join();
        let own = OWN.swap(std::ptr::null_mut(), Ordering::SeqCst);
        let own = unsafe { Box::from_raw(own) };
        sys().made.extend(own.made);
        if own.child.map_or(false, |c| !c.reaped) {
            sys().orphan = true;
        }
    }
}

/// The planned fault of this call, if any.
fn fault(call: u8) -> Option<i32> {
    let s = sys();
    let n = s.counts[call as usize];
    s.counts[call as usize] += 1;
    if s.env.other.map_or(false, |(c, k)| c == call && k as u32 == n) {
        meanwhile();
    }
    let f = s.env.faults.iter().find(|f| f.call == call && f.nth as u32 == n)?.clone();
    s.fired.push(f.clone());
    Some(f.what)
}

unsafe fn fail(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

macro_rules! ret {
    ($e:expr) => {{
        let r = $e;
        r
    }};
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    if sys().on {
        if let Some(e) = fault(OPEN) {
            return fail(e) as c_int;
        }
        if flags & libc::O_CREAT != 0 {
            note(path);
        }
    }
    ret!(libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int)
}

/// This is about to be created.
unsafe fn note(path: *const c_char) {
    use std::os::unix::ffi::OsStrExt;
    let p = std::path::PathBuf::from(std::ffi::OsStr::from_bytes(std::ffi::CStr::from_ptr(path).to_bytes()));
    if libc::faccessat(libc::AT_FDCWD, path, libc::F_OK, libc::AT_SYMLINK_NOFOLLOW) != 0 {
        sys().made.push(std::path::absolute(&p).unwrap_or(p));
    }
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: libc::mode_t) -> c_int {
    if sys().on {
        note(path);
    }
    ret!(libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode as c_int) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let mut n = n;
    if sys().on && fd > 2 {
        match fault(WRITE) {
            Some(-1) => {
                if n > 1 {
                    n = 1 + n / 3;
                } else {
                    sys().fired.pop();
                }
            }
            Some(e) => return fail(e),
            None => {}
        }
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if sys().on {
        if let Some(e) = fault(UNLINK) {
            return fail(e) as c_int;
        }
    }
    libc::syscall(libc::SYS_unlink, path) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    if sys().on {
        if let Some(e) = fault(PIPE) {
            return fail(e) as c_int;
        }
    }
    let r = libc::syscall(libc::SYS_pipe2, fds, flags) as c_int;
    if sys().on && r == 0 {
        sys().pipes.push((*fds, *fds.add(1)));
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_int) -> c_int {
    if sys().on && req == libc::FIONBIO {
        if let Some(c) = &mut sys().child {
            let v = *arg != 0;
            if fd == c.out_fd {
                c.out_nb = v;
            }
            if fd == c.err_fd {
                c.err_nb = v;
            }
        }
    }
    libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int
}

extern "C" {
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}

type AddDup2 = unsafe extern "C" fn(*mut c_void, c_int, c_int) -> c_int;
type Spawn = unsafe extern "C" fn(
    *mut libc::pid_t,
    *const c_char,
    *const c_void,
    *const c_void,
    *const *mut c_char,
    *const *mut c_char,
) -> c_int;

unsafe fn real(name: &[u8]) -> *mut c_void {
    dlsym(-1isize as *mut c_void, name.as_ptr() as *const c_char)
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(fa: *mut c_void, fd: c_int, newfd: c_int) -> c_int {
    if sys().on && (0..3).contains(&newfd) {
        sys().dup[newfd as usize] = fd;
    }
    let f: AddDup2 = std::mem::transmute(real(b"posix_spawn_file_actions_adddup2\0"));
    f(fa, fd, newfd)
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    file: *const c_char,
    fa: *const c_void,
    attr: *const c_void,
    argv: *const *mut c_char,
    envp: *const *mut c_char,
) -> c_int {
    let s = sys();
    if s.on {
        if let Some(e) = fault(SPAWN) {
            return e;
        }
        s.spawned += 1;
        s.argv.clear();
        let mut k = 0;
        while !(*argv.add(k)).is_null() {
            s.argv.push(std::ffi::CStr::from_ptr(*argv.add(k)).to_bytes().to_vec());
            k += 1;
        }
        if !s.env.real {
            let last = s.argv.last().cloned().unwrap_or_default();
            let path = s.argv.iter().rev().find(|a| a.first() == Some(&b'/')).cloned().unwrap_or(last);
            let data = slurp(&path);
            let (out, err, status) = child_output(&path, data.as_deref(), &s.env);
            s.seen = data;
            let find = |w: c_int| s.pipes.iter().find(|p| p.1 == w).map_or(-1, |p| p.0);
            s.child = Some(Child {
                out,
                err,
                out_w: 0,
                err_w: 0,
                out_r: 0,
                err_r: 0,
                out_fd: find(s.dup[1]),
                err_fd: find(s.dup[2]),
                out_nb: false,
                err_nb: false,
                turn: 0,
                exited: false,
                reaped: false,
                status,
            });
            *pid = 999_999;
            return 0;
        }
    }
    let f: Spawn = std::mem::transmute(real(b"posix_spawnp\0"));
    f(pid, file, fa, attr, argv, envp)
}

/// Read a file without going through the seam.
unsafe fn slurp(path: &[u8]) -> Option<Vec<u8>> {
    let mut p = path.to_vec();
    p.push(0);
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p.as_ptr(), libc::O_RDONLY, 0) as c_int;
    if fd < 0 {
        return None;
    }
    let mut v = vec![];
    let mut buf = [0u8; 65536];
    loop {
        let n = libc::syscall(libc::SYS_read, fd, buf.as_mut_ptr(), buf.len());
        if n <= 0 {
            break;
        }
        v.extend_from_slice(&buf[..n as usize]);
    }
    libc::syscall(libc::SYS_close, fd);
    Some(v)
}

/// The listing lines of the simulated disassembler.
pub fn listing(code: &[u8]) -> Vec<String> {
    let mut v = vec![];
    let mut at = 0;
    while at < code.len() {
        let x = crate::rng::mix(code[at] as u64 | (at as u64) << 8);
        let n = (1 + (x % 7) as usize).min(code.len() - at);
        let mut b = String::new();
        for k in 0..n {
            b.push_str(&format!("{:02x} ", code[at + k]));
        }
        v.push(format!("{:4x}:\t{:<21}\top{:x}", at, b, x as u32));
        at += n;
    }
    v
}

fn child_output(path: &[u8], data: Option<&[u8]>, env: &DumpEnv) -> (Vec<u8>, Vec<u8>, i32) {
    let mut err: Vec<u8> = (0..env.err_len).map(|k| b'a' + (k % 26) as u8).collect();
    let Some(data) = data else {
        err.extend_from_slice(b"objdump: No such file\n");
        return (vec![], err, 1 << 8);
    };
    let mut out = vec![];
    if data.is_empty() {
        // the real one: complains and leaves 1
        err.extend_from_slice(b"objdump: file truncated\n");
        return (vec![], err, 1 << 8);
    }
    out.extend_from_slice(b"\n");
    out.extend_from_slice(path);
    out.extend_from_slice(b":     file format binary\n\n\nDisassembly of section .data:\n\n00000000 <.data>:\n");
    for l in listing(data) {
        out.extend_from_slice(l.as_bytes());
        out.push(b'\n');
    }
    if env.garble == 1 {
        let n = out.len();
        out[n / 2] = 0xff;
        out[n / 2 + 1] = 0xfe;
    }
    if env.cut != u32::MAX && (env.cut as usize) < out.len() {
        out.truncate(env.cut as usize);
    }
    (out, err, env.status)
}

const CAP: usize = 65536;

impl Child {
    /// One write (or the exit) of the child; false: it cannot go on.
    fn step(&mut self) -> bool {
        if self.exited {
            return false;
        }
        let env = &sys().env;
        let ch = if env.chunks.is_empty() { 4096 } else { env.chunks[self.turn % env.chunks.len()].max(1) as usize };
        self.turn += 1;
        let want_err = self.turn % 3 == 0;
        for pass in 0..2 {
            let e = want_err ^ (pass == 1);
            let (buf, w, r, fd) = if e {
                (&self.err, &mut self.err_w, self.err_r, self.err_fd)
            } else {
                (&self.out, &mut self.out_w, self.out_r, self.out_fd)
            };
            if fd < 0 {
                *w = buf.len();
            }
            if *w < buf.len() {
                let room = CAP - (*w - r);
                if room > 0 {
                    *w += ch.min(room).min(buf.len() - *w);
                    return true;
                }
            }
        }
        if self.out_w == self.out.len() && self.err_w == self.err.len() {
            self.exited = true;
            return true;
        }
        false
    }
    fn avail(&self, fd: c_int) -> usize {
        if fd == self.out_fd {
            self.out_w - self.out_r
        } else {
            self.err_w - self.err_r
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let s = sys();
    if s.on {
        let f = fault(READ);
        if let Some(e) = f {
            if e > 0 {
                return fail(e);
            }
        }
        if let Some(c) = &mut s.child {
            if fd == c.out_fd || fd == c.err_fd {
                let nb = if fd == c.out_fd { c.out_nb } else { c.err_nb };
                if nb {
                    c.step();
                }
                while c.avail(fd) == 0 && !c.exited {
                    if nb {
                        return fail(libc::EAGAIN);
                    }
                    if !c.step() {
                        crate::green::die("hang.pipe", 0, 0);
                    }
                }
                let mut m = c.avail(fd).min(n);
                if f == Some(-1) && m > 1 {
                    m = 1 + m / 4;
                }
                let (src, r) = if fd == c.out_fd { (&c.out, &mut c.out_r) } else { (&c.err, &mut c.err_r) };
                std::ptr::copy_nonoverlapping(src.as_ptr().add(*r), buf as *mut u8, m);
                *r += m;
                return m as isize;
            }
        }
        let n = if f == Some(-1) && n > 1 { 1 + n / 4 } else { n };
        return libc::syscall(libc::SYS_read, fd, buf, n) as isize;
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut libc::pollfd, n: libc::nfds_t, timeout: c_int) -> c_int {
    let s = sys();
    if s.on {
        if let Some(e) = fault(POLL) {
            if e > 0 {
                return fail(e) as c_int;
            }
        }
        s.polls += 1;
        if s.polls > 3_000_000 {
            crate::green::die("hang.poll", 0, 0);
        }
        if let Some(c) = &mut s.child {
            let v = std::slice::from_raw_parts_mut(fds, n as usize);
            if v.iter().any(|p| p.fd == c.out_fd || p.fd == c.err_fd) {
                c.step();
                loop {
                    let mut ready = 0;
                    for p in v.iter_mut() {
                        p.revents = 0;
                        if p.fd == c.out_fd || p.fd == c.err_fd {
                            if c.avail(p.fd) > 0 {
                                p.revents |= libc::POLLIN;
                            }
                            if c.exited {
                                p.revents |= libc::POLLHUP;
                            }
                        }
                        ready += (p.revents != 0) as c_int;
                    }
                    if ready > 0 {
                        return ready;
                    }
                    if !c.step() {
                        if timeout >= 0 {
                            return 0;
                        }
                        crate::green::die("hang.pipe", 0, 0);
                    }
                }
            }
        }
    }
    let ts = libc::timespec { tv_sec: timeout as i64 / 1000, tv_nsec: (timeout as i64 % 1000) * 1_000_000 };
    libc::syscall(libc::SYS_ppoll, fds, n, if timeout < 0 { std::ptr::null() } else { &ts as *const _ }, 0usize, 8usize) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: libc::pid_t, status: *mut c_int, opts: c_int) -> libc::pid_t {
    let s = sys();
    if s.on {
        if let Some(e) = fault(WAIT) {
            return fail(e) as c_int;
        }
        if let Some(c) = &mut s.child {
            if pid == 999_999 || pid == -1 {
                if c.reaped {
                    return fail(libc::ECHILD) as c_int;
                }
                loop {
                    if c.exited {
                        break;
                    }
                    // a writer into a pipe whose reader is gone is killed
                    let gone = |fd: c_int| fd >= 0 && libc::fcntl(fd, libc::F_GETFD) < 0;
                    if (gone(c.out_fd) && c.out_w < c.out.len()) || (gone(c.err_fd) && c.err_w < c.err.len()) {
                        c.exited = true;
                        c.status = libc::SIGPIPE;
                        break;
                    }
                    if !c.step() {
                        if opts & libc::WNOHANG != 0 {
                            return 0;
                        }
                        crate::green::die("hang.wait", 0, 0);
                    }
                    if opts & libc::WNOHANG != 0 && !c.exited {
                        return 0;
                    }
                }
                c.reaped = true;
                if !status.is_null() {
                    *status = c.status;
                }
                return 999_999;
            }
        }
    }
    libc::syscall(libc::SYS_wait4, pid, status, opts, 0usize) as libc::pid_t
}
