//! Operations of the special scenarios: dumps and full pages.
use crate::mem;
use crate::plan::*;
use crate::sys;
use crate::world::*;
use monoasm::*;
use monoasm_macro::monoasm;

fn open_fds() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir("/proc/self/fd")
        .map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn list_dir(p: &str) -> Vec<String> {
    let mut v = vec![];
    let Ok(d) = std::fs::read_dir(p) else { return v };
    for e in d.flatten() {
        if e.path().is_dir() {
            for f in std::fs::read_dir(e.path()).into_iter().flatten().flatten() {
                v.push(format!("{:?}/{:?}", e.file_name(), f.file_name()));
            }
        } else {
            v.push(format!("{:?}", e.file_name()));
        }
    }
    v.sort();
    v
}

/// The bytes in the listing lines of a dump.
fn lines_of(s: &str) -> Vec<String> {
    s.lines().filter(|l| l.contains('\t')).map(|l| l.to_string()).collect()
}

/// The bytes in the listing lines of a real dump; runs of zeroes may be elided ("...").
fn bytes_of(lines: &[String], len: usize) -> Option<Vec<u8>> {
    let mut v: Vec<u8> = vec![];
    let mut gap = false;
    for l in lines {
        if l.trim() == "..." {
            gap = true;
            continue;
        }
        let (a, r) = l.split_once(":\t")?;
        let at = usize::from_str_radix(a.trim(), 16).ok()?;
        if gap && at > v.len() && at <= len {
            v.resize(at, 0);
        }
        gap = false;
        if at != v.len() {
            return None;
        }
        for t in r.split('\t').next()?.split_whitespace() {
            v.push(u8::from_str_radix(t, 16).ok()?);
        }
    }
    if gap && v.len() < len {
        v.resize(len, 0);
    }
    Some(v)
}

/// Place, bytes and text of a line. How far addresses are written out is a matter of taste,
/// and so is the syntax.
fn words(l: &str) -> Vec<String> {
    let mut parts = l.splitn(3, '\t');
    let mut v: Vec<String> = vec![];
    for p in [parts.next(), parts.next()] {
        v.extend(p.unwrap_or("").split_whitespace().map(|w| w.to_string()));
    }
    let text = parts.next().unwrap_or("");
    for w in text.split_whitespace() {
        let mut o = String::new();
        for (k, x) in w.split("0x").enumerate() {
            let n = if k == 0 { 0 } else { x.bytes().take_while(|b| b.is_ascii_hexdigit()).count() };
            match u64::from_str_radix(&x[..n], 16) {
                Ok(y) => o.push_str(&format!("0x{:x}", y as u32)),
                Err(_) => {}
            }
            o.push_str(&x[n..]);
        }
        v.push(o);
    }
    v
}

fn same_line(a: &str, b: &str) -> bool {
    let (x, y) = (words(a), words(b));
    let head = |l: &str| l.splitn(3, '\t').take(2).map(|s| s.trim().to_string()).collect::<Vec<_>>();
    x == y || (a.contains('%') && head(a) == head(b))
}

/// What the real disassembler says about these bytes as 64-bit code.
fn reference(scratch: &str, code: &[u8]) -> Vec<String> {
    let f = format!("{scratch}/reference");
    if std::fs::write(&f, code).is_err() {
        return vec![];
    }
    let o = std::process::Command::new("objdump").args(["-D", "-Mintel,x86-64", "-b", "binary", "-m", "i386", &f]).output();
    let _ = std::fs::remove_file(&f);
    match o {
        Ok(o) => lines_of(&String::from_utf8_lossy(&o.stdout)),
        Err(_) => vec![],
    }
}

/// What can be asked of an engine.
fn state_of(e: &mut Eng) -> Vec<usize> {
    let mut v = vec![e.j().get_page()];
    let home = v[0];
    for p in [1 - home.min(1), home.min(1)] {
        e.j().select_page(p);
        let sl = e.j().as_slice();
        v.extend([sl.as_ptr() as usize, sl.len()]);
        v.push(e.j().get_current());
        v.push(e.j().get_current_address().as_ptr() as usize);
        if let Some(b) = blocks(e.j()) {
            v.push(b.len());
            v.extend(b.rev().take(3).flat_map(|b| [b.0, b.1, b.2]));
        }
    }
    let ls: Vec<DestLabel> = e.cells.values().map(|c| c.label).chain(e.fns.values().map(|f| f.label)).collect();
    for l in ls {
        v.push(quietly(|| e.j().get_label_u64(l) as usize).unwrap_or(0));
    }
    v
}

impl World {
    pub fn op_dump(&mut self, i: usize, env: &DumpEnv) -> bool {
        use std::os::unix::ffi::OsStrExt;
        let Some(scratch) = self.scratch.clone() else { return false };
        if self.mode != 0 {
            return false;
        }
        let (page, block, base) = {
            let e = self.engs[i].as_ref().unwrap();
            if e.lost {
                return false;
            }
            (e.page, e.blocks[e.page].last().cloned(), e.at(e.page, 0))
        };
        let code: Option<Vec<u8>> =
            block.map(|(s, c, _)| unsafe { std::slice::from_raw_parts((base + s) as *const u8, c - s).to_vec() });
        // environment
        let mut dir = std::path::PathBuf::from(&scratch);
        match env.tmp {
            1 => dir.push("absent"),
            2 => dir.push(std::ffi::OsStr::from_bytes(b"n\xff\xfeu")),
            3 => dir.push("odd file format <x>, 'q'"),
            _ => {}
        }
        if env.tmp != 1 {
            let _ = std::fs::create_dir_all(&dir);
        }
        std::env::set_var("TMPDIR", &dir);
        fastrand::seed(self.name_seed.wrapping_add(self.stats.dumps));
        let fds0 = open_fds();
        let files0 = list_dir(&scratch);
        // a call by another thread meanwhile
        let mut call = None;
        if let Some((k, fid, arg)) = env.call {
            let k = k as usize;
            if self.machs.is_empty() && self.engs.get(k).map_or(false, |e| e.is_some()) && self.callable(k, fid) {
                let addr = self.fn_addr(k, fid);
                let mut m = Mach { i: k, frames: vec![Frame { fid, pc: 0, acc: 0, arg }], stop: Stop::Running };
                self.run_model(&mut m, None);
                call = Some((k, fid, arg, addr, m.stop));
            }
        }
        let mut e = self.engs[i].take().unwrap();
        let before = state_of(&mut e);
        let process = (std::env::current_dir().ok(), std::env::vars_os().collect::<Vec<_>>());
        // what another thread does meanwhile
        let mut said: Option<Result<Result<String, String>, String>> = None;
        let mut other: Option<(usize, Vec<u8>)> = None;
        let mut got: Option<u64> = None;
        if let Some((_, _, arg, addr, _)) = call {
            let got = &mut got as *mut _ as usize;
            let f = move || {
                let p: extern "C" fn(u64) -> u64 = unsafe { std::mem::transmute(addr) };
                let r = p(arg);
                unsafe { *(got as *mut Option<u64>) = Some(r) };
            };
            unsafe { sys::OTHER = Some(Box::new(f)) };
        } else if env.other.is_some() && matches!(env.tmp, 0 | 3) {
            // (of this engine too, if its type allows that)
            let some = |e: &Eng| e.jit.is_some() && !e.lost && e.blocks[e.page].last().map_or(false, |b| b.0 != b.1);
            let mut v: Vec<usize> = (0..self.engs.len()).filter(|k| self.engs[*k].as_ref().map_or(false, |e| some(e))).collect();
            if Sent::<&JitMemory>::CAN && some(&e) {
                v.push(i);
            }
            if !v.is_empty() {
                let k = v[self.stats.dumps as usize % v.len()];
                let o = if k == i { &e } else { self.engs[k].as_ref().unwrap() };
                let b = o.blocks[o.page].last().unwrap();
                let code = unsafe { std::slice::from_raw_parts((o.at(o.page, 0) + b.0) as *const u8, b.1 - b.0).to_vec() };
                other = Some((k, code));
                let jit = &**o.jit.as_ref().unwrap() as *const JitMemory as usize;
                let said = &mut said as *mut _ as usize;
                let seed = self.name_seed.wrapping_add(self.stats.dumps + (env.other.unwrap().1 as u64 & 1));
                let f = move || {
                    fastrand::seed(seed);
                    let r = quietly(|| unsafe { (*(jit as *const JitMemory)).dump_code() }.map_err(|e| e.to_string()));
                    unsafe { *(said as *mut Option<Result<Result<String, String>, String>>) = Some(r) };
                };
                unsafe { sys::OTHER = Some(Box::new(f)) };
            }
        }
        sys::arm(env);
        let r = quietly(|| e.j().dump_code());
        sys::disarm();
        sys::both_done();
        unsafe { sys::OTHER = None };
        let returned = call.map(|(k, fid, arg, addr, stop)| {
            if got.is_some() {
                *self.stats.kinds.entry("dump: a call by another thread meanwhile".into()).or_insert(0) += 1;
            }
            // (it did not come to that: afterwards)
            let p: extern "C" fn(u64) -> u64 = unsafe { std::mem::transmute(addr) };
            (k, fid, arg, got.unwrap_or_else(|| p(arg)), stop)
        });
        if let (Some(said), Some((k, code))) = (said, &other) {
            *self.stats.kinds.entry("dump: another one by another thread meanwhile".into()).or_insert(0) += 1;
            match said {
                Err(m) => self.find("dump.panic", format!("dump of engine {k} by another thread panicked: {m}")),
                Ok(Err(m)) => self.find("dump.err", format!("dump of engine {k} by another thread: error although nothing failed: {m}")),
                Ok(Ok(text)) => {
                    if lines_of(&text) != sys::listing(code) {
                        self.find("dump.content", format!("dump of engine {k} by another thread: {} bytes, not its listing", code.len()));
                    }
                }
            }
            if sys::sys().orphan {
                self.find("dump.child", "the child of the other dump was not waited for".into());
            }
        }
        let after = state_of(&mut e);
        self.engs[i] = Some(e);
        self.stats.dumps += 1;
        if let Some((k, fid, arg, got, stop)) = returned {
            self.stats.calls += 1;
            self.check_result(k, fid, arg, got, stop);
        }
        if before != after {
            self.find("dump.engine", format!("before {before:x?}, after {after:x?}"));
        }
        let s = sys::sys();
        let mut hard = vec![];
        let mut unlink_refused = false;
        for f in &s.fired {
            let k = format!(
                "fault: {} {}",
                sys::NAMES[f.call as usize],
                if f.what == -1 { "short".to_string() } else { format!("errno {}", f.what) }
            );
            *self.stats.kinds.entry(k).or_insert(0) += 1;
            match (f.call, f.what) {
                (sys::UNLINK, _) => unlink_refused = true,
                (_, -1) | (_, libc::EINTR) => {}
                (sys::OPEN, libc::EEXIST) => {}
                (sys::READ, libc::EAGAIN) => {}
                _ => hard.push(format!("{} errno {}", sys::NAMES[f.call as usize], f.what)),
            }
        }
        if env.tmp == 1 {
            hard.push("no temporary directory".into());
            *self.stats.kinds.entry("fault: no temporary directory".into()).or_insert(0) += 1;
        }
        if !env.real && s.spawned > 0 {
            if env.status != 0 {
                hard.push(format!("child status {:#x}", env.status));
                let k = if env.status & 0x7f != 0 { "fault: child killed" } else { "fault: child fails" };
                *self.stats.kinds.entry(k.into()).or_insert(0) += 1;
            } else if env.garble == 1 {
                hard.push("undecodable output".into());
                *self.stats.kinds.entry("fault: undecodable output".into()).or_insert(0) += 1;
            }
        }
        let kind = if r.is_err() {
            "dump: panic"
        } else if matches!(r, Ok(Ok(_))) {
            "dump: listing"
        } else {
            "dump: error value"
        };
        *self.stats.kinds.entry(kind.into()).or_insert(0) += 1;
        if env.real {
            *self.stats.kinds.entry("dump: by the real disassembler".into()).or_insert(0) += 1;
        }
        match &r {
            Err(m) => self.find("dump.panic", format!("dump panicked ({}): {m}", hard.join(", "))),
            Ok(Ok(text)) => {
                let lines = lines_of(text);
                match &code {
                    None => {
                        if !lines.is_empty() {
                            self.find("dump.foreign", format!("nothing finalised, listing of {} lines", lines.len()));
                        }
                    }
                    Some(c) if c.is_empty() => {
                        if !lines.is_empty() {
                            self.find("dump.foreign", format!("empty block, listing of {} lines", lines.len()));
                        }
                    }
                    Some(c) => {
                        if !hard.is_empty() {
                            self.find("dump.ok", format!("success although: {}", hard.join(", ")));
                        } else if env.real {
                            match bytes_of(&lines, c.len()) {
                                Some(b) if b == *c => {
                                    let want = reference(&scratch, c);
                                    if let Some(k) = (0..lines.len().max(want.len())).find(|k| match (lines.get(*k), want.get(*k)) {
                                        (Some(a), Some(b)) => !same_line(a, b),
                                        _ => true,
                                    }) {
                                        self.find(
                                            "dump.content",
                                            format!("page {page}: listed {:?}, the code is {:?}", lines.get(k), want.get(k)),
                                        );
                                    }
                                }
                                b => self.find("dump.content", format!("page {page}: block of {} bytes, listing of {:?} bytes", c.len(), b.map(|b| b.len()))),
                            }
                        } else {
                            let want = sys::listing(c);
                            if lines != want {
                                let d = (0..lines.len().min(want.len())).find(|k| lines[*k] != want[*k]);
                                self.find(
                                    "dump.content",
                                    format!("page {page}: block of {} bytes, {} lines expected, {} given, first difference {d:?}", c.len(), want.len(), lines.len()),
                                );
                            }
                        }
                    }
                }
            }
            Ok(Err(x)) => {
                let none = code.as_ref().map_or(true, |c| c.is_empty());
                // a name that cannot be passed on may be refused
                if hard.is_empty() && !none && env.tmp != 2 {
                    self.find("dump.err", format!("error although nothing failed: {x}"));
                }
            }
        }
        // nothing is left behind
        let fds1 = open_fds();
        if fds0 != fds1 {
            self.find("dump.fd", format!("descriptors before {fds0:?}, after {fds1:?}"));
        }
        let files1 = list_dir(&scratch);
        if !unlink_refused && files0 != files1 {
            self.find("dump.file", format!("files before {files0:?}, after {files1:?}"));
        }
        // (wherever they are)
        for p in std::mem::take(&mut sys::sys().made).into_iter().rev() {
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            if !unlink_refused {
                let n = p.to_string_lossy().replace(&std::process::id().to_string(), "<pid>");
                self.find("dump.file", format!("{} remains", n.replace(&scratch, "<scratch>")));
            }
            let _ = if m.is_dir() { std::fs::remove_dir(&p) } else { std::fs::remove_file(&p) };
        }
        let now = (std::env::current_dir().ok(), std::env::vars_os().collect::<Vec<_>>());
        if process != now {
            let v = |x: &[(std::ffi::OsString, std::ffi::OsString)]| x.len();
            self.find(
                "dump.process",
                format!("working directory or environment changed: {} variables, now {}; same directory: {}", v(&process.1), v(&now.1), process.0 == now.0),
            );
            if let Some(d) = &process.0 {
                let _ = std::env::set_current_dir(d);
            }
            for (k, _) in &now.1 {
                std::env::remove_var(k);
            }
            for (k, v) in &process.1 {
                std::env::set_var(k, v);
            }
        }
        if unlink_refused {
            for f in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
                if f.path().is_file() {
                    let _ = std::fs::remove_file(f.path());
                }
            }
        }
        let s = sys::sys();
        if let Some(c) = &s.child {
            if !c.reaped {
                self.find("dump.child", "the child was not waited for".into());
            }
        }
        if env.real {
            let r = unsafe { libc::syscall(libc::SYS_wait4, -1, 0usize, libc::WNOHANG, 0usize) };
            if r >= 0 {
                self.find("dump.child", "a child remains".into());
            }
        }
        true
    }

    // ---- full pages -----------------------------------------------------------------
    pub fn op_fill(&mut self, i: usize, page: u8, left: u32, slow: bool) -> bool {
        let p = page as usize % 3;
        if self.engs[i].as_ref().unwrap().full[p] || self.mode != 0 || self.engs[i].as_ref().unwrap().lost {
            return false;
        }
        self.op_finalize(i, false);
        if self.bad() {
            return true;
        }
        let mut e = self.engs[i].take().unwrap();
        let home = e.page;
        let start = if p < 2 {
            e.pos[p]
        } else {
            let end = e.cells.values().filter(|c| c.data && c.addr != 0).map(|c| c.addr + c.val.len()).max();
            end.map_or(0, |x| x - e.at(2, 0))
        };
        if !slow {
            return self.fill_fast(i, e, p, left as usize);
        }
        let start = (start + 15) & !15;
        let n = e.psize - start - left as usize;
        if p < 2 {
            e.j().select_page(p);
        }
        let label = if p < 2 { e.j().constant(n) } else { e.j().data(n) };
        e.j().select_page(home);
        self.engs[i] = Some(e);
        self.op_finalize(i, false);
        if self.bad() {
            return true;
        }
        let mut e = self.engs[i].take().unwrap();
        let a = e.j().get_label_u64(label) as usize;
        let (lo, hi) = (e.at(p, 0), e.at(p + 1, 0));
        if a < lo || a + n > hi {
            self.find("cell.place", format!("block of {n} bytes at {a:#x}, page {lo:#x}..{hi:#x}"));
        } else {
            let w = unsafe { std::slice::from_raw_parts(a as *const u8, n) };
            let (x, y, z) = unsafe { w.align_to::<u64>() };
            if x.iter().chain(z).any(|b| *b != 0) || y.iter().any(|b| *b != 0) {
                self.find("cell.value", format!("block of {n} bytes at {a:#x} is not all zero"));
            }
        }
        e.full[p] = true;
        if e.page == p && p < 2 {
            e.page = 1 - p;
            e.j().select_page(1 - p);
        }
        self.engs[i] = Some(e);
        *self.stats.kinds.entry(format!("page {p} filled")).or_insert(0) += 1;
        true
    }

    /// One byte per 4 KiB.
    fn fill_fast(&mut self, i: usize, mut e: Box<Eng>, p: usize, left: usize) -> bool {
        let (home, psize) = (e.page, e.psize);
        if p < 2 {
            e.j().select_page(p);
        }
        let base = e.at(p, 0);
        let jit = e.j();
        let (r, now) = if p < 2 {
            let r = quietly(|| {
                while jit.get_current() + 4096 < psize {
                    jit.emitb(0x5a);
                    jit.align_page();
                }
                while jit.get_current() + left < psize {
                    jit.emitb(0x5a);
                }
            });
            (r, jit.get_current())
        } else {
            // where the data area stands is known from a cell
            let l = jit.data(0);
            jit.finalize();
            let mut at = jit.get_label_u64(l) as usize - base;
            let r = quietly(|| {
                while at + 4096 < psize {
                    jit[Page(2)].emitb(0x5a);
                    jit[Page(2)].align_page();
                    at = (at + 4096) & !4095;
                }
                while at + left < psize {
                    jit[Page(2)].emitb(0x5a);
                    at += 1;
                }
            });
            (r, at)
        };
        if p < 2 {
            e.pos[p] = now;
        } else {
            e.dend = now;
        }
        e.j().select_page(home);
        if let Err(m) = r {
            self.find("full.refused", format!("page {p}, {} bytes left, one byte: refused: {m}", psize - now));
        } else if now + left != psize {
            self.find("stream.pos", format!("page {p}: filled to {now}, expected {}", psize - left));
        }
        e.full[p] = true;
        if e.page == p && p < 2 {
            e.page = 1 - p;
            e.j().select_page(1 - p);
        }
        if p == 2 {
            // (the extra finalisation above)
            self.after_finalize(i, e);
        } else {
            self.engs[i] = Some(e);
        }
        *self.stats.kinds.entry(format!("page {p} filled")).or_insert(0) += 1;
        true
    }

    fn emit_kind(jit: &mut JitMemory, kind: u8, val: u64, cell: DestLabel, bound: DestLabel) {
        match kind % 16 {
            0 => jit.emitb(val as u8),
            1 => jit.emitw(val as u16),
            2 => jit.emitl(val as u32),
            3 => jit.emitq(val),
            4 => {
                let b: Vec<u8> = (0..val % 23).map(|k| (val >> (k % 50)) as u8).collect();
                jit.emit(&b);
            }
            5 => monoasm!( &mut *jit, movq rax, (val as i64); ),
            6 => {
                let l = jit.label();
                monoasm!( &mut *jit, jmp l; l: );
            }
            7 => monoasm!( &mut *jit, call bound; ),
            8 => monoasm!( &mut *jit, addq r12, [rip + cell]; ),
            9 => monoasm!( &mut *jit, addq [rip + cell], (val as i8 as i64); ),
            10 => monoasm!( &mut *jit, ret; ),
            11 => monoasm!( &mut *jit, jne bound; ),
            12 => monoasm!( &mut *jit, movq [rip + cell], (val as i32 as i64); ),
            13 => monoasm!( &mut *jit, pushq rbp; movq rbp, rsp; addq rax, (val as i32 as i64); popq rbp; ret; ),
            14 => {
                let l = jit.label();
                monoasm!( &mut *jit, lea rax, [rip + l]; l: );
            }
            _ => monoasm!( &mut *jit, movw [rip + cell], (val as i16 as i64); cmpq rax, [rip + cell]; ),
        }
    }

    /// Emit at the end of the full code page; must be refused exactly if it does not fit.
    pub fn op_push(&mut self, i: usize, kind: u8, val: u64) -> bool {
        let Some(p) = (0..2).find(|p| self.engs[i].as_ref().unwrap().full[*p]) else { return false };
        // how long is it? ask an engine with room
        if self.engs[7].is_none() {
            self.op_new(7, 5, 0, 0);
            if self.bad() {
                return true;
            }
        }
        if i == 7 {
            return false;
        }
        let size = {
            let r = self.engs[7].as_mut().unwrap();
            let c = r.j().const_i64(1);
            let b = r.j().label();
            r.j().bind_label(b);
            let x0 = r.j().get_current();
            Self::emit_kind(r.j(), kind, val, c, b);
            let n = r.j().get_current() - x0;
            r.pos[0] = r.j().get_current();
            n
        };
        let mut e = self.engs[i].take().unwrap();
        let home = e.page;
        e.j().select_page(p);
        let pos0 = e.j().get_current();
        if pos0 != e.pos[p] {
            self.find("stream.pos", format!("full page {p}: position {pos0}, expected {}", e.pos[p]));
            e.pos[p] = pos0;
        }
        let cell = e.cells.values().find(|c| c.addr != 0).map(|c| c.label);
        let bound = e.fns.values().find(|f| f.epoch < e.finals).map(|f| f.label);
        let (Some(cell), Some(bound)) = (cell, bound) else {
            e.j().select_page(home);
            self.engs[i] = Some(e);
            return false;
        };
        let end = e.at(p + 1, 0);
        let canary = unsafe { std::slice::from_raw_parts(end as *const u8, 4096).to_vec() };
        let r = quietly(|| Self::emit_kind(e.j(), kind, val, cell, bound));
        let now = e.j().get_current();
        let fits = pos0 + size <= e.psize;
        let what = format!("page {p}, {} bytes left, {size} bytes (kind {})", e.psize - pos0.min(e.psize), kind % 16);
        if fits && r.is_err() {
            self.find("full.refused", format!("{what}: refused: {}", r.as_ref().unwrap_err()));
        } else if !fits && r.is_ok() {
            self.find("full.accepted", format!("{what}: accepted"));
        } else if fits && now != pos0 + size {
            self.find("full.pos", format!("{what}: position moved from {pos0} to {now}"));
        } else if now < pos0 || now > e.psize {
            self.find("full.pos", format!("{what}: position moved from {pos0} to {now}"));
        }
        if r.is_err() {
            self.stats.panics_caught += 1;
            *self.stats.kinds.entry("fault: page full while emitting".into()).or_insert(0) += 1;
        } else {
            *self.stats.kinds.entry("accepted on an almost full page".into()).or_insert(0) += 1;
        }
        if !mem_eq(end, &canary) {
            self.find("full.outside", format!("{what}: memory behind the page changed"));
        }
        e.pos[p] = now;
        e.j().select_page(home);
        self.engs[i] = Some(e);
        true
    }

    /// Declare one cell and finalise.
    pub fn op_push_cell(&mut self, i: usize, data: bool, kind: CellKind, keep: bool) -> bool {
        let full = self.engs[i].as_ref().unwrap().full;
        let p = if data { 2 } else { (0..2).find(|p| full[*p]).unwrap_or(2) };
        if !full[p] || (data && matches!(kind, CellKind::Abs(_) | CellKind::Align8 | CellKind::F64(_))) {
            return false;
        }
        if self.engs[i].as_ref().unwrap().finals > 40 {
            return false;
        }
        // everything else is finalised first, so that only this cell is at stake;
        // or code is pending on the other page
        if !keep || p == 2 {
            self.op_finalize(i, false);
            if self.bad() {
                return true;
            }
        }
        let mut e = self.engs[i].take().unwrap();
        let home = e.page;
        let end = e.at(p + 1, 0);
        let d0 = e.at(2, 0);
        let dend = e.cells.values().filter(|c| c.data && c.addr != 0).map(|c| c.addr + c.val.len() - d0).max().unwrap_or(0).max(e.dend);
        let at0 = if p < 2 { e.pos[p] } else { dend };
        let known = p < 2 || e.dend != 0;
        let left0 = if known { e.psize - at0.min(e.psize) } else { usize::MAX };
        if p < 2 {
            e.j().select_page(p);
        }
        let bound = e.fns.iter().find(|(_, f)| f.epoch < e.finals).map(|(k, f)| (*k, f.label));
        let mut size = None;
        let (label, val, al) = match kind {
            CellKind::I64(v) => (if data { e.j().data_i64(v) } else { e.j().const_i64(v) }, v.to_le_bytes().to_vec(), 16),
            CellKind::F64(v) => (e.j().const_f64(f64::from_bits(v)), v.to_le_bytes().to_vec(), 16),
            CellKind::I32(v) => (if data { e.j().data_i32(v) } else { e.j().const_i32(v) }, v.to_le_bytes().to_vec(), 4),
            CellKind::Bytes(n) => {
                // the largest stand for sizes no page can hold
                let n = if n >= 0xffff_ff00 { usize::MAX - (u32::MAX - n) as usize } else { n as usize };
                size = Some(n);
                (if data { e.j().data(n) } else { e.j().constant(n) }, vec![0; n.min(1 << 20)], 16)
            }
            CellKind::Abs(_) => {
                let Some((_, l)) = bound else {
                    e.j().select_page(home);
                    self.engs[i] = Some(e);
                    return false;
                };
                (e.j().abs_address(l), vec![0; 8], 8)
            }
            CellKind::Align8 => (e.j().const_align8(), vec![], 8),
        };
        e.j().select_page(home);
        let n = size.unwrap_or(val.len());
        let canary = unsafe { std::slice::from_raw_parts(end as *const u8, 4096).to_vec() };
        let r = quietly(|| e.j().finalize());
        // (what is pending may go there)
        if (!keep || p == 2) && !mem_eq(end, &canary) {
            self.find("full.outside", format!("page {p}: memory behind the page changed while finalising {kind:?}"));
        }
        let what = format!("page {p}, {left0} bytes left, cell {kind:?}");
        match r {
            Ok(()) => {
                *self.stats.kinds.entry("cell accepted on an almost full page".into()).or_insert(0) += 1;
                if known && n > left0 {
                    self.find("full.accepted", format!("{what}: accepted"));
                }
                let cid = 500_000 + e.cells.len() as u32;
                let epoch = e.finals;
                let (fid, abs) = match (kind, bound) {
                    (CellKind::Abs(_), Some((f, _))) => (f, true),
                    _ => (0, false),
                };
                let kind = if abs { CellKind::Abs(fid) } else { kind };
                e.cells.insert(cid, CellI { label, kind, data, page: p.min(1), epoch, val, addr: 0, written: false });
                self.after_finalize(i, e);
            }
            Err(m) => {
                self.stats.panics_caught += 1;
                *self.stats.kinds.entry("fault: page full while finalising".into()).or_insert(0) += 1;
                if known && (p < 2 || !e.lost) && ((at0 + al - 1) & !(al - 1)).saturating_add(n) <= e.psize {
                    self.find("full.refused", format!("{what}: refused: {m}"));
                }
                // The finalisation was cut short: records and positions of this page are
                // unspecified, what was final before is not.
                e.lost = true;
                for p in 0..2 {
                    e.j().select_page(p);
                    let c = e.j().get_current();
                    if c < e.pos[p] || c > e.psize {
                        self.find("full.pos", format!("page {p}: position {} became {c} in a failed finalisation", e.pos[p]));
                    }
                    e.pos[p] = c;
                }
                e.j().select_page(home);
                self.engs[i] = Some(e);
            }
        }
        true
    }

    /// Engines come and go.
    pub fn op_churn(&mut self, n: u8, val: u32, leave: u8) -> bool {
        if self.mode != 0 || !self.machs.is_empty() || self.gone.len() > 100 {
            return false;
        }
        let mut last: Option<Box<JitMemory>> = None;
        for k in 0..n as u64 {
            unsafe {
                mem::APLAN.slot = -1;
                mem::APLAN.dirty = (val as u8).wrapping_add(k as u8) % 6;
                mem::APLAN.fail = false;
                mem::APLAN.protect_fail = -1;
                mem::LAST_SLOT = -1;
                mem::ARMED.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            let r = quietly(|| Box::new(JitMemory::new()));
            mem::ARMED.store(false, std::sync::atomic::Ordering::Relaxed);
            let mut j = match r {
                Ok(j) => j,
                Err(m) => {
                    self.find("new.panic", format!("engine {k} of a series: {m}"));
                    return true;
                }
            };
            let v = (val as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(k << 40);
            let (arg, want) = (k * 7, v.wrapping_add(k * 7).wrapping_mul(2));
            let mut fresh = [0usize; 2];
            for p in [1, 0] {
                j.select_page(p);
                fresh[p] = j.get_current_address().as_ptr() as usize;
            }
            let ps = fresh[1].wrapping_sub(fresh[0]);
            if unsafe { mem::LAST_SLOT } < 0 {
                mem::note_outside(fresh[0], ps.wrapping_mul(3));
            }
            let mut all: Vec<(usize, usize)> = self.engs.iter().flatten().map(|e| (e.base, e.psize * 3)).collect();
            if leave != 0 {
                all.extend(self.kept.iter().map(|q| (q.get_current_address().as_ptr() as usize & !0xfff_ffff, 1)));
            }
            for (b, len) in all {
                if fresh[0] < b + len && b < fresh[0] + 3 * ps {
                    self.find("new.overlap", format!("{:#x} overlaps {b:#x}", fresh[0]));
                }
                if j.include(b as *mut u8) {
                    self.find("query.include", format!("{b:#x} of another engine, said to be of the one at {:#x}", fresh[0]));
                }
            }
            j.select_page((k & 1) as usize);
            let l = j.label();
            let r = quietly(|| {
                let c = j.const_i64(v as i64);
                let d = j.data_i64(-1);
                monoasm!( &mut *j,
                l:
                    movq rax, [rip + c];
                    addq rax, rdi;
                    movq [rip + d], rax;
                    addq rax, [rip + d];
                    ret;
                );
                j.finalize();
                let f = j.get_label_address(l).as_ptr() as usize;
                let g: extern "C" fn(u64) -> u64 = unsafe { std::mem::transmute(f) };
                (f, g(arg))
            });
            match r {
                Err(m) => self.find("panic.unexpected", format!("engine {k} of a series: {m}")),
                Ok((f, got)) => {
                    if got != want {
                        self.find("result.series", format!("engine {k} of a series: {got:#x}, expected {want:#x}"));
                    }
                    self.gone.push((f, arg, want));
                }
            }
            if self.bad() {
                return true;
            }
            *self.stats.kinds.entry("engine in a series".into()).or_insert(0) += 1;
            match leave {
                // each goes before the next comes
                0 => drop(j),
                // each goes after the next has come
                1 => {
                    last = Some(j);
                }
                // some stay
                _ if k % leave as u64 == 0 => self.kept.push(j),
                _ => drop(j),
            }
        }
        drop(last);
        true
    }

    pub fn check_gone(&mut self) {
        for k in 0..self.gone.len() {
            let (f, arg, want) = self.gone[k];
            let g: extern "C" fn(u64) -> u64 = unsafe { std::mem::transmute(f) };
            let got = g(arg);
            if got != want {
                self.find("result.series", format!("function {k} of a series of engines: {got:#x}, expected {want:#x}"));
                return;
            }
        }
    }
}
