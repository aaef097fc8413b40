//! Interprets the operations of a plan against the real engine and the reference model
//! side by side, and checks the invariants.
use crate::emit;
use crate::green::{self, St};
use crate::mem;
use crate::plan::*;
use monoasm::*;
use monoasm_macro::monoasm;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dep {
    Cell(u32),
    Fn(u32),
    Detour(u32),
    Label(u32),
    /// a place bound before
    At(usize, usize),
}

/// A label that is only referred to by code that never runs.
pub struct Rl {
    pub label: DestLabel,
    pub at: Option<(usize, usize)>,
    /// first bound in this epoch
    pub epoch: u32,
}

pub struct Seg {
    pub page: usize,
    pub lo: usize,
    pub hi: usize,
    pub epoch: u32,
    pub deps: Vec<Dep>,
    pub expect: Option<Vec<u8>>,
    pub frozen: Option<Vec<u8>>,
    /// the patchable jump in it
    pub site: Option<u32>,
    pub label: Option<DestLabel>,
    /// ends of the instructions in it that refer to the dependency, and their form
    pub refs: Vec<(usize, usize)>,
}

pub struct FnI {
    pub label: DestLabel,
    pub page: usize,
    pub lo: usize,
    pub body: Vec<Elem>,
    pub segs: (usize, usize),
    pub epoch: u32,
    pub calls: u32,
    /// a first call gave the right answer
    pub good: bool,
    pub addr: usize,
}

pub struct CellI {
    pub label: DestLabel,
    pub kind: CellKind,
    pub data: bool,
    pub page: usize,
    pub epoch: u32,
    pub val: Vec<u8>,
    pub addr: usize,
    pub written: bool,
}

pub struct Det {
    pub label: DestLabel,
    pub back: Option<DestLabel>,
    pub add: i32,
    /// emitted in this epoch
    pub epoch: Option<u32>,
    pub seg: usize,
    pub fid: u32,
}

pub struct AltI {
    pub label: DestLabel,
    pub add: i32,
    pub seg: usize,
    pub epoch: u32,
    pub page: usize,
    pub lo: usize,
}

pub struct SiteI {
    pub label: DestLabel,
    pub end: DestLabel,
    pub alts: BTreeMap<u8, AltI>,
    pub cur: u8,
    pub page: usize,
    pub lo: usize,
    pub epoch: u32,
    pub seg: usize,
    pub patches: u32,
}

pub struct AbsI {
    pub label: DestLabel,
    pub fid: u32,
    pub epoch: u32,
    pub seen: usize,
}

pub struct Eng {
    pub jit: Option<Box<JitMemory>>,
    pub base: usize,
    pub psize: usize,
    pub page: usize,
    pub pos: [usize; 2],
    pub finals: u32,
    pub blocks: [Vec<(usize, usize, usize)>; 2],
    pub fn_labels: BTreeMap<u32, DestLabel>,
    pub fns: BTreeMap<u32, FnI>,
    pub cells: BTreeMap<u32, CellI>,
    pub dets: BTreeMap<u32, Det>,
    pub sites: BTreeMap<u32, SiteI>,
    pub abs: Vec<AbsI>,
    pub segs: Vec<Seg>,
    /// (page, position, label): places bound without code of their own
    pub marks: Vec<(usize, usize, DestLabel)>,
    pub spare: Vec<DestLabel>,
    pub rl: BTreeMap<u32, Rl>,
    pub full: [bool; 3],
    pub lost: bool,
    /// cells in great number
    pub bulk: Vec<crate::many::Bulk>,
    /// where the data area stands, at least; 0: not known
    pub dend: usize,
    /// what it answered (emitters)
    pub answers: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub fid: u32,
    pub pc: usize,
    pub acc: u64,
    pub arg: u64,
}

/// The reference interpreter of one call.
pub struct Mach {
    pub i: usize,
    pub frames: Vec<Frame>,
    pub stop: Stop,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Running,
    Host { hid: u32, acc: u64, arg: u64 },
    Done(u64),
    /// no passage recorded where one is needed
    Starved,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub ops: u64,
    pub skipped: u64,
    pub calls: u64,
    pub first_calls: u64,
    pub finals: u64,
    pub patches: u64,
    pub passes: u64,
    pub nested: u64,
    pub hosts: u64,
    pub panics_caught: u64,
    pub dumps: u64,
    pub freeze_checks: u64,
    pub queries: u64,
    pub cell_checks: u64,
    pub late_refs: u64,
    pub kinds: BTreeMap<String, u64>,
}

/// May values of a type go to another thread? (An answer, where a bound would end the build.)
pub struct Sent<T>(std::marker::PhantomData<T>);
pub trait NotSent {
    const CAN: bool = false;
}
impl<T> NotSent for Sent<T> {}
impl<T: Send> Sent<T> {
    pub const CAN: bool = true;
}

pub struct Job {
    pub i: usize,
    pub fid: u32,
    pub arg: u64,
    pub addr: usize,
    pub done: bool,
    pub result: u64,
    pub checked: bool,
}

pub struct World {
    pub mode: u8,
    pub prop: String,
    pub engs: Vec<Option<Box<Eng>>>,
    pub host: Vec<Vec<Op>>,
    pub lib_step: bool,
    pub watch: bool,
    pub findings: Vec<Finding>,
    pub machs: Vec<Mach>,
    pub depth: usize,
    pub maxdepth: usize,
    pub host_count: u64,
    pub stats: Stats,
    pub hash: u64,
    pub jobs: Vec<Job>,
    pub queues: Vec<VecDeque<usize>>,
    pub next_thread: u8,
    pub lane: bool,
    pub quiet_ops: bool,
    pub scratch: Option<String>,
    pub name_seed: u64,
    pub shift: u8,
    /// functions of engines that came and went: (address, argument, result)
    pub gone: Vec<(usize, u64, u64)>,
    pub kept: Vec<Box<JitMemory>>,
}

pub static mut WORLD: *mut World = std::ptr::null_mut();

fn rdmem(a: usize, n: usize) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(a as *const u8, n).to_vec() }
}

pub fn mem_eq(a: usize, b: &[u8]) -> bool {
    unsafe { std::slice::from_raw_parts(a as *const u8, b.len()) == b }
}

/// An address relative to the engine's memory.
fn rel(b: &[u8], e: &Eng) -> String {
    let x = u64::from_le_bytes(b.try_into().unwrap_or_default());
    if x == 0 {
        "0".into()
    } else {
        format!("base{:+#x}", x.wrapping_sub(e.base as u64) as i64)
    }
}

pub fn h(x: u64, v: u64) -> u64 {
    (x ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23)
}

/// The block records of the selected page.
#[cfg(not(feature = "noblocks"))]
pub fn blocks(j: &JitMemory) -> Option<impl DoubleEndedIterator<Item = (usize, usize, usize)> + ExactSizeIterator + '_> {
    Some(j.code_block.iter().map(|b| (pos_of(b.0), pos_of(b.1), pos_of(b.2))))
}

/// (The field has another shape in this tree: build.sh falls back to this.)
#[cfg(feature = "noblocks")]
pub fn blocks(_: &JitMemory) -> Option<std::vec::IntoIter<(usize, usize, usize)>> {
    None
}

pub fn pos_of(p: Pos) -> usize {
    p - Pos::from(0)
}

pub const ALIGNS: [usize; 4] = [4, 8, 16, 4096];

extern "C" fn host_cb(hid: u64, acc: u64, arg: u64) -> u64 {
    unsafe {
        let w = &mut *WORLD;
        w.host_call(hid as u32, acc, arg)
    }
}

fn boom(x: i64) -> i64 {
    if std::hint::black_box(true) {
        panic!("operand expression")
    }
    x
}

pub fn quietly<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        }),
    }
}

impl Eng {
    /// All labels that stand for something, by number.
    fn labels(&self) -> Vec<DestLabel> {
        let mut ls: Vec<DestLabel> = self.fns.values().map(|f| f.label).collect();
        ls.extend(self.cells.values().map(|c| c.label));
        ls.extend(self.sites.values().map(|s| s.label));
        ls.extend(self.rl.values().map(|s| s.label));
        ls.sort_by_key(|l| l.to_usize());
        ls
    }
    /// The place of a label in the engine's memory, in all ways of asking.
    fn ask(&mut self, l: DestLabel) -> Option<[usize; 4]> {
        let base = self.base;
        let j = self.j();
        quietly(|| {
            let a = j.get_label_u64(l) as usize;
            let b = j.get_label_address(l).as_ptr() as usize;
            let c: extern "C" fn(u64) -> u64 = j.get_label_addr(l);
            let d: extern "C" fn(u64, u64) -> u64 = j.get_label_addr2(l);
            [a, b, c as *const () as usize, d as *const () as usize].map(|a| a.wrapping_sub(base))
        })
        .ok()
    }
    pub fn j(&mut self) -> &mut JitMemory {
        self.jit.as_mut().unwrap()
    }
    pub fn at(&self, page: usize, lo: usize) -> usize {
        self.base + page * self.psize + lo
    }
    fn fn_label(&mut self, fid: u32) -> DestLabel {
        if let Some(l) = self.fn_labels.get(&fid) {
            return *l;
        }
        let l = self.some_label();
        self.fn_labels.insert(fid, l);
        l
    }
    /// a label: the one made last that is not in use yet, or a new one
    fn some_label(&mut self) -> DestLabel {
        match self.spare.pop() {
            Some(l) => l,
            None => self.j().label(),
        }
    }
    pub fn seg(&mut self, deps: &[Dep], f: impl FnOnce(&mut JitMemory)) -> usize {
        let page = self.page;
        let lo = self.j().get_current();
        f(self.j());
        let hi = self.j().get_current();
        self.segs.push(Seg {
            page,
            lo,
            hi,
            epoch: self.finals,
            deps: deps.to_vec(),
            expect: None,
            frozen: None,
            site: None,
            label: None,
            refs: vec![],
        });
        self.pos[page] = hi;
        self.segs.len() - 1
    }
    fn dep_ready(&self, d: Dep) -> bool {
        match d {
            Dep::Cell(c) => self.cells.get(&c).map_or(false, |c| c.epoch < self.finals),
            Dep::Fn(f) => self.fns.get(&f).map_or(false, |f| f.epoch < self.finals),
            Dep::Detour(d) => self.dets.get(&d).map_or(false, |d| d.epoch.map_or(false, |e| e < self.finals)),
            Dep::Label(l) => self.rl.get(&l).map_or(false, |l| l.at.is_some() && l.epoch < self.finals),
            Dep::At(..) => true,
        }
    }
    fn seg_ready(&self, k: usize) -> bool {
        let s = &self.segs[k];
        s.epoch < self.finals && s.deps.iter().all(|d| self.dep_ready(*d))
    }
    /// May the function be called now? `will`: everything missing will have been
    /// supplied by a call-back passed earlier.
    fn walk(&self, fid: u32, will: &mut bool, stack: &mut Vec<u32>, host: &[Vec<Op>], me: usize, fuel: &mut i64) -> bool {
        let Some(f) = self.fns.get(&fid) else { return *will && stack.len() < 12 };
        if f.epoch >= self.finals && !*will {
            return false;
        }
        if stack.contains(&fid) || stack.len() > 12 {
            return false;
        }
        stack.push(fid);
        let mut ok = true;
        for e in &f.body {
            *fuel -= 1;
            if *fuel < 0 {
                ok = false;
            }
            match e {
                Elem::Cell { cid, .. } => ok &= *will || self.dep_ready(Dep::Cell(*cid)),
                Elem::Lea { fid } => ok &= *will || self.dep_ready(Dep::Fn(*fid)),
                Elem::Detour { did, .. } => ok &= *will || self.dep_ready(Dep::Detour(*did)),
                Elem::Site { sid, .. } | Elem::Tail { sid, .. } => {
                    let s = &self.sites[sid];
                    ok &= *will || self.seg_ready(s.alts[&s.cur].seg);
                }
                Elem::Call { fid, .. } => {
                    ok &= *will || self.dep_ready(Dep::Fn(*fid));
                    if ok {
                        ok &= self.walk(*fid, will, stack, host, me, fuel);
                    }
                }
                Elem::Host { hid } => {
                    *fuel -= 20;
                    if let Some(h) = host.get(*hid as usize) {
                        if h.iter().any(|o| matches!(o, Op::Resolve { i } if *i as usize == me)) {
                            *will = true;
                        }
                    }
                }
                _ => {}
            }
            if !ok {
                break;
            }
        }
        stack.pop();
        ok
    }
}

impl Eng {
    /// All the labels that are bound, and where.
    pub fn places(&self) -> Vec<(DestLabel, usize, String)> {
        let mut ls: Vec<(DestLabel, usize, String)> = vec![];
        for (k, f) in &self.fns {
            ls.push((f.label, self.at(f.page, f.lo), format!("function {k}")));
        }
        for (k, s) in &self.sites {
            ls.push((s.label, self.at(s.page, s.lo), format!("jump {k}")));
            for (n, x) in &s.alts {
                ls.push((x.label, self.at(x.page, x.lo), format!("alternative {n} of jump {k}")));
            }
        }
        for s in &self.segs {
            if let Some(l) = s.label {
                ls.push((l, self.at(s.page, s.lo), format!("bytes at {}", s.lo)));
            }
        }
        for (k, d) in &self.dets {
            if d.epoch.is_some() {
                ls.push((d.label, self.at(self.segs[d.seg].page, self.segs[d.seg].lo), format!("detour {k}")));
            }
        }
        for (k, c) in &self.cells {
            if c.addr != 0 {
                ls.push((c.label, c.addr, format!("cell {k}")));
            }
        }
        for (k, r) in &self.rl {
            if let Some((p, lo)) = r.at {
                ls.push((r.label, self.at(p, lo), format!("label {k}")));
            }
        }
        for (p, lo, l) in &self.marks {
            ls.push((*l, self.at(*p, *lo), format!("mark at {lo}")));
        }
        ls
    }
}

impl World {
    pub fn new(p: &Plan) -> Box<World> {
        Box::new(World {
            mode: p.mode,
            prop: p.prop.clone(),
            engs: (0..8).map(|_| None).collect(),
            host: p.host.clone(),
            lib_step: p.lib_step,
            watch: p.watch,
            findings: vec![],
            machs: vec![],
            depth: 0,
            maxdepth: if p.depth == 0 { 3 } else { p.depth as usize },
            host_count: 0,
            stats: Stats::default(),
            hash: 0,
            jobs: Vec::with_capacity(512),
            queues: (0..green::MAXT).map(|_| VecDeque::with_capacity(512)).collect(),
            next_thread: 0,
            lane: false,
            quiet_ops: false,
            scratch: None,
            name_seed: p.name_seed,
            gone: vec![],
            kept: vec![],
            shift: 0,
        })
    }

    pub fn find(&mut self, class: &str, detail: String) {
        // what only one property speaks about is not held against the others
        let own = match class {
            "query.include" | "query.label" | "query.fn" | "query.current" | "query.unbound" => &["C13"][..],
            "stream.block" | "stream.slice" | "stream.align" | "stream.pos" => &["C14"],
            "full.outside" => &["C06"],
            "thread.send" => &["C08"],
            "cell.align" => &["C05"],
            "cell.value" => &["C05", "C06", "C12"],
            "dump.engine" => &["C10"],
            "new.protection" => &["C07"],
            "dump.panic" | "dump.ok" | "dump.content" | "dump.err" | "dump.foreign" => &["C09"],
            "dump.fd" | "dump.file" | "dump.child" => &["C10"],
            _ => &[],
        };
        if !own.is_empty() && !own.contains(&self.prop.as_str()) {
            self.count(&format!("finding of another property: {class}"));
            if std::env::var_os("MONOSIM_VERBOSE").is_some() {
                eprintln!("{class} {detail}");
            }
            return;
        }
        if self.findings.len() < 8 {
            let op = unsafe { crate::CUR_OP };
            self.findings.push(Finding { class: class.into(), detail: format!("op {op}: {detail}") });
        }
    }
    pub fn bad(&self) -> bool {
        !self.findings.is_empty()
    }
    pub fn count(&mut self, k: &str) {
        *self.stats.kinds.entry(k.to_string()).or_insert(0) += 1;
    }

    pub fn has(&self, i: Inst) -> bool {
        self.engs.get(i as usize).map_or(false, |e| e.is_some())
    }
    /// engine alive (not dropped)
    pub fn live(&self, i: Inst) -> bool {
        self.engs.get(i as usize).map_or(false, |e| e.as_ref().map_or(false, |e| e.jit.is_some()))
    }

    // ---- engine creation ------------------------------------------------------------
    pub fn op_new(&mut self, i: usize, slot: u8, dirty: u8, fault: u8) -> bool {
        if i >= self.engs.len() || self.engs[i].is_some() {
            return false;
        }
        let (slot, dirty) = if self.shift != 0 { (slot.wrapping_add(self.shift), dirty ^ self.shift) } else { (slot, dirty) };
        let before: Vec<(usize, usize)> =
            self.engs.iter().flatten().map(|e| (e.base, e.psize * 3)).collect();
        let lane = crate::lanes::id();
        let reqs0;
        unsafe {
            if lane == 0 {
                mem::APLAN.slot = slot as i32 % mem::NSLOT as i32;
                mem::APLAN.dirty = dirty;
                mem::APLAN.fail = fault == 1;
                mem::APLAN.protect_fail = if fault >= 2 { fault as i32 - 2 } else { -1 };
                mem::PROTECT_CALLS = 0;
            } else {
                mem::LANE_PLAN[lane] = (slot as i32 % mem::NSLOT as i32, dirty);
            }
            mem::LAST_SLOT = -1;
            reqs0 = mem::BIG_REQS;
            mem::ARMED.store(true, std::sync::atomic::Ordering::Relaxed);
        }
        let r = quietly(|| JitMemory::new());
        let injected = unsafe {
            if lane == 0 {
                mem::ARMED.store(false, std::sync::atomic::Ordering::Relaxed);
            }
            let inj = (fault == 1 && mem::BIG_REQS > reqs0)
                || (fault >= 2 && mem::PROTECT_CALLS > fault as usize - 2);
            mem::APLAN.fail = false;
            mem::APLAN.protect_fail = -1;
            inj
        };
        match r {
            Err(m) => {
                self.stats.panics_caught += 1;
                if !injected {
                    self.find("new.panic", format!("creation panicked although nothing was refused: {m}"));
                } else {
                    self.count(if fault == 1 { "fault: allocation refused" } else { "fault: protection refused" });
                    if self.prop == "C07" && lane == 0 {
                        self.check_maps();
                    }
                }
                return true;
            }
            Ok(jit) => {
                if injected {
                    self.find("new.accepted", format!("creation succeeded although a request was refused (fault {fault})"));
                    std::mem::forget(jit);
                    return true;
                }
                let mut jit = Box::new(jit);
                let k = unsafe { if lane == 0 { mem::LAST_SLOT } else { mem::LANE_LAST[lane] } };
                let a0 = jit.get_current_address().as_ptr() as usize;
                let (base, psize) = if k >= 0 {
                    (mem::SLOT_BASE[k as usize], unsafe { mem::SLOTS[k as usize].req } / 3)
                } else {
                    jit.select_page(1);
                    let a1 = jit.get_current_address().as_ptr() as usize;
                    jit.select_page(0);
                    (a0, a1.wrapping_sub(a0))
                };
                if k < 0 {
                    mem::note_outside(base, psize.wrapping_mul(3));
                }
                if a0 != base {
                    self.find("query.current", format!("fresh engine: current address {a0:#x}, memory at {base:#x}"));
                }
                for (b, n) in &before {
                    if base < b + n && *b < base + psize * 3 {
                        self.find("new.overlap", format!("{base:#x} overlaps {b:#x}"));
                    }
                }
                if dirty != 0 {
                    self.count("fault: dirty memory");
                }
                self.engs[i] = Some(Box::new(Eng {
                    jit: Some(jit),
                    base,
                    psize,
                    page: 0,
                    pos: [0; 2],
                    finals: 0,
                    blocks: [vec![], vec![]],
                    fn_labels: Default::default(),
                    fns: Default::default(),
                    cells: Default::default(),
                    dets: Default::default(),
                    sites: Default::default(),
                    abs: vec![],
                    segs: vec![],
                    marks: vec![],
                    spare: vec![],
                    rl: Default::default(),
                    full: [false; 3],
                    lost: false,
                    answers: vec![],
                    dend: 0,
                    bulk: vec![],
                }));
                if self.prop == "C07" && lane == 0 {
                    self.check_maps();
                }
            }
        }
        true
    }

    /// Protections of every live engine as the kernel sees them.
    pub fn check_maps(&mut self) {
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let mut v = vec![];
        for l in maps.lines() {
            let mut it = l.split_whitespace();
            let (Some(r), Some(p)) = (it.next(), it.next()) else { continue };
            let Some((a, b)) = r.split_once('-') else { continue };
            let (a, b) = (usize::from_str_radix(a, 16).unwrap_or(0), usize::from_str_radix(b, 16).unwrap_or(0));
            v.push((a, b, p[..3].to_string()));
        }
        let prot = |lo: usize, hi: usize, want: &str| -> Option<String> {
            let mut at = lo;
            for (a, b, p) in &v {
                if *a <= at && at < *b {
                    if p != want {
                        return Some(format!("{at:#x} is {p}, expected {want}"));
                    }
                    at = *b;
                    if at >= hi {
                        return None;
                    }
                }
            }
            Some(format!("{at:#x} is not mapped"))
        };
        let mut bad = vec![];
        let mut owned = vec![];
        for e in self.engs.iter().flatten() {
            owned.push((e.base, e.base + 3 * e.psize));
            bad.extend(prot(e.base, e.base + 2 * e.psize, "rwx"));
            bad.extend(prot(e.base + 2 * e.psize, e.base + 3 * e.psize, "rw-"));
        }
        // Memory of the pool that belongs to no engine is as it was.
        for k in 0..mem::NSLOT {
            let (mut at, end) = (mem::SLOT_BASE[k], mem::SLOT_BASE[k] + mem::SLOT_SIZE);
            if let Some((_, b)) = owned.iter().find(|(a, _)| *a == at) {
                at = *b;
                let req = unsafe { mem::SLOTS[k].req };
                if req != 0 {
                    let g = mem::SLOT_BASE[k] + mem::guard_at(req);
                    bad.extend(prot(g, g + mem::GUARD, "r--").map(|s| format!("behind an engine: {s}")));
                    at = g + mem::GUARD;
                }
            } else if unsafe { mem::SLOTS[k].in_use } {
                continue; // refused in the middle: what it had is its own
            }
            bad.extend(prot(at, end, "rw-").map(|s| format!("outside any engine: {s}")));
        }
        self.stats.queries += 1;
        for b in bad {
            self.find("new.protection", b);
        }
    }

    // ---- functions ------------------------------------------------------------------
    fn allowed_cell(&self, e: &Eng, cid: u32, form: u8) -> bool {
        let Some(c) = e.cells.get(&cid) else { return false };
        let Some(f) = emit::form(form) else { return false };
        if matches!(c.kind, CellKind::Abs(_) | CellKind::Align8) || c.val.len() < f.w {
            return false;
        }
        if f.align == 16 && matches!(c.kind, CellKind::I32(_)) {
            return false;
        }
        if self.mode == 1 {
            // shared between executors: either read-only or only added to
            if cid % 2 == 1 {
                return f.additive as usize == c.val.len() * 8;
            }
            return !f.write;
        }
        true
    }

    fn op_fn(&mut self, i: usize, fid: u32, align: u8, body: &[Elem]) -> bool {
        let mut e = self.engs[i].take().unwrap();
        if e.fns.contains_key(&fid) || e.full[e.page] {
            self.engs[i] = Some(e);
            return false;
        }
        let home = e.page;
        if (align as usize) < ALIGNS.len() {
            self.align_eng(&mut e, align as usize);
        }
        let label = e.fn_label(fid);
        let s0 = e.segs.len();
        let lo = e.j().get_current();
        e.seg(&[], |jit| {
            jit.bind_label(label);
            monoasm!( &mut *jit,
                pushq rbp;
                movq rbp, rsp;
                pushq rbx;
                pushq r12;
                movq rbx, rdi;
                xorq r12, r12;
            );
        });
        let mut eff = vec![];
        let mut tails: Vec<(u32, DestLabel, DestLabel)> = vec![];
        for el in body {
            match el {
                Elem::Add(v) => {
                    e.seg(&[], |jit| monoasm!( &mut *jit, addq r12, (*v); ));
                }
                Elem::Xor(v) => {
                    e.seg(&[], |jit| monoasm!( &mut *jit, movq rax, (*v as i64); xorq r12, rax; ));
                }
                Elem::Arg => {
                    e.seg(&[], |jit| monoasm!( &mut *jit, addq r12, rbx; ));
                }
                Elem::Rot(n) => {
                    let n = *n as i64 & 63;
                    e.seg(&[], |jit| monoasm!( &mut *jit, rolq r12, (n); ));
                }
                Elem::Skip { cc, cmp, add } => {
                    e.seg(&[], |jit| {
                        let l = jit.label();
                        monoasm!( &mut *jit, cmpq rbx, (*cmp); );
                        match cc % 6 {
                            0 => monoasm!( &mut *jit, jeq l; ),
                            1 => monoasm!( &mut *jit, jne l; ),
                            2 => monoasm!( &mut *jit, jlt l; ),
                            3 => monoasm!( &mut *jit, jge l; ),
                            4 => monoasm!( &mut *jit, ja l; ),
                            _ => monoasm!( &mut *jit, jbe l; ),
                        }
                        monoasm!( &mut *jit, addq r12, (*add); l: );
                    });
                }
                Elem::Over(n) => {
                    e.seg(&[], |jit| {
                        let l = jit.label();
                        monoasm!( &mut *jit, jmp l; );
                        for _ in 0..*n {
                            jit.emitb(0xcc);
                        }
                        jit.bind_label(l);
                    });
                }
                Elem::Loop { n, add } => {
                    let n = (*n).max(1) as i64;
                    e.seg(&[], |jit| {
                        let l = jit.label();
                        monoasm!( &mut *jit, movq rcx, (n); l: addq r12, (*add); subq rcx, 1; jne l; );
                    });
                }
                Elem::Hop => {
                    if e.full[1 - e.page] {
                        continue;
                    }
                    let l = e.j().label();
                    e.seg(&[], |jit| monoasm!( &mut *jit, jmp l; ));
                    e.page = 1 - e.page;
                    let p = e.page;
                    e.j().select_page(p);
                    e.j().bind_label(l);
                }
                Elem::Cell { cid, form, imm } => {
                    if !self.allowed_cell(&e, *cid, *form) {
                        continue;
                    }
                    let l = e.cells[cid].label;
                    let imm = emit::fold(*form, *imm);
                    e.seg(&[Dep::Cell(*cid)], |jit| emit::emit_form(jit, *form, l, imm));
                    if emit::form(*form).unwrap().write {
                        e.cells.get_mut(cid).unwrap().written = true;
                    }
                    eff.push(Elem::Cell { cid: *cid, form: *form, imm });
                    continue;
                }
                Elem::Call { fid: g, how, darg } => {
                    if *g == fid {
                        continue;
                    }
                    let l = e.fn_label(*g);
                    let mut how = how % 8;
                    if how == 7 && !e.fns.contains_key(g) {
                        how = 0;
                    }
                    let ab = if matches!(how, 1 | 3 | 5) {
                        let a = e.j().abs_address(l);
                        let ep = e.finals;
                        e.abs.push(AbsI { label: a, fid: *g, epoch: ep, seen: 0 });
                        a
                    } else {
                        l
                    };
                    e.seg(&[Dep::Fn(*g)], |jit| {
                        monoasm!( &mut *jit, movq rdi, rbx; addq rdi, (*darg); );
                        match how {
                            0 => monoasm!( &mut *jit, call l; ),
                            1 => monoasm!( &mut *jit, call [rip + ab]; ),
                            2 => monoasm!( &mut *jit, lea rax, [rip + l]; call rax; ),
                            3 => monoasm!( &mut *jit, movq rax, [rip + ab]; call rax; ),
                            4 => {
                                let r = jit.label();
                                monoasm!( &mut *jit, lea rax, [rip + r]; pushq rax; jmp l; r: )
                            }
                            5 => {
                                let r = jit.label();
                                monoasm!( &mut *jit, lea rax, [rip + r]; pushq rax; jmp [rip + ab]; r: )
                            }
                            6 => {
                                let r = jit.label();
                                monoasm!( &mut *jit, lea rax, [rip + r]; pushq rax; xorq rax, rax; jz l; r: )
                            }
                            _ => {
                                let a = jit.get_label_u64(l);
                                monoasm!( &mut *jit, movq rax, (a); call rax; )
                            }
                        }
                        monoasm!( &mut *jit, addq r12, rax; );
                    });
                    if !e.fns.contains_key(g) {
                        self.stats.late_refs += 1;
                    }
                    eff.push(Elem::Call { fid: *g, how, darg: *darg });
                    continue;
                }
                Elem::Lea { fid: g } => {
                    let l = e.fn_label(*g);
                    let a = e.j().abs_address(l);
                    let ep = e.finals;
                    e.abs.push(AbsI { label: a, fid: *g, epoch: ep, seen: 0 });
                    e.seg(&[Dep::Fn(*g)], |jit| {
                        monoasm!( &mut *jit, lea rax, [rip + l]; subq rax, [rip + a]; addq r12, rax; )
                    });
                }
                Elem::Detour { did, cond } => {
                    if e.dets.contains_key(did) {
                        continue;
                    }
                    let label = e.some_label();
                    let back = e.some_label();
                    e.seg(&[Dep::Detour(*did)], |jit| {
                        if *cond {
                            monoasm!( &mut *jit, xorq rax, rax; jz label; int3; back: );
                        } else {
                            monoasm!( &mut *jit, jmp label; int3; back: );
                        }
                    });
                    self.stats.late_refs += 1;
                    e.dets.insert(*did, Det { label, back: Some(back), add: 0, epoch: None, seg: 0, fid });
                }
                Elem::Site { sid, adds, gap } => {
                    if e.sites.contains_key(sid) || adds.is_empty() {
                        continue;
                    }
                    let site = e.j().label();
                    let end = e.j().label();
                    let labels: Vec<DestLabel> = adds.iter().map(|_| e.j().label()).collect();
                    let l0 = labels[0];
                    let page = e.page;
                    let epoch = e.finals;
                    let lo = e.j().get_current();
                    let k = e.seg(&[], |jit| {
                        monoasm!( &mut *jit, site: jmp l0; );
                    });
                    e.segs[k].site = Some(*sid);
                    let mut alts = BTreeMap::new();
                    e.seg(&[], |jit| {
                        for _ in 0..*gap {
                            jit.emitb(0xcc);
                        }
                    });
                    for (n, add) in adds.iter().enumerate() {
                        let l = labels[n];
                        let alo = e.j().get_current();
                        let sg = e.seg(&[], |jit| {
                            monoasm!( &mut *jit, l: rolq r12, 7; addq r12, (*add); jmp end; )
                        });
                        alts.insert(n as u8, AltI { label: l, add: *add, seg: sg, epoch, page, lo: alo });
                    }
                    e.j().bind_label(end);
                    e.sites.insert(
                        *sid,
                        SiteI { label: site, end, alts, cur: 0, page, lo, epoch, seg: k, patches: 0 },
                    );
                }
                Elem::Tail { sid, adds } => {
                    if e.sites.contains_key(sid) || adds.is_empty() {
                        continue;
                    }
                    let site = e.j().label();
                    let end = e.j().label();
                    let page = e.page;
                    let epoch = e.finals;
                    e.seg(&[], |jit| monoasm!( &mut *jit, jmp site; ));
                    let mut alts = BTreeMap::new();
                    for (n, add) in adds.iter().enumerate() {
                        let l = e.j().label();
                        let lo = e.j().get_current();
                        let seg = e.seg(&[], |jit| {
                            monoasm!( &mut *jit, l: rolq r12, 7; addq r12, (*add); jmp end; )
                        });
                        alts.insert(n as u8, AltI { label: l, add: *add, seg, epoch, page, lo });
                    }
                    e.j().bind_label(end);
                    tails.push((*sid, site, alts[&0].label));
                    e.sites.insert(*sid, SiteI { label: site, end, alts, cur: 0, page, lo: 0, epoch, seg: 0, patches: 0 });
                }
                Elem::Host { hid } => {
                    if self.mode != 0 || self.host.is_empty() {
                        continue;
                    }
                    let hid = *hid % self.host.len() as u32;
                    let f = host_cb as *const () as usize as i64;
                    e.seg(&[], |jit| {
                        monoasm!( &mut *jit,
                            movq rdi, (hid as i64);
                            movq rsi, r12;
                            movq rdx, rbx;
                            movq rax, (f);
                            call rax;
                            addq r12, rax;
                        )
                    });
                    eff.push(Elem::Host { hid });
                    continue;
                }
            }
            eff.push(el.clone());
        }
        e.seg(&[], |jit| {
            monoasm!( &mut *jit,
                movq rax, r12;
                popq r12;
                popq rbx;
                popq rbp;
                ret;
            );
        });
        for (sid, site, l0) in tails {
            let (page, lo) = (e.page, e.j().get_current());
            let k = e.seg(&[], |jit| monoasm!( &mut *jit, site: jmp l0; ));
            e.segs[k].site = Some(sid);
            let s = e.sites.get_mut(&sid).unwrap();
            s.page = page;
            s.lo = lo;
            s.seg = k;
        }
        let s1 = e.segs.len();
        if e.page != home {
            e.page = home;
            e.j().select_page(home);
        }
        let epoch = e.finals;
        let f = FnI { label, page: home, lo, body: eff, segs: (s0, s1), epoch, calls: 0, good: false, addr: 0 };
        e.fns.insert(fid, f);
        self.engs[i] = Some(e);
        true
    }

    fn align_eng(&mut self, e: &mut Eng, k: usize) {
        let p = e.page;
        let want = (e.pos[p] + ALIGNS[k] - 1) & !(ALIGNS[k] - 1);
        let jit = e.j();
        match k {
            0 => jit.align4(),
            1 => jit.align8(),
            2 => jit.align16(),
            _ => jit.align_page(),
        }
        let got = e.j().get_current();
        if got != want {
            self.find("stream.align", format!("page {p}: align {} from {} gave {got}, expected {want}", ALIGNS[k], e.pos[p]));
        }
        e.pos[p] = got;
    }

    // ---- finalisation ---------------------------------------------------------------
    pub fn op_finalize(&mut self, i: usize, step: bool) -> bool {
        if self.engs[i].as_ref().unwrap().lost {
            // a finalisation was cut short; what it dropped stays dropped
        }
        let stepping = step && self.mode == 1 && self.lib_step;
        let mut e = self.engs[i].take().unwrap();
        let r = quietly(|| {
            if stepping {
                green::s().lib = true;
                unsafe { green::gt_step_on() };
                e.j().finalize();
                unsafe { green::gt_step_off() };
                green::s().lib = false;
            } else {
                e.j().finalize();
            }
        });
        if let Err(m) = r {
            unsafe { green::gt_step_off() };
            green::s().lib = false;
            self.find("panic.finalize", m);
            self.engs[i] = Some(e);
            return true;
        }
        self.after_finalize(i, e);
        true
    }

    pub fn after_finalize(&mut self, i: usize, mut e: Box<Eng>) {
        self.stats.finals += 1;
        e.finals += 1;
        // block records and positions of both pages
        for p in 0..2 {
            let code_end = e.pos[p];
            let start = e.blocks[p].last().map_or(0, |b| b.2);
            let page = e.page;
            e.j().select_page(p);
            let cur = e.j().get_current();
            if cur < code_end {
                self.find("stream.pos", format!("page {p}: position went back from {code_end} to {cur} in finalize"));
            }
            let want = (e.finals as usize, Some((start, code_end, cur)));
            let (n, rec) = blocks(e.j()).map_or(want, |mut b| (b.len(), b.next_back()));
            if n != e.finals as usize || rec != Some((start, code_end, cur)) {
                if !e.lost {
                    self.find(
                        "stream.block",
                        format!("page {p}: {n} blocks, last {rec:?}; expected {} blocks, last {:?}", e.finals, (start, code_end, cur)),
                    );
                }
            }
            let sl = e.j().as_slice();
            let (a, n) = (sl.as_ptr() as usize, sl.len());
            if (a, n) != (e.at(p, 0), code_end) {
                self.find("stream.slice", format!("page {p}: readable code is {n} bytes at {a:#x}, expected {code_end} at {:#x}", e.at(p, 0)));
            }
            e.blocks[p].push((start, code_end, cur));
            e.pos[p] = cur;
            e.j().select_page(page);
        }
        // new cells got their place
        let fin = e.finals;
        let ids: Vec<u32> = e.cells.iter().filter(|(_, c)| c.addr == 0 && c.epoch < fin).map(|(k, _)| *k).collect();
        for cid in ids {
            self.place_cell(&mut e, cid);
        }
        if !e.bulk.is_empty() {
            self.place_bulk(&mut e);
        }
        let mut bad = vec![];
        for k in 0..e.abs.len() {
            if e.abs[k].epoch < fin && e.abs[k].seen == 0 {
                let l = e.abs[k].label;
                match quietly(|| e.j().get_label_u64(l) as usize) {
                    Ok(a) => {
                        e.abs[k].seen = a;
                        if a % 8 != 0 {
                            bad.push(("cell.align", format!("address cell at {a:#x}")));
                        }
                    }
                    Err(m) => bad.push(("cell.unplaced", format!("address cell: {m}"))),
                }
            }
        }
        for (c, d) in bad {
            self.find(c, d);
        }
        self.engs[i] = Some(e);
        self.freeze(i);
    }

    fn place_cell(&mut self, e: &mut Eng, cid: u32) {
        let l = e.cells[&cid].label;
        let a = match quietly(|| e.j().get_label_u64(l) as usize) {
            Ok(a) => a,
            Err(m) => {
                self.find("cell.unplaced", format!("cell {cid}: {m}"));
                return;
            }
        };
        let c = e.cells.get_mut(&cid).unwrap();
        c.addr = a;
        let c = &e.cells[&cid];
        let al = match c.kind {
            CellKind::I32(_) => 4,
            CellKind::Abs(_) | CellKind::Align8 => 8,
            _ => 16,
        };
        if a % al != 0 {
            self.find("cell.align", format!("cell {cid} {:?} at {a:#x}", c.kind));
        }
        let n = c.val.len();
        let (lo, hi) = if c.data {
            (e.at(2, 0), e.at(3, 0))
        } else {
            (e.at(c.page, 0), e.at(c.page, e.pos[c.page]))
        };
        if a < lo || a + n > hi {
            self.find("cell.place", format!("cell {cid} {:?} at {a:#x}..{:#x}, outside {lo:#x}..{hi:#x}", c.kind, a + n));
            return;
        }
        if !matches!(c.kind, CellKind::Abs(_)) && !mem_eq(a, &c.val) {
            let all = rdmem(a, n);
            let got = &all[..n.min(16)];
            self.find("cell.value", format!("cell {cid} {:?} holds {got:02x?} after its finalisation", c.kind));
            e.cells.get_mut(&cid).unwrap().val = all;
        }
        // disjoint from every other cell and all code
        if n > 0 {
            for (k, o) in &e.cells {
                if *k != cid && o.addr != 0 && !o.val.is_empty() && a < o.addr + o.val.len() && o.addr < a + n {
                    self.find("cell.overlap", format!("cells {cid} and {k} at {a:#x} and {:#x}", o.addr));
                }
            }
            for o in &e.abs {
                if o.seen != 0 && a < o.seen + 8 && o.seen < a + n {
                    self.find("cell.overlap", format!("cell {cid} at {a:#x} and an address cell at {:#x}", o.seen));
                }
            }
            for s in &e.segs {
                let sa = e.at(s.page, s.lo);
                if a < sa + (s.hi - s.lo) && sa < a + n {
                    self.find("cell.overlap", format!("cell {cid} at {a:#x} and code at {sa:#x}"));
                }
            }
        }
    }

    /// Compare everything finalised with what it was; freeze what has become final.
    pub fn freeze(&mut self, i: usize) {
        let mut out: Vec<(&str, String)> = vec![];
        let mode = self.mode;
        let idle = self.idle();
        {
            let e = self.engs[i].as_mut().unwrap();
            for k in 0..e.segs.len() {
                let (page, lo, hi) = (e.segs[k].page, e.segs[k].lo, e.segs[k].hi);
                let a = e.at(page, lo);
                if let Some(sid) = e.segs[k].site {
                    if e.segs[k].epoch < e.finals {
                        let s = &e.sites[&sid];
                        let alt = &s.alts[&s.cur];
                        let want = e.at(alt.page, alt.lo) as i64 - a as i64 - 5;
                        let mut b = vec![0xe9u8];
                        b.extend_from_slice(&(want as i32).to_le_bytes());
                        self.stats.freeze_checks += 1;
                        if !mem_eq(a, &b) {
                            out.push((
                                if s.patches == 0 { "site.first" } else { "site.wrong" },
                                format!("patchable jump {sid} at {a:#x} is {:02x?}, expected {b:02x?} (alternative {})", rdmem(a, 5), s.cur),
                            ));
                        }
                    }
                    continue;
                }
                if let Some(f) = &e.segs[k].frozen {
                    self.stats.freeze_checks += 1;
                    if !mem_eq(a, f) {
                        out.push(("bytes.changed", format!("finalised code at {a:#x} (page {page}, {lo}..{hi}) was {f:02x?}, is {:02x?}", rdmem(a, hi - lo))));
                        // report once
                        let b = rdmem(a, hi - lo);
                        e.segs[k].frozen = Some(b);
                    }
                } else if e.seg_ready(k) {
                    let b = rdmem(a, hi - lo);
                    if let Some(x) = &e.segs[k].expect {
                        if *x != b {
                            let d = (0..b.len()).find(|j| b[*j] != x[*j]).unwrap_or(0);
                            out.push(("stream.bytes", format!("page {page} at {}: emitted {:02x}, finalised {:02x}", lo + d, x[d], b[d])));
                        }
                    }
                    if !e.segs[k].refs.is_empty() {
                        let want = match e.segs[k].deps[0] {
                            Dep::Cell(c) => e.cells[&c].addr,
                            Dep::Fn(f) => e.at(e.fns[&f].page, e.fns[&f].lo),
                            Dep::Label(l) => e.rl[&l].at.map_or(0, |(p, lo)| e.at(p, lo)),
                            Dep::At(p, lo) => e.at(p, lo),
                            Dep::Detour(_) => 0,
                        };
                        let n = e.segs[k].refs.len();
                        *self.stats.kinds.entry("references decoded".into()).or_insert(0) += n as u64;
                        for (end, f) in &e.segs[k].refs {
                            let at = e.at(page, *end);
                            let disp = want as i64 - at as i64;
                            let hit = crate::refs::tail(*f).iter().any(|t| {
                                let o = end - lo;
                                o >= 4 + t && b[o - 4 - t..o - t] == (disp as i32).to_le_bytes()
                            });
                            if !hit || disp != disp as i32 as i64 {
                                out.push((
                                    "ref.wrong",
                                    format!("the reference (form {f}) before {at:#x} to {:?} does not reach {want:#x}: displacement {disp:#x} expected, code {:02x?}", e.segs[k].deps[0], &b[..b.len().min(24)]),
                                ));
                                break;
                            }
                        }
                    }
                    e.segs[k].frozen = Some(b);
                }
            }
            // absolute addresses
            for x in &e.abs {
                if x.seen != 0 && e.dep_ready(Dep::Fn(x.fid)) {
                    let f = &e.fns[&x.fid];
                    let want = e.at(f.page, f.lo) as u64;
                    if !mem_eq(x.seen, &want.to_le_bytes()) {
                        out.push(("abs.wrong", format!("address cell at {:#x} of function {}: {:02x?}, expected {want:#x}", x.seen, x.fid, rdmem(x.seen, 8))));
                    }
                }
            }
            if let Some(m) = World::check_bulk(e) {
                out.push(("cell.changed", m));
            }
            for (cid, c) in &e.cells {
                if c.addr == 0 {
                    continue;
                }
                if let CellKind::Abs(fid) = c.kind {
                    if e.dep_ready(Dep::Fn(fid)) {
                        let f = &e.fns[&fid];
                        let want = e.at(f.page, f.lo) as u64;
                        if !mem_eq(c.addr, &want.to_le_bytes()) {
                            out.push(("abs.wrong", format!("address cell {cid} of function {fid}: {:02x?}, expected {want:#x}", rdmem(c.addr, 8))));
                        }
                    }
                    continue;
                }
                if mode == 1 && c.written && !idle {
                    continue;
                }
                self.stats.cell_checks += 1;
                if !mem_eq(c.addr, &c.val) {
                    let d = (0..c.val.len()).find(|j| rdmem(c.addr + j, 1)[0] != c.val[*j]).unwrap_or(0);
                    let n = (c.val.len() - d).min(16);
                    out.push((
                        if c.written { "cell.update" } else { "cell.changed" },
                        format!("cell {cid} {:?} at {:#x}+{d}: {:02x?}, expected {:02x?}", c.kind, c.addr, rdmem(c.addr + d, n), &c.val[d..d + n]),
                    ));
                }
            }
        }
        for (c, d) in out.into_iter().take(4) {
            self.find(c, d);
        }
    }

    fn idle(&self) -> bool {
        if self.mode != 1 {
            return self.machs.is_empty();
        }
        let g = green::s();
        (!g.on || (1..g.n).all(|t| g.st[t] != St::Runnable)) && self.jobs.iter().all(|j| j.checked)
    }

    /// Compare all engines with the model.
    pub fn check_all(&mut self) {
        self.check_gone();
        for i in 0..self.engs.len() {
            if self.engs[i].is_some() && !self.bad() {
                // while generated code is on the stack the model may be ahead of it
                if self.mode == 0 && self.machs.iter().any(|m| m.i == i) {
                    continue;
                }
                self.freeze(i);
            }
        }
    }

    /// What the engines ended up with, independent of where their memory is.
    pub fn image(&mut self) -> Vec<String> {
        let mut v = vec![];
        // the engines are asked in turn about labels of the same number
        let ls: Vec<Vec<DestLabel>> = self.engs.iter().map(|e| e.as_ref().map_or(vec![], |e| if e.jit.is_some() { e.labels() } else { vec![] })).collect();
        let mut places: Vec<Vec<(usize, Option<[usize; 4]>)>> = vec![vec![]; ls.len()];
        for n in 0..ls.iter().map(|l| l.len()).max().unwrap_or(0) {
            for i in 0..ls.len() {
                if let Some(l) = ls[i].get(n) {
                    let e = self.engs[i].as_mut().unwrap();
                    places[i].push((l.to_usize(), e.ask(*l)));
                }
            }
        }
        for i in 0..self.engs.len() {
            let Some(e) = self.engs[i].as_mut() else { continue };
            v.push(format!("engine {i}: page {} positions {:?} blocks {:?}", e.page, e.pos, e.blocks));
            v.push(format!("engine {i}: answers {:x?}", e.answers));
            v.push(format!("engine {i}: labels and places {:x?}", places[i]));
            let e = &*e;
            for s in &e.segs {
                let a = e.at(s.page, s.lo);
                v.push(format!("engine {i} code page {} {}..{}: {:02x?}", s.page, s.lo, s.hi, rdmem(a, s.hi - s.lo)));
            }
            for (k, c) in &e.cells {
                if c.addr == 0 {
                    v.push(format!("engine {i} cell {k}: no place"));
                    continue;
                }
                let val = rdmem(c.addr, c.val.len());
                let val = match c.kind {
                    CellKind::Abs(_) => rel(&val, e),
                    _ => format!("{val:02x?}"),
                };
                v.push(format!("engine {i} cell {k} at +{:#x}: {val}", c.addr - e.base));
            }
            for x in &e.abs {
                if x.seen != 0 {
                    v.push(format!("engine {i} address cell at +{:#x}: {}", x.seen - e.base, rel(&rdmem(x.seen, 8), e)));
                }
            }
        }
        v
    }

    // ---- calls ----------------------------------------------------------------------
    pub fn callable(&self, i: usize, fid: u32) -> bool {
        let e = self.engs[i].as_ref().unwrap();
        let Some(f) = e.fns.get(&fid) else { return false };
        if e.jit.is_none() && f.addr == 0 {
            return false;
        }
        let mut will = false;
        let mut fuel = if self.mode == 1 { 300 } else { 4000 };
        f.epoch < e.finals && e.walk(fid, &mut will, &mut vec![], &self.host, i, &mut fuel)
    }

    pub fn fn_addr(&mut self, i: usize, fid: u32) -> usize {
        let e = self.engs[i].as_mut().unwrap();
        let f = &e.fns[&fid];
        if e.jit.is_none() {
            return f.addr;
        }
        let l = f.label;
        let p: extern "C" fn(u64) -> u64 = e.j().get_label_addr(l);
        p as *const () as usize
    }

    pub fn run_model(&mut self, m: &mut Mach, mut choices: Option<&mut VecDeque<(u32, u32)>>) {
        loop {
            let e = self.engs[m.i].as_mut().unwrap();
            let Some(fr) = m.frames.last_mut() else {
                return;
            };
            let f = &e.fns[&fr.fid];
            if fr.pc >= f.body.len() {
                let v = fr.acc;
                m.frames.pop();
                match m.frames.last_mut() {
                    Some(up) => up.acc = up.acc.wrapping_add(v),
                    None => {
                        m.stop = Stop::Done(v);
                        return;
                    }
                }
                continue;
            }
            let el = &f.body[fr.pc];
            fr.pc += 1;
            match el {
                Elem::Add(v) => fr.acc = fr.acc.wrapping_add(*v as i64 as u64),
                Elem::Xor(v) => fr.acc ^= *v,
                Elem::Arg => fr.acc = fr.acc.wrapping_add(fr.arg),
                Elem::Rot(n) => fr.acc = fr.acc.rotate_left(*n as u32 & 63),
                Elem::Skip { cc, cmp, add } => {
                    let (a, b) = (fr.arg as i64, *cmp as i64);
                    let taken = match cc % 6 {
                        0 => a == b,
                        1 => a != b,
                        2 => a < b,
                        3 => a >= b,
                        4 => a as u64 > b as u64,
                        _ => a as u64 <= b as u64,
                    };
                    if !taken {
                        fr.acc = fr.acc.wrapping_add(*add as i64 as u64);
                    }
                }
                Elem::Loop { n, add } => {
                    let n = (*n).max(1) as u64;
                    fr.acc = fr.acc.wrapping_add((*add as i64 as u64).wrapping_mul(n));
                }
                Elem::Over(_) | Elem::Hop | Elem::Lea { .. } => {}
                Elem::Cell { cid, form, imm } => {
                    let c = e.cells.get_mut(cid).unwrap();
                    fr.acc = emit::sem(*form, fr.acc, fr.arg, &mut c.val, *imm);
                }
                Elem::Call { fid, darg, .. } => {
                    let arg = fr.arg.wrapping_add(*darg as i64 as u64);
                    let fid = *fid;
                    m.frames.push(Frame { fid, pc: 0, acc: 0, arg });
                }
                Elem::Detour { did, .. } => fr.acc = fr.acc.wrapping_add(e.dets[did].add as i64 as u64),
                Elem::Site { sid, .. } | Elem::Tail { sid, .. } => {
                    let s = &e.sites[sid];
                    let k = match &mut choices {
                        None => s.cur,
                        Some(q) => match q.pop_front() {
                            Some((s, c)) if s == *sid => c as u8,
                            _ => {
                                m.stop = Stop::Starved;
                                return;
                            }
                        },
                    };
                    fr.acc = fr.acc.rotate_left(7).wrapping_add(s.alts[&k].add as i64 as u64);
                }
                Elem::Host { hid } => {
                    m.stop = Stop::Host { hid: *hid, acc: fr.acc, arg: fr.arg };
                    return;
                }
            }
        }
    }

    fn host_call(&mut self, hid: u32, acc: u64, arg: u64) -> u64 {
        self.stats.hosts += 1;
        self.host_count += 1;
        let ret = (crate::rng::mix(hid as u64 ^ self.host_count << 8) as u32 >> 8) as u64;
        let Some(mut m) = self.machs.pop() else {
            self.find("flow", format!("call-back {hid} outside any call"));
            return ret;
        };
        let want = Stop::Host { hid, acc, arg };
        if m.stop != want {
            self.find("flow", format!("call-back: got {want:?}, model at {:?}", m.stop));
            self.machs.push(m);
            return ret;
        }
        let mi = m.i;
        self.machs.push(m);
        self.depth += 1;
        if self.depth > 4 {
            self.count(if self.depth > 8 { "call-back nested more than 8 deep" } else { "call-back nested 5 to 8 deep" });
        }
        let script = self.host.get(hid as usize).cloned().unwrap_or_default();
        for op in &script {
            if self.bad() {
                break;
            }
            let resolve = matches!(op, Op::Resolve { .. });
            if (self.depth <= self.maxdepth && self.host_count < 60) || resolve {
                self.stats.nested += 1;
                self.exec(op);
            }
        }
        self.depth -= 1;
        m = self.machs.pop().unwrap();
        debug_assert!(m.i == mi);
        if let Some(f) = m.frames.last_mut() {
            f.acc = f.acc.wrapping_add(ret);
        }
        m.stop = Stop::Running;
        if !self.bad() {
            self.run_model(&mut m, None);
        }
        self.machs.push(m);
        ret
    }

    pub fn op_call(&mut self, i: usize, fid: u32, arg: u64, exec: u8) -> bool {
        if !self.callable(i, fid) {
            return false;
        }
        if self.mode == 0 && self.machs.len() >= self.maxdepth + 3 {
            return false;
        }
        let addr = self.fn_addr(i, fid);
        {
            let e = self.engs[i].as_ref().unwrap();
            let f = &e.fns[&fid];
            let want = e.at(f.page, f.lo);
            if addr != want {
                self.find("query.fn", format!("function {fid}: address {addr:#x}, emitted at {want:#x}"));
                return true;
            }
        }
        self.stats.calls += 1;
        if self.mode == 1 && exec > 0 && green::s().n > 1 {
            let t = 1 + (exec as usize - 1) % (green::s().n - 1);
            if self.jobs.len() >= 500 {
                return false;
            }
            self.jobs.push(Job { i, fid, arg, addr, done: false, result: 0, checked: false });
            let k = self.jobs.len() - 1;
            self.queues[t].push_back(k);
            if green::s().st[t] == St::Idle {
                green::s().st[t] = St::Runnable;
            }
            return true;
        }
        if self.mode == 1 && !self.idle() {
            // the emitter itself calls natively: only when nobody shares the cells
            return false;
        }
        let mut m = Mach { i, frames: vec![Frame { fid, pc: 0, acc: 0, arg }], stop: Stop::Running };
        self.run_model(&mut m, None);
        self.machs.push(m);
        let p: extern "C" fn(u64) -> u64 = unsafe { std::mem::transmute(addr) };
        let got = p(arg);
        let m = self.machs.pop().unwrap();
        if self.bad() {
            return true;
        }
        self.check_result(i, fid, arg, got, m.stop);
        true
    }

    pub fn check_result(&mut self, i: usize, fid: u32, arg: u64, got: u64, stop: Stop) {
        let f = self.engs[i].as_mut().unwrap().fns.get_mut(&fid).unwrap();
        f.calls += 1;
        let first = !f.good;
        if stop == Stop::Done(got) {
            f.good = true;
            if first {
                self.stats.first_calls += 1;
            }
            self.hash = h(self.hash, got);
        } else {
            self.find(
                if first { "result.first" } else { "result.changed" },
                format!("engine {i} function {fid}({arg:#x}) returned {got:#x}, expected {stop:?}"),
            );
        }
    }

    /// Evaluate finished calls of the executors.
    pub fn collect(&mut self) {
        if self.mode != 1 {
            return;
        }
        for k in 0..self.jobs.len() {
            if self.jobs[k].done && !self.jobs[k].checked {
                self.jobs[k].checked = true;
                let (i, fid, arg, got) = (self.jobs[k].i, self.jobs[k].fid, self.jobs[k].arg, self.jobs[k].result);
                let mut q: VecDeque<(u32, u32)> = green::s()
                    .passes
                    .iter()
                    .filter(|p| p.call == k as u32 + 1)
                    .map(|p| (p.site & 0xffff, p.choice))
                    .collect();
                self.stats.passes += q.len() as u64;
                let mut m = Mach { i, frames: vec![Frame { fid, pc: 0, acc: 0, arg }], stop: Stop::Running };
                self.run_model(&mut m, Some(&mut q));
                if !q.is_empty() {
                    self.find("flow", format!("call {k} of function {fid} passed {} more patchable jumps than expected", q.len()));
                }
                self.check_result(i, fid, arg, got, m.stop);
                if self.bad() {
                    return;
                }
            }
        }
    }

    pub fn drain(&mut self) {
        if self.mode != 1 {
            return;
        }
        let g = green::s();
        if g.on && (1..g.n).any(|t| g.st[t] == St::Runnable) {
            green::yield_as(St::Waiting);
        }
        self.collect();
    }

    // ---- patching -------------------------------------------------------------------
    fn op_patch(&mut self, i: usize, sid: u32, k: u8, by_addr: bool) -> bool {
        let mut e = self.engs[i].take().unwrap();
        let ok = match e.sites.get(&sid) {
            Some(s) => s.epoch < e.finals && s.alts.get(&k).map_or(false, |a| (self.mode == 0 && self.depth == 0) || e.seg_ready(a.seg)),
            None => false,
        };
        if !ok {
            self.engs[i] = Some(e);
            return false;
        }
        let s = &e.sites[&sid];
        let (sl, al) = (s.label, s.alts[&k].label);
        let site_addr = e.at(s.page, s.lo);
        let alt_addr = e.at(s.alts[&k].page, s.alts[&k].lo);
        let cur_addr = e.at(s.alts[&s.cur].page, s.alts[&s.cur].lo);
        let cur = s.cur;
        let gid = (i as u32) << 16 | sid;
        let g = green::s();
        if self.mode == 1 {
            match g.sites.iter_mut().find(|r| r.addr == site_addr) {
                Some(r) => {
                    r.next = (k as u32, alt_addr);
                    r.in_flight = true;
                }
                None => g.sites.push(green::SiteRec {
                    addr: site_addr,
                    id: gid,
                    cur: (cur as u32, cur_addr),
                    next: (k as u32, alt_addr),
                    in_flight: true,
                }),
            }
        }
        let stepping = self.mode == 1 && self.lib_step;
        // Neighbourhood of the jump and the start of all pages, before and after.
        let r = quietly(|| {
            let p = if by_addr { Some(e.j().get_label_address(sl)) } else { None };
            if stepping {
                if self.watch {
                    g.watch = site_addr;
                    g.watch_val = unsafe { std::ptr::read_unaligned(site_addr as *const u64) };
                }
                g.lib = true;
                unsafe { green::gt_step_on() };
            }
            match p {
                Some(p) => e.j().apply_jmp_patch_address(p, al),
                None => e.j().apply_jmp_patch(sl, al),
            }
            if stepping {
                unsafe { green::gt_step_off() };
                g.lib = false;
                g.watch = 0;
            }
        });
        unsafe { green::gt_step_off() };
        g.lib = false;
        g.watch = 0;
        if let Err(m) = r {
            self.find("panic.patch", m);
        }
        if self.mode == 1 {
            let r = g.sites.iter_mut().find(|r| r.addr == site_addr).unwrap();
            r.cur = r.next;
            r.in_flight = false;
        }
        let s = e.sites.get_mut(&sid).unwrap();
        s.cur = k;
        s.patches += 1;
        self.stats.patches += 1;
        self.engs[i] = Some(e);
        true
    }

    /// Tell the scheduler about a jump that executors may pass.
    fn register_sites(&mut self, i: usize) {
        if self.mode != 1 {
            return;
        }
        let e = self.engs[i].as_ref().unwrap();
        let g = green::s();
        for (sid, s) in &e.sites {
            let a = e.at(s.page, s.lo);
            if !g.sites.iter().any(|r| r.addr == a) {
                let alt = &s.alts[&s.cur];
                let d = (s.cur as u32, e.at(alt.page, alt.lo));
                g.sites.push(green::SiteRec { addr: a, id: (i as u32) << 16 | sid, cur: d, next: d, in_flight: false });
            }
        }
    }

    // ---- failing emissions ----------------------------------------------------------
    fn op_fail(&mut self, i: usize, kind: u8, a: u32) -> bool {
        let mut e = self.engs[i].take().unwrap();
        let page = e.page;
        if e.full[page] {
            self.engs[i] = Some(e);
            return false;
        }
        let kind = kind % 26;
        let fl = e.fn_label(a % 40);
        let cell = e.cells.values().nth(a as usize % e.cells.len().max(1)).map(|c| c.label);
        let sl = e.sites.values().next().map(|s| (s.label, s.epoch < e.finals));
        // labels that are not bound but referred to, perhaps
        let mut open: Vec<DestLabel> = e.rl.values().filter(|r| r.at.is_none()).map(|r| r.label).collect();
        open.extend(e.cells.values().filter(|c| c.addr == 0 && c.epoch == e.finals).map(|c| c.label));
        open.extend(e.fn_labels.iter().filter(|(f, _)| !e.fns.contains_key(f)).map(|(_, l)| *l));
        open.extend(e.dets.values().filter(|d| d.epoch.is_none()).map(|d| d.label));
        let open = if open.is_empty() || (a >> 2) % 4 == 0 { None } else { Some(open[(a as usize * 40503 >> 4) % open.len()]) };
        let mut decl: Option<(u32, DestLabel, i64)> = None;
        let pos0 = e.pos[page];
        let finals = e.finals;
        let mut eng_marks = vec![];
        let r = quietly(|| {
            let jit = e.jit.as_mut().unwrap();
            match kind {
                0 => monoasm!( &mut **jit, movl [rip + fl], (1i64 << 40); ),
                1 => {
                    let l = jit.label();
                    monoasm!( &mut **jit, addq rax, (a as i32); jmp l; movq rax, (boom(1)); l: );
                }
                2 => {
                    let l = open.unwrap_or_else(|| jit.label());
                    match a % 4 {
                        0 => {
                            jit.get_label_address(l);
                        }
                        1 => {
                            jit.get_label_u64(l);
                        }
                        2 => {
                            let _: extern "C" fn(u64) -> u64 = jit.get_label_addr(l);
                        }
                        _ => {
                            let _: extern "C" fn(u64, u64) -> u64 = jit.get_label_addr2(l);
                        }
                    }
                }
                3 => jit.select_page(2 + (a as usize % 3)),
                4 => {
                    let l = open.unwrap_or_else(|| jit.label());
                    match sl {
                        Some((s, true)) => jit.apply_jmp_patch(s, l),
                        _ => jit.apply_jmp_patch(l, l),
                    }
                }
                5 => monoasm!( &mut **jit, shlq rax, R(3 + (a as u64 % 8)); ),
                6 => monoasm!( &mut **jit, addw rax, (70000 + a as i64); ),
                7 => {
                    let v = (a as i64).wrapping_mul(0x1234567) ^ 0x5a5a;
                    let l = if a % 2 == 0 { jit.const_i64(v) } else { jit.data_i64(v) };
                    decl = Some((1000 + a, l, v));
                    monoasm!( &mut **jit, movq rax, [rip + l]; movq rax, (boom(2)); );
                }
                8 => monoasm!( &mut **jit, call fl; jne fl; cmpq rax, (boom(3)); ),
                9 => monoasm!( &mut **jit, addq rcx, 1; movq R(16), (a as i64); ),
                10 => {
                    let l = jit.label();
                    jit.bind_label(l);
                    eng_marks.push((page, pos0, l));
                    for k in 0..a % 37 {
                        jit.emitb(k as u8);
                    }
                    boom(4);
                }
                11 => {
                    let _ = jit.abs_address(fl);
                    boom(5);
                }
                12 => {
                    jit.select_page(1 - page);
                    boom(6);
                }
                13 => {
                    if let Some(c) = cell {
                        monoasm!( &mut **jit, lea rax, [rip + c]; movb [rip + c], (300 + a as i64); );
                    } else {
                        boom(7);
                    }
                }
                14 => {
                    if let Some(c) = cell {
                        monoasm!( &mut **jit, cmpq [rip + c], (boom(8)); );
                    } else {
                        monoasm!( &mut **jit, testb rcx, (1000); );
                    }
                }
                24 => {
                    // no such page
                    let l = open.unwrap_or_else(|| jit.label());
                    jit.bind_label_with_page(Page(3 + a as usize % 5), l);
                }
                25 => jit[Page(3 + a as usize % 5)].emitb(a as u8),
                16 => monoasm!( &mut **jit, addq R(16), (a as i32); ),
                17 => monoasm!( &mut **jit, movq rax, R(16); ),
                18 => monoasm!( &mut **jit, movq R(16), [rax]; ),
                19 => monoasm!( &mut **jit, movl [rip + fl], R(16); ),
                20 => monoasm!( &mut **jit, movq rax, [rcx + R(16 + (a as u64 % 3)) * 4]; ),
                21 => {
                    let r = if a % 2 == 0 { 16 } else { 17 };
                    monoasm!( &mut **jit, lea R(r), [rip + fl]; );
                    boom(10);
                }
                22 => {
                    let l = jit.label();
                    jit.bind_label(l);
                    monoasm!( &mut **jit, xorq R(16), rax; );
                    boom(11);
                }
                23 => {
                    monoasm!( &mut **jit, movsd xmm(17), [rip + fl]; );
                    boom(12);
                }
                _ => {
                    // many labels and references, then the failure
                    for k in 0..(a % 50) {
                        let l = jit.label();
                        monoasm!( &mut **jit, jmp l; );
                        if k % 3 == 0 {
                            jit.bind_label(l);
                        }
                    }
                    boom(9);
                }
            }
        });
        if r.is_err() {
            self.stats.panics_caught += 1;
            self.count("fault: panic while assembling");
        }
        let expect_page = if kind == 12 { 1 - page } else { page };
        let got = e.j().get_page();
        if kind == 2 && r.is_ok() && open.is_none() {
            self.find("query.unbound", "the address of an unbound label was answered".into());
        }
        if got != expect_page {
            self.find("fail.page", format!("failing operation {kind}: selected page was {expect_page}, is {got}"));
        }
        e.j().select_page(page);
        let now = e.j().get_current();
        if now < pos0 {
            self.find("fail.pos", format!("failing operation {kind}: position went back from {pos0} to {now}"));
        }
        if matches!(kind, 2 | 3 | 4 | 24 | 25) && now != pos0 {
            self.find("fail.pos", format!("failing operation {kind}: position moved from {pos0} to {now}"));
        }
        e.pos[page] = now;
        if kind == 10 && now == pos0 + (a % 37) as usize {
            let lo = pos0;
            let k = e.segs.len();
            e.segs.push(Seg {
                page,
                lo,
                hi: now,
                epoch: finals,
                deps: vec![],
                expect: Some((0..a % 37).map(|k| k as u8).collect()),
                frozen: None,
                site: None,
                refs: vec![],
                label: eng_marks.first().map(|m| m.2),
            });
            let _ = k;
        }
        if let Some((cid, label, v)) = decl {
            if !e.cells.contains_key(&cid) {
                e.cells.insert(
                    cid,
                    CellI {
                        label,
                        kind: CellKind::I64(v),
                        data: a % 2 != 0,
                        page,
                        epoch: finals,
                        val: v.to_le_bytes().to_vec(),
                        addr: 0,
                        written: false,
                    },
                );
            }
        }
        self.engs[i] = Some(e);
        true
    }

    // ---- queries --------------------------------------------------------------------
    /// What an engine among others answers is kept for the comparison.
    fn op_answers(&mut self, i: usize) -> bool {
        let e = self.engs[i].as_mut().unwrap();
        let (b, ps, home) = (e.base, e.psize, e.page);
        let mut x = e.j().get_page() as u64;
        for p in [home, 1 - home] {
            let j = e.j();
            j.select_page(p);
            x = h(x, j.get_page() as u64);
            x = h(x, j.get_current() as u64);
            x = h(x, (j.get_current_address().as_ptr() as usize).wrapping_sub(b) as u64);
            for a in [b - 1, b, b + ps - 1, b + ps, b + 2 * ps - 1, b + 2 * ps, 0] {
                x = h(x, j.include(a as *mut u8) as u64);
            }
            let sl = j.as_slice();
            x = h(x, (sl.as_ptr() as usize).wrapping_sub(b) as u64);
            x = h(x, sl.len() as u64);
            for c in blocks(j).into_iter().flatten() {
                x = h(h(h(x, c.0 as u64), c.1 as u64), c.2 as u64);
            }
        }
        e.j().select_page(home);
        // (only labels that are bound: no panic while several emitters run)
        let finals = e.finals;
        let mut ls: Vec<DestLabel> = e.fns.values().map(|f| f.label).collect();
        ls.extend(e.cells.values().filter(|c| c.epoch < finals).map(|c| c.label));
        ls.extend(e.sites.values().map(|s| s.label));
        ls.extend(e.rl.values().filter(|r| r.at.is_some()).map(|r| r.label));
        ls.sort_by_key(|l| l.to_usize());
        for l in ls {
            let v = e.ask(l);
            x = h(x, l.to_usize() as u64);
            x = h(x, v.is_some() as u64);
            for a in v.into_iter().flatten() {
                x = h(x, a as u64);
            }
        }
        e.answers.push(x);
        self.stats.queries += 1;
        true
    }

    pub fn op_query(&mut self, i: usize) -> bool {
        let others: Vec<(usize, usize)> = (0..self.engs.len())
            .filter(|k| *k != i)
            .filter_map(|k| self.engs[k].as_ref().map(|e| (e.base, e.psize)))
            .collect();
        let mut e = self.engs[i].take().unwrap();
        let mut out: Vec<(&str, String)> = vec![];
        let home = e.page;
        if e.j().get_page() != home {
            out.push(("query.page", format!("selected page {}, expected {home}", e.j().get_page())));
        }
        let (b, ps) = (e.base, e.psize);
        for p in [home, 1 - home] {
            e.j().select_page(p);
            if e.j().get_page() != p {
                out.push(("query.page", format!("selected page {}, expected {p}", e.j().get_page())));
            }
            let cur = e.j().get_current();
            if cur != e.pos[p] {
                out.push(("stream.pos", format!("page {p}: position {cur}, expected {}", e.pos[p])));
                e.pos[p] = cur;
            }
            let a = e.j().get_current_address().as_ptr() as usize;
            if a != e.at(p, cur) {
                out.push(("query.current", format!("page {p}: current address {a:#x}, expected {:#x}", e.at(p, cur))));
            }
            let mut probes: Vec<(usize, bool)> = vec![
                (b, true),
                (b + 1, true),
                (b - 1, false),
                (b - ps, false),
                (b + ps - 1, true),
                (b + ps, true),
                (b + ps + 1, true),
                (b + ps / 2 + cur, ps / 2 + cur < 2 * ps),
                (b + 2 * ps - 1, true),
                (b + 2 * ps, false),
                (b + 2 * ps + 1, false),
                (b + 3 * ps - 1, false),
                (b + 3 * ps, false),
                (1, false),
                (0, false),
                (usize::MAX, false),
                (b ^ (1 << 47), false),
                (b ^ (1 << 63), false),
                (b + 16, true),
                (e.at(p, cur), p * ps + cur < 2 * ps),
                (&out as *const _ as usize, false),
                (host_cb as *const () as usize, false),
            ];
            if b > 1 << 32 {
                probes.push((b & 0xffff_ffff, false));
            }
            probes.push((b + (1 << 32), false));
            for (ob, ops) in &others {
                probes.push((*ob, false));
                probes.push((ob + ops, false));
                probes.push((ob + 2 * ops, false));
            }
            for (x, want) in probes {
                let got = e.j().include(x as *mut u8);
                if got != want {
                    let rel = x as i128 - b as i128;
                    out.push(("query.include", format!("page {p} selected: include(base{rel:+#x}) = {got}")));
                    break;
                }
            }
            // records
            let exp: Vec<(usize, usize, usize)> = e.blocks[p].clone();
            let got: Vec<(usize, usize, usize)> = blocks(e.j()).map_or_else(|| exp.clone(), |b| b.collect());
            if exp != got && !e.lost {
                out.push(("stream.block", format!("page {p}: block records {got:?}, expected {exp:?}")));
            }
            let n = exp.last().map_or(0, |b| b.1);
            let sl = e.j().as_slice();
            let (sa, sn) = (sl.as_ptr() as usize, sl.len());
            if sa != b + p * ps || (sn != n && !e.lost) {
                out.push(("stream.slice", format!("page {p}: readable code {sn} bytes, expected {n}")));
            }
        }
        // bytes by position, on the selected and on either page
        for q in [0, e.pos[home] / 2, e.pos[home], ps - 1] {
            let r = quietly(|| {
                let j = e.j();
                j.select_page(home);
                let a = &j[Pos::from(q)] as *const u8 as usize;
                let b = &mut j[Pos::from(q)] as *mut u8 as usize;
                let c = &j[Page(0)][Pos::from(q)] as *const u8 as usize;
                let d = &mut j[Page(1)][Pos::from(q)] as *mut u8 as usize;
                [a, b, c, d]
            });
            let (h, z, o) = (e.at(home, q), e.at(0, q), e.at(1, q));
            match r {
                Ok(v) if v == [h, h, z, o] => {}
                v => out.push(("stream.slice", format!("page {home} selected: position {q:#x} is at {v:x?}, expected {h:#x}, {z:#x}, {o:#x}"))),
            }
        }
        for q in [ps, ps + 1, ps * 3, 1 << 32, usize::MAX] {
            let j = e.j();
            if let Ok(a) = quietly(|| &mut j[Pos::from(q)] as *mut u8 as usize) {
                out.push(("full.outside", format!("position {q:#x}, beyond the page, can be written (at {a:#x})")));
            } else if let Ok(a) = quietly(|| &mut j[Page(0)][Pos::from(q)] as *mut u8 as usize) {
                out.push(("full.outside", format!("position {q:#x}, beyond page 0, can be written (at {a:#x})")));
            }
        }
        e.j().select_page(home);
        // labels
        let ls = e.places();
        for (l, want, what) in ls {
            let r = quietly(|| {
                let j = e.j();
                let a = j.get_label_address(l).as_ptr() as usize;
                let b = j.get_label_u64(l) as usize;
                let c: extern "C" fn(u64) -> u64 = j.get_label_addr(l);
                let d: extern "C" fn(u64, u64) -> u64 = j.get_label_addr2(l);
                [a, b, c as *const () as usize, d as *const () as usize]
            });
            match r {
                Ok(v) => {
                    if v.iter().any(|x| *x != want) {
                        out.push(("query.label", format!("{what}: addresses {v:#x?}, expected {want:#x}")));
                    }
                }
                Err(m) => out.push(("query.label", format!("{what}: {m}"))),
            }
            if out.len() > 3 {
                break;
            }
        }
        let mut un: Vec<(DestLabel, String)> = vec![];
        if let Some(l) = e.spare.first() {
            un.push((*l, "unused".into()));
        }
        if let Some((k, r)) = e.rl.iter().rev().find(|(_, r)| r.at.is_none()) {
            un.push((r.label, format!("{k}")));
        }
        if let Some((k, c)) = e.cells.iter().rev().find(|(_, c)| c.addr == 0) {
            un.push((c.label, format!("of cell {k}")));
        }
        for (l, what) in un {
            if e.lost {
                break;
            }
            let j = e.j();
            let r = [
                quietly(|| j.get_label_address(l).as_ptr() as usize),
                quietly(|| j.get_label_u64(l) as usize),
                quietly(|| {
                    let f: extern "C" fn(u64) -> u64 = j.get_label_addr(l);
                    f as *const () as usize
                }),
                quietly(|| {
                    let f: extern "C" fn(u64, u64) -> u64 = j.get_label_addr2(l);
                    f as *const () as usize
                }),
            ];
            self.stats.panics_caught += 4;
            if let Some(n) = r.iter().position(|r| r.is_ok()) {
                out.push(("query.unbound", format!("label {what} is not bound, way {n} of asking gave {:#x}", r[n].as_ref().unwrap())));
            }
        }
        self.stats.queries += 1;
        self.engs[i] = Some(e);
        for (c, d) in out.into_iter().take(3) {
            self.find(c, d);
        }
        true
    }

    // ---- raw bytes ------------------------------------------------------------------
    /// Bytes for the page that is not selected, through its own interface.
    fn op_raw_other(&mut self, i: usize, how: u8, n: u32, val: u64) -> bool {
        let mut e = self.engs[i].take().unwrap();
        let (sel, p) = (e.page, 1 - e.page);
        if e.full[p] {
            self.engs[i] = Some(e);
            return false;
        }
        let (lo, keep) = (e.pos[p], e.j().get_current());
        let mut x = val | 1;
        let mut exp: Vec<u8> = vec![];
        let label = e.j().label();
        e.j().bind_label_with_page(Page(p), label);
        for _ in 0..n {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let v = x ^ (x >> 29);
            let pg = &mut e.j()[Page(p)];
            match how % 4 {
                0 => {
                    pg.emitb(v as u8);
                    exp.push(v as u8);
                }
                1 => {
                    pg.emitw(v as u16);
                    exp.extend_from_slice(&(v as u16).to_le_bytes());
                }
                2 => {
                    pg.emitl(v as u32);
                    exp.extend_from_slice(&(v as u32).to_le_bytes());
                }
                _ => {
                    pg.emitq(v);
                    exp.extend_from_slice(&v.to_le_bytes());
                }
            }
        }
        self.count("emission to the page not selected");
        if e.j().get_page() != sel || e.j().get_current() != keep {
            self.find("stream.pos", format!("page {sel}: position or selection changed by emission to page {p}"));
        } else if !mem_eq(e.at(p, lo), &exp) {
            self.find("stream.bytes", format!("page {p}: bytes at {lo:#x} are not those emitted there while page {sel} was selected"));
        }
        let epoch = e.finals;
        e.pos[p] = lo + exp.len();
        e.segs.push(Seg {
            page: p,
            lo,
            hi: lo + exp.len(),
            epoch,
            deps: vec![],
            expect: Some(exp),
            frozen: None,
            site: None,
            label: Some(label),
            refs: vec![],
        });
        self.engs[i] = Some(e);
        true
    }

    fn op_raw(&mut self, i: usize, how: u8, n: u32, val: u64) -> bool {
        if how >= 8 {
            return self.op_raw_other(i, how, n, val);
        }
        let mut e = self.engs[i].take().unwrap();
        if e.full[e.page] {
            self.engs[i] = Some(e);
            return false;
        }
        let page = e.page;
        let mut x = val | 1;
        let mut exp: Vec<u8> = vec![];
        let label = e.j().label();
        let ca = e.j().get_current_address().as_ptr() as usize;
        let k = e.seg(&[], |jit| {
            jit.bind_label(label);
            for _ in 0..n {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let v = x ^ (x >> 29);
                match how {
                    5 => {
                        let b = match v % 6 {
                            0 => {
                                monoasm!( &mut *jit, dq 3.141592653589793; );
                                3.141592653589793f64.to_bits()
                            }
                            1 => {
                                monoasm!( &mut *jit, dq 1e300; );
                                1e300f64.to_bits()
                            }
                            2 => {
                                monoasm!( &mut *jit, dq 0x7edc_ba98_7654_3210; );
                                0x7edc_ba98_7654_3210
                            }
                            3 => {
                                monoasm!( &mut *jit, dq 0; );
                                0
                            }
                            4 => {
                                monoasm!( &mut *jit, dq 4294967295; );
                                4294967295
                            }
                            _ => {
                                monoasm!( &mut *jit, dq 0.0; );
                                0
                            }
                        };
                        exp.extend_from_slice(&b.to_le_bytes());
                    }
                    0 => {
                        jit.emitb(v as u8);
                        exp.push(v as u8);
                    }
                    1 => {
                        jit.emitw(v as u16);
                        exp.extend_from_slice(&(v as u16).to_le_bytes());
                    }
                    2 => {
                        jit.emitl(v as u32);
                        exp.extend_from_slice(&(v as u32).to_le_bytes());
                    }
                    3 => {
                        jit.emitq(v);
                        exp.extend_from_slice(&v.to_le_bytes());
                    }
                    _ => {
                        let m = (v >> 60) as usize;
                        let b: Vec<u8> = (0..m).map(|q| (v >> q) as u8).collect();
                        jit.emit(&b);
                        exp.extend_from_slice(&b);
                    }
                }
            }
        });
        let (lo, hi) = (e.segs[k].lo, e.segs[k].hi);
        if hi - lo != exp.len() {
            self.find("stream.pos", format!("page {page}: {} bytes emitted, position moved by {}", exp.len(), hi as i64 - lo as i64));
            e.segs[k].hi = lo;
        } else {
            if ca != e.at(page, lo) {
                self.find("query.current", format!("page {page}: current address was {ca:#x}, bytes went to {:#x}", e.at(page, lo)));
            } else if !mem_eq(ca, &exp) {
                self.find("stream.bytes", format!("page {page}: bytes at the current address {ca:#x} are not those emitted"));
            }
            e.segs[k].expect = Some(exp);
        }
        e.segs[k].label = Some(label);
        self.engs[i] = Some(e);
        true
    }

    fn rlabel(e: &mut Eng, id: u32) -> DestLabel {
        if let Some(r) = e.rl.get(&id) {
            return r.label;
        }
        let label = e.some_label();
        e.rl.insert(id, Rl { label, at: None, epoch: 0 });
        label
    }

    fn op_bind(&mut self, i: usize, id: u32, on: Option<u8>) -> bool {
        let e = self.engs[i].as_mut().unwrap();
        let p = on.map_or(e.page, |p| p as usize & 1);
        if e.full[p] && e.lost {
            return false;
        }
        let l = Self::rlabel(e, id);
        match on {
            None => e.j().bind_label(l),
            Some(_) if e.full[p] && id % 2 == 0 => {
                let home = e.page;
                e.j().select_page(p);
                e.j().bind_label(l);
                e.j().select_page(home);
            }
            Some(_) => e.j().bind_label_with_page(Page(p), l),
        }
        let at = (p, e.pos[p]);
        let finals = e.finals;
        let r = e.rl.get_mut(&id).unwrap();
        if r.at.is_none() {
            r.epoch = finals;
        }
        r.at = Some(at);
        true
    }

    fn op_ref(&mut self, i: usize, t: u8, id: u32, form: u16, n: u32, val: u64) -> bool {
        let mut e = self.engs[i].take().unwrap();
        if e.full[e.page] || (t == 1 && !e.cells.contains_key(&id)) || n == 0 {
            self.engs[i] = Some(e);
            return false;
        }
        let form = form as usize % crate::refs::NREF;
        let (l, dep) = match t {
            0 => (Self::rlabel(&mut e, id), Dep::Label(id)),
            1 => (e.cells[&id].label, Dep::Cell(id)),
            2 => (e.fn_label(id), Dep::Fn(id)),
            _ => {
                // some label inside a function
                let mut v: Vec<(DestLabel, usize, usize)> = vec![];
                for s in e.sites.values() {
                    v.push((s.label, s.page, s.lo));
                    v.extend(s.alts.values().map(|a| (a.label, a.page, a.lo)));
                }
                v.extend(e.dets.values().filter(|d| d.epoch.is_some()).map(|d| (d.label, e.segs[d.seg].page, e.segs[d.seg].lo)));
                v.extend(e.segs.iter().rev().filter(|s| s.label.is_some()).take(6).map(|s| (s.label.unwrap(), s.page, s.lo)));
                if v.is_empty() {
                    self.engs[i] = Some(e);
                    return false;
                }
                let (l, p, lo) = v[id as usize % v.len()];
                (l, Dep::At(p, lo))
            }
        };
        let mut ends = vec![];
        let k = e.seg(&[dep], |jit| {
            let mut v = val;
            for k in 0..n {
                let f = if k == 0 { form } else { (form + (v >> 7) as usize) % crate::refs::NREF };
                crate::refs::emit(jit, f, l, v);
                ends.push((jit.get_current(), f));
                v = v.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            }
        });
        e.segs[k].refs = ends;
        self.engs[i] = Some(e);
        true
    }

    /// Move the end of a page on.
    fn op_far(&mut self, i: usize, page: u8, n: u32) -> bool {
        let p = page as usize % 3;
        if self.mode != 0 || self.depth > 0 {
            return false;
        }
        let mut e = self.engs[i].take().unwrap();
        let room = if p < 2 { e.psize.saturating_sub(e.pos[p]) } else { e.psize / 2 };
        if e.lost || e.full[p] || (n as usize) + (8 << 20) > room {
            self.engs[i] = Some(e);
            return false;
        }
        let home = e.page;
        if p < 2 {
            e.j().select_page(p);
        }
        let label = if p < 2 { e.j().constant(n as usize) } else { e.j().data(n as usize) };
        e.j().select_page(home);
        self.engs[i] = Some(e);
        self.op_finalize(i, false);
        if self.bad() {
            return true;
        }
        let e = self.engs[i].as_mut().unwrap();
        let a = e.j().get_label_u64(label) as usize;
        let (lo, hi) = (e.at(p, 0), e.at(p + 1, 0));
        if a < lo || a + n as usize > hi {
            self.find("cell.place", format!("block of {n} bytes at {a:#x}, page {lo:#x}..{hi:#x}"));
        }
        *self.stats.kinds.entry("positions beyond 16 MB".into()).or_insert(0) += (n > 1 << 24) as u64;
        true
    }

    fn op_cell(&mut self, i: usize, cid: u32, data: bool, kind: CellKind) -> bool {
        let mut e = self.engs[i].take().unwrap();
        let page = e.page;
        if e.cells.contains_key(&cid) || e.full[if data { 2 } else { page }] {
            self.engs[i] = Some(e);
            return false;
        }
        let mut data = data;
        let (label, val) = match kind {
            CellKind::I64(v) => (if data { e.j().data_i64(v) } else { e.j().const_i64(v) }, v.to_le_bytes().to_vec()),
            CellKind::F64(v) => {
                data = false;
                (e.j().const_f64(f64::from_bits(v)), v.to_le_bytes().to_vec())
            }
            CellKind::I32(v) => (if data { e.j().data_i32(v) } else { e.j().const_i32(v) }, v.to_le_bytes().to_vec()),
            CellKind::Bytes(n) => {
                let n = n as usize;
                (if data { e.j().data(n) } else { e.j().constant(n) }, vec![0; n])
            }
            CellKind::Abs(f) => {
                data = false;
                let l = e.fn_label(f);
                (e.j().abs_address(l), vec![0; 8])
            }
            CellKind::Align8 => {
                data = false;
                (e.j().const_align8(), vec![])
            }
        };
        let epoch = e.finals;
        e.cells.insert(cid, CellI { label, kind, data, page, epoch, val, addr: 0, written: false });
        self.engs[i] = Some(e);
        true
    }

    fn op_detour(&mut self, i: usize, did: u32, add: i32) -> bool {
        let mut e = self.engs[i].take().unwrap();
        let ok = matches!(e.dets.get(&did), Some(d) if d.epoch.is_none()) && !e.full[e.page];
        if !ok {
            self.engs[i] = Some(e);
            return false;
        }
        let (l, back) = (e.dets[&did].label, e.dets[&did].back.unwrap());
        let k = e.seg(&[], |jit| monoasm!( &mut *jit, l: addq r12, (add); jmp back; ));
        let ep = e.finals;
        let d = e.dets.get_mut(&did).unwrap();
        d.add = add;
        d.epoch = Some(ep);
        d.seg = k;
        self.engs[i] = Some(e);
        true
    }

    fn op_alt(&mut self, i: usize, sid: u32, k: u8, add: i32) -> bool {
        let mut e = self.engs[i].take().unwrap();
        let ok = matches!(e.sites.get(&sid), Some(s) if !s.alts.contains_key(&k)) && !e.full[e.page];
        if !ok {
            self.engs[i] = Some(e);
            return false;
        }
        let end = e.sites[&sid].end;
        let l = e.j().label();
        let page = e.page;
        let epoch = e.finals;
        let lo = e.j().get_current();
        let seg = e.seg(&[], |jit| monoasm!( &mut *jit, l: rolq r12, 7; addq r12, (add); jmp end; ));
        e.sites.get_mut(&sid).unwrap().alts.insert(k, AltI { label: l, add, seg, epoch, page, lo });
        self.engs[i] = Some(e);
        true
    }

    fn op_resolve(&mut self, i: usize) -> bool {
        let todo: Vec<u32>;
        let fns: Vec<u32>;
        {
            let e = self.engs[i].as_ref().unwrap();
            todo = e.dets.iter().filter(|(_, d)| d.epoch.is_none()).map(|(k, _)| *k).collect();
            let mut want: BTreeSet<u32> = BTreeSet::new();
            for f in e.fns.values() {
                for el in &f.body {
                    if let Elem::Call { fid, .. } | Elem::Lea { fid } = el {
                        want.insert(*fid);
                    }
                }
            }
            fns = want.into_iter().filter(|f| !e.fns.contains_key(f)).collect();
        }
        for d in todo {
            self.op_detour(i, d, 1000 + d as i32);
        }
        for f in fns {
            self.op_fn(i, f, 9, &[Elem::Add(7 * f as i32 + 1), Elem::Arg]);
        }
        self.op_finalize(i, false)
    }

    fn op_move(&mut self, i: usize, how: u8) -> bool {
        let e = self.engs[i].as_mut().unwrap();
        let b = e.jit.take().unwrap();
        let j: JitMemory = *b;
        let nb = match how % 3 {
            0 => Box::new(j),
            1 => {
                let mut v: Vec<JitMemory> = vec![];
                v.push(j);
                v.reserve(7);
                Box::new(v.pop().unwrap())
            }
            _ => {
                let mut arr = [Some(j), None];
                arr.swap(0, 1);
                let [_, x] = arr;
                Box::new(x.unwrap())
            }
        };
        e.jit = Some(nb);
        true
    }

    fn op_drop(&mut self, i: usize, how: u8) -> bool {
        let ids: Vec<u32> = self.engs[i].as_ref().unwrap().fns.keys().cloned().collect();
        for f in ids {
            if self.callable(i, f) {
                let a = self.fn_addr(i, f);
                self.engs[i].as_mut().unwrap().fns.get_mut(&f).unwrap().addr = a;
            }
        }
        let e = self.engs[i].as_mut().unwrap();
        let j = e.jit.take();
        let r = match how {
            1 | 2 => {
                self.count("engine dropped by unwinding");
                let r = quietly(move || {
                    let mut j = j;
                    if how == 2 {
                        j.as_mut().unwrap().select_page(7);
                    }
                    std::panic::panic_any("planned");
                });
                self.stats.panics_caught += 1;
                r.or(Ok(()))
            }
            _ => quietly(|| drop(j)),
        };
        if let Err(m) = r {
            self.find("panic.drop", m);
        }
        true
    }

    // ---- the interpreter ------------------------------------------------------------
    pub fn exec(&mut self, op: &Op) {
        let i = inst_of(op);
        if i != usize::MAX && !matches!(op, Op::New { .. }) {
            let usable = match op {
                Op::Call { .. } | Op::Verify { .. } => self.has(i as u8),
                // an engine must not be moved or dropped while its code is on the stack
                Op::Move { .. } | Op::Drop { .. } => self.live(i as u8) && self.machs.is_empty(),
                _ => self.live(i as u8),
            };
            if !usable {
                self.stats.skipped += 1;
                return;
            }
        }
        let f0 = self.findings.len();
        let r = quietly(|| self.exec1(op, i));
        match r {
            Ok(done) => {
                if done {
                    self.stats.ops += 1;
                    self.hash = h(self.hash, optag(op));
                } else {
                    self.stats.skipped += 1;
                }
            }
            Err(m) => {
                unsafe { green::gt_step_off() };
                if self.findings.len() == f0 {
                    self.find("panic.unexpected", format!("{}: {m}", opname(op)));
                }
            }
        }
    }

    fn exec1(&mut self, op: &Op, i: usize) -> bool {
        match op {
            Op::New { slot, dirty, fault, .. } => self.op_new(i, *slot, *dirty, *fault),
            Op::Page { p, .. } => {
                let p = *p as usize & 1;
                let e = self.engs[i].as_mut().unwrap();
                if e.full[p] {
                    return false;
                }
                e.j().select_page(p);
                e.page = p;
                let cur = e.j().get_current();
                if cur != e.pos[p] {
                    let want = e.pos[p];
                    e.pos[p] = cur;
                    self.find("stream.pos", format!("page {p}: position {cur} after selecting it, expected {want}"));
                }
                true
            }
            Op::Cell { cid, data, kind, .. } => self.op_cell(i, *cid, *data, *kind),
            Op::Fn { fid, align, body, .. } => {
                let r = self.op_fn(i, *fid, *align, body);
                self.register_sites(i);
                r
            }
            Op::Detour { did, add, .. } => self.op_detour(i, *did, *add),
            Op::Alt { sid, k, add, .. } => self.op_alt(i, *sid, *k, *add),
            Op::Resolve { .. } => self.op_resolve(i),
            Op::Finalize { step, .. } => self.op_finalize(i, *step),
            Op::Patch { sid, k, by_addr, .. } => self.op_patch(i, *sid, *k, *by_addr),
            Op::Call { fid, arg, exec, .. } => self.op_call(i, *fid, *arg, *exec),
            Op::Labels { n, .. } => {
                let e = self.engs[i].as_mut().unwrap();
                for _ in 0..*n {
                    let l = e.j().label();
                    if e.spare.len() < 40 {
                        e.spare.push(l);
                    } else {
                        e.spare[39] = l;
                    }
                }
                true
            }
            Op::Align { kind, .. } => {
                let mut e = self.engs[i].take().unwrap();
                self.align_eng(&mut e, *kind as usize % 4);
                self.engs[i] = Some(e);
                true
            }
            Op::Raw { how, n, val, .. } => self.op_raw(i, *how, *n, *val),
            Op::Bind { id, on, .. } => self.op_bind(i, *id, *on),
            Op::Ref { t, id, form, n, val, .. } => self.op_ref(i, *t, *id, *form, *n, *val),
            Op::Far { page, n, .. } => self.op_far(i, *page, *n),
            Op::Many { what, n, val, .. } => self.op_many(i, *what, *n, *val),
            Op::Drain => {
                self.drain();
                true
            }
            Op::Verify { .. } => {
                if self.mode == 0 && self.machs.iter().any(|m| m.i == i) {
                    return false;
                }
                self.freeze(i);
                true
            }
            Op::Fail { kind, a, .. } => self.op_fail(i, *kind, *a),
            Op::Move { how, .. } => {
                self.count("engine moved");
                self.op_move(i, *how)
            }
            Op::Drop { how, .. } => {
                self.count("engine dropped");
                self.op_drop(i, *how)
            }
            Op::OnThread { t } => {
                if !(Sent::<JitMemory>::CAN && Sent::<CodePtr>::CAN && Sent::<DestLabel>::CAN) {
                    self.find("thread.send", "the type of engines, code addresses or labels does not let them go to another thread".into());
                }
                self.next_thread = *t;
                true
            }
            Op::Query { .. } if self.mode == 2 => self.op_answers(i),
            Op::Query { .. } => self.op_query(i),
            Op::Ask { n, seed, .. } => self.op_ask(i, *n, *seed),
            Op::Dump { env, .. } => self.op_dump(i, env),
            Op::Fill { page, left, slow, .. } => self.op_fill(i, *page, *left, *slow),
            Op::Push { kind, val, .. } => self.op_push(i, *kind, *val),
            Op::PushCell { data, kind, keep, .. } => self.op_push_cell(i, *data, *kind, *keep),
            Op::Churn { n, val, leave } => self.op_churn(*n, *val, *leave),
        }
    }
}

/// The engine an operation is about.
pub fn inst_of(op: &Op) -> usize {
    match op {
        Op::New { i, .. }
        | Op::Page { i, .. }
        | Op::Cell { i, .. }
        | Op::Fn { i, .. }
        | Op::Detour { i, .. }
        | Op::Alt { i, .. }
        | Op::Resolve { i }
        | Op::Finalize { i, .. }
        | Op::Patch { i, .. }
        | Op::Call { i, .. }
        | Op::Labels { i, .. }
        | Op::Align { i, .. }
        | Op::Raw { i, .. }
        | Op::Bind { i, .. }
        | Op::Ref { i, .. }
        | Op::Far { i, .. }
        | Op::Many { i, .. }
        | Op::Verify { i }
        | Op::Fail { i, .. }
        | Op::Move { i, .. }
        | Op::Drop { i, .. }
        | Op::Query { i }
        | Op::Ask { i, .. }
        | Op::Dump { i, .. }
        | Op::Fill { i, .. }
        | Op::Push { i, .. }
        | Op::PushCell { i, .. } => *i as usize,
        Op::Drain | Op::OnThread { .. } | Op::Churn { .. } => usize::MAX,
    }
}

pub fn opname(op: &Op) -> &'static str {
    match op {
        Op::New { .. } => "new",
        Op::Page { .. } => "select page",
        Op::Cell { .. } => "declare cell",
        Op::Fn { .. } => "emit function",
        Op::Detour { .. } => "emit detour",
        Op::Alt { .. } => "emit alternative",
        Op::Resolve { .. } => "resolve",
        Op::Finalize { .. } => "finalize",
        Op::Patch { .. } => "patch",
        Op::Call { .. } => "call",
        Op::Labels { .. } => "labels",
        Op::Align { .. } => "align",
        Op::Raw { .. } => "emit bytes",
        Op::Bind { .. } => "bind label",
        Op::Ref { .. } => "emit references",
        Op::Far { .. } => "move on",
        Op::Many { .. } => "great number",
        Op::Drain => "drain",
        Op::Verify { .. } => "verify",
        Op::Fail { .. } => "failing emission",
        Op::Move { .. } => "move",
        Op::Drop { .. } => "drop",
        Op::OnThread { .. } => "thread",
        Op::Query { .. } => "query",
        Op::Ask { .. } => "questions by several threads",
        Op::Dump { .. } => "dump",
        Op::Fill { .. } => "fill",
        Op::Push { .. } => "push",
        Op::PushCell { .. } => "push cell",
        Op::Churn { .. } => "engines come and go",
    }
}

fn optag(op: &Op) -> u64 {
    let mut x = 7u64;
    for b in opname(op).bytes() {
        x = h(x, b as u64);
    }
    x
}
