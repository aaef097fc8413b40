//! Makes the plan of a run from (property, seed, index).
use crate::emit;
use crate::plan::*;
use crate::rng::Rng;
use crate::sys;

#[derive(Default, Clone)]
struct EngG {
    made: bool,
    next_fid: u32,
    late: Vec<u32>,
    fns: Vec<u32>,
    cells: Vec<(u32, CellKind)>,
    next_cid: u32,
    dets: Vec<u32>,
    sites: Vec<(u32, u8)>,
    rl: u32,
}

/// Weights of operations and elements; drawn afresh for every run.
#[derive(Clone, Default)]
struct W {
    f: u64,
    cell: u64,
    fin: u64,
    call: u64,
    page: u64,
    patch: u64,
    alt: u64,
    det: u64,
    labels: u64,
    align: u64,
    raw: u64,
    verify: u64,
    fail: u64,
    mv: u64,
    drop: u64,
    new: u64,
    query: u64,
    dump: u64,
    resolve: u64,
    refs: u64,
    bind: u64,
    tailpat: u64,
    // elements
    e_arith: u64,
    e_skip: u64,
    e_over: u64,
    e_loop: u64,
    e_hop: u64,
    e_cell: u64,
    e_call: u64,
    e_late: u64,
    e_lea: u64,
    e_det: u64,
    e_site: u64,
    e_host: u64,
    e_tail: u64,
}

struct G {
    r: Rng,
    w: W,
    engs: Vec<EngG>,
    mode: u8,
    execs: u8,
    hosts: u32,
    next_did: u32,
    next_sid: u32,
    big: bool,
    threads: bool,
    faults: bool,
    dump_faults: bool,
    how7: bool,
    asks: bool,
    body_max: u64,
}

impl G {
    fn gap(&mut self) -> u32 {
        if self.mode != 0 {
            return *self.r.pick(&[0u32, 1, 3, 17, 120, 124, 127, 128, 133, 250]);
        }
        match self.r.below(if self.big { 24 } else { 18 }) {
            0..=8 => self.r.below(12) as u32,
            9..=13 => 110 + self.r.below(30) as u32,
            14 | 15 => 250 + self.r.below(20) as u32,
            16 | 17 => 500 + self.r.below(4000) as u32,
            18..=20 => 32740 + self.r.below(50) as u32,
            21 | 22 => 65500 + self.r.below(60) as u32,
            _ => 70_000 + self.r.below(400_000) as u32,
        }
    }

    fn val(&mut self) -> u64 {
        match self.r.below(6) {
            0 => self.r.imm(64) as u64,
            1 => *self.r.pick(&[0u64, 1, u64::MAX, 1 << 63, 0x8000_0000, 0xffff_ffff, 0x7fff_ffff_ffff_ffff]),
            2 => (self.r.range(-1000, 1000) as f64 * 0.37).to_bits(),
            3 => self.r.below(100),
            _ => self.r.next(),
        }
    }

    fn cell_kind(&mut self, i: usize) -> CellKind {
        match self.r.below(12) {
            0..=3 => CellKind::I64(self.val() as i64),
            4 | 5 => CellKind::F64(match self.r.below(4) {
                0 => self.r.next(),
                1 => (self.r.range(-100000, 100000) as f64 / 7.0).to_bits(),
                2 => *self.r.pick(&[0u64, 1 << 63, f64::NAN.to_bits(), f64::INFINITY.to_bits(), 1, 0x7ff0_0000_0000_0001]),
                _ => (self.r.range(-5, 5) as f64 + 0.5).to_bits(),
            }),
            6 | 7 => CellKind::I32(self.val() as i32),
            8 | 9 => CellKind::Bytes(match self.r.below(12) {
                0 => 0,
                1 => 1,
                2 => 7,
                3..=6 => 8,
                7 => 16,
                8 => 17,
                9 => 15,
                10 => 4 + self.r.below(300) as u32,
                _ => {
                    if !self.big {
                        *self.r.pick(&[31u32, 32, 33, 64, 128, 255, 256, 257])
                    } else if self.mode == 0 && self.r.chance(1, 3) {
                        *self.r.pick(&[4095u32, 4096, 4097, 8192, 16384, 65535, 65536, 65537])
                    } else {
                        5000 + self.r.below(3000) as u32
                    }
                }
            }),
            10 => {
                let f = if self.r.chance(1, 2) || self.engs[i].fns.is_empty() {
                    self.late_fid(i)
                } else {
                    *self.r.pick(&self.engs[i].fns.clone())
                };
                CellKind::Abs(f)
            }
            _ => CellKind::Align8,
        }
    }

    /// a leaf function that may not exist yet
    fn late_fid(&mut self, i: usize) -> u32 {
        if !self.engs[i].late.is_empty() && self.r.chance(2, 3) {
            return *self.r.pick(&self.engs[i].late.clone());
        }
        let n = self.engs[i].next_fid;
        let f = (n / 4 + 1 + self.r.below(2) as u32) * 4;
        if !self.engs[i].late.contains(&f) {
            self.engs[i].late.push(f);
        }
        f
    }

    fn cell_elem(&mut self, i: usize) -> Option<Elem> {
        if self.engs[i].cells.is_empty() {
            return None;
        }
        let (cid, kind) = *self.r.pick(&self.engs[i].cells.clone());
        let len = match kind {
            CellKind::I64(_) | CellKind::F64(_) => 8,
            CellKind::I32(_) => 4,
            CellKind::Bytes(n) => n as usize,
            _ => return None,
        };
        for _ in 0..12 {
            let f = if self.mode == 1 && cid % 2 == 1 {
                *self.r.pick(&[40u8, 53, 66, 41, 67, 68])
            } else {
                self.r.below(emit::NFORM as u64) as u8
            };
            let Some(fm) = emit::form(f) else { continue };
            if fm.w > len || (fm.align == 16 && matches!(kind, CellKind::I32(_))) {
                continue;
            }
            if self.mode == 1 && (fm.write != (cid % 2 == 1)) {
                continue;
            }
            let imm = if fm.imm > 0 { self.r.imm(fm.imm.max(8)) } else { 0 };
            return Some(Elem::Cell { cid, form: f, imm });
        }
        None
    }

    fn body(&mut self, i: usize, fid: u32) -> Vec<Elem> {
        let n = 1 + self.r.below(self.body_max);
        let leaf = fid % 4 == 0;
        let mut v = vec![];
        for _ in 0..n {
            let w = self.w.clone();
            let ws = [
                w.e_arith,
                w.e_skip,
                w.e_over,
                w.e_loop,
                w.e_hop,
                w.e_cell,
                if leaf { 0 } else { w.e_call },
                if leaf { 0 } else { w.e_late },
                if leaf { 0 } else { w.e_lea },
                w.e_det,
                w.e_site,
                if leaf { 0 } else { w.e_host },
                w.e_tail,
            ];
            match self.weighted(&ws) {
                0 => v.push(match self.r.below(5) {
                    0 | 1 => Elem::Add(self.r.imm(32) as i32),
                    2 => Elem::Xor(self.val()),
                    3 => Elem::Arg,
                    _ => Elem::Rot(self.r.below(64) as u8),
                }),
                1 => v.push(Elem::Skip { cc: self.r.below(6) as u8, cmp: self.r.imm(32) as i32, add: self.r.imm(32) as i32 }),
                2 => {
                    let g = self.gap();
                    v.push(Elem::Over(g))
                }
                3 => {
                    let n = if self.mode == 0 { 1 + self.r.below(9) } else { 1 + self.r.below(4) };
                    v.push(Elem::Loop { n: n as u8, add: self.r.imm(32) as i32 })
                }
                4 => v.push(Elem::Hop),
                5 => {
                    if let Some(e) = self.cell_elem(i) {
                        v.push(e)
                    }
                }
                6 => {
                    let fs: Vec<u32> = self.engs[i].fns.iter().cloned().filter(|f| *f < fid || f % 4 == 0).collect();
                    if !fs.is_empty() {
                        let g = *self.r.pick(&fs);
                        let how = self.r.below(if self.how7 { 8 } else { 7 }) as u8;
                        v.push(Elem::Call { fid: g, how, darg: self.r.range(-9, 9) as i32 });
                    }
                }
                7 => {
                    let g = self.late_fid(i);
                    let how = self.r.below(7) as u8;
                    v.push(Elem::Call { fid: g, how, darg: self.r.imm(32) as i32 });
                }
                8 => {
                    let g = self.late_fid(i);
                    v.push(Elem::Lea { fid: g });
                }
                9 => {
                    let d = self.next_did;
                    self.next_did += 1;
                    self.engs[i].dets.push(d);
                    v.push(Elem::Detour { did: d, cond: self.r.chance(1, 2) });
                }
                10 => {
                    let s = self.next_sid;
                    self.next_sid += 1;
                    let n = 1 + self.r.below(4);
                    let adds: Vec<i32> = (0..n).map(|_| self.r.imm(32) as i32).collect();
                    let gap = self.gap();
                    self.engs[i].sites.push((s, n as u8));
                    v.push(Elem::Site { sid: s, adds, gap });
                }
                12 => {
                    let e = self.tail(i);
                    v.push(e)
                }
                _ => v.push(Elem::Host { hid: self.r.below(self.hosts.max(1) as u64) as u32 }),
            }
        }
        v
    }

    fn tail(&mut self, i: usize) -> Elem {
        let s = self.next_sid;
        self.next_sid += 1;
        let n = 1 + self.r.below(4);
        let adds: Vec<i32> = (0..n).map(|_| self.r.imm(32) as i32).collect();
        self.engs[i].sites.push((s, n as u8));
        Elem::Tail { sid: s, adds }
    }

    /// A patchable jump at the very end of the code with a counter right behind it.
    fn tailpat(&mut self, i: usize, ops: &mut Vec<Op>) {
        let b = i as u8;
        ops.push(Op::Finalize { i: b, step: false });
        let cid = self.engs[i].next_cid | 1;
        self.engs[i].next_cid = cid + 1;
        let kind = CellKind::I32(self.val() as i32);
        self.engs[i].cells.push((cid, kind));
        ops.push(Op::Cell { i: b, cid, data: false, kind });
        let mut fid = self.engs[i].next_fid;
        while self.engs[i].fns.contains(&fid) {
            fid += 1;
        }
        self.engs[i].next_fid = fid + 1;
        let mut body = vec![];
        for _ in 0..1 + self.r.below(3) {
            body.push(Elem::Cell { cid, form: *self.r.pick(&[41u8, 68]), imm: self.r.imm(32) });
        }
        for _ in 0..self.r.below(3) {
            let bits = if self.r.chance(1, 2) { 8 } else { 32 };
            body.push(Elem::Add(self.r.imm(bits) as i32));
        }
        let t = self.tail(i);
        body.push(t);
        for _ in 0..self.r.below(2) {
            body.push(Elem::Cell { cid, form: 41, imm: self.r.imm(32) });
        }
        self.engs[i].fns.push(fid);
        ops.push(Op::Fn { i: b, fid, align: *self.r.pick(&[9u8, 9, 1, 0]), body });
        ops.push(Op::Finalize { i: b, step: false });
        let (sid, m) = *self.engs[i].sites.last().unwrap();
        for _ in 0..2 + self.r.below(6) {
            for _ in 0..1 + self.r.below(4) {
                let arg = self.val();
                let exec = if self.mode == 1 { 1 + self.r.below(self.execs as u64) as u8 } else { 0 };
                ops.push(Op::Call { i: b, fid, arg, exec });
            }
            ops.push(Op::Patch { i: b, sid, k: self.r.below(m as u64) as u8, by_addr: self.r.chance(1, 2) });
        }
    }

    fn op_ref(&mut self, i: usize) -> Op {
        let form = self.r.below(crate::refs::NREF as u64) as u16;
        let n = match self.r.below(if self.big { 40 } else { 30 }) {
            0..=24 => 1,
            25..=28 => 2 + self.r.below(10) as u32,
            29 => 20 + self.r.below(60) as u32,
            30..=38 => 260 + self.r.below(60) as u32,
            _ => 66_000,
        };
        let n = if self.mode == 0 { n } else { n.min(4) };
        let t = self.r.below(4) as u8;
        let id = match t {
            3 => self.r.below(1000) as u32,
            1 if !self.engs[i].cells.is_empty() => self.r.pick(&self.engs[i].cells.clone()).0,
            2 if self.r.chance(1, 2) || self.engs[i].fns.is_empty() => self.late_fid(i),
            2 => *self.r.pick(&self.engs[i].fns.clone()),
            _ => return Op::Ref { i: i as u8, t: 0, id: self.rlab(i), form, n, val: self.r.next() },
        };
        Op::Ref { i: i as u8, t, id, form, n, val: self.r.next() }
    }

    /// a new or an old label
    fn rlab(&mut self, i: usize) -> u32 {
        let n = self.engs[i].rl;
        if n == 0 || self.r.chance(1, 3) {
            self.engs[i].rl += 1;
            return n;
        }
        let lo = n.saturating_sub(6);
        if self.r.chance(1, 4) {
            self.r.below(n as u64) as u32
        } else {
            lo + self.r.below((n - lo) as u64) as u32
        }
    }

    fn weighted(&mut self, ws: &[u64]) -> usize {
        let t: u64 = ws.iter().sum();
        let mut x = self.r.below(t.max(1));
        for (k, w) in ws.iter().enumerate() {
            if x < *w {
                return k;
            }
            x -= w;
        }
        0
    }

    fn op_fn(&mut self, i: usize) -> Op {
        let late: Vec<u32> = self.engs[i].late.iter().cloned().filter(|f| !self.engs[i].fns.contains(f)).collect();
        let fid = if !late.is_empty() && self.r.chance(1, 3) {
            *self.r.pick(&late)
        } else {
            let mut f = self.engs[i].next_fid;
            while self.engs[i].fns.contains(&f) {
                f += 1;
            }
            self.engs[i].next_fid = f + 1;
            f
        };
        let body = self.body(i, fid);
        self.engs[i].fns.push(fid);
        let align = *self.r.pick(&[9u8, 9, 9, 2, 2, 1, 0, 3]);
        let align = if align == 3 && !self.r.chance(1, 6) { 9 } else { align };
        Op::Fn { i: i as u8, fid, align, body }
    }

    fn op_cell(&mut self, i: usize) -> Op {
        let cid = self.engs[i].next_cid;
        self.engs[i].next_cid += 1;
        let kind = if self.mode == 1 && cid % 2 == 1 {
            if self.r.chance(1, 2) {
                CellKind::I64(self.val() as i64)
            } else {
                CellKind::I32(self.val() as i32)
            }
        } else {
            self.cell_kind(i)
        };
        self.engs[i].cells.push((cid, kind));
        Op::Cell { i: i as u8, cid, data: self.r.chance(1, 2), kind }
    }

    fn call(&mut self, i: usize) -> Option<Op> {
        if self.engs[i].fns.is_empty() {
            return None;
        }
        let fid = *self.r.pick(&self.engs[i].fns.clone());
        let arg = self.val();
        let exec = if self.mode == 1 { 1 + self.r.below(self.execs as u64) as u8 } else { 0 };
        Some(Op::Call { i: i as u8, fid, arg, exec })
    }

    fn dump_env(&mut self) -> DumpEnv {
        let mut e = DumpEnv { cut: u32::MAX, ..Default::default() };
        if self.r.chance(1, 3) {
            let n = 1 + self.r.below(4);
            e.chunks = (0..n).map(|_| *self.r.pick(&[1u16, 7, 100, 513, 4096, 65535])).collect();
        }
        if self.r.chance(1, 8) {
            e.err_len = *self.r.pick(&[1u32, 200, 70_000, 200_000]);
        }
        if self.r.chance(1, 10) {
            e.tmp = 3;
        }
        if self.r.chance(1, 3) {
            let c = *self.r.pick(&[sys::OPEN, sys::WRITE, sys::PIPE, sys::SPAWN, sys::SPAWN, sys::READ, sys::POLL, sys::WAIT, sys::UNLINK]);
            let n = if self.r.chance(3, 4) { 0 } else { self.r.below(4) };
            e.other = Some((c, n as u16));
            let v: Vec<usize> = (0..self.engs.len()).filter(|k| !self.engs[*k].fns.is_empty()).collect();
            if self.hosts == 0 && self.w.e_host == 0 && !v.is_empty() && self.r.chance(1, 2) {
                let k = *self.r.pick(&v);
                let fid = *self.r.pick(&self.engs[k].fns.clone());
                e.call = Some((k as u8, fid, self.val()));
            }
        }
        if !self.dump_faults || self.r.chance(1, 3) {
            if self.r.chance(1, 24) {
                e.real = true;
            }
            return e;
        }
        let n = 1 + self.r.below(3);
        for _ in 0..n {
            let f = |call, nth, what| SysFault { call, nth, what };
            match self.r.below(17) {
                0 => {
                    let w = *self.r.pick(&[libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::EROFS, libc::ENFILE]);
                    e.faults.push(f(sys::OPEN, self.r.below(2) as u16, w))
                }
                1 => e.faults.push(f(sys::OPEN, 0, *self.r.pick(&[libc::EEXIST, libc::EINTR]))),
                2 | 3 => {
                    let w = *self.r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG]);
                    e.faults.push(f(sys::WRITE, self.r.below(3) as u16, w));
                    if self.r.chance(1, 2) {
                        // part of it arrived
                        e.faults.insert(0, f(sys::WRITE, 0, -1));
                    }
                }
                4 | 5 => e.faults.push(f(sys::WRITE, self.r.below(4) as u16, -1)),
                6 => e.faults.push(f(sys::WRITE, self.r.below(3) as u16, libc::EINTR)),
                7 => e.faults.push(f(sys::UNLINK, 0, *self.r.pick(&[libc::EACCES, libc::EIO]))),
                8 => e.faults.push(f(sys::PIPE, self.r.below(2) as u16, *self.r.pick(&[libc::EMFILE, libc::ENFILE]))),
                9 => e.faults.push(f(sys::SPAWN, 0, *self.r.pick(&[libc::ENOENT, libc::EAGAIN, libc::ENOMEM, libc::EACCES]))),
                10 => e.faults.push(f(sys::READ, self.r.below(5) as u16, -1)),
                11 => e.faults.push(f(sys::READ, self.r.below(5) as u16, libc::EINTR)),
                12 => e.faults.push(f(sys::POLL, self.r.below(4) as u16, libc::EINTR)),
                13 => e.faults.push(f(sys::WAIT, 0, libc::EINTR)),
                14 => {
                    e.status = *self.r.pick(&[1 << 8, 2 << 8, 127 << 8, 9, 6, 11, 139, 255 << 8]);
                    if self.r.chance(2, 3) {
                        e.cut = *self.r.pick(&[0u32, 10, 120, 200, 400, u32::MAX]);
                    }
                }
                15 => e.garble = 1,
                _ => e.tmp = 1 + self.r.below(3) as u8,
            }
        }
        let mut seen = vec![];
        e.faults.retain(|f| {
            let k = (f.call, f.nth);
            let new = !seen.contains(&k);
            seen.push(k);
            new
        });
        e
    }

    fn history(&mut self, n: usize, ops: &mut Vec<Op>) {
        let live = |g: &G| -> Vec<usize> { (0..g.engs.len()).filter(|k| g.engs[*k].made).collect() };
        for _ in 0..n {
            let ids = live(self);
            if ids.is_empty() {
                break;
            }
            let i = *self.r.pick(&ids);
            let b = i as u8;
            if self.threads && self.r.chance(1, 3) {
                ops.push(Op::OnThread { t: self.r.below(4) as u8 });
            }
            let w = self.w.clone();
            let ws = [
                w.f, w.cell, w.fin, w.call, w.page, w.patch, w.alt, w.det, w.labels, w.align, w.raw, w.verify, w.fail, w.mv, w.drop, w.new,
                w.query, w.dump, w.resolve, w.refs, w.bind, w.tailpat,
            ];
            match self.weighted(&ws) {
                0 => {
                    let o = self.op_fn(i);
                    ops.push(o)
                }
                1 => {
                    let o = self.op_cell(i);
                    ops.push(o)
                }
                2 => {
                    ops.push(Op::Finalize { i: b, step: self.r.chance(2, 3) });
                    for _ in 0..self.r.below(3) {
                        if let Some(c) = self.call(i) {
                            ops.push(c)
                        }
                    }
                }
                3 => {
                    for _ in 0..1 + self.r.below(3) {
                        if let Some(c) = self.call(i) {
                            ops.push(c)
                        }
                    }
                }
                4 => ops.push(Op::Page { i: b, p: self.r.below(2) as u8 }),
                5 => {
                    if !self.engs[i].sites.is_empty() {
                        let (sid, n) = *self.r.pick(&self.engs[i].sites.clone());
                        let k = self.r.below(n as u64) as u8;
                        ops.push(Op::Patch { i: b, sid, k, by_addr: self.r.chance(1, 2) });
                    }
                }
                6 => {
                    if !self.engs[i].sites.is_empty() {
                        let n = self.engs[i].sites.len() as u64;
                        let k = self.r.below(n) as usize;
                        let (sid, m) = self.engs[i].sites[k];
                        if m < 12 {
                            self.engs[i].sites[k].1 += 1;
                            ops.push(Op::Alt { i: b, sid, k: m, add: self.r.imm(32) as i32 });
                        }
                    }
                }
                7 => {
                    if !self.engs[i].dets.is_empty() {
                        let n = self.engs[i].dets.len() as u64;
                        let k = self.r.below(n) as usize;
                        let did = self.engs[i].dets.remove(k);
                        ops.push(Op::Detour { i: b, did, add: self.r.imm(32) as i32 });
                    }
                }
                8 => {
                    let n = if self.mode == 0 {
                        *self.r.pick(&[1u32, 5, 30, 260, 1000])
                    } else {
                        *self.r.pick(&[1u32, 5, 20])
                    };
                    let n = if self.big && self.r.chance(1, 8) { 65_480 + self.r.below(90) as u32 } else { n };
                    ops.push(Op::Labels { i: b, n })
                }
                9 => ops.push(Op::Align { i: b, kind: *self.r.pick(&[0u8, 1, 2, 2, 3]) }),
                10 => {
                    let n = if self.r.chance(1, 10) { self.gap().min(5000) } else { self.r.below(20) as u32 };
                    let how = if self.r.chance(1, 5) { 8 + self.r.below(4) as u8 } else { self.r.below(6) as u8 };
                    ops.push(Op::Raw { i: b, how, n, val: self.r.next() })
                }
                11 => ops.push(Op::Verify { i: b }),
                12 => {
                    let (kind, a) = (self.r.below(26) as u8, self.r.below(60) as u32);
                    if kind == 7 {
                        // it leaves a cell that later code uses
                        let v = (a as i64).wrapping_mul(0x1234567) ^ 0x5a5a;
                        self.engs[i].cells.push((1000 + a, CellKind::I64(v)));
                    }
                    ops.push(Op::Fail { i: b, kind, a })
                }
                13 => ops.push(Op::Move { i: b, how: self.r.below(3) as u8 }),
                14 => {
                    for _ in 0..3 {
                        if let Some(c) = self.call(i) {
                            ops.push(c)
                        }
                    }
                    ops.push(Op::Drop { i: b, how: self.r.below(6) as u8 });
                    // still callable
                    for _ in 0..2 {
                        if let Some(c) = self.call(i) {
                            ops.push(c)
                        }
                    }
                }
                15 => {
                    if let Some(k) = (0..self.engs.len()).find(|k| !self.engs[*k].made) {
                        let fault = if self.faults && self.r.chance(1, 2) { 1 + self.r.below(3) as u8 } else { 0 };
                        ops.push(Op::New { i: k as u8, slot: self.r.below(8) as u8, dirty: self.r.below(6) as u8, fault });
                        if fault == 0 {
                            self.engs[k].made = true;
                        }
                    }
                }
                16 => {
                    if self.asks && self.r.chance(1, 40) {
                        ops.push(Op::Ask { i: b, n: self.r.below(3) as u8, seed: self.r.next() });
                    }
                    ops.push(Op::Query { i: b })
                }
                17 => {
                    let env = self.dump_env();
                    ops.push(Op::Dump { i: b, env });
                    ops.push(Op::Query { i: b });
                }
                19 => {
                    let o = self.op_ref(i);
                    ops.push(o)
                }
                20 => {
                    let id = self.rlab(i);
                    let on = if self.r.chance(1, 4) { Some(self.r.below(2) as u8) } else { None };
                    ops.push(Op::Bind { i: b, id, on })
                }
                21 => self.tailpat(i, ops),
                _ => ops.push(Op::Resolve { i: b }),
            }
        }
    }

    /// Many cells between two finalisations.
    fn burst(&mut self, i: usize, ops: &mut Vec<Op>) {
        let b = i as u8;
        ops.push(Op::Page { i: b, p: self.r.below(2) as u8 });
        let n = 270 + self.r.below(270);
        let data = self.r.below(3);
        for _ in 0..n {
            let o = self.op_cell(i);
            let Op::Cell { i, cid, data: d, kind } = o else { continue };
            let kind = match kind {
                CellKind::Bytes(n) => CellKind::Bytes(n.min(64)),
                k => k,
            };
            self.engs[i as usize].cells.last_mut().unwrap().1 = kind;
            ops.push(Op::Cell { i, cid, data: if data == 2 { d } else { data == 1 }, kind });
        }
        if self.r.chance(1, 2) {
            ops.push(Op::Page { i: b, p: self.r.below(2) as u8 });
        }
        ops.push(Op::Finalize { i: b, step: false });
        let o = self.op_fn(i);
        ops.push(o);
    }

    /// A function that has the given element.
    fn fn_with(&mut self, i: usize, e: Elem, ops: &mut Vec<Op>) {
        if self.engs[i].next_fid % 4 == 0 {
            self.engs[i].next_fid += 1;
        }
        let mut fid = self.engs[i].next_fid;
        while self.engs[i].fns.contains(&fid) || fid % 4 == 0 {
            fid += 1;
        }
        self.engs[i].next_fid = fid + 1;
        let mut body = self.body(i, fid);
        let at = self.r.below(body.len() as u64 + 1) as usize;
        body.insert(at, e);
        self.engs[i].fns.push(fid);
        ops.push(Op::Fn { i: i as u8, fid, align: *self.r.pick(&[9u8, 9, 2, 1]), body });
    }

    /// Many finalisations in a row.
    fn fins(&mut self, i: usize, ops: &mut Vec<Op>) {
        let b = i as u8;
        let n = 200 + self.r.below(140);
        let much = self.r.below(4);
        for k in 0..n {
            if self.r.below(4) < much {
                match self.r.below(4) {
                    0 => ops.push(Op::Page { i: b, p: self.r.below(2) as u8 }),
                    1 => {
                        let o = self.op_cell(i);
                        ops.push(o)
                    }
                    _ => ops.push(Op::Raw { i: b, how: *self.r.pick(&[0u8, 1, 2, 3, 4, 8, 9, 10, 11]), n: self.r.below(9) as u32, val: k }),
                }
            }
            ops.push(Op::Finalize { i: b, step: false });
        }
    }

    /// Many patches of few jumps.
    fn patches(&mut self, i: usize, ops: &mut Vec<Op>) {
        if self.engs[i].sites.is_empty() {
            return;
        }
        let b = i as u8;
        ops.push(Op::Resolve { i: b });
        for _ in 0..150 + self.r.below(300) {
            let m = self.engs[i].sites.len().min(3) as u64;
            let (sid, n) = self.engs[i].sites[self.r.below(m) as usize];
            ops.push(Op::Patch { i: b, sid, k: self.r.below(n as u64) as u8, by_addr: self.r.chance(1, 2) });
            if self.r.chance(1, 6) {
                if let Some(c) = self.call(i) {
                    ops.push(c)
                }
            }
            if self.r.chance(1, 40) {
                ops.push(Op::Finalize { i: b, step: false });
            }
        }
    }

    /// Very much of something.
    fn many(&mut self, what: &[u8], fast: bool, ops: &mut Vec<Op>) {
        let huge = fast && self.r.chance(1, 5);
        match *self.r.pick(what) {
            3 => {
                let n = if huge { 65_500 + self.r.below(200) as u32 } else { *self.r.pick(&[1500u32, 4200, 9000]) };
                ops.push(Op::Ref { i: 0, t: self.r.below(4) as u8, id: self.r.below(4) as u32, form: self.r.below(400) as u16, n, val: self.r.next() });
            }
            w => {
                if w == 2 {
                    ops.push(Op::Resolve { i: 0 });
                }
                let n = if huge { 65_500 + self.r.below(200) as u32 } else { *self.r.pick(&[600u32, 1100, 2100, 4200]) };
                ops.push(Op::Many { i: 0, what: w, n, val: self.r.next() });
            }
        }
        if self.r.chance(1, 2) {
            ops.push(Op::Page { i: 0, p: self.r.below(2) as u8 });
        }
        ops.push(Op::Finalize { i: 0, step: false });
    }

    /// Engines that come and go, now and then.
    fn churn(&mut self) -> Vec<Op> {
        if !self.r.chance(1, 25) {
            return vec![];
        }
        let n = *self.r.pick(&[3u8, 9, 17, 33, 40, 70, 130]);
        vec![Op::Churn { n, val: self.r.next() as u32, leave: *self.r.pick(&[0u8, 0, 1, 2, 3]) }]
    }

    /// Move the end of some pages on.
    fn far(&mut self, i: usize, fast: bool, ops: &mut Vec<Op>) {
        let pages: Vec<u8> = match self.r.below(5) {
            0 => vec![0],
            1 => vec![1],
            2 => vec![2],
            3 => vec![0, 1],
            _ => vec![0, 1, 2],
        };
        for page in pages {
            let n = match self.r.below(6) {
                0 => (1 << 16) - self.r.below(200) as u32,
                1 => (1 << 20) + self.r.below(1 << 20) as u32,
                2 | 3 => (1 << 24) - self.r.below(2000) as u32,
                4 => (1 << 24) + self.r.below(1 << 22) as u32,
                _ if fast => (1 << 25) + self.r.below(3 << 25) as u32,
                _ => (1 << 24) + self.r.below(1 << 20) as u32,
            };
            ops.push(Op::Far { i: i as u8, page, n });
        }
    }

    fn finish(&mut self, ops: &mut Vec<Op>) {
        for i in 0..self.engs.len() {
            if !self.engs[i].made {
                continue;
            }
            let b = i as u8;
            ops.push(Op::Resolve { i: b });
            for fid in self.engs[i].fns.clone().into_iter().take(12) {
                let arg = self.val();
                let exec = if self.mode == 1 { 1 + self.r.below(self.execs as u64) as u8 } else { 0 };
                ops.push(Op::Call { i: b, fid, arg, exec });
            }
            if self.mode == 0 {
                ops.push(Op::Query { i: b });
            }
        }
    }

    /// Labels at the very end of a page.
    fn edge(&mut self, i: u8, ops: &mut Vec<Op>) {
        let pg = self.r.below(2) as u8;
        let left = *self.r.pick(&[0u32, 0, 0, 0, 1, 4, 16]);
        let ids: Vec<u32> = (8000..8001 + self.r.below(3) as u32).collect();
        let mut refs = |g: &mut G, ops: &mut Vec<Op>| {
            for id in &ids {
                for _ in 0..g.r.below(3) {
                    let form = g.r.below(crate::refs::NREF as u64) as u16;
                    ops.push(Op::Ref { i, t: 0, id: *id, form, n: 1, val: g.r.next() });
                }
            }
        };
        refs(self, ops);
        ops.push(Op::Fill { i, page: pg, left, slow: false });
        for id in &ids {
            ops.push(Op::Bind { i, id: *id, on: Some(pg) });
            ops.push(Op::Query { i });
            if self.r.chance(1, 2) {
                ops.push(Op::Push { i, kind: self.r.below(16) as u8, val: self.r.next() });
            }
        }
        refs(self, ops);
        ops.push(Op::Finalize { i, step: false });
        ops.push(Op::Query { i });
        refs(self, ops);
        ops.push(Op::Finalize { i, step: false });
        ops.push(Op::Verify { i });
    }

    fn new_engs(&mut self, n: usize, ops: &mut Vec<Op>) {
        for k in 0..n {
            ops.push(Op::New { i: k as u8, slot: self.r.below(8) as u8, dirty: self.r.below(6) as u8, fault: 0 });
            self.engs[k].made = true;
        }
    }

    fn sched(&mut self, n: usize, small: u64) -> Vec<(u16, u8)> {
        (0..n)
            .map(|_| {
                let bits = self.r.below(small + 1);
                (self.r.below(1 << bits) as u16, self.r.below(6) as u8)
            })
            .collect()
    }
}

fn weights(r: &mut Rng) -> W {
    // swarm: everything has a base weight, some of it is switched off or boosted
    let mut q = |base: u64| -> u64 {
        match r.below(8) {
            0 => 0,
            1 => base * 4,
            _ => base,
        }
    };
    W {
        f: 20,
        cell: q(8),
        fin: 10,
        call: q(8),
        page: q(6),
        patch: q(3),
        alt: q(2),
        det: q(4),
        labels: q(1),
        align: q(2),
        raw: q(3),
        verify: 1,
        fail: 0,
        mv: 0,
        drop: 0,
        new: 0,
        query: 0,
        dump: 0,
        resolve: q(2),
        refs: q(2),
        bind: q(1),
        tailpat: 0,
        e_arith: 8,
        e_skip: q(3),
        e_over: q(2),
        e_loop: q(2),
        e_hop: q(2),
        e_cell: q(6),
        e_call: q(4),
        e_late: q(3),
        e_lea: q(1),
        e_det: q(2),
        e_site: q(2),
        e_host: 0,
        e_tail: q(1),
    }
}

pub const PROPS: [&str; 15] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"];

pub fn plan(prop: &str, seed: u64, idx: u64) -> Plan {
    let salt = prop.bytes().fold(7u64, |a, b| a * 131 + b as u64);
    let mut r = Rng::for_run(seed, salt, idx);
    let w = weights(&mut r);
    let mut p = Plan { prop: prop.into(), seed, idx, name_seed: r.next(), ..Default::default() };
    let mut g = G {
        w,
        engs: vec![EngG::default(); 7],
        mode: 0,
        execs: 0,
        hosts: 0,
        next_did: 0,
        next_sid: 0,
        big: r.chance(1, 6),
        threads: false,
        faults: false,
        dump_faults: false,
        how7: true,
        asks: false,
        body_max: *r.pick(&[3, 5, 8, 12]),
        r,
    };
    let mut len = *g.r.pick(&[6usize, 12, 20, 30, 45, 70]);
    let mut ops = vec![];
    // now and then a very long history, or one far from the start of the pages
    let fast = idx % 2 == 1;
    let (long, far) = (g.r.chance(1, 80), g.r.chance(1, 400));
    let burst = g.r.chance(1, if prop == "C05" { 60 } else { 300 });
    let fins = g.r.chance(1, 250);
    let many = g.r.chance(1, if matches!(prop, "C01" | "C03" | "C05" | "C09" | "C10") { 100 } else { 400 });
    if long {
        len = 250 + g.r.below(400) as usize;
        g.body_max = 3;
        match g.r.below(4) {
            0 => {
                g.w.cell = 150;
                g.w.fin = 1;
            }
            1 => {
                g.w.fin = 60;
                g.w.call = 3;
            }
            2 => g.w.refs = 60,
            _ => {}
        }
    }
    let conc = |g: &mut G, p: &mut Plan| {
        g.mode = 1;
        g.execs = 1 + g.r.below(4) as u8;
        g.big = false;
        p.mode = 1;
        p.execs = g.execs;
        p.lib_step = true;
        p.step_ops = g.r.chance(1, 4);
        let n = 100 + g.r.below(400) as usize;
        let s = 3 + g.r.below(6);
        p.sched = g.sched(n, s);
    };
    match prop {
        "C01" => {
            if g.r.chance(1, 8) {
                conc(&mut g, &mut p);
            }
            let n = 1 + g.r.below(2) as usize;
            g.new_engs(n, &mut ops);
            if !long {
                g.w.fin = 14;
                g.w.call = 10;
            }
            let len = if g.mode == 1 { len.min(30) } else { len };
            if far {
                g.far(0, fast, &mut ops);
            }
            if g.mode == 1 {
                g.w.tailpat = 1;
            } else if burst {
                g.burst(0, &mut ops);
            } else if fins {
                g.history(len / 3, &mut ops);
                g.fins(0, &mut ops);
            } else if many {
                g.history(len / 3, &mut ops);
                g.many(&[0, 1, 2, 3], fast, &mut ops);
            }
            g.history(if many { len.min(20) } else { len }, &mut ops);
            g.finish(&mut ops);
        }
        "C02" => {
            g.new_engs(1, &mut ops);
            if far {
                g.far(0, fast, &mut ops);
            }
            g.w.refs += 10;
            g.w.bind += 5;
            g.w.det += 6;
            g.w.e_det += 3;
            g.w.e_late += 4;
            g.w.e_lea += 1;
            g.w.e_cell += 4;
            g.w.cell += 4;
            g.w.labels += 3;
            g.w.patch = 0;
            if many {
                g.history(len / 3, &mut ops);
                g.many(&[0, 1, 3, 3], fast, &mut ops);
                len = len.min(20);
            }
            if burst {
                g.burst(0, &mut ops);
            }
            if fins {
                g.history(len / 3, &mut ops);
                g.fins(0, &mut ops);
            }
            g.history(len, &mut ops);
            g.finish(&mut ops);
            if g.r.chance(1, 600) {
                g.edge(0, &mut ops);
            }
        }
        "C03" => {
            if g.r.chance(1, 16) {
                conc(&mut g, &mut p);
            }
            g.new_engs(1, &mut ops);
            g.w.patch = 14;
            g.w.refs += 2;
            g.w.alt = 5;
            g.w.e_site = 8;
            g.w.e_tail = 3;
            if !long {
                g.w.fin = 14;
                g.w.call = 10;
            }
            if far {
                g.far(0, fast, &mut ops);
            }
            g.w.tailpat = if g.mode == 1 { 6 } else { 1 };
            let len = if g.mode == 1 { len.min(30) } else { len };
            if g.r.chance(3, 4) {
                let s = g.next_sid;
                g.next_sid += 1;
                let n = 1 + g.r.below(4);
                let adds: Vec<i32> = (0..n).map(|_| g.r.imm(32) as i32).collect();
                let gap = g.gap();
                g.engs[0].sites.push((s, n as u8));
                g.fn_with(0, Elem::Site { sid: s, adds, gap }, &mut ops);
            }
            if fins && g.mode == 0 {
                g.history(len / 3, &mut ops);
                g.patches(0, &mut ops);
            } else if many && g.mode == 0 {
                g.history(len / 3, &mut ops);
                g.many(&[1, 2, 2, 2], fast, &mut ops);
            }
            g.history(if many { len.min(20) } else { len }, &mut ops);
            g.finish(&mut ops);
            for _ in 0..g.r.below(4) {
                if g.engs[0].sites.is_empty() {
                    break;
                }
                let (sid, n) = *g.r.pick(&g.engs[0].sites.clone());
                ops.push(Op::Patch { i: 0, sid, k: g.r.below(n as u64) as u8, by_addr: g.r.chance(1, 2) });
                for _ in 0..2 {
                    if let Some(c) = g.call(0) {
                        ops.push(c);
                    }
                }
                if g.r.chance(1, 2) {
                    ops.push(Op::Finalize { i: 0, step: true });
                }
            }
        }
        "C04" => {
            conc(&mut g, &mut p);
            p.step_ops = false;
            p.watch = g.r.chance(3, 4);
            let n = 300 + g.r.below(900) as usize;
            let s = 2 + g.r.below(5);
            p.sched = g.sched(n, s);
            g.new_engs(1, &mut ops);
            g.w.e_site = 12;
            g.w.e_tail = 3;
            g.w.e_hop = g.w.e_hop.min(2);
            g.w.cell = 2;
            g.w.e_cell = 2;
            g.body_max = 6;
            let nf = 1 + g.r.below(4);
            for _ in 0..nf {
                let o = g.op_fn(0);
                ops.push(o);
                if g.r.chance(1, 4) {
                    ops.push(Op::Page { i: 0, p: g.r.below(2) as u8 });
                }
                if g.r.chance(1, 3) {
                    ops.push(Op::Raw { i: 0, how: 0, n: g.r.below(70) as u32, val: 1 });
                }
            }
            if g.engs[0].sites.is_empty() {
                let s = g.next_sid;
                g.next_sid += 1;
                g.engs[0].sites.push((s, 3));
                g.engs[0].fns.push(900);
                ops.push(Op::Fn { i: 0, fid: 900, align: 9, body: vec![Elem::Arg, Elem::Site { sid: s, adds: vec![5, -70000, 300], gap: 200 }] });
            }
            for k in 0..g.r.below(4) {
                let n = g.engs[0].sites.len() as u64;
                let j = g.r.below(n) as usize;
                let (sid, m) = g.engs[0].sites[j];
                g.engs[0].sites[j].1 += 1;
                ops.push(Op::Page { i: 0, p: g.r.below(2) as u8 });
                ops.push(Op::Raw { i: 0, how: 0, n: *g.r.pick(&[1u32, 100, 300, 5000, 70000]), val: 2 + k });
                ops.push(Op::Alt { i: 0, sid, k: m, add: g.r.imm(32) as i32 });
            }
            ops.push(Op::Resolve { i: 0 });
            let n = 15 + g.r.below(30);
            for _ in 0..n {
                for _ in 0..g.r.below(4) {
                    if let Some(c) = g.call(0) {
                        ops.push(c);
                    }
                }
                let (sid, m) = *g.r.pick(&g.engs[0].sites.clone());
                ops.push(Op::Patch { i: 0, sid, k: g.r.below(m as u64) as u8, by_addr: g.r.chance(1, 2) });
                if g.r.chance(1, 12) {
                    let o = g.op_fn(0);
                    ops.push(o);
                    ops.push(Op::Resolve { i: 0 });
                }
            }
            g.finish(&mut ops);
        }
        "C05" => {
            if g.r.chance(1, 12) {
                conc(&mut g, &mut p);
            }
            let n = 1 + g.r.below(2) as usize;
            g.new_engs(n, &mut ops);
            if !long {
                g.w.cell = 20;
            }
            g.w.e_cell = 16;
            g.w.call = 10;
            g.w.drop = if g.mode == 0 && g.r.chance(1, 8) { 1 } else { 0 };
            if far {
                g.far(0, fast, &mut ops);
            }
            g.w.tailpat = if g.mode == 1 { 4 } else { 0 };
            let len = if g.mode == 1 { len.min(30) } else { len };
            if burst && g.mode == 0 {
                g.history(len / 3, &mut ops);
                g.burst(0, &mut ops);
            } else if many && g.mode == 0 {
                g.history(len / 3, &mut ops);
                g.many(&[0, 0, 0, 1], fast, &mut ops);
            }
            g.history(if many { len.min(20) } else { len }, &mut ops);
            g.finish(&mut ops);
        }
        "C06" => {
            g.big = false;
            g.new_engs(1, &mut ops);
            g.w.cell = 8;
            g.w.labels = 0;
            g.history(8, &mut ops);
            ops.push(Op::Cell { i: 0, cid: 900, data: false, kind: CellKind::I64(5) });
            ops.push(Op::Fn { i: 0, fid: 900, align: 9, body: vec![Elem::Arg, Elem::Add(1)] });
            g.engs[0].fns.push(900);
            ops.push(Op::Resolve { i: 0 });
            let pg = g.r.below(3) as u8;
            let left = *g.r.pick(&[0u32, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 24, 31, 32, 40, 64, 100]);
            ops.push(Op::Fill { i: 0, page: pg, left, slow: g.r.chance(1, 40) });
            // a code page and the data page
            let both = g.r.chance(1, 5);
            if both {
                let page = if pg < 2 { 2 } else { g.r.below(2) as u8 };
                let left = *g.r.pick(&[0u32, 1, 3, 4, 5, 8, 15, 16, 17, 32, 48, 100]);
                ops.push(Op::Fill { i: 0, page, left, slow: false });
            }
            let n = 10 + g.r.below(40);
            for _ in 0..n {
                match g.r.below(12) {
                    0..=6 if pg < 2 || both && g.r.chance(1, 2) => ops.push(Op::Push { i: 0, kind: g.r.below(16) as u8, val: g.r.next() }),
                    0..=2 | 7 => {
                        let kind = match g.r.below(6) {
                            0 => CellKind::I64(g.val() as i64),
                            1 => CellKind::I32(g.val() as i32),
                            2 if g.r.chance(1, 8) => CellKind::Bytes(*g.r.pick(&[
                                0xffff_ffffu32,
                                0xffff_fffe,
                                0xffff_fff0,
                                0xffff_ff80,
                                0xffff_ff00,
                                0x8000_0000,
                                0x1000_0000,
                                0x1000_0001,
                            ])),
                            2 => CellKind::Bytes(g.r.below(40) as u32),
                            3 => CellKind::F64(g.val()),
                            4 => CellKind::Abs(900),
                            _ => CellKind::Align8,
                        };
                        let data = if both { g.r.chance(1, 2) } else { pg == 2 };
                        ops.push(Op::PushCell { i: 0, data, kind, keep: g.r.chance(1, 2) })
                    }
                    8 if pg < 2 && g.r.chance(1, 2) => {
                        let id = g.rlab(0);
                        ops.push(Op::Bind { i: 0, id, on: Some(pg) })
                    }
                    8 => ops.push(Op::Query { i: 0 }),
                    _ => g.history(2, &mut ops),
                }
            }
            g.finish(&mut ops);
        }
        "C07" => {
            g.faults = true;
            let churn = g.churn();
            g.w.new = 14;
            g.w.fin = 10;
            g.new_engs(1, &mut ops);
            if g.r.chance(1, 3) {
                // the very first creation is refused
                ops.insert(0, Op::New { i: 0, slot: 1, dirty: 0, fault: 1 + g.r.below(3) as u8 });
            }
            ops.extend(churn);
            g.history(len.min(30), &mut ops);
            g.finish(&mut ops);
        }
        "C08" => {
            let churn = g.churn();
            g.threads = g.r.chance(3, 4);
            p.reuse = g.r.chance(3, 4);
            g.w.new = 4;
            g.w.mv = 5;
            g.w.drop = 3;
            g.w.call = 12;
            let n = 1 + g.r.below(3) as usize;
            g.new_engs(n, &mut ops);
            if far {
                g.far(0, fast, &mut ops);
            }
            g.history(len, &mut ops);
            g.finish(&mut ops);
            let again = if churn.is_empty() { vec![] } else { g.churn() };
            ops.extend(churn);
            // everything again after all engines are gone
            for i in 0..7u8 {
                if g.engs[i as usize].made && g.r.chance(3, 4) {
                    ops.push(Op::Drop { i, how: g.r.below(6) as u8 });
                }
            }
            for k in 0..7 {
                if !g.engs[k].made && g.r.chance(1, 2) {
                    ops.push(Op::New { i: k as u8, slot: g.r.below(8) as u8, dirty: 1 + g.r.below(5) as u8, fault: 0 });
                    ops.push(Op::Fn { i: k as u8, fid: 1, align: 9, body: vec![Elem::Arg] });
                    ops.push(Op::Cell { i: k as u8, cid: 1, data: true, kind: CellKind::I64(-1) });
                    ops.push(Op::Finalize { i: k as u8, step: false });
                }
            }
            for i in 0..7 {
                for _ in 0..4 {
                    if g.engs[i].made {
                        if let Some(c) = g.call(i) {
                            ops.push(c);
                        }
                    }
                }
            }
            if !again.is_empty() {
                ops.extend(again);
                g.finish(&mut ops);
            }
        }
        "C09" | "C10" => {
            g.dump_faults = prop == "C09" || g.r.chance(3, 4);
            let n = 1 + g.r.below(3).min(1) as usize;
            g.new_engs(n, &mut ops);
            g.w.dump = 14;
            g.w.fin = 14;
            g.w.raw = 6;
            if far {
                g.far(0, fast, &mut ops);
                // (the next dumps are not of all that)
                for _ in 0..2 {
                    ops.push(Op::Finalize { i: 0, step: false });
                }
            }
            if fins {
                g.fins(0, &mut ops);
            }
            if many {
                g.many(&[0, 1, 3], fast, &mut ops);
            }
            if g.r.chance(1, 150) {
                // a large block
                let (how, n) = *g.r.pick(&[(0u8, 70_000u32), (2, 70_000), (3, 140_000), (3, 300_000)]);
                ops.push(Op::Raw { i: 0, how, n, val: g.r.next() });
                ops.push(Op::Finalize { i: 0, step: false });
                let mut env = g.dump_env();
                env.real = false;
                env.chunks = vec![65535, *g.r.pick(&[4096u16, 16384, 65535])];
                ops.push(Op::Dump { i: 0, env });
                ops.push(Op::Finalize { i: 0, step: false });
            }
            g.history(if long { len } else { len.min(45) }, &mut ops);
            g.finish(&mut ops);
            if g.r.chance(1, 2) {
                let env = g.dump_env();
                ops.push(Op::Dump { i: 0, env });
            }
        }
        "C11" => {
            p.mode = 2;
            g.mode = 2;
            g.how7 = false;
            g.big = false;
            let n = 2 + g.r.below(2) as usize;
            p.shift = 1 + g.r.below(7) as u8;
            g.w.fail = if g.r.chance(1, 3) { 3 } else { 0 };
            g.w.query = 3;
            for k in 0..n {
                for e in g.engs.iter_mut() {
                    *e = EngG::default();
                }
                g.next_did = 0;
                g.next_sid = 0;
                let mut v = vec![];
                let m = 1 + g.r.below(2) as usize;
                for j in 0..m {
                    v.push(Op::New { i: j as u8, slot: ((k * 2 + j) % 8) as u8, dirty: g.r.below(6) as u8, fault: 0 });
                    g.engs[j].made = true;
                }
                g.history(len.min(20), &mut v);
                g.finish(&mut v);
                p.lanes.push(v);
            }
            let n = 50 + g.r.below(300) as usize;
            // most runs switch at or soon after the start of an operation, some anywhere
            let deep = *g.r.pick(&[1u64, 1, 1, 3, 3, 6, 6, 9, 13]);
            p.sched = (0..n)
                .map(|_| {
                    let ops = if deep < 13 || g.r.chance(1, 3) { g.r.below(4) } else { 0 } as u16;
                    let bits = g.r.below(deep);
                    ((ops << 12) | (g.r.below(1 << bits) as u16 & 0xfff), g.r.below(6) as u8)
                })
                .collect();
        }
        "C12" => {
            let n = 1 + g.r.below(2) as usize;
            g.new_engs(n, &mut ops);
            if far {
                g.far(0, fast, &mut ops);
            }
            g.w.fail = 14;
            g.w.cell += 3;
            g.w.e_cell += 3;
            if many {
                g.history(len / 3, &mut ops);
                g.many(&[0, 1, 3], fast, &mut ops);
                len = len.min(20);
            }
            g.history(len, &mut ops);
            g.finish(&mut ops);
        }
        "C13" => {
            let n = 1 + g.r.below(4) as usize;
            g.asks = true;
            g.new_engs(n, &mut ops);
            if far {
                g.far(0, fast, &mut ops);
            }
            let churn = g.churn();
            ops.extend(churn);
            g.w.query = if long { 4 } else { 20 };
            g.w.page = 8;
            g.w.new = 3;
            g.w.mv = 1;
            g.w.drop = 1;
            if many {
                g.history(len / 3, &mut ops);
                g.many(&[0, 1], fast, &mut ops);
                len = len.min(20);
            }
            g.history(len, &mut ops);
            g.finish(&mut ops);
            if g.r.chance(1, 500) {
                g.edge(0, &mut ops);
            }
        }
        "C14" => {
            g.new_engs(1, &mut ops);
            if far {
                g.far(0, fast, &mut ops);
            }
            g.w.page = 20;
            g.w.raw = 20;
            g.w.align = 8;
            g.w.query = 6;
            g.w.fin = 10;
            g.w.cell += 3;
            g.w.f = 8;
            g.w.e_hop += 2;
            if fins {
                g.history(len / 3, &mut ops);
                g.fins(0, &mut ops);
            }
            if many {
                g.history(len / 3, &mut ops);
                g.many(&[1, 1, 0], fast, &mut ops);
                len = len.min(20);
            }
            g.history(len, &mut ops);
            g.finish(&mut ops);
        }
        _ => {
            // C15
            let n = 1 + g.r.below(2) as usize;
            g.new_engs(n, &mut ops);
            if far {
                g.far(0, fast, &mut ops);
            }
            g.w.e_host = 5;
            let nh = 2 + g.r.below(4) as u32;
            g.hosts = nh;
            let deep = g.r.chance(1, 10);
            if deep {
                p.depth = *g.r.pick(&[5u8, 8, 12, 20]);
                g.w.e_host = 20;
            }
            if g.r.chance(3, 4) {
                let hid = g.r.below(nh as u64) as u32;
                g.fn_with(0, Elem::Host { hid }, &mut ops);
            }
            if many {
                g.many(&[0, 1, 2, 3], fast, &mut ops);
                len = len.min(20);
            }
            g.history(if long { len } else { len.min(45) }, &mut ops);
            // the scripts know what exists, and add to it
            for h in 0..nh {
                let mut v = vec![];
                let m = 1 + g.r.below(6) as usize;
                if g.r.chance(1, 4) {
                    v.push(Op::Query { i: 0 });
                }
                g.history(m, &mut v);
                if h % 2 == 0 || g.r.chance(1, 2) {
                    v.push(Op::Resolve { i: 0 });
                    if let Some(c) = g.call(0) {
                        v.push(c);
                    }
                }
                if deep && h > 0 {
                    for _ in 0..2 {
                        if let Some(c) = g.call(0) {
                            v.push(c);
                        }
                    }
                }
                p.host.push(v);
            }
            g.finish(&mut ops);
            g.history(10, &mut ops);
        }
    }
    p.ops = ops;
    p
}
