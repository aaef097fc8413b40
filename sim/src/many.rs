//! A great number of the same, checked as a whole.
use crate::world::*;
use monoasm::*;

pub struct Bulk {
    pub label: DestLabel,
    pub data: bool,
    pub page: usize,
    pub epoch: u32,
    pub val: u64,
    /// bytes
    pub n: usize,
    pub al: usize,
    pub addr: usize,
}

fn next(x: &mut u64) -> u64 {
    *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *x ^ (*x >> 31)
}

impl World {
    pub fn op_many(&mut self, i: usize, what: u8, n: u32, val: u64) -> bool {
        let e = self.engs[i].as_ref().unwrap();
        if self.mode != 0 || self.depth > 0 || e.lost || e.full != [false; 3] || (0..2).any(|p| e.pos[p] + (16 << 20) > e.psize) {
            return false;
        }
        match what {
            0 => self.many_cells(i, n, val),
            1 => self.many_finals(i, n, val),
            _ => self.many_patches(i, n, val),
        }
    }

    fn many_cells(&mut self, i: usize, n: u32, val: u64) -> bool {
        let mut x = val;
        let e = self.engs[i].as_mut().unwrap();
        let (page, epoch) = (e.page, e.finals);
        let same = val % 3;
        for _ in 0..n {
            let v = next(&mut x);
            let data = match same {
                0 => true,
                1 => false,
                _ => v >> 63 == 1,
            };
            let j = e.jit.as_mut().unwrap();
            let v = if v % 5 == 0 { v % 3 } else { v };
            let (label, val, n, al) = match (v >> 40) % 5 {
                0 | 1 => (if data { j.data_i64(v as i64) } else { j.const_i64(v as i64) }, v, 8, 16),
                2 | 3 => (if data { j.data_i32(v as i32) } else { j.const_i32(v as i32) }, v as u32 as u64, 4, 4),
                _ => {
                    let n = (v >> 8) as usize % 9;
                    (if data { j.data(n) } else { j.constant(n) }, 0, n, 16)
                }
            };
            e.bulk.push(Bulk { label, data, page, epoch, val, n, al, addr: 0 });
        }
        *self.stats.kinds.entry("cells in great number".into()).or_insert(0) += n as u64;
        true
    }

    /// After a finalisation: what was declared has a place of its own.
    pub fn place_bulk(&mut self, e: &mut Eng) {
        let fin = e.finals;
        let mut out: Vec<(&str, String)> = vec![];
        let mut some = false;
        for k in 0..e.bulk.len() {
            if e.bulk[k].addr != 0 || e.bulk[k].epoch >= fin {
                continue;
            }
            some = true;
            let l = e.bulk[k].label;
            match quietly(|| e.j().get_label_u64(l) as usize) {
                Ok(a) => e.bulk[k].addr = a,
                Err(m) => {
                    out.push(("cell.unplaced", format!("cell {k} of many: {m}")));
                    break;
                }
            }
            let b = &e.bulk[k];
            let (a, n) = (b.addr, b.n);
            if a % b.al != 0 {
                out.push(("cell.align", format!("cell {k} of many ({n} bytes) at {a:#x}")));
            }
            let (lo, hi) = if b.data { (e.at(2, 0), e.at(3, 0)) } else { (e.at(b.page, 0), e.at(b.page, e.pos[b.page])) };
            if a < lo || a + n > hi {
                out.push(("cell.place", format!("cell {k} of many at {a:#x}, outside {lo:#x}..{hi:#x}")));
            } else if !mem_eq(a, &b.val.to_le_bytes()[..n]) {
                out.push(("cell.value", format!("cell {k} of many at {a:#x} does not hold {:#x}", b.val)));
            }
            if out.len() > 3 {
                break;
            }
        }
        if some && out.is_empty() {
            let mut v: Vec<(usize, usize)> = e.bulk.iter().filter(|b| b.addr != 0 && b.n > 0).map(|b| (b.addr, b.addr + b.n)).collect();
            v.extend(e.cells.values().filter(|c| c.addr != 0 && !c.val.is_empty()).map(|c| (c.addr, c.addr + c.val.len())));
            v.extend(e.segs.iter().filter(|s| s.hi > s.lo).map(|s| (e.at(s.page, s.lo), e.at(s.page, s.hi))));
            v.sort();
            if let Some(w) = v.windows(2).find(|w| w[0].1 > w[1].0) {
                out.push(("cell.overlap", format!("{:#x}..{:#x} and {:#x}..{:#x}", w[0].0, w[0].1, w[1].0, w[1].1)));
            }
        }
        for (c, d) in out {
            self.find(c, d);
        }
    }

    pub fn check_bulk(e: &Eng) -> Option<String> {
        let k = e.bulk.iter().position(|b| b.addr != 0 && !mem_eq(b.addr, &b.val.to_le_bytes()[..b.n]))?;
        Some(format!("cell {k} of many at {:#x} does not hold {:#x} any more", e.bulk[k].addr, e.bulk[k].val))
    }

    fn many_finals(&mut self, i: usize, n: u32, val: u64) -> bool {
        self.op_finalize(i, false);
        if self.bad() {
            return true;
        }
        let mut x = val;
        let mut e = self.engs[i].take().unwrap();
        let home = e.page;
        let r = quietly(|| {
            for _ in 0..n {
                let v = next(&mut x);
                let p = (v >> 50) as usize & 1;
                e.page = p;
                e.j().select_page(p);
                let m = (v >> 32) as usize % 4;
                if m > 0 {
                    let b = v.to_le_bytes()[..m].to_vec();
                    let k = e.seg(&[], |j| j.emit(&b));
                    e.segs[k].expect = Some(b);
                }
                e.j().finalize();
                e.finals += 1;
                for p in 0..2 {
                    e.j().select_page(p);
                    let cur = e.j().get_current();
                    let start = e.blocks[p].last().map_or(0, |b| b.2);
                    let end = e.pos[p];
                    e.blocks[p].push((start, end, cur));
                    e.pos[p] = cur;
                }
            }
        });
        e.page = home;
        e.j().select_page(home);
        if let Err(m) = r {
            self.engs[i] = Some(e);
            self.find("panic.finalize", m);
            return true;
        }
        for p in 0..2 {
            e.j().select_page(p);
            let got: Vec<(usize, usize, usize)> = blocks(e.j()).map(|b| b.collect()).unwrap_or_else(|| e.blocks[p].clone());
            if got != e.blocks[p] {
                let k = (0..got.len().max(e.blocks[p].len())).find(|k| got.get(*k) != e.blocks[p].get(*k)).unwrap();
                self.find("stream.block", format!("page {p}: {} records, {} expected; number {k} is {:?}, expected {:?}", got.len(), e.blocks[p].len(), got.get(k), e.blocks[p].get(k)));
            }
        }
        e.j().select_page(home);
        self.stats.finals += n as u64;
        *self.stats.kinds.entry("finalisations in great number".into()).or_insert(0) += n as u64;
        self.engs[i] = Some(e);
        self.freeze(i);
        true
    }

    fn many_patches(&mut self, i: usize, n: u32, val: u64) -> bool {
        let mut e = self.engs[i].take().unwrap();
        // jumps that can be patched now, with the alternatives they have
        let v: Vec<(u32, DestLabel, Vec<(u8, DestLabel)>)> = e
            .sites
            .iter()
            .filter(|(_, s)| s.epoch < e.finals)
            .map(|(k, s)| (*k, s.label, s.alts.iter().filter(|(_, a)| a.epoch < e.finals).map(|(k, a)| (*k, a.label)).collect::<Vec<_>>()))
            .filter(|s| s.2.len() > 1)
            .collect();
        if v.is_empty() {
            self.engs[i] = Some(e);
            return false;
        }
        let mut x = val;
        let few = 1 + (val >> 20) as usize % v.len();
        let r = quietly(|| {
            for _ in 0..n {
                let y = next(&mut x);
                let (sid, l, alts) = &v[(y >> 16) as usize % few];
                let (k, a) = alts[(y >> 33) as usize % alts.len()];
                if y >> 63 == 0 {
                    e.j().apply_jmp_patch(*l, a);
                } else {
                    let p = e.j().get_label_address(*l);
                    e.j().apply_jmp_patch_address(p, a);
                }
                let s = e.sites.get_mut(sid).unwrap();
                s.cur = k;
                s.patches += 1;
            }
        });
        self.stats.patches += n as u64;
        *self.stats.kinds.entry("patches in great number".into()).or_insert(0) += n as u64;
        self.engs[i] = Some(e);
        if let Err(m) = r {
            self.find("panic.patch", m);
            return true;
        }
        self.freeze(i);
        true
    }
}

impl World {
    /// Questions by several threads at once. (They share the engine, which its type must allow.)
    pub fn op_ask(&mut self, i: usize, n: u8, seed: u64) -> bool {
        if self.mode != 0 || !Sent::<&JitMemory>::CAN {
            return false;
        }
        let e = self.engs[i].as_ref().unwrap();
        let ls = e.places();
        if ls.is_empty() || e.lost {
            return false;
        }
        let mut r = crate::rng::Rng::new(seed);
        let n = 2 + (n % 3) as usize;
        let mut what: Vec<Vec<(u8, DestLabel, usize, usize)>> = vec![];
        let few = 1 + r.below(4) as usize;
        for _ in 0..n {
            let k = 2 + r.below(10);
            what.push(
                (0..k)
                    .map(|_| {
                        let (l, a, _) = &ls[(r.next() as usize % ls.len().min(few * 3)).min(ls.len() - 1)];
                        match r.below(8) {
                            0 => (1, *l, e.base + r.below(2 * e.psize as u64) as usize, 1),
                            1 => (1, *l, e.base + 2 * e.psize + r.below(e.psize as u64) as usize, 0),
                            2 => (2, *l, 0, e.at(e.page, e.pos[e.page])),
                            3 => (3, *l, 0, e.at(e.page, 0)),
                            4 => (4, *l, 0, e.pos[e.page]),
                            _ => (0, *l, 0, *a),
                        }
                    })
                    .collect(),
            );
        }
        let bits = *r.pick(&[1u64, 3, 4, 5, 6, 8]);
        let sched: Vec<(u16, u8)> = (0..200).map(|_| ((r.below(1 << bits) as u16) & 0xfff, r.below(6) as u8)).collect();
        let jit = &**e.jit.as_ref().unwrap() as *const JitMemory as usize;
        let said: Vec<Vec<usize>> = what.iter().map(|w| vec![0; w.len()]).collect();
        let sp = said.as_ptr() as usize;
        let wp = what.as_ptr() as usize;
        let bodies: Vec<Box<dyn FnOnce()>> = (0..n)
            .map(|k| {
                Box::new(move || {
                    let j = unsafe { &*(jit as *const JitMemory) };
                    let w = unsafe { &*(wp as *const Vec<(u8, DestLabel, usize, usize)>).add(k) };
                    let s = unsafe { &mut *(sp as *mut Vec<usize>).add(k) };
                    for (m, (how, l, a, _)) in w.iter().enumerate() {
                        crate::lanes::op(true, || {
                            s[m] = match how {
                                0 => j.get_label_address(*l).as_ptr() as usize,
                                1 => j.include(*a as *mut u8) as usize,
                                2 => j.get_current_address().as_ptr() as usize,
                                3 => j.as_slice().as_ptr() as usize,
                                _ => j.get_current(),
                            }
                        });
                    }
                }) as Box<dyn FnOnce()>
            })
            .collect();
        let ran = crate::lanes::run(bodies, &sched, 3_000_000);
        self.count("questions by several threads at once");
        self.hash = h(self.hash, ran.hash);
        *self.stats.kinds.entry("instructions between switches of threads that ask".into()).or_insert(0) += ran.steps;
        *self.stats.kinds.entry("switches inside a question".into()).or_insert(0) += ran.mid;
        for (k, (w, s)) in what.iter().zip(&said).enumerate() {
            for (x, got) in w.iter().zip(s) {
                if *got != x.3 {
                    let kind = ["label", "include", "current address", "slice", "position"][x.0 as usize];
                    self.find("query.race", format!("thread {k} of {n}: question for {kind}: {got:#x}, expected {:#x}", x.3));
                    return true;
                }
            }
        }
        true
    }
}
