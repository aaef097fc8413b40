//! Executes one plan.
use crate::green::{self, St};
use crate::lanes;
use crate::mem;
use crate::plan::*;
use crate::world::*;
use std::sync::mpsc;

#[derive(Default)]
pub struct Outcome {
    pub findings: Vec<Finding>,
    pub stats: Stats,
    /// what was executed and computed
    pub hash: u64,
    /// of the interleaving (0: none)
    pub sched_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub inside: u64,
    pub watch_hits: u64,
}

extern "C" fn exec_entry(t: usize) -> ! {
    loop {
        unsafe {
            let w = &mut *WORLD;
            if let Some(k) = w.queues[t].pop_front() {
                let g = green::s();
                g.cur_call[t] = k as u32 + 1;
                let (addr, arg) = (w.jobs[k].addr, w.jobs[k].arg);
                let r = green::gt_call(addr, arg);
                let w = &mut *WORLD;
                w.jobs[k].result = r;
                w.jobs[k].done = true;
            } else {
                green::yield_as(St::Idle);
            }
        }
    }
}

// ---- OS threads taking turns --------------------------------------------------------
struct Job(Box<dyn FnOnce()>);
unsafe impl Send for Job {}

#[derive(Default)]
struct Pool {
    tx: Vec<Option<(mpsc::Sender<Job>, mpsc::Receiver<()>, std::thread::JoinHandle<()>)>>,
}

impl Pool {
    fn on(&mut self, t: usize, f: Box<dyn FnOnce()>) {
        while self.tx.len() <= t {
            self.tx.push(None);
        }
        if self.tx[t].is_none() {
            let (tx, rx) = mpsc::channel::<Job>();
            let (dtx, drx) = mpsc::channel::<()>();
            let h = std::thread::spawn(move || {
                green::altstack();
                for j in rx {
                    (j.0)();
                    let _ = dtx.send(());
                }
            });
            self.tx[t] = Some((tx, drx, h));
        }
        let (tx, rx, _) = self.tx[t].as_ref().unwrap();
        tx.send(Job(f)).unwrap();
        rx.recv().unwrap();
        if t == 3 {
            let (tx, _, h) = self.tx[t].take().unwrap();
            drop(tx);
            let _ = h.join();
        }
    }
    fn stop(&mut self) {
        for x in self.tx.drain(..).flatten() {
            let (tx, _, h) = x;
            drop(tx);
            let _ = h.join();
        }
    }
}

fn step_all(w: &mut World, op: &Op) {
    // the whole operation of the emitter is stepped
    green::s().lib = true;
    unsafe { green::gt_step_on() };
    w.exec(op);
    unsafe { green::gt_step_off() };
    green::s().lib = false;
}

fn run_single(p: &Plan, w: &mut World) {
    let mut pool = Pool::default();
    for (k, op) in p.ops.iter().enumerate() {
        unsafe { crate::CUR_OP = k as i32 };
        let t = w.next_thread;
        if !matches!(op, Op::OnThread { .. }) && t != 0 {
            w.next_thread = 0;
            let wp = w as *mut World as usize;
            let o = op.clone();
            *w.stats.kinds.entry("operation on another thread".into()).or_insert(0) += 1;
            pool.on(t as usize % 4, Box::new(move || unsafe { (*(wp as *mut World)).exec(&o) }));
        } else {
            w.exec(op);
        }
        if !w.bad() {
            w.check_all();
        }
        if w.bad() {
            break;
        }
    }
    pool.stop();
}

fn run_green(p: &Plan, w: &mut World, out: &mut Outcome) {
    let budget = 3_000_000;
    green::start((p.execs as usize).clamp(1, green::MAXT - 1), exec_entry, &p.sched, budget);
    for (k, op) in p.ops.iter().enumerate() {
        unsafe { crate::CUR_OP = k as i32 };
        let whole = p.step_ops
            && matches!(op, Op::Fn { .. } | Op::Cell { .. } | Op::Detour { .. } | Op::Alt { .. } | Op::Raw { .. } | Op::Align { .. } | Op::Page { .. } | Op::Bind { .. } | Op::Ref { n: 0..=4, .. } | Op::Labels { n: 0..=40, .. });
        if whole {
            step_all(w, op);
        } else {
            w.exec(op);
        }
        if !w.bad() {
            green::yield_as(St::Runnable);
            w.collect();
        }
        if !w.bad() {
            w.check_all();
        }
        if w.bad() {
            break;
        }
    }
    unsafe { crate::CUR_OP = p.ops.len() as i32 };
    if !w.bad() {
        w.drain();
        if !w.bad() {
            w.check_all();
        }
    }
    green::stop();
    let g = green::s();
    out.steps = g.steps;
    out.switches = g.switches;
    out.inside = g.lib_switches;
    out.watch_hits = g.watch_hits;
    out.sched_hash = if g.switches > 0 { g.hash | 1 } else { 0 };
}

fn run_lanes(p: &Plan, out: &mut Outcome) {
    // each emitter alone first, on the main thread
    let mut want: Vec<Vec<String>> = vec![];
    for (k, lane) in p.lanes.iter().enumerate() {
        let mut img = vec![];
        for i in 0..8 {
            // and each of its engines alone
            if !lane.iter().any(|op| inst_of(op) == i) {
                continue;
            }
            let mut w = World::new(p);
            w.mode = 2;
            for (j, op) in lane.iter().enumerate().filter(|(_, op)| inst_of(op) == i) {
                unsafe { crate::CUR_OP = ((k + 1) * 1000 + j) as i32 };
                w.exec(op);
                if w.bad() {
                    break;
                }
            }
            if !w.bad() {
                w.check_all();
            }
            if w.bad() {
                out.findings = std::mem::take(&mut w.findings);
                out.findings[0].detail.push_str(&format!(" (engine {i} of emitter {} alone)", k + 1));
                return;
            }
            img.extend(w.image());
            add_stats(&mut out.stats, &w.stats);
            out.hash = h(out.hash, w.hash);
            drop(w);
            mem::release_all();
        }
        want.push(img);
    }
    // now together, elsewhere
    let res: Vec<(Vec<String>, Vec<Finding>)> = p.lanes.iter().map(|_| (vec![], vec![])).collect();
    let rp = res.as_ptr() as usize;
    let pp = p as *const Plan as usize;
    mem::ARMED.store(true, std::sync::atomic::Ordering::Relaxed);
    let bodies: Vec<Box<dyn FnOnce()>> = (0..p.lanes.len())
        .map(|k| {
            Box::new(move || {
                let p = unsafe { &*(pp as *const Plan) };
                let mut w = World::new(p);
                w.mode = 2;
                w.shift = p.shift;
                for (j, op) in p.lanes[k].iter().enumerate() {
                    let step = !matches!(op, Op::Fail { .. } | Op::Labels { n: 100.., .. } | Op::Ref { n: 20.., .. });
                    unsafe { crate::CUR_OP = ((k + 1) * 1000 + j) as i32 };
                    lanes::op(step, || w.exec(op));
                    if w.bad() {
                        break;
                    }
                }
                if !w.bad() {
                    w.check_all();
                }
                let r = unsafe { &mut *((rp as *mut (Vec<String>, Vec<Finding>)).add(k)) };
                if w.bad() {
                    r.1 = w.findings.clone();
                } else {
                    r.0 = w.image();
                }
            }) as Box<dyn FnOnce()>
        })
        .collect();
    let ran = lanes::run(bodies, &p.sched, 30_000_000);
    mem::ARMED.store(false, std::sync::atomic::Ordering::Relaxed);
    out.steps = ran.steps;
    out.switches = ran.switches;
    out.inside = ran.mid;
    out.sched_hash = if ran.switches > 0 { ran.hash | 1 } else { 0 };
    *out.stats.kinds.entry("wait inside a lock".into()).or_insert(0) += ran.waits;
    for (k, (img, f)) in res.iter().enumerate() {
        if !f.is_empty() {
            out.findings = f
                .iter()
                .map(|f| Finding { class: f.class.clone(), detail: format!("{} (emitter {} among {})", f.detail, k + 1, p.lanes.len()) })
                .collect();
            return;
        }
        if *img != want[k] {
            let d = (0..img.len().min(want[k].len())).find(|j| img[*j] != want[k][*j]);
            let (a, b) = match d {
                Some(d) => (want[k][d].clone(), img[d].clone()),
                None => (format!("{} items", want[k].len()), format!("{} items", img.len())),
            };
            out.findings.push(Finding {
                class: "isolation".into(),
                detail: format!("emitter {}: alone {a}, among others {b}", k + 1),
            });
            return;
        }
    }
}

pub fn add_stats(a: &mut Stats, b: &Stats) {
    a.ops += b.ops;
    a.skipped += b.skipped;
    a.calls += b.calls;
    a.first_calls += b.first_calls;
    a.finals += b.finals;
    a.patches += b.patches;
    a.passes += b.passes;
    a.nested += b.nested;
    a.hosts += b.hosts;
    a.panics_caught += b.panics_caught;
    a.dumps += b.dumps;
    a.freeze_checks += b.freeze_checks;
    a.queries += b.queries;
    a.cell_checks += b.cell_checks;
    a.late_refs += b.late_refs;
    for (k, v) in &b.kinds {
        *a.kinds.entry(k.clone()).or_insert(0) += v;
    }
}

pub fn run_plan(p: &Plan, scratch: Option<String>) -> Outcome {
    mem::reset();
    green::reset();
    unsafe {
        crate::CUR_OP = -1;
        mem::APLAN.reuse = p.reuse;
    }
    mem::arena_fresh();
    green::cpu_limit(if p.prop == "C06" || p.mode != 0 { 100 } else { 30 });
    let mut out = Outcome::default();
    if p.mode == 2 {
        run_lanes(p, &mut out);
        green::cpu_limit(0);
        return out;
    }
    if p.mode == 1 {
        green::s().passes.reserve(200_000);
        green::s().sites.reserve(256);
        green::s().sched.reserve(p.sched.len());
        unsafe { mem::WINDOW = true };
    }
    let mut w = World::new(p);
    w.scratch = scratch;
    unsafe { WORLD = &mut *w };
    if p.mode == 1 {
        run_green(p, &mut w, &mut out);
    } else {
        run_single(p, &mut w);
    }
    unsafe { WORLD = std::ptr::null_mut() };
    green::cpu_limit(0);
    out.findings = std::mem::take(&mut w.findings);
    out.hash = w.hash;
    out.stats = std::mem::take(&mut w.stats);
    drop(w);
    let out = Outcome {
        // out of the arena of the run
        findings: out.findings,
        ..out
    };
    unsafe { mem::WINDOW = false };
    let kinds = out.stats.kinds.clone();
    Outcome { stats: Stats { kinds, ..out.stats }, ..out }
}
