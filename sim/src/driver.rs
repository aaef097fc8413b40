//! Distributes the runs of a check over worker processes, confirms and minimises what
//! they find, and writes replay and evidence files.
use crate::gen;
use crate::green;
use crate::mem;
use crate::plan::*;
use crate::run;
use crate::world::Stats;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone)]
struct Replay {
    property: String,
    /// which build of the program
    profile: String,
    class: String,
    detail: String,
    /// the run itself
    #[serde(skip_serializing_if = "Option::is_none", default)]
    plan: Option<Plan>,
    /// or: the runs of one process up to the failing one
    #[serde(skip_serializing_if = "Option::is_none", default)]
    range: Option<Range>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Range {
    seed: u64,
    from: u64,
    stride: u64,
    to: u64,
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|p| a.get(p + 1)).cloned()
}
fn num(a: &[String], k: &str, d: u64) -> u64 {
    arg(a, k).and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn main(a: &[String]) -> i32 {
    match a.first().map(|s| s.as_str()) {
        Some("worker") => on_fixed_stack(a, worker),
        Some("exec") => on_fixed_stack(a, exec),
        Some("gen") => {
            let p = gen::plan(&arg(a, "--property").unwrap(), num(a, "--seed", 1), num(a, "--idx", 0));
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        Some("check") => check(a),
        Some("replay") => replay(a),
        _ => {
            eprintln!("usage: monosim check --property P [--tier quick|thorough] [--seed N] | replay FILE");
            2
        }
    }
}

fn say(s: &str) {
    unsafe { libc::syscall(libc::SYS_write, 1i64, s.as_ptr() as i64, s.len() as i64, 0i64, 0i64, 0i64) };
}

/// Addresses are the same in every process: no randomised layout, and a stack of its own.
fn on_fixed_stack(a: &[String], f: fn(&[String]) -> i32) -> i32 {
    const NO_RANDOM: u64 = 0x0040000;
    let p = unsafe { libc::personality(0xffff_ffff) };
    if p >= 0 && p as u64 & NO_RANDOM == 0 && std::env::var_os("MONOSIM_FIXED").is_none() {
        unsafe { libc::personality(p as u64 | NO_RANDOM) };
        use std::os::unix::process::CommandExt;
        let e = Command::new(std::env::current_exe().unwrap()).args(a).env("MONOSIM_FIXED", "1").exec();
        eprintln!("cannot start again: {e}");
        return 2;
    }
    let v = a.to_vec();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            crate::lanes::set_main();
            f(&v)
        })
        .unwrap()
        .join()
        .unwrap_or(2)
}

// ---- inside a worker ----------------------------------------------------------------
fn prepare() {
    std::panic::set_hook(Box::new(|_| {}));
    mem::init();
    green::init();
}

struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        let d = format!("/tmp/monosim.{}", std::process::id());
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn nontrivial(prop: &str, o: &run::Outcome) -> bool {
    let s = &o.stats;
    let kind = |p: &str| s.kinds.iter().any(|(k, v)| k.starts_with(p) && *v > 0);
    match prop {
        "C01" => s.finals >= 2 && s.calls >= 1,
        "C02" => s.late_refs >= 1 && s.calls >= 1,
        "C03" => s.patches >= 1 && s.calls >= 1,
        "C04" => s.patches >= 1 && s.passes >= 1 && o.switches > 0,
        "C05" => s.cell_checks >= 1 && s.calls >= 1,
        "C06" => kind("fault: page full"),
        "C07" => kind("fault: allocation") || kind("fault: protection"),
        "C08" => s.calls >= 1 && (kind("operation on another") || kind("engine moved") || kind("engine dropped")),
        "C09" | "C10" => s.dumps >= 1,
        "C11" => o.switches > 0 && o.inside > 0,
        "C12" => s.panics_caught >= 1 && s.calls >= 1,
        "C13" => s.queries >= 1,
        "C14" => s.finals >= 1 && s.freeze_checks >= 1,
        _ => s.hosts >= 1 && s.nested >= 1,
    }
}

fn stats_json(s: &Stats) -> serde_json::Value {
    json!({
        "operations": s.ops, "skipped": s.skipped, "calls": s.calls, "functions_first_called": s.first_calls,
        "finalisations": s.finals, "patches": s.patches, "patchable_jumps_passed": s.passes, "nested_operations": s.nested,
        "callbacks": s.hosts, "panics_caught": s.panics_caught, "dumps": s.dumps, "code_comparisons": s.freeze_checks,
        "query_rounds": s.queries, "cell_comparisons": s.cell_checks, "references_before_binding": s.late_refs,
    })
}

fn worker(a: &[String]) -> i32 {
    let prop = arg(a, "--property").unwrap();
    let seed = num(a, "--seed", 1);
    let (from, stride, to) = (num(a, "--from", 0), num(a, "--stride", 1), num(a, "--to", 0));
    prepare();
    let scratch = Scratch::new();
    let mut total = Stats::default();
    let mut i = from;
    while i <= to {
        let p = gen::plan(&prop, seed, i);
        say(&format!("S {i}\n"));
        let o = run::run_plan(&p, Some(scratch.0.clone()));
        if let Some(f) = o.findings.first() {
            say(&format!("F {i} {}\n", serde_json::to_string(f).unwrap()));
            drop(scratch);
            return 1;
        }
        say(&format!(
            "R {i} {:016x} {:016x} {} {} {} {} {}\n",
            o.hash,
            o.sched_hash,
            nontrivial(&prop, &o) as u8,
            o.steps,
            o.switches,
            o.inside,
            o.watch_hits
        ));
        run::add_stats(&mut total, &o.stats);
        i += stride;
    }
    say(&format!("E {}\n", json!({"n": stats_json(&total), "k": total.kinds})));
    0
}

fn exec(a: &[String]) -> i32 {
    prepare();
    let s = std::fs::read_to_string(&a[1]).expect("plan file");
    let p: Plan = serde_json::from_str(&s).expect("plan");
    let scratch = Scratch::new();
    let o = run::run_plan(&p, Some(scratch.0.clone()));
    drop(scratch);
    if let Some(f) = o.findings.first() {
        say(&format!("F 0 {}\n", serde_json::to_string(f).unwrap()));
        return 1;
    }
    say(&format!("R 0 {:016x} {:016x} {} {}\n", o.hash, o.sched_hash, o.steps, o.switches));
    0
}

// ---- the parent ---------------------------------------------------------------------
fn bin(profile: &str) -> String {
    let me = std::env::current_exe().unwrap();
    let dir = me.parent().unwrap().parent().unwrap();
    dir.join(profile).join("monosim").to_string_lossy().into_owned()
}

enum Msg {
    Line(usize, String),
    End(usize, Option<i32>, Option<i32>),
}

struct Cand {
    idx: u64,
    range: Range,
    profile: String,
    f: Finding,
}

fn finding_of(line: &str) -> Option<Finding> {
    if let Some(rest) = line.strip_prefix("F ") {
        let (_, j) = rest.split_once(' ')?;
        return serde_json::from_str(j).ok();
    }
    if let Some(rest) = line.strip_prefix("X ") {
        let (c, d) = rest.split_once(' ')?;
        return Some(Finding { class: c.into(), detail: d.into() });
    }
    None
}

fn cleanup(pid: u32) {
    let _ = std::fs::remove_dir_all(format!("/tmp/monosim.{pid}"));
}

/// Run a child to its end; what did it find?
fn child(profile: &str, args: &[String], secs: u64) -> Result<Option<Finding>, String> {
    let mut c = Command::new(bin(profile))
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let pid = c.id();
    let mut out = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    let t = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = out.read_to_end(&mut s);
        let _ = tx.send(String::from_utf8_lossy(&s).into_owned());
    });
    let txt = match rx.recv_timeout(Duration::from_secs(secs)) {
        Ok(t) => t,
        Err(_) => {
            let _ = c.kill();
            let _ = c.wait();
            let _ = t.join();
            cleanup(pid);
            return Ok(Some(Finding { class: "hang.wall".into(), detail: format!("no end within {secs} s") }));
        }
    };
    let _ = t.join();
    let st = c.wait().map_err(|e| e.to_string())?;
    cleanup(pid);
    if let Some(f) = txt.lines().find_map(finding_of) {
        return Ok(Some(f));
    }
    match st.code() {
        Some(0) => Ok(None),
        Some(c) => Err(format!("exit status {c}")),
        None => {
            use std::os::unix::process::ExitStatusExt;
            Ok(Some(Finding { class: "crash.signal".into(), detail: format!("killed by signal {:?}", st.signal()) }))
        }
    }
}

fn group(c: &str) -> &str {
    if c.starts_with("crash.") || c.starts_with("hang.") {
        c.split('.').next().unwrap()
    } else {
        c
    }
}

struct Trial {
    profile: String,
    file: String,
    left: u32,
    until: Instant,
}

impl Trial {
    fn run(&mut self, p: &Plan) -> Option<Finding> {
        if self.left == 0 || Instant::now() > self.until {
            return None;
        }
        self.left -= 1;
        std::fs::write(&self.file, serde_json::to_vec(p).unwrap()).ok()?;
        child(&self.profile, &["exec".into(), self.file.clone()], 40).ok().flatten()
    }
    fn fails(&mut self, p: &Plan, g: &str) -> Option<Finding> {
        self.run(p).filter(|f| group(&f.class) == g)
    }
}

fn ddmin<T: Clone>(v: &[T], mut ok: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = v.to_vec();
    let mut n = (cur.len() / 2).max(1);
    while !cur.is_empty() {
        let mut k = 0;
        let mut hit = false;
        while k < cur.len() {
            let mut t = cur.clone();
            t.drain(k..(k + n).min(cur.len()));
            if ok(&t) {
                cur = t;
                hit = true;
            } else {
                k += n;
            }
        }
        if n == 1 && !hit {
            break;
        }
        if n > 1 {
            n /= 2;
        }
    }
    cur
}

fn minimise(mut p: Plan, f: Finding, t: &mut Trial) -> (Plan, Finding) {
    let g = group(&f.class).to_string();
    let mut best = f;
    let ops = p.ops.clone();
    let red = ddmin(&ops, |v| {
        let q = Plan { ops: v.to_vec(), ..p.clone() };
        t.fails(&q, &g).map(|f| best = f).is_some()
    });
    p.ops = red;
    for k in 0..p.lanes.len() {
        let v = p.lanes[k].clone();
        let red = ddmin(&v, |v| {
            let mut q = p.clone();
            q.lanes[k] = v.to_vec();
            t.fails(&q, &g).map(|f| best = f).is_some()
        });
        p.lanes[k] = red;
    }
    for k in 0..p.host.len() {
        let v = p.host[k].clone();
        let red = ddmin(&v, |v| {
            let mut q = p.clone();
            q.host[k] = v.to_vec();
            t.fails(&q, &g).map(|f| best = f).is_some()
        });
        p.host[k] = red;
    }
    let s = p.sched.clone();
    let red = ddmin(&s, |v| {
        let q = Plan { sched: v.to_vec(), ..p.clone() };
        t.fails(&q, &g).map(|f| best = f).is_some()
    });
    p.sched = red;
    // bodies and faults
    for k in 0..p.ops.len() {
        match p.ops[k].clone() {
            Op::Fn { i, fid, align, body } => {
                let red = ddmin(&body, |v| {
                    let mut q = p.clone();
                    q.ops[k] = Op::Fn { i, fid, align, body: v.to_vec() };
                    t.fails(&q, &g).map(|f| best = f).is_some()
                });
                p.ops[k] = Op::Fn { i, fid, align, body: red };
            }
            Op::Dump { i, env } => {
                let red = ddmin(&env.faults, |v| {
                    let mut q = p.clone();
                    q.ops[k] = Op::Dump { i, env: DumpEnv { faults: v.to_vec(), ..env.clone() } };
                    t.fails(&q, &g).map(|f| best = f).is_some()
                });
                let mut env = DumpEnv { faults: red, ..env };
                if env.other.is_some() {
                    let mut q = p.clone();
                    let alone = DumpEnv { other: None, call: None, ..env.clone() };
                    q.ops[k] = Op::Dump { i, env: alone.clone() };
                    if let Some(f) = t.fails(&q, &g) {
                        best = f;
                        env = alone;
                    }
                }
                p.ops[k] = Op::Dump { i, env };
            }
            _ => {}
        }
    }
    (p, best)
}

fn tmpfile(name: &str) -> String {
    format!("/tmp/monosim.{}.{name}", std::process::id())
}

/// (runs with the debug build, runs with the fast build)
fn counts(prop: &str, tier: &str) -> (u64, u64) {
    let (d, f) = match prop {
        "C01" => (7000, 7000),
        "C03" | "C05" => (12000, 12000),
        "C04" => (4000, 4000),
        "C11" => (3000, 3000),
        "C06" => (700, 700),
        "C09" | "C10" => (20000, 20000),
        "C08" => (30000, 30000),
        "C02" | "C12" | "C14" => (90000, 90000),
        _ => (60000, 60000),
    };
    if tier == "thorough" {
        (d * 30, f * 30)
    } else {
        (d, f)
    }
}

fn chunk(prop: &str) -> u64 {
    match prop {
        "C06" => 10,
        "C01" | "C03" | "C04" | "C05" | "C11" => 40,
        _ => 250,
    }
}

/// Known findings: "finding: property=<id> class=<class> match=<text> :: <what fails>"
fn known(prop: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    let Ok(s) = std::fs::read_to_string("known-findings.txt") else { return v };
    for l in s.lines() {
        let Some(r) = l.strip_prefix("finding: ") else { continue };
        let Some((head, what)) = r.split_once(" :: ") else { continue };
        let get = |k: &str| head.split_once(k).map(|x| x.1);
        let (Some(p), Some(c), Some(m)) = (get("property="), get("class="), get("match=")) else { continue };
        if p.split(' ').next() == Some(prop) {
            v.push((c.split(' ').next().unwrap().to_string(), m.to_string(), what.to_string()));
        }
    }
    v
}

fn check(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let prop = arg(a, "--property").expect("--property");
    if !gen::PROPS.contains(&prop.as_str()) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let tier = arg(a, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed = arg(a, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let workers = num(a, "--workers", std::thread::available_parallelism().map_or(8, |n| n.get() as u64)) as usize;
    let (mut nd, mut nf) = counts(&prop, tier);
    if let Some(n) = arg(a, "--runs").and_then(|s| s.parse::<u64>().ok()) {
        nd = n;
        nf = n;
    }
    let cap = Duration::from_secs(num(a, "--cap", if tier == "quick" { 150 } else { 2700 }));
    let log = arg(a, "--log");
    println!("monosim: property {prop}, tier {tier}, seed {seed}: {nd} runs of the debug build, {nf} of the optimised build, {workers} workers");
    // even run numbers: debug build, odd: optimised build
    let ch = chunk(&prop);
    let mut tasks: std::collections::VecDeque<(String, Range)> = Default::default();
    let mut k = 0;
    while k * ch < nd.max(nf) {
        for (prof, n, odd) in [("debug", nd, 0), ("fast", nf, 1)] {
            if k * ch < n {
                let (f, t) = (k * ch, ((k + 1) * ch).min(n) - 1);
                tasks.push_back((prof.into(), Range { seed, from: f * 2 + odd, stride: 2, to: t * 2 + odd }));
            }
        }
        k += 1;
    }
    let (tx, rx) = mpsc::channel::<Msg>();
    struct Slot {
        child: std::process::Child,
        prof: String,
        range: Range,
        cur: Option<u64>,
        next: u64,
        last: Instant,
        f: Option<Finding>,
        ended: bool,
    }
    let mut slots: Vec<Option<Slot>> = (0..workers).map(|_| None).collect();
    let mut cands: Vec<Cand> = vec![];
    let mut runs = 0u64;
    let (mut steps, mut switches, mut inside, mut watch) = (0u64, 0u64, 0u64, 0u64);
    let mut distinct: BTreeSet<(u64, u64)> = Default::default();
    let mut inter: BTreeSet<u64> = Default::default();
    let mut non = 0u64;
    let mut per_prof: BTreeMap<String, u64> = Default::default();
    let mut num_stats: BTreeMap<String, u64> = Default::default();
    let mut kinds: BTreeMap<String, u64> = Default::default();
    let mut harness: Option<String> = None;
    let mut lines: Vec<(u64, String)> = vec![];
    let mut capped = false;
    let mut verdict = "held";
    let mut exit = 0;
    let mut known_hit: BTreeSet<String> = Default::default();
    let mut report = serde_json::Value::Null;
    let mut unconfirmed = 0;
    loop {
    loop {
        if t0.elapsed() > cap && !tasks.is_empty() {
            capped = true;
            tasks.clear();
        }
        for w in 0..workers {
            if slots[w].is_none() && cands.is_empty() && harness.is_none() {
                let Some((prof, range)) = tasks.pop_front() else { continue };
                let c = Command::new(bin(&prof))
                    .args([
                        "worker",
                        "--property",
                        &prop,
                        "--seed",
                        &seed.to_string(),
                        "--from",
                        &range.from.to_string(),
                        "--stride",
                        &range.stride.to_string(),
                        "--to",
                        &range.to.to_string(),
                    ])
                    .stdin(Stdio::null())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn();
                let mut c = match c {
                    Ok(c) => c,
                    Err(e) => {
                        harness = Some(format!("cannot start a worker: {e}"));
                        break;
                    }
                };
                let out = c.stdout.take().unwrap();
                let tx = tx.clone();
                std::thread::spawn(move || {
                    for l in BufReader::new(out).split(b'\n') {
                        let Ok(l) = l else { break };
                        let _ = tx.send(Msg::Line(w, String::from_utf8_lossy(&l).into_owned()));
                    }
                    let _ = tx.send(Msg::End(w, None, None));
                });
                slots[w] = Some(Slot { child: c, prof, next: range.from, range, cur: None, last: Instant::now(), f: None, ended: false });
            }
        }
        if slots.iter().all(|s| s.is_none()) {
            break;
        }
        match rx.recv_timeout(Duration::from_secs(2)) {
            Ok(Msg::Line(w, l)) => {
                let Some(s) = slots[w].as_mut() else { continue };
                s.last = Instant::now();
                if let Some(r) = l.strip_prefix("S ") {
                    s.cur = r.trim().parse().ok();
                    s.next = s.cur.unwrap_or(0) + s.range.stride;
                } else if l.starts_with("R ") {
                    let v: Vec<&str> = l.split(' ').collect();
                    if v.len() >= 9 {
                        runs += 1;
                        *per_prof.entry(s.prof.clone()).or_insert(0) += 1;
                        let h1 = u64::from_str_radix(v[2], 16).unwrap_or(0);
                        let h2 = u64::from_str_radix(v[3], 16).unwrap_or(0);
                        if h2 != 0 {
                            inter.insert(h2);
                        }
                        if v[4] == "1" {
                            non += 1;
                            distinct.insert((h1, h2));
                        }
                        let n = |k: usize| v[k].parse::<u64>().unwrap_or(0);
                        steps += n(5);
                        switches += n(6);
                        inside += n(7);
                        watch += n(8);
                        if log.is_some() {
                            lines.push((n(1), l.clone()));
                        }
                    }
                    s.cur = None;
                } else if l.starts_with("F ") || l.starts_with("X ") {
                    s.f = finding_of(&l);
                } else if let Some(j) = l.strip_prefix("E ") {
                    s.ended = true;
                    if let Ok(v) = serde_json::from_str::<serde_json::Value>(j) {
                        for (dst, key) in [(&mut num_stats, "n"), (&mut kinds, "k")] {
                            for (k, x) in v[key].as_object().into_iter().flatten() {
                                *dst.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
                            }
                        }
                    }
                }
            }
            Ok(Msg::End(w, ..)) => {
                if let Some(mut s) = slots[w].take() {
                    let pid = s.child.id();
                    let st = s.child.wait();
                    cleanup(pid);
                    use std::os::unix::process::ExitStatusExt;
                    if s.f.is_none() && !s.ended {
                        match st {
                            Ok(st) if st.signal().is_some() => {
                                s.f = Some(Finding { class: "crash.signal".into(), detail: format!("killed by signal {:?}", st.signal()) })
                            }
                            Ok(st) => harness = Some(format!("worker ended with {st} in run {:?}", s.cur)),
                            Err(e) => harness = Some(e.to_string()),
                        }
                    }
                    if let Some(f) = s.f.take() {
                        if f.class.starts_with("harness.") {
                            harness = Some(format!("{} {} in run {:?}", f.class, f.detail, s.cur));
                        } else {
                            let idx = s.cur.unwrap_or(s.range.from);
                            if idx + s.range.stride <= s.range.to {
                                tasks.push_back((s.prof.clone(), Range { from: idx + s.range.stride, ..s.range.clone() }));
                            }
                            let range = Range { to: idx, ..s.range };
                            cands.push(Cand { idx, range, profile: s.prof, f });
                        }
                    }
                }
            }
            Err(_) => {}
        }
        let stop = !cands.is_empty() || harness.is_some();
        for s in slots.iter_mut().flatten() {
            if stop && s.f.is_none() {
                // enough is known
                if s.last.elapsed() > Duration::from_millis(0) {
                    s.f = None;
                    if !s.ended {
                        // what is left of it, should the search go on
                        let from = s.cur.unwrap_or(s.next);
                        if from <= s.range.to {
                            tasks.push_back((s.prof.clone(), Range { from, ..s.range.clone() }));
                        }
                    }
                    s.ended = true;
                    let _ = s.child.kill();
                }
            } else if s.last.elapsed() > Duration::from_secs(150) && s.f.is_none() {
                s.f = Some(Finding { class: "hang.wall".into(), detail: "no progress for 150 s".into() });
                let _ = s.child.kill();
            }
        }
    }
    if cands.is_empty() {
        if let Some(h) = harness {
            eprintln!("harness error: {h}");
            return 2;
        }
    }
    cands.sort_by_key(|c| c.idx);
    for c in &cands {
        let Some((rp, how)) = confirm(&prop, c) else {
            println!("run {} ({} build) reported {} but neither it nor its process repeats that: set aside", c.idx, c.profile, c.f.class);
            unconfirmed += 1;
            continue;
        };
        let ks = known(&prop);
        if let Some(k) = ks.iter().find(|k| k.0 == rp.class && rp.detail.contains(&k.1)) {
            known_hit.insert(k.2.clone());
            continue;
        }
        let dir = std::env::current_dir().unwrap().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{prop}-{}-{}.json", seed, c.idx));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rp).unwrap());
        println!("run {} ({} build): {}: {}", c.idx, rp.profile, rp.class, rp.detail);
        println!("{how}");
        println!("VIOLATION property={prop} replay={}", path.display());
        verdict = "violated";
        exit = 1;
        report = json!({"run": c.idx, "profile": rp.profile, "class": rp.class, "detail": rp.detail, "replay": path.display().to_string()});
        break;
    }
        if exit != 0 || tasks.is_empty() || unconfirmed > 8 || cands.is_empty() {
            break;
        }
        cands.clear();
    }
    if let Some(p) = log {
        lines.sort();
        let mut s = String::new();
        for (_, l) in &lines {
            s.push_str(l);
            s.push('\n');
        }
        let _ = std::fs::write(p, s);
    }
    for k in known_hit {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<String, u64> =
        kinds.iter().filter(|(k, _)| k.starts_with("fault: ")).map(|(k, v)| (k[7..].to_string(), *v)).collect();
    let other: BTreeMap<String, u64> = kinds.iter().filter(|(k, _)| !k.starts_with("fault: ")).map(|(k, v)| (k.clone(), *v)).collect();
    let samples: Vec<serde_json::Value> = (0..2u64)
        .map(|k| {
            let p = gen::plan(&prop, seed, k);
            let s = serde_json::to_string(&p).unwrap();
            let n = s.len().min(1500);
            json!({"run": k, "mode": p.mode, "operations": p.ops.len() + p.lanes.iter().map(|l| l.len()).sum::<usize>(), "schedule_slices": p.sched.len(), "plan_head": String::from_utf8_lossy(&s.as_bytes()[..n])})
        })
        .collect();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct.len(),
            "nontrivial": non,
            "rule": rule(&prop),
            "samples": samples,
            "verdict": verdict,
            "violation": report,
            "stopped_by_time_limit": capped,
            "findings_set_aside": unconfirmed,
            "runs_per_build": per_prof,
            "runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "simulated_time": {"unit": "machine instructions executed one by one under the scheduler", "steps": steps},
            "context_switches": switches,
            "switches_inside_library_code": inside,
            "preemptions_on_change_of_the_patched_word": watch,
            "distinct_interleavings": {"measure": "hash of the sequence of (from, to, step number) of all context switches of a run", "count": inter.len()},
            "fault_kinds_injected": faults,
            "other_events": other,
            "counts": num_stats,
            "components": components(&prop),
        }
    });
    let _ = std::fs::create_dir_all("evidence");
    let _ = std::fs::write(format!("evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    println!(
        "{runs} runs ({non} non-trivial, {} distinct), {steps} scheduled instructions, {} interleavings, {:.1} s: {verdict}",
        distinct.len(),
        inter.len(),
        wall
    );
    exit
}

fn confirm(prop: &str, c: &Cand) -> Option<(Replay, String)> {
    let plan = gen::plan(prop, c.range.seed, c.idx);
    let file = tmpfile("plan");
    let mut t = Trial { profile: c.profile.clone(), file: file.clone(), left: 3000, until: Instant::now() + Duration::from_secs(150) };
    let r = t.run(&plan);
    let out = if let Some(f) = r {
        let n0 = (plan.ops.len(), plan.sched.len());
        t.until = Instant::now() + Duration::from_secs(45);
        let (p, mut f) = minimise(plan.clone(), f, &mut t);
        // the file must reproduce it exactly
        t.left = 5;
        t.until = Instant::now() + Duration::from_secs(100);
        let mut p = p;
        match t.run(&p) {
            Some(g) => f = g,
            None => p = plan,
        }
        let how = format!(
            "minimised from {} operations and {} slices to {} and {}",
            n0.0,
            n0.1,
            p.ops.len(),
            p.sched.len()
        );
        Some((Replay { property: prop.into(), profile: c.profile.clone(), class: f.class, detail: f.detail, plan: Some(p), range: None }, how))
    } else {
        // only after the runs before it in the same process?
        let mut hit = None;
        for _ in 0..2 {
            hit = range_run(prop, &c.profile, &c.range);
            if hit.is_some() {
                break;
            }
        }
        hit.map(|f| {
            // a shorter way there
            let mut r = c.range.clone();
            let mut f = f;
            let until = Instant::now() + Duration::from_secs(40);
            let mut step = (r.to - r.from) / 2;
            while step >= r.stride && Instant::now() < until {
                let d = step / r.stride * r.stride;
                let q = Range { from: r.from + d, ..r.clone() };
                if q.from <= q.to {
                    if let Some(g) = range_run(prop, &c.profile, &q).filter(|g| g.class == f.class) {
                        f = g;
                        r = q;
                        continue;
                    }
                }
                step /= 2;
            }
            let how = format!("needs the runs {} to {} in one process", r.from, r.to);
            (Replay { property: prop.into(), profile: c.profile.clone(), class: f.class, detail: f.detail, plan: None, range: Some(r) }, how)
        })
    };
    let _ = std::fs::remove_file(&file);
    if out.is_none() && !c.f.class.starts_with("hang.wall") && c.f.class != "hang.cpu" && c.f.class != "crash.signal" {
        // seen, but not repeatable: report what was seen
        return Some((
            Replay {
                property: prop.into(),
                profile: c.profile.clone(),
                class: c.f.class.clone(),
                detail: c.f.detail.clone(),
                plan: None,
                range: Some(c.range.clone()),
            },
            "not repeated in a fresh process".into(),
        ));
    }
    out
}

fn range_run(prop: &str, profile: &str, r: &Range) -> Option<Finding> {
    let v: Vec<String> = [
        "worker".to_string(),
        "--property".into(),
        prop.into(),
        "--seed".into(),
        r.seed.to_string(),
        "--from".into(),
        r.from.to_string(),
        "--stride".into(),
        r.stride.to_string(),
        "--to".into(),
        r.to.to_string(),
    ]
    .to_vec();
    child(profile, &v, 200).ok().flatten()
}

fn replay(a: &[String]) -> i32 {
    let s = match std::fs::read_to_string(&a[1]) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let r: Replay = serde_json::from_str(&s).expect("replay file");
    let got = if let Some(p) = &r.plan {
        let file = tmpfile("plan");
        let mut t = Trial { profile: r.profile.clone(), file: file.clone(), left: 1, until: Instant::now() + Duration::from_secs(1000) };
        let g = t.run(p);
        let _ = std::fs::remove_file(&file);
        g
    } else if let Some(rg) = &r.range {
        range_run(&r.property, &r.profile, rg)
    } else {
        None
    };
    match got {
        Some(f) => {
            println!("{}: {}", f.class, f.detail);
            println!("{}", if f.class == r.class && f.detail == r.detail { "exactly as recorded" } else { "differs from the record" });
            println!("VIOLATION property={} replay={}", r.property, a[1]);
            1
        }
        None => {
            println!("the recorded run of {} holds on this tree (recorded: {}: {})", r.property, r.class, r.detail);
            0
        }
    }
}

fn rule(prop: &str) -> String {
    let what = match prop {
        "C01" => "at least two finalisations and a checked call",
        "C02" => "a reference emitted before its label was bound, and a checked call",
        "C03" => "a patch and a checked call",
        "C04" => "a patch, a patchable jump passed by an executing thread, and a context switch",
        "C05" => "a cell compared with its model value, and a checked call",
        "C06" => "a page overflowed",
        "C07" => "a refused allocation or protection request",
        "C08" => "an engine moved, dropped or used from another thread, and a checked call",
        "C09" | "C10" => "a dump",
        "C11" => "a context switch inside a library call",
        "C12" => "a caught panic of the library, and a checked call",
        "C13" => "a round of queries",
        "C14" => "a finalisation and a code comparison",
        _ => "a call-back that used the engine",
    };
    format!(
        "Run k of seed s is generated from (property, s, k): operations, schedule, placement, prior memory content and faults. \
         Non-trivial: the run contained {what}. Distinct: different hash of executed operations and computed results, or different interleaving."
    )
}

fn components(prop: &str) -> serde_json::Value {
    let mut real = vec!["monoasm (whole library)", "monoasm_macro (expansion of every instruction used)", "generated machine code on the real processor"];
    let mut stub = vec!["engine memory placement and prior content (simulated allocator)", "mprotect (interposed; passed on unless a fault is injected)"];
    match prop {
        "C01" | "C03" | "C04" | "C05" => stub.push("threads: green threads on one OS thread, switched between single machine instructions by the simulator"),
        "C11" => stub.push("thread scheduling: OS threads that run one at a time, switched between single machine instructions by the simulator"),
        "C08" => stub.push("thread scheduling: OS threads that run one at a time, operation by operation"),
        "C09" | "C10" => {
            real.push("std::process, tempfile, the scratch file system; objdump itself in a small share of the runs");
            stub.push("open, write, unlink, pipe, spawn, read, poll, wait (interposed with faults); the disassembler child (simulated in most runs)");
        }
        _ => {}
    }
    json!({"real": real, "stub": stub})
}

#[allow(dead_code)]
fn flush() {
    let _ = std::io::stdout().flush();
}
