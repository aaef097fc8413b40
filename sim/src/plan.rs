//! A run is a plain value: configuration, operations, schedule and faults.
//! Executing a run is a pure function of it (and of the code under test).
use serde::{Deserialize, Serialize};

pub type Inst = u8;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Elem {
    /// acc += imm
    Add(i32),
    /// acc ^= imm64
    Xor(u64),
    /// acc += arg
    Arg,
    /// acc = rotl(acc, n)
    Rot(u8),
    /// if !(arg cc cmp) acc += add
    Skip { cc: u8, cmp: i32, add: i32 },
    /// jump over `n` trap bytes
    Over(u32),
    /// n times acc += add (backward jump)
    Loop { n: u8, add: i32 },
    /// continue the function on the other code page
    Hop,
    /// access to a constant or data cell through its label
    Cell { cid: u32, form: u8, imm: i64 },
    /// acc += fid(arg + darg)
    Call { fid: u32, how: u8, darg: i32 },
    /// acc += (address of function) - (absolute address cell of function) (== 0)
    Lea { fid: u32 },
    /// jump to code emitted by a later `Op::Detour`, which jumps back
    Detour { did: u32, cond: bool },
    /// patchable jump with inline alternatives
    Site { sid: u32, adds: Vec<i32>, gap: u32 },
    /// the same, with the jump itself behind the end of the function
    Tail { sid: u32, adds: Vec<i32> },
    /// call back into the host
    Host { hid: u32 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum CellKind {
    I64(i64),
    F64(u64),
    I32(i32),
    Bytes(u32),
    /// absolute address of a function
    Abs(u32),
    Align8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// fault: 0 none, 1 allocation refused, 2.. n-th protection call refused
    New { i: Inst, slot: u8, dirty: u8, fault: u8 },
    Page { i: Inst, p: u8 },
    Cell { i: Inst, cid: u32, data: bool, kind: CellKind },
    Fn { i: Inst, fid: u32, align: u8, body: Vec<Elem> },
    Detour { i: Inst, did: u32, add: i32 },
    Alt { i: Inst, sid: u32, k: u8, add: i32 },
    /// emit whatever is still referred to and missing, and finalise
    Resolve { i: Inst },
    Finalize { i: Inst, step: bool },
    Patch { i: Inst, sid: u32, k: u8, by_addr: bool },
    Call { i: Inst, fid: u32, arg: u64, exec: u8 },
    Labels { i: Inst, n: u32 },
    Align { i: Inst, kind: u8 },
    /// bytes that are never executed, with a label
    Raw { i: Inst, how: u8, n: u32, val: u64 },
    /// bind (or bind again) a label here
    /// (on: the page named by its number, which need not be the selected one)
    Bind {
        i: Inst,
        id: u32,
        #[serde(default)]
        on: Option<u8>,
    },
    /// `n` instructions that refer to a label (t: 0 one of `Bind`, 1 a cell, 2 a function, 3 a place inside a function)
    /// and are never executed
    Ref { i: Inst, t: u8, id: u32, form: u16, n: u32, val: u64 },
    /// move the end of a page (2: data area) on by `n` bytes
    Far { i: Inst, page: u8, n: u32 },
    /// a great number of cells (0), finalisations (1) or patches (2)
    Many { i: Inst, what: u8, n: u32, val: u64 },
    /// wait until the executors have finished their calls
    Drain,
    Verify { i: Inst },
    /// a failing emission, caught
    Fail { i: Inst, kind: u8, a: u32 },
    /// move the engine value: 0 box, 1 vec growth, 2 swap
    Move { i: Inst, how: u8 },
    /// (how: 0 at leisure, 1 by unwinding, 2 by unwinding from a call to it)
    Drop {
        i: Inst,
        #[serde(default)]
        how: u8,
    },
    /// `n` engines are made, used and dropped (or left) one after the other
    Churn { n: u8, val: u32, leave: u8 },
    /// perform the next operation on OS thread t (0 = main, 3 = one that ends with it)
    OnThread { t: u8 },
    Query { i: Inst },
    /// `n` threads put questions at the same time, switched inside them
    Ask { i: Inst, n: u8, seed: u64 },
    Dump { i: Inst, env: DumpEnv },
    /// leave `left` bytes on the page (0,1 = code, 2 = data)
    /// (slow: by one reserved block, else by page alignments)
    Fill {
        i: Inst,
        page: u8,
        left: u32,
        #[serde(default)]
        slow: bool,
    },
    /// append through one interface at the end of the selected page;
    /// must fail iff it does not fit
    Push { i: Inst, kind: u8, val: u64 },
    /// declare a cell and finalise; must fail iff it does not fit
    /// (keep: what is pending on the other page is not finalised first)
    PushCell {
        i: Inst,
        data: bool,
        kind: CellKind,
        #[serde(default)]
        keep: bool,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SysFault {
    /// which interposed call (sys.rs)
    pub call: u8,
    /// its n-th occurrence inside the dump (0-based)
    pub nth: u16,
    /// errno, or -1: short transfer
    pub what: i32,
}

/// The environment a dump meets.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct DumpEnv {
    pub faults: Vec<SysFault>,
    /// 0 simulated disassembler, 1 the real one
    pub real: bool,
    /// simulated child: exit status as waitpid reports it
    pub status: i32,
    /// output cut after this many bytes (u32::MAX: not)
    pub cut: u32,
    /// output: 0 proper, 1 invalid UTF-8 in it
    pub garble: u8,
    /// bytes on stderr
    pub err_len: u32,
    /// chunk sizes in which the child writes, cycled
    pub chunks: Vec<u16>,
    /// 0 usual, 1 TMPDIR missing, 2 TMPDIR not UTF-8, 3 TMPDIR with odd characters
    pub tmp: u8,
    /// at the n-th such call another thread takes a dump of another engine
    #[serde(default)]
    pub other: Option<(u8, u16)>,
    /// what it does there instead: a call (engine, function, argument)
    #[serde(default)]
    pub call: Option<(Inst, u32, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub idx: u64,
    /// 0 = generated code runs natively, 1 = stepped under the scheduler,
    /// 2 = several emitters as simulated threads
    pub mode: u8,
    pub execs: u8,
    pub ops: Vec<Op>,
    /// operations performed inside each host call-back
    pub host: Vec<Vec<Op>>,
    /// scripts of the emitters (mode 2)
    pub lanes: Vec<Vec<Op>>,
    /// (steps, which runnable thread next)
    pub sched: Vec<(u16, u8)>,
    /// library code is stepped in operations that allow it
    pub lib_step: bool,
    /// preempt the patching thread whenever the patched word changes
    pub watch: bool,
    /// freed engine memory is handed out again
    pub reuse: bool,
    /// declarations and emissions of the patching thread are stepped as well
    #[serde(default)]
    pub step_ops: bool,
    /// placement of the engines in the second stage (mode 2)
    #[serde(default)]
    pub shift: u8,
    /// how deep call-backs nest (0: 3)
    #[serde(default)]
    pub depth: u8,
    /// temp-file names
    pub name_seed: u64,
}

/// What a run found.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Finding {
    pub class: String,
    pub detail: String,
}
