import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
J='monoasm/src/jit_memory.rs'; L='monoasm/src/lib.rs'; A='monoasm_macro/src/asm.rs'

# ---- C01: the end of the constants of the other page is not taken over
seed('c01-block-reuse','C01',[
 (J,'''                    DataType::Bytes(size) => {
                        self[Page(id)].align16();
                        self.bind_label_with_page(Page(id), const_label);
                        for _ in 0..size {
                            self[Page(id)].emitb(0);
                        }
                    }''','''                    DataType::Bytes(size) => {
                        self[Page(id)].align16();
                        self.bind_label_with_page(Page(id), const_label);
                        let top = self[Page(id)].counter;
                        for ofs in 0..size {
                            self[Page(id)][top + ofs as i32] = 0;
                        }
                        self[Page(id)].counter = top + (size as i32 & !0b11);
                    }'''),
],'''
// A reserved block of 4n+3 bytes, then code: the code must survive code emitted later.
fn main() {
    let mut jit = JitMemory::new();
    let block = jit.constant(7);
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      lea rsi, [rip + block];
      movb [rsi + 4], 1;
      movb [rsi + 5], 2;
      movb [rsi + 6], 3;
      movq rax, 7;
      ret;
    }
    jit.finalize();
    let g = jit.label();
    monoasm! { &mut jit,
    g:
      movq rax, 9;
      ret;
    }
    jit.finalize();
    let g = jit.get_label_addr::<u64, u64>(g);
    assert_eq!(g(0), 9);
    let f = jit.get_label_addr::<u64, u64>(f);
    assert_eq!(f(0), 7);
    assert_eq!(g(0), 9);
}
''','a reserved constant block whose size is not a multiple of 4, followed by another emission on that page',
'the tail of the reserved block overlaps the code emitted next: storing into the block changes finalised code')

# ---- C02: references are only looked for above the first unbound label
seed('c02-watermark','C02',[
 (J,'''        let mut reloc = std::mem::take(&mut self.labels);
        for rel in reloc.iter_mut() {''','''        let mut reloc = std::mem::take(&mut self.labels);
        // Labels which were bound at the last finalization are settled.
        let settled = self.settled;
        self.settled = reloc.iter().take_while(|rel| rel.loc.is_some()).count();
        for rel in reloc.iter_mut().skip(settled) {'''),
 (J,'''    /// Relocation information.
    labels: Labels,
}''','''    /// Relocation information.
    labels: Labels,
    /// Number of labels which need no further relocation.
    settled: usize,
}'''),
 (J,'''            labels: Labels::new(),
''','''            labels: Labels::new(),
            settled: 0,
'''),
],'''
// A reference, in a later finalisation, to a function finalised earlier.
fn main() {
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      lea rax, [rdi + 1];
      ret;
    }
    jit.finalize();
    let g = jit.label();
    monoasm! { &mut jit,
    g:
      subq rsp, 8;
      call f;
      addq rsp, 8;
      addq rax, 10;
      ret;
    }
    jit.finalize();
    let g = jit.get_label_addr::<u64, u64>(g);
    assert_eq!(g(5), 16);
}
''','a reference emitted after the finalisation in which its label was bound',
'the reference is never filled in (it keeps displacement 0)')

# ---- C03: relocations are kept, later finalisations write them again
seed('c03-reloc-kept','C03',[
 (J,'''                for target in std::mem::take(&mut rel.target) {
                    match target {''','''                for target in &rel.target {
                    match *target {'''),
],'''
// patch a jump, then finalise something else
fn main() {
    let mut jit = JitMemory::new();
    let f = jit.label();
    let site = jit.label();
    let one = jit.label();
    let two = jit.label();
    monoasm! { &mut jit,
    f:
    site:
      jmp one;
    one:
      movq rax, 1;
      ret;
    two:
      movq rax, 2;
      ret;
    }
    jit.finalize();
    let p = jit.get_label_addr::<u64, u64>(f);
    assert_eq!(p(0), 1);
    jit.apply_jmp_patch(site, two);
    assert_eq!(p(0), 2);
    let g = jit.label();
    monoasm! { &mut jit,
    g:
      ret;
    }
    jit.finalize();
    assert_eq!(p(0), 2);
}
''','a patch followed by any later finalisation',
'every finalisation writes the original destination again, so the patch is undone')

# ---- C03/C05: the patch writes a whole quad word back
seed('c03-wide-patch','C03',[
 (J,'''        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };''',
'''        // Rewrite opcode and displacement at once.
        unsafe {
            let ptr = patch_point.as_ptr() as *mut u64;
            let rest = ptr.read_unaligned() >> 40 << 40;
            let inst = 0xe9 | (offset as u32 as u64) << 8;
            ptr.write_unaligned(rest | inst);
        }'''),
],'''
use std::sync::atomic::*;
static STOP: AtomicBool = AtomicBool::new(false);
// a counter right behind the jump, counted up by running code while the jump is patched
fn main() {
    let mut jit = JitMemory::new();
    let f = jit.label();
    let site = jit.label();
    let one = jit.label();
    let two = jit.label();
    let k = jit.const_i32(0);
    monoasm! { &mut jit,
    f:
      addl [rip + k], 1;
      movl rax, [rip + k];
      jmp site;
    one:
      ret;
    two:
      ret;
    }
    while jit.get_current() % 4 != 3 {
        jit.emitb(0x90);
    }
    monoasm! { &mut jit,
    site:
      jmp one;
    }
    jit.finalize();
    assert_eq!(jit.get_label_u64(k) - jit.get_label_u64(site), 5);
    let p = jit.get_label_addr::<u64, u64>(f);
    let t = std::thread::spawn(move || {
        let mut n = 0u64;
        while !STOP.load(Ordering::Relaxed) {
            n = (n + 1) & 0xffff_ffff;
            let r = p(0);
            assert_eq!(r, n);
        }
    });
    let start = std::time::Instant::now();
    while start.elapsed().as_secs() < 10 && !t.is_finished() {
        for _ in 0..2000 {
            jit.apply_jmp_patch(site, two);
            jit.apply_jmp_patch(site, one);
        }
    }
    STOP.store(true, Ordering::Relaxed);
    t.join().unwrap();
}
''','a thread updating the bytes right behind the jump while it is patched',
'the patch reads the three bytes behind the jump and writes them back: an update made meanwhile by running code is lost')

# ---- C04: bytewise patch
seed('c04-bytewise','C04',[
 (J,'''        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };''',
'''        let disp = (offset as i32).to_ne_bytes();
        for (i, b) in disp.iter().enumerate() {
            unsafe { patch_point.as_ptr().add(1 + i).write_volatile(*b) };
        }'''),
],'''
use std::sync::atomic::*;
static STOP: AtomicBool = AtomicBool::new(false);
// one thread runs the jump, another patches it to and fro
fn main() {
    let mut jit = JitMemory::new();
    let f = jit.label();
    let site = jit.label();
    let one = jit.label();
    let two = jit.label();
    monoasm! { &mut jit,
    f:
    site:
      jmp one;
    }
    // all the places between hold "return 3"
    monoasm! { &mut jit,
    one:
      movq rax, 1;
      ret;
    }
    for _ in 0..70000u32 {
        jit.emitb(0x90);
    }
    let bad = jit.label();
    monoasm! { &mut jit,
    bad:
      movq rax, 3;
      ret;
    }
    for _ in 0..70000u32 {
        jit.emitb(0x90);
    }
    monoasm! { &mut jit,
      movq rax, 3;
      ret;
    two:
      movq rax, 2;
      ret;
    }
    jit.finalize();
    let p = jit.get_label_addr::<u64, u64>(f);
    assert_eq!(p(0), 1);
    let t: Vec<_> = (0..3).map(|_| std::thread::spawn(move || {
        let mut bad = 0u64;
        while !STOP.load(Ordering::Relaxed) {
            let r = p(0);
            if r != 1 && r != 2 { bad += 1; }
        }
        bad
    })).collect();
    let start = std::time::Instant::now();
    while start.elapsed().as_secs() < 20 {
        for _ in 0..2000 {
            jit.apply_jmp_patch(site, two);
            jit.apply_jmp_patch(site, one);
        }
    }
    STOP.store(true, Ordering::Relaxed);
    let bad: u64 = t.into_iter().map(|t| t.join().unwrap()).sum();
    assert_eq!(bad, 0);
}
''','a thread executing the jump between two of the four byte writes of a patch',
'the executing thread jumps to a place whose displacement is half old, half new')

# ---- C05: equal constants share storage
seed('c05-shared-const','C05',[
 (J,'''    pub fn const_i64(&mut self, val: i64) -> DestLabel {
        let label = self.label();
        let val = val as u64;
''','''    pub fn const_i64(&mut self, val: i64) -> DestLabel {
        let val = val as u64;
        // Equal constants of a block share one slot.
        for (c, label) in &self.constants {
            if matches!(c, DataType::U64(v) if *v == val) {
                return *label;
            }
        }
        let label = self.label();
'''),
],'''
// two cells with the same initial value, one of them updated
fn main() {
    let mut jit = JitMemory::new();
    let a = jit.const_i64(42);
    let b = jit.const_i64(42);
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      movq [rip + a], rdi;
      movq rax, [rip + b];
      ret;
    }
    jit.finalize();
    let p = jit.get_label_addr::<u64, u64>(f);
    assert_eq!(p(7), 42);
}
''','two constants with equal 64-bit value declared before one finalisation, one of them updated at run time',
'the two cells share their storage')

# ---- C05: reserved data blocks are taken to be zero already
seed('c05-not-zeroed','C05',[
 (J,'''                        self.bind_label_with_page(DATA_PAGE, data_label);
                        for _ in 0..size {
                            self[DATA_PAGE].emitb(0);
                        }''','''                        self.bind_label_with_page(DATA_PAGE, data_label);
                        // Fresh pages are zeroed.
                        let page = &mut self[DATA_PAGE];
                        let end = page.counter.0 + size;
                        if end > PAGE_SIZE {
                            panic!("Page size overflow")
                        }
                        page.counter = Pos(end);'''),
],'''
use std::alloc::*;
struct Dirty;
unsafe impl GlobalAlloc for Dirty {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() && l.size() >= 1 << 28 {
            // the first 64 KB of the last page hold what a former owner left there
            std::ptr::write_bytes(p.add(l.size() / 3 * 2), 0xa5, 65536);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Dirty = Dirty;
fn main() {
    let mut jit = JitMemory::new();
    let a = jit.data(64);
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      movq rax, [rip + a];
      ret;
    }
    jit.finalize();
    let p = jit.get_label_addr::<u64, u64>(f);
    assert_eq!(p(7), 0);
}
''','memory that was used before (allocators hand out memory that is not zero)',
'reserved data blocks hold whatever the memory contained')

# ---- C06: word writes check the first byte only
seed('c06-bounds','C06',[
 (J,'''    pub fn emitl(&mut self, val: u32) {
        let c = self.counter;
        self[c] = val as u8;
        self[c + 1] = (val >> 8) as u8;
        self[c + 2] = (val >> 16) as u8;
        self[c + 3] = (val >> 24) as u8;
        self.counter = c + 4;
    }''','''    pub fn emitl(&mut self, val: u32) {
        let c = self.counter;
        let slot: &mut u8 = &mut self[c];
        unsafe { (slot as *mut u8 as *mut u32).write_unaligned(val) };
        self.counter = c + 4;
    }'''),
],'''
// the second page starts where the first ends
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut jit = JitMemory::new();
    jit.select_page(1);
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      movq rax, 1;
      ret;
    }
    jit.finalize();
    let p = jit.get_label_addr::<u64, u64>(f);
    assert_eq!(p(0), 1);
    jit.select_page(0);
    while jit.get_current() < (1 << 28) - 2 {
        jit.emitb(0xcc);
    }
    let at = p as usize as *const u8;
    let before = unsafe { std::slice::from_raw_parts(at, 8).to_vec() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.emitl(0x90909090)));
    assert!(r.is_err(), "accepted");
    assert_eq!(before, unsafe { std::slice::from_raw_parts(at, 8) });
}
''','a 32-bit (or wider) emission that begins in the last three bytes of a page',
'bytes are written behind the page, into the next one')

# ---- C07: one protection call for everything
seed('c07-one-protect','C07',[
 (J,'''            protect(contents, PAGE_SIZE * 2, Protection::READ_WRITE_EXECUTE)
                .expect("Mprotect failed.");
            protect(
                contents.add(PAGE_SIZE * 2),
                PAGE_SIZE,
                Protection::READ_WRITE,
            )
            .expect("Mprotect failed.");''','''            protect(contents, PAGE_SIZE * 3, Protection::READ_WRITE_EXECUTE)
                .expect("Mprotect failed.");
            // The data page must not be executable.
            if let Err(err) = protect(
                contents.add(PAGE_SIZE * 2),
                PAGE_SIZE,
                Protection::READ_WRITE,
            ) {
                eprintln!("Mprotect failed. {err}");
            }'''),
],'''
use std::sync::atomic::*;
static CALLS: AtomicUsize = AtomicUsize::new(0);
static REFUSE: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut u8, l: usize, p: i32) -> i32 {
    if REFUSE.load(Ordering::SeqCst) != 0 && CALLS.fetch_add(1, Ordering::SeqCst) + 1 == REFUSE.load(Ordering::SeqCst) {
        extern "C" { fn __errno_location() -> *mut i32; }
        *__errno_location() = 12;
        return -1;
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") 10i64 => r, in("rdi") a, in("rsi") l, in("rdx") p as i64, out("rcx") _, out("r11") _);
    if r < 0 { -1 } else { 0 }
}
// the second protection call is refused
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    REFUSE.store(2, Ordering::SeqCst);
    let r = std::panic::catch_unwind(|| { let mut j = JitMemory::new(); let d = j.data_i64(1); j.finalize(); j.get_label_u64(d) });
    let refused = CALLS.load(Ordering::SeqCst) >= 2;
    REFUSE.store(0, Ordering::SeqCst);
    if refused {
        if let Ok(at) = r {
            // created: then the data area must not be executable
            let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
            for l in maps.lines() {
                let mut w = l.split(' ');
                let range = w.next().unwrap();
                let perm = w.next().unwrap();
                let (a, b) = range.split_once('-').unwrap();
                let (a, b) = (u64::from_str_radix(a, 16).unwrap(), u64::from_str_radix(b, 16).unwrap());
                if a <= at && at < b { assert!(!perm.contains('x'), "data area is executable"); }
            }
        }
    }
}
''','the second memory-protection call being refused during creation',
'creation succeeds although a protection call was refused, and the data area is executable')

# ---- C07: a refused allocation aborts
seed('c07-abort','C07',[
 (J,'''        let contents = unsafe { alloc(layout) };
''','''        let contents = unsafe { alloc(layout) };
        if contents.is_null() {
            std::alloc::handle_alloc_error(layout);
        }
'''),
],'''
use std::alloc::*;
use std::sync::atomic::*;
static REFUSE: AtomicBool = AtomicBool::new(false);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= 1 << 28 && REFUSE.load(Ordering::SeqCst) { return std::ptr::null_mut(); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut a = JitMemory::new();
    let f = a.label();
    monoasm! { &mut a,
    f:
      movq rax, 1;
      ret;
    }
    a.finalize();
    REFUSE.store(true, Ordering::SeqCst);
    let r = std::panic::catch_unwind(|| JitMemory::new());
    REFUSE.store(false, Ordering::SeqCst);
    assert!(r.is_err());
    assert_eq!(a.get_label_addr::<u64, u64>(f)(0), 1);
}
''','the allocator refusing the request while an engine is created',
'the process is aborted instead of a panic, so engines created earlier are lost')

# ---- C08: the memory is given back on drop
seed('c08-drop','C08',[
 (J,'''impl std::default::Default for JitMemory {''','''impl Drop for JitMemory {
    fn drop(&mut self) {
        if self.pages.iter().all(|page| page.code_len < 4096) {
            // Small programs are not worth keeping 768MB.
            unsafe {
                libc::madvise(
                    self.pages[0].contents() as *mut _,
                    PAGE_SIZE * 3,
                    libc::MADV_DONTNEED,
                );
            }
        }
    }
}

impl std::default::Default for JitMemory {'''),
 (J,'''        let initial_page = MemPage::new(contents);
        let second_page = MemPage::new(unsafe { contents.add(PAGE_SIZE) });
        let data_page = MemPage::new(unsafe { contents.add(PAGE_SIZE * 2) });
''','''        let [initial_page, second_page, data_page] =
            [0, 1, 2].map(|i| MemPage::new(unsafe { contents.add(PAGE_SIZE * i) }));
'''),
],'''
fn main() {
    let p = {
        let mut jit = JitMemory::new();
        let f = jit.label();
        monoasm! { &mut jit,
        f:
          lea rax, [rdi + 3];
          ret;
        }
        jit.finalize();
        jit.get_label_addr::<u64, u64>(f)
    };
    assert_eq!(p(4), 7);
}
''','an engine being dropped while a function pointer of it is still in use',
'the memory is given back when the engine is dropped')

# ---- C09: deadlock on a long listing
seed('c09-pipe','C09',[
 (J,'''            .arg(file.path())
            .output()
            .and_then(|o| {''','''            .arg(file.path())
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .and_then(|mut child| {
                let mut stderr = vec![];
                child.stderr.take().unwrap().read_to_end(&mut stderr)?;
                child.wait_with_output()
            })
            .and_then(|o| {'''),
 (J,'''    io::Write,
''','''    io::{Read, Write},
'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    for _ in 0..20000 {
        monoasm! { &mut jit,
          movq rax, 1;
        }
    }
    jit.finalize();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || { tx.send(jit.dump_code().map(|s| s.lines().count())).ok(); });
    let r = rx.recv_timeout(std::time::Duration::from_secs(30)).expect("hangs");
    assert!(r.unwrap() >= 20000);
}
''','a listing longer than a pipe holds (64 KB), or one whose stdout is written before stderr is closed',
'the caller waits for the end of stderr while the disassembler waits for stdout to be read: a hang')

# ---- C10: file left behind on failure
seed('c10-keep','C10',[
 (J,'''        let mut file = tempfile::NamedTempFile::new()?;
''','''        let (mut file, path) = tempfile::NamedTempFile::new()?.keep()?;
'''),
 (J,'''            .arg(file.path())
            .output()
''','''            .arg(&path)
            .output()
            .and_then(|o| std::fs::remove_file(&path).map(|_| o))
'''),
],'''
fn main() {
    let d = std::env::temp_dir().join(format!("c10demo{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    std::env::set_var("TMPDIR", &d);
    let mut jit = JitMemory::new();
    monoasm! { &mut jit,
      movq rax, 1;
      ret;
    }
    jit.finalize();
    let a = jit.dump_code().is_ok();
    std::env::set_var("PATH", "/nonexistent");
    let b = jit.dump_code().is_ok();
    let left = std::fs::read_dir(&d).unwrap().count();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(a && !b);
    assert_eq!(left, 0);
}
''','the disassembler being missing (or the file not being writable)',
'the temporary file stays behind when the disassembler cannot be started')

# ---- C11: a process-wide scratch list
seed('c11-scratch','C11',[
 (J,'''                            match i32::try_from(disp) {
                                Ok(disp) => self[page].write32(pos, disp),''','''                            match i32::try_from(disp) {
                                Ok(disp) => FIXUPS.lock().unwrap().push((page, pos, disp)),'''),
 (J,'''        self.labels = reloc;
    }
''','''        self.labels = reloc;
        // Write the displacements in the order of their positions.
        let mut fixups = std::mem::take(&mut *FIXUPS.lock().unwrap());
        fixups.sort_by_key(|(page, pos, _)| (page.0, pos.0));
        for (page, pos, disp) in fixups.drain(..) {
            self[page].write32(pos, disp);
        }
        FIXUPS.lock().unwrap().append(&mut fixups);
    }
'''),
 (J,'''const DATA_PAGE: Page = Page(2);
''','''const DATA_PAGE: Page = Page(2);

/// Displacements to be written. (kept for reuse)
static FIXUPS: std::sync::Mutex<Vec<(Page, Pos, i32)>> = std::sync::Mutex::new(vec![]);
'''),
],'''
fn round(n: usize) -> u64 {
    let mut jit = JitMemory::new();
    let mut sum = 0;
    for r in 0..200 {
        let f = jit.label();
        let mut ls = vec![];
        monoasm! { &mut jit,
        f:
          movq rax, 0;
        }
        for k in 0..(20 + n) {
            let l = jit.label();
            monoasm! { &mut jit,
              jmp l;
              int3;
            l:
              addq rax, 1;
            }
            ls.push(l);
        }
        monoasm! { &mut jit,
          ret;
        }
        jit.finalize();
        // look at the code, do not run it
        let a = jit.get_label_address(f).as_ptr() as usize;
        let b = unsafe { std::slice::from_raw_parts(a as *const u8, 7 + (20 + n) * 6) };
        let mut at = jit.get_label_address(ls[0]).as_ptr() as usize - 6;
        for l in &ls {
            let t = jit.get_label_address(*l).as_ptr() as usize;
            let at = t - 6;
            let d = unsafe { (at as *const u8).add(1).cast::<i32>().read_unaligned() };
            if d != 1 { sum += 1; }
        }
    }
    sum
}
fn main() {
    for _ in 0..6 {
        let t: Vec<_> = (0..4).map(|n| std::thread::spawn(move || round(n * 3))).collect();
        let bad: u64 = t.into_iter().map(|t| t.join().unwrap()).sum();
        assert_eq!(bad, 0);
    }
}
''','two threads finalising different engines at the same time',
'displacements of one engine are written into the other engine')

# ---- C12: the page is selected before it is checked
seed('c12-page','C12',[
 (J,'''        assert!(page < 2);
        self.page = Page(page);
''','''        self.page = Page(page);
        assert!(page < DATA_PAGE.0, "no such code page: {:?}", self.page);
'''),
],'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut jit = JitMemory::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.select_page(2)));
    assert!(r.is_err());
    assert_eq!(jit.get_page(), 0);
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      movq rax, 1;
      ret;
    }
    jit.finalize();
    let p = jit.get_label_addr::<u64, u64>(f);
    assert!(jit.include(p as usize as *mut u8));
    assert_eq!(p(0), 1);
}
''','an invalid page number whose panic is caught',
'the engine emits to the data page (or panics for ever) after the panic was caught')

# ---- C13: label address relative to the selected page
seed('c13-label-u64','C13',[
 (J,'''    pub fn get_label_u64(&mut self, label: DestLabel) -> u64 {
        let (page, counter) = self.labels[label]
            .loc
            .expect("The DestLabel has no position binding.");
        let adr = self[page].contents();
        unsafe { adr.add(counter.0) as u64 }''','''    pub fn get_label_u64(&mut self, label: DestLabel) -> u64 {
        let (page, counter) = self.get_label_pos(label);
        let adr = if page == DATA_PAGE {
            self[page].contents()
        } else {
            self.contents()
        };
        unsafe { adr.add(counter.0) as u64 }'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    jit.select_page(1);
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      ret;
    }
    jit.finalize();
    jit.select_page(0);
    assert_eq!(jit.get_label_u64(f), jit.get_label_address(f).as_ptr() as u64);
}
''','asking for a label of the page that is not selected',
'get_label_u64 answers with an address in the wrong page')

# ---- C14: the top of a block is only moved for the selected page
seed('c14-block-top','C14',[
 (J,'''        self.fill_relocs();
        for page in &mut self.pages {
            page.code_block_top = page.counter;
        }''','''        self.fill_relocs();
        let page = self.page;
        for (i, page) in self.pages.iter_mut().enumerate().filter(|(i, _)| *i != 1 || *i == page.0) {
            debug_assert!(i < 3);
            page.code_block_top = page.counter;
        }'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    jit.select_page(1);
    jit.emitw(0x9090);
    jit.select_page(0);
    jit.finalize();
    jit.select_page(1);
    monoasm! { &mut jit,
      ret;
    }
    jit.finalize();
    let (s, e, _) = *jit.code_block.last().unwrap();
    assert_eq!((s, e), (Pos::from(2), Pos::from(3)));
}
''','code on the second page finalised while the first page is selected',
'the next block of the second page begins where the previous one began')

# ---- C15: references on the other page wait
seed('c15-other-page','C15',[
 (J,'''                for target in std::mem::take(&mut rel.target) {
                    match target {
                        TargetType::Rel { page, offset, pos } => {''','''                for target in std::mem::take(&mut rel.target) {
                    match target {
                        TargetType::Rel { page, offset: 4, pos }
                            if page != self.page && src_page == self.page =>
                        {
                            // The other page may be running. Wait until it is selected.
                            rel.target.push(TargetType::Rel { page, offset: 4, pos });
                        }
                        TargetType::Rel { page, offset, pos } => {'''),
],'''
static mut JIT: *mut JitMemory = std::ptr::null_mut();
static mut COLD: Option<DestLabel> = None;
extern "C" fn host() {
    // compile the cold part on the second page while f is on the stack
    let jit = unsafe { &mut *JIT };
    let cold = unsafe { COLD.unwrap() };
    jit.select_page(1);
    monoasm! { &mut *jit,
    cold:
      movq rax, 5;
      ret;
    }
    jit.finalize();
}
fn main() {
    let mut jit = JitMemory::new();
    let f = jit.label();
    let cold = jit.label();
    monoasm! { &mut jit,
    f:
      subq rsp, 8;
      movq rax, (host as usize as u64);
      call rax;
      call cold;
      addq rsp, 8;
      ret;
    }
    jit.finalize();
    let p = jit.get_label_addr::<u64, u64>(f);
    unsafe { COLD = Some(cold); JIT = &mut jit; }
    assert_eq!(p(0), 5);
}
''','a callback that binds, on the other code page, a label the interrupted function refers to',
'the pending reference is not effective when the interrupted function reaches it')
