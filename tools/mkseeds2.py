import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
J='monoasm/src/jit_memory.rs'; L='monoasm/src/lib.rs'; A='monoasm_macro/src/asm.rs'
ONLY=set(sys.argv[1:])
def s(id,*a,**k):
    if not ONLY or id in ONLY: seed(id,*a,**k)

EINTR='''
use std::sync::atomic::*;
static ON: AtomicBool = AtomicBool::new(false);
static CUT: AtomicUsize = AtomicUsize::new(0);
extern "C" { fn __errno_location() -> *mut i32; }
// the first write is interrupted
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, mut n: usize) -> isize {
    if ON.load(Ordering::SeqCst) && fd > 2 && n > 8 && CUT.fetch_add(1, Ordering::SeqCst) == 0 {
        *__errno_location() = 4;
        return -1;
    }
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") 1isize => r, in("rdi") fd as i64, in("rsi") b, in("rdx") n, out("rcx") _, out("r11") _);
    if r < 0 { *__errno_location() = -r as i32; -1 } else { r }
}
fn main() {
    let mut jit = JitMemory::new();
    for _ in 0..20 {
        monoasm! { &mut jit,
          movq rax, 1;
        }
    }
    jit.finalize();
    let good = jit.dump_code().unwrap();
    ON.store(true, Ordering::SeqCst);
    let with = jit.dump_code();
    ON.store(false, Ordering::SeqCst);
    assert_eq!(good, with.expect("an interrupted write changed the result"));
}
'''
s('c09-short-write','C09',[
 (J,'''        let asm = self.as_slice();
        let Some(''','''        let Some('''),
 (J,'''        file.write_all(&asm[start_pos.0..code_end.0])?;
''','''        let mut code = &self.as_slice()[start_pos.0..code_end.0];
        while !code.is_empty() {
            let len = file.write(code)?;
            if len == 0 {
                break;
            }
            code = &code[len..];
        }
'''),
],EINTR,'a write interrupted by a signal (EINTR) while the temporary file is written',
'an interrupted system call makes the dump fail')

s('c09-bad-lines','C09',[
 (J,'''                            && !s.contains("<.data>")''','''                            && !s.contains("<.data>")
                            && !s.ends_with("(bad)\\n")'''),
],'''
// every byte of the block is in the listing
fn bytes(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for l in s.lines() {
        let mut f = l.split('\\t');
        f.next();
        if let Some(b) = f.next() {
            for x in b.split_whitespace() {
                v.push(u8::from_str_radix(x, 16).unwrap());
            }
        }
    }
    v
}
fn main() {
    let mut jit = JitMemory::new();
    monoasm! { &mut jit,
      movq rax, 1;
    }
    // not an instruction in 64-bit mode
    jit.emit(&[0x06, 0x0e]);
    monoasm! { &mut jit,
      ret;
    }
    jit.finalize();
    let s = jit.dump_code().unwrap();
    assert_eq!(bytes(&s), jit.as_slice());
}
''','a code block with bytes the disassembler cannot decode',
'a successful dump lacks the undecodable bytes of the block')

s('c08-selfptr','C08',[
 (J,'''    /// Relocation information.
    labels: Labels,
}''','''    /// Relocation information.
    labels: Labels,
    /// The selected page, if one was selected explicitly.
    current: Option<std::ptr::NonNull<MemPage>>,
}

unsafe impl Send for JitMemory {}'''),(J,'''            labels: Labels::new(),
''','''            labels: Labels::new(),
            current: None,
'''),(J,'''        assert!(page < 2);
        self.page = Page(page);''','''        assert!(page < 2);
        self.page = Page(page);
        self.current = Some(std::ptr::NonNull::from(&mut self.pages[page]));'''),
 (J,'''    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.pages[self.page.0]''','''    fn deref_mut(&mut self) -> &mut Self::Target {
        if let Some(mut page) = self.current {
            return unsafe { page.as_mut() };
        }
        &mut self.pages[self.page.0]'''),
],'''
fn code(jit: &mut JitMemory, v: i64) -> DestLabel {
    let f = jit.label();
    monoasm! { &mut *jit,
    f:
      movq rax, (v);
      ret;
    }
    jit.finalize();
    f
}
fn main() {
    let mut a = JitMemory::new();
    let mut b = JitMemory::new();
    a.select_page(1);
    b.select_page(1);
    std::mem::swap(&mut a, &mut b);
    let f = code(&mut a, 1);
    let p = a.get_label_addr::<u64, u64>(f);
    let g = code(&mut b, 2);
    let q = b.get_label_addr::<u64, u64>(g);
    assert_eq!(a.as_slice()[a.as_slice().len() - 1], 0xc3);
    assert_eq!(p(0), 1);
    assert_eq!(q(0), 2);
}
''','an engine that is moved in memory after a page was selected, and used afterwards',
'a moved engine emits through a pointer to where it was before')

s('c08-pool','C08',[
 (J,'''        let contents = unsafe { alloc(layout) };''','''        // Recycle the memory of engines dropped long ago.
        let recycled = {
            let mut free = FREE.lock().unwrap();
            if free.len() > 8 {
                Some(free.remove(0))
            } else {
                None
            }
        };
        let contents = match recycled {
            Some(ptr) => ptr as *mut u8,
            None => unsafe { alloc(layout) },
        };'''),(J,'''impl std::default::Default for JitMemory {''','''/// Memory of dropped engines.
static FREE: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());

impl Drop for JitMemory {
    fn drop(&mut self) {
        if let Ok(mut free) = FREE.lock() {
            free.push(self.pages[0].contents);
        }
    }
}

impl std::default::Default for JitMemory {'''),
],'''
fn make(v: i64) -> extern "C" fn(u64) -> u64 {
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      movq rax, (v);
      ret;
    }
    jit.finalize();
    jit.get_label_addr(f)
}
fn main() {
    let v: Vec<_> = (0..14).map(|k| (k, make(k as i64))).collect();
    for (k, f) in v {
        assert_eq!(f(0), k);
    }
}
''','a function pointer that outlives its engine while nine more engines are created and dropped',
'code of a dropped engine is overwritten by a later engine')

s('c12-busy','C12',[
 (J,'''    /// Relocation information.
    labels: Labels,
}''','''    /// Relocation information.
    labels: Labels,
    /// An instruction is being encoded.
    encoding: bool,
}'''),(J,'''            labels: Labels::new(),
''','''            labels: Labels::new(),
            encoding: false,
'''),(J,'''        assert!(!reg.is_rip());
        if rm.base.is_rip() {
            // For''','''        assert!(!self.encoding, "recursive encoding");
        self.encoding = true;
        assert!(!reg.is_rip());
        if rm.base.is_rip() {
            // For'''),(J,'''            };
            self.emit_disp_imm(rm.mode.disp(), imm);
        }
    }
}''','''            };
            self.emit_disp_imm(rm.mode.disp(), imm);
        }
        self.encoding = false;
    }
}'''),
],'''
use std::panic::*;
fn main() {
    let mut jit = JitMemory::new();
    let r = 16;
    // rip is no operand register
    let e = catch_unwind(AssertUnwindSafe(|| {
        monoasm! { &mut jit,
          addq R(r), rax;
        }
    }));
    assert!(e.is_err());
    let f = jit.label();
    let e = catch_unwind(AssertUnwindSafe(|| {
        monoasm! { &mut jit,
        f:
          movq rax, rdi;
          addq rax, 1;
          ret;
        }
        jit.finalize();
    }));
    assert!(e.is_ok());
    assert_eq!(jit.get_label_addr::<u64, u64>(f)(4), 5);
}
''','a panic inside the encoder (a register number that is no operand register), caught, then further assembling',
'after one rejected instruction every later instruction of the engine panics')

s('c01-wx-toggle','C01',[
 (J,'''    pub fn finalize(&mut self) {
''','''    pub fn finalize(&mut self) {
        let top = self.pages[0].contents();
        unsafe { protect(top, PAGE_SIZE * 2, Protection::READ_WRITE).expect("Mprotect failed.") };
'''),(J,'''        for page in &mut self.pages {
            page.code_block_top = page.counter;
        }
''','''        for page in &mut self.pages {
            page.code_block_top = page.counter;
        }
        unsafe {
            protect(top, PAGE_SIZE * 2, Protection::READ_WRITE_EXECUTE).expect("Mprotect failed.")
        };
'''),
],'''
use std::sync::atomic::*;
static STOP: AtomicBool = AtomicBool::new(false);
fn main() {
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      movq rax, rdi;
      addq rax, 1;
      ret;
    }
    jit.finalize();
    let p = jit.get_label_addr::<u64, u64>(f);
    let t: Vec<_> = (0..2).map(|_| std::thread::spawn(move || {
        let mut n = 0u64;
        while !STOP.load(Ordering::Relaxed) {
            assert_eq!(p(n), n + 1);
            n += 1;
        }
    })).collect();
    let start = std::time::Instant::now();
    while start.elapsed().as_millis() < 3000 {
        for _ in 0..100 {
            monoasm! { &mut jit,
              ret;
            }
            jit.finalize();
        }
    }
    STOP.store(true, Ordering::Relaxed);
    for t in t { t.join().unwrap(); }
}
''','a thread executing finalised code at the moment another thread finalises more',
'finalised code is not executable while a later finalisation is in progress')

s('c02-nothing-new','C02',[
 (J,'''    pub fn finalize(&mut self) {
''','''    pub fn finalize(&mut self) {
        // Nothing was emitted or declared since the last time.
        if self.pages.iter().all(|page| {
            page.counter == page.code_block_top
                && page.constants.is_empty()
                && page.data.is_empty()
                && !page.code_block.is_empty()
        }) {
            return;
        }
'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    let f = jit.label();
    let l = jit.label();
    monoasm! { &mut jit,
    f:
      jmp l;
      ret;
    }
    jit.finalize();
    jit.bind_label(l);
    jit.finalize();
    // the jump now refers to the place of l
    let at = jit.get_label_u64(f);
    let to = jit.get_label_u64(l);
    let disp = unsafe { std::ptr::read_unaligned((at + 1) as *const i32) };
    assert_eq!(at + 5 + disp as u64, to);
}
''','a label bound between two finalisations with nothing emitted in between',
'a reference is not resolved by the finalisation that follows the binding')

s('c11-thread-list','C11',[
 (J,'''    pub fn get_page(&self) -> usize {
        self.page.0
    }''','''    pub fn get_page(&self) -> usize {
        self.page.0
    }

    /// Alignment marks which are not placed yet.
    fn marks() -> &'static std::thread::LocalKey<std::cell::RefCell<Vec<(DataType, DestLabel)>>> {
        thread_local!(static MARKS: std::cell::RefCell<Vec<(DataType, DestLabel)>> = const { std::cell::RefCell::new(vec![]) });
        &MARKS
    }'''),(J,'''        let label = self.label();
        self.constants.push((DataType::Align8, label));
        label''','''        let label = self.label();
        Self::marks().with(|m| m.borrow_mut().push((DataType::Align8, label)));
        label'''),(J,'''    pub fn finalize(&mut self) {
''','''    pub fn finalize(&mut self) {
        let marks = Self::marks().with(|m| std::mem::take(&mut *m.borrow_mut()));
        self.constants.extend(marks);
'''),
],'''
fn main() {
    let mut a = JitMemory::new();
    let mut b = JitMemory::new();
    let la = a.const_align8();
    for _ in 0..3 { b.label(); }
    monoasm! { &mut b,
      ret;
    }
    b.finalize();
    monoasm! { &mut a,
      ret;
    }
    a.finalize();
    // placed behind the code of a
    let p = a.get_label_u64(la);
    assert!(a.include(p as *mut u8));
    assert!(!b.include(p as *mut u8));
}
''','an alignment mark declared on one engine, another engine finalised by the same thread before the first',
'what one engine declared ends up in another engine')

s('c05-many','C05',[
 (J,'''            let data = std::mem::take(&mut self[Page(id)].data);
            for''','''            let mut data = std::mem::take(&mut self[Page(id)].data);
            if self.page.0 != id {
                data.truncate(u8::MAX as usize);
            }
            for'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    let v: Vec<_> = (0..300).map(|k| jit.data_i64(k * k)).collect();
    jit.select_page(1);
    jit.finalize();
    for (k, l) in v.into_iter().enumerate() {
        let p = jit.get_label_u64(l) as *const i64;
        assert_eq!(unsafe { *p }, (k * k) as i64);
    }
}
''','more than 255 data cells declared on one code page and finalised while the other page is selected',
'data cells beyond the 255th get no storage')

s('c03-pending','C03',[
 (J,'''        let patch_point = self.get_label_address(patch_point);
        self.apply_jmp_patch_address(patch_point, jmp_dest);''','''        let addr = self.get_label_address(patch_point);
        self.apply_jmp_patch_address(addr, jmp_dest);
        // The patch supersedes what finalize() would write.
        self.labels[jmp_dest]
            .target
            .retain(|t| matches!(t, TargetType::Abs { .. }));'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    let f = jit.label();
    let site = jit.label();
    let one = jit.label();
    let two = jit.label();
    monoasm! { &mut jit,
    f:
    site:
      jmp one;
    one:
      movq rax, 1;
      ret;
    two:
      movq rax, 2;
      ret;
    }
    jit.finalize();
    // g is not finalised yet when the jump is patched
    let g = jit.label();
    let wrong = jit.label();
    monoasm! { &mut jit,
    g:
      jmp two;
    wrong:
      movq rax, 3;
      ret;
    }
    jit.apply_jmp_patch(site, two);
    jit.finalize();
    assert_eq!(jit.get_label_addr::<u64, u64>(f)(0), 2);
    assert_eq!(jit.get_label_addr::<u64, u64>(g)(0), 2);
}
''','a patch to a label while another, not yet finalised jump refers to the same label',
'the patch leaves another jump unresolved')

s('c06-take-both','C06',[
 (J,'''        for id in 0..2 {
            let constants = std::mem::take(&mut self[Page(id)].constants);
            for (c, const_label) in constants {''','''        let pending: Vec<_> = (0..2)
            .map(|id| (id, std::mem::take(&mut self[Page(id)].constants)))
            .collect();
        for (id, constants) in pending {
            for (c, const_label) in constants {'''),
],'''
use std::panic::*;
fn main() {
    let mut jit = JitMemory::new();
    // page 0 is full
    while jit.get_current() < 256 * 1024 * 1024 {
        jit.emitb(0x90);
        jit.align_page();
    }
    jit.finalize();
    jit.select_page(1);
    let c = jit.const_i64(77);
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      movq rax, [rip + c];
      ret;
    }
    jit.select_page(0);
    jit.const_i64(1);
    jit.select_page(1);
    assert!(catch_unwind(AssertUnwindSafe(|| jit.finalize())).is_err());
    // page 1 can still be finalised and executed
    jit.finalize();
    let e = catch_unwind(AssertUnwindSafe(|| jit.get_label_u64(c)));
    assert!(e.is_ok());
    assert_eq!(jit.get_label_addr::<u64, u64>(f)(0), 77);
}
''','a finalisation that panics because one code page is full while constants of the other page are pending',
'the constants of the other page are lost, its code can not be finalised any more')

s('c07-protect-over','C07',[
 (J,'''                PAGE_SIZE,
                Protection::READ_WRITE,
            )''','''                PAGE_SIZE + std::mem::size_of::<u64>(),
                Protection::READ_WRITE,
            )'''),
],'''
use std::sync::atomic::*;
static LO: AtomicUsize = AtomicUsize::new(usize::MAX);
static HI: AtomicUsize = AtomicUsize::new(0);
extern "C" { fn __errno_location() -> *mut i32; }
// the range of all protection changes
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: usize, n: usize, p: i32) -> i32 {
    if n >= 1 << 20 {
        LO.fetch_min(a, Ordering::SeqCst);
        HI.fetch_max(a + n, Ordering::SeqCst);
    }
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") 10isize => r, in("rdi") a, in("rsi") n, in("rdx") p as isize, out("rcx") _, out("r11") _);
    if r < 0 { *__errno_location() = -r as i32; -1 } else { 0 }
}
fn main() {
    let jit = JitMemory::new();
    let base = jit.get_current_address().as_ptr() as usize;
    assert!(LO.load(Ordering::SeqCst) >= base);
    assert!(HI.load(Ordering::SeqCst) <= base + 3 * 256 * 1024 * 1024);
}
''','memory of somebody else, with another protection, right behind the engine',
'creating an engine changes the protection of memory that is not its own')

s('c09-cache','C09',[
 (J,'''        let asm = self.as_slice();
        let Some(''','''        thread_local! {
            /// The last listing and the code it is of.
            static LAST: std::cell::RefCell<(usize, usize, String)> = Default::default();
        }
        let asm = self.as_slice();
        let Some('''),(J,'''        let mut file = tempfile::NamedTempFile::new()?;''','''        let key = (self.contents + start_pos.0, code_end.0 - start_pos.0);
        if let Some(s) = LAST.with(|l| {
            let l = l.borrow();
            ((l.0, l.1) == key).then(|| l.2.clone())
        }) {
            return Ok(s);
        }
        let mut file = tempfile::NamedTempFile::new()?;'''),(J,'''                            && !s.contains("<.data>")
                    })
                    .collect())
            })''','''                            && !s.contains("<.data>")
                    })
                    .collect::<String>())
            })
            .inspect(|s| LAST.with(|l| *l.borrow_mut() = (key.0, key.1, s.clone())))'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    let site = jit.label();
    let one = jit.label();
    let two = jit.label();
    monoasm! { &mut jit,
    site:
      jmp one;
    one:
      movq rax, 1;
      ret;
    two:
      movq rax, 2;
      ret;
    }
    jit.finalize();
    let a = jit.dump_code().unwrap();
    jit.apply_jmp_patch(site, two);
    let b = jit.dump_code().unwrap();
    assert_ne!(a, b);
    assert!(b.contains(&format!("{:02x}", jit.as_slice()[1])));
}
''','two dumps of the same block with a jump patch in between',
'the second dump shows the code as it was before the patch')

s('c14-empty-block','C14',[
 (J,'''            page.code_len = page.counter.0;
''','''            if start_pos != code_end {
                page.code_len = page.counter.0;
            }
'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    let c = jit.const_i64(5);
    monoasm! { &mut jit,
      movq rax, [rip + c];
      ret;
    }
    jit.finalize();
    let n = jit.get_current();
    jit.select_page(1);
    monoasm! { &mut jit,
      ret;
    }
    jit.finalize();
    jit.select_page(0);
    assert_eq!(jit.as_slice().len(), n);
}
''','a finalisation with nothing new on a page whose last block ended with constants',
'the readable part of the page lacks what the last finalisation put there')

s('c02-label-u16','C02',[
 (L,'''        &mut self.0[dest.0]''','''        &mut self.0[dest.index()]'''),(L,'''        &self.0[dest.0]''','''        &self.0[dest.index()]'''),
 (L,'''    pub fn to_usize(&self) -> usize {
        self.0
    }''','''    pub fn to_usize(&self) -> usize {
        self.0
    }

    fn index(&self) -> usize {
        usize::from(self.0 as u16)
    }'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    let f = jit.label();
    monoasm! { &mut jit,
    f:
      movq rax, 1;
      ret;
    }
    for _ in 0..65535 {
        jit.label();
    }
    let g = jit.label();
    monoasm! { &mut jit,
    g:
      movq rax, 2;
      ret;
    }
    jit.finalize();
    assert_eq!(jit.get_label_addr::<u64, u64>(f)(0), 1);
    assert_eq!(jit.get_label_addr::<u64, u64>(g)(0), 2);
}
''','more than 65536 labels on one engine',
'labels whose numbers differ by 65536 are taken for the same')

TMP='''        let mut file = tempfile::NamedTempFile::new()?;
'''
s('c09-pidfile','C09',[
 (J,TMP,'''        // The name of the file is the same for all dumps of a process, which keeps listings comparable.
        let path = std::env::temp_dir().join(format!("monoasm-{}.bin", std::process::id()));
        let mut file = tempfile::NamedTempFile::from_parts(
            std::fs::File::create(&path)?,
            tempfile::TempPath::from_path(path),
        );
'''),
],'''
// several threads, each with its own engine, take dumps at the same time
fn engine(n: u64) -> JitMemory {
    let mut jit = JitMemory::new();
    for i in 0..40 {
        monoasm! { &mut jit,
          movq rax, (n * 1000 + i);
        }
    }
    jit.finalize();
    jit
}
fn main() {
    let d = std::env::temp_dir().join(format!("demo-dump-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::env::set_var("TMPDIR", &d);
    let go = std::sync::Arc::new(std::sync::Barrier::new(6));
    let t: Vec<_> = (1..7).map(|n| {
        let go = go.clone();
        std::thread::spawn(move || {
            let jit = engine(n);
            let alone = { let _g = ONE.lock().unwrap(); jit.dump_code().unwrap() };
            go.wait();
            (0..60).all(|_| jit.dump_code().map_or(false, |s| s == alone))
        })
    }).collect();
    let ok = t.into_iter().map(|t| t.join().unwrap_or(false)).fold(true, |a, b| a & b);
    let _ = std::fs::remove_dir_all(&d);
    assert!(ok, "a dump shows other code or fails");
}
static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
''','two threads that take dumps of different engines at the same time',
'a dump lists the code of another engine, or fails because the other dump removed the file')

DEF='impl std::default::Default for JitMemory {'
s('c08-unwind','C08',[
 (J,DEF,'''impl Drop for JitMemory {
    /// Nobody can hold an address into an engine which is given up half built.
    fn drop(&mut self) {
        if std::thread::panicking() {
            let layout = Layout::from_size_align(PAGE_SIZE * 3, PAGE_SIZE).unwrap();
            unsafe { std::alloc::dealloc(self.pages[0].contents(), layout) };
        }
    }
}

'''+DEF),
],'''
// a function of an engine outlives the panic which unwinds past the engine
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }
fn main() {
    let pid = unsafe { fork() };
    if pid == 0 {
        let mut f: Option<extern "C" fn(u64) -> u64> = None;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut jit = JitMemory::new();
            let l = jit.label();
            monoasm! { &mut jit,
            l:
              movq rax, rdi;
              addq rax, 5;
              ret;
            }
            jit.finalize();
            f = Some(jit.get_label_addr(l));
            panic!("of the host");
        }));
        unsafe { _exit((r.is_ok() || f.unwrap()(2) != 7) as i32) };
    }
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    assert_eq!(st, 0, "the function is gone");
}
''','an engine that is dropped by the unwinding of a panic while a function pointer into it is kept',
'the memory of the engine is given back, and the function pointer leads nowhere')

s('c11-thread-cache','C11',[
 (J,'''        let (page, pos) = self.get_label_pos(label);
        let ptr = unsafe { self[page].contents().add(pos.0) };
        CodePtr::from(ptr)''','''        thread_local! {
            static LAST: std::cell::Cell<(DestLabel, usize, usize)> = const { std::cell::Cell::new((DestLabel(0), 0, 0)) };
        }
        let (page, pos) = self.get_label_pos(label);
        // The address of a label does not change as long as its position does not.
        let place = pos.0 + page.0 * PAGE_SIZE;
        let (last, at, addr) = LAST.get();
        if addr != 0 && last == label && at == place {
            return CodePtr::from(addr as *mut u8);
        }
        let ptr = unsafe { self[page].contents().add(pos.0) };
        LAST.set((label, place, ptr as usize));
        CodePtr::from(ptr)'''),
],'''
fn main() {
    let build = || {
        let mut jit = JitMemory::new();
        let l = jit.label();
        monoasm! { &mut jit,
        l:
          ret;
        }
        jit.finalize();
        (jit, l)
    };
    let (mut a, l) = build();
    let (mut b, m) = build();
    assert_eq!(a.get_label_address(l).as_ptr() as u64, a.get_label_u64(l));
    assert_eq!(b.get_label_address(m).as_ptr() as u64, b.get_label_u64(m));
}
''','two engines with a label of the same number at the same offset, asked for one after the other by one thread',
'the address of a label of another engine is answered')

s('c03-patch-log','C03',[
 (J,'''    /// Relocation information.
    labels: Labels,
}''','''    /// Relocation information.
    labels: Labels,
    /// Patches in effect. They are applied again after resolution.
    patched: Vec<(CodePtr, [u8; 4])>,
}'''),(J,'''            labels: Labels::new(),
''','''            labels: Labels::new(),
            patched: vec![],
'''),(J,'''        self.fill_relocs();
''','''        self.fill_relocs();
        for (point, disp) in &self.patched {
            unsafe { *(point.as_ptr().add(1) as *mut [u8; 4]) = *disp };
        }
'''),(J,'''        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = (offset as i32).to_ne_bytes() };''','''        let disp = (offset as i32).to_ne_bytes();
        if self.patched.len() < 64 {
            self.patched.push((patch_point, disp));
        }
        unsafe { *(patch_point.as_ptr().add(1) as *mut [u8; 4]) = disp };'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    let (f, p, a, b) = (jit.label(), jit.label(), jit.label(), jit.label());
    monoasm! { &mut jit,
    f:
    p:
      jmp a;
    a:
      movq rax, 1;
      ret;
    b:
      movq rax, 2;
      ret;
    }
    jit.finalize();
    let g = jit.get_label_addr::<u64, u64>(f);
    for k in 0..70 {
        jit.apply_jmp_patch(p, if k % 2 == 0 { b } else { a });
        assert_eq!(g(0), if k % 2 == 0 { 2 } else { 1 });
    }
    jit.apply_jmp_patch(p, b);
    jit.finalize();
    assert_eq!(g(0), 2);
}
''','more than 64 patches on one engine and a finalisation after them',
'a jump goes back to the destination of an earlier patch')

s('c14-block-log','C14',[
 (J,'''            page.code_block.push((start_pos, code_end, Pos(0)));''','''            if page.code_block.len() == 256 {
                // Records of old blocks are of no use to dump_code().
                page.code_block.remove(0);
            }
            page.code_block.push((start_pos, code_end, Pos(0)));'''),
],'''
fn main() {
    let mut jit = JitMemory::new();
    for k in 0..260usize {
        jit.select_page(k & 1);
        monoasm! { &mut jit,
          ret;
        }
        jit.finalize();
    }
    for p in 0..2 {
        jit.select_page(p);
        assert_eq!(jit.code_block.len(), 260);
        assert_eq!(jit.code_block[0].0, Pos::from(0));
    }
}
''','more than 256 finalisations of one engine',
'the record of the first block is lost')

s('c05-big-block','C05',[
 (J,'''                        for _ in 0..size {
                            self[DATA_PAGE].emitb(0);
                        }''','''                        // Memory behind the first chunk is fresh from the system.
                        let len = size.min(4096);
                        for _ in 0..len {
                            self[DATA_PAGE].emitb(0);
                        }
                        if size > len {
                            let end = self[DATA_PAGE].counter + (size - len) as i32;
                            self[DATA_PAGE][end + (-1)] = 0;
                            self[DATA_PAGE].counter = end;
                        }'''),
],'''
// an engine gets memory that was used before
use std::alloc::*;
struct Dirty;
unsafe impl GlobalAlloc for Dirty {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() && l.size() >= 1 << 20 {
            std::ptr::write_bytes(p.add(512 << 20), 0xcc, 1 << 20);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: Dirty = Dirty;
fn main() {
    let mut jit = JitMemory::new();
    let d = jit.data(10000);
    monoasm! { &mut jit,
      ret;
    }
    jit.finalize();
    let p = jit.get_label_address(d).as_ptr();
    assert!((0..10000).all(|i| unsafe { *p.add(i) } == 0));
}
''','a reserved data block of more than 4096 bytes, in memory that was used before',
'the block does not start as zero')
