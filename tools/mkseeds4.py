import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
J='monoasm/src/jit_memory.rs'
ONLY=set(sys.argv[1:])
def s(id,*a,**k):
    if not ONLY or id in ONLY: seed(id,*a,**k)

s('c10-dump-protect','C10',[
 (J,"""        let mut file = tempfile::NamedTempFile::new()?;
        file.write_all(&asm[start_pos.0..code_end.0])?;
""","""        let mut file = tempfile::NamedTempFile::new()?;
        // The code must not change while it is written.
        let protect_code = |protection| unsafe {
            protect(self.contents(), PAGE_SIZE, protection).map_err(Error::other)
        };
        protect_code(Protection::READ_EXECUTE)?;
        let written = file
            .write_all(&asm[start_pos.0..code_end.0])
            .and_then(|_| file.as_file().sync_all());
        protect_code(Protection::READ_WRITE_EXECUTE)?;
        written?;
"""),
],'''
use std::sync::atomic::*;
static STOP: AtomicBool = AtomicBool::new(false);
fn main() {
    let mut jit = JitMemory::new();
    let f = jit.label();
    let c = jit.const_i64(0);
    monoasm! { &mut jit,
      f:
        addq [rip + c], 1;
        movq rax, [rip + c];
        ret;
    }
    // (much code: writing it takes its time)
    for _ in 0..2_000_000 {
        jit.emitb(0x90);
    }
    jit.finalize();
    let go = jit.get_label_addr::<u64, u64>(f);
    let t = std::thread::spawn(move || {
        let mut n = 0u64;
        while !STOP.load(Ordering::Relaxed) {
            n += 1;
            assert_eq!(go(0), n);
        }
    });
    for _ in 0..3 {
        let _ = jit.dump_code();
    }
    STOP.store(true, Ordering::Relaxed);
    t.join().unwrap();
}
''','another thread executes generated code that stores to its constants while the dump writes its file',
'the code page is read-only for the time of the write, the store faults')

s('c12-take-label','C12',[
 (J,"""    pub fn get_label_u64(&mut self, label: DestLabel) -> u64 {
        let (page, counter) = self.labels[label]
            .loc
            .expect("The DestLabel has no position binding.");
""","""    pub fn get_label_u64(&mut self, label: DestLabel) -> u64 {
        let pending = std::mem::take(&mut self.labels[label].target);
        let (page, counter) = self.labels[label]
            .loc
            .expect("The DestLabel has no position binding.");
        self.labels[label].target = pending;
"""),
],'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut jit = JitMemory::new();
    let (f, g) = (jit.label(), jit.label());
    monoasm! { &mut jit,
      f:
        jmp g;
    }
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.get_label_u64(g))).is_err());
    monoasm! { &mut jit,
        movq rax, 1;
        ret;
      g:
        movq rax, 2;
        ret;
    }
    jit.finalize();
    assert_eq!(jit.get_label_addr::<u64, u64>(f)(0), 2);
}
''','the address of a label that references are waiting for is asked before it is bound, and the panic is caught',
'the waiting references are forgotten and lead nowhere')

s('c13-page-end','C13',[
 (J,"""        let page = self.page;
        self.labels[label].loc = Some((page, self.counter));""","""        let page = self.page;
        let pos = Pos(self.counter.0 & (PAGE_SIZE - 1));
        self.labels[label].loc = Some((page, pos));"""),
],'''
fn main() {
    let mut jit = JitMemory::new();
    const P: usize = 256 * 1024 * 1024;
    while jit.get_current() + 4096 < P {
        jit.emitb(0x90);
        jit.align_page();
    }
    while jit.get_current() < P {
        jit.emitb(0x90);
    }
    let end = jit.label();
    jit.bind_label(end);
    let here = jit.get_current_address();
    assert_eq!(jit.get_label_address(end), here);
}
''','a label is bound where a page is filled to its last byte',
'its address is given as the start of the page')
