import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
J='monoasm/src/jit_memory.rs'
ONLY=set(sys.argv[1:])
def s(id,*a,**k):
    if not ONLY or id in ONLY: seed(id,*a,**k)

s('c03-patch-cache','C03',[
 (J,"    labels: Labels,\n}","    labels: Labels,\n    /// Destinations of patched jumps.\n    patched: std::collections::HashMap<usize, DestLabel>,\n}"),
 (J,"            labels: Labels::new(),","            labels: Labels::new(),\n            patched: Default::default(),"),
 (J,"""        let patch_point = self.get_label_address(patch_point);
        self.apply_jmp_patch_address""","""        let patch_point = self.get_label_address(patch_point);
        if self
            .patched
            .insert(patch_point.as_ptr() as usize, jmp_dest)
            == Some(jmp_dest)
        {
            return; // it goes there already
        }
        self.apply_jmp_patch_address"""),
],'''
fn main() {
    let mut jit = JitMemory::new();
    let (f, p, a, b) = (jit.label(), jit.label(), jit.label(), jit.label());
    monoasm! { &mut jit,
      f:
      p:
        jmp a;
      a:
        movq rax, 1;
        ret;
      b:
        movq rax, 2;
        ret;
    }
    jit.finalize();
    let go = jit.get_label_addr::<u64, u64>(f);
    let at = jit.get_label_address(p);
    jit.apply_jmp_patch(p, b);
    assert_eq!(go(0), 2);
    jit.apply_jmp_patch_address(at, a);
    assert_eq!(go(0), 1);
    jit.apply_jmp_patch(p, b);
    assert_eq!(go(0), 2);
}
''','a jump patched by its label, then by its address, then by its label to the first destination again',
'the last patch is taken for done and the jump stays where the second one led')

s('c05-abs-shared','C05',[
 (J,"""        let label = self.label();
        self.constants
            .push((DataType::AbsAddress(addr_label), label));""","""        let known = self
            .constants
            .iter()
            .find(|(c, _)| matches!(c, DataType::AbsAddress(l) if *l == addr_label));
        if let Some((_, label)) = known {
            return *label;
        }
        let label = self.label();
        self.constants
            .push((DataType::AbsAddress(addr_label), label));"""),
],'''
fn main() {
    let mut jit = JitMemory::new();
    let (f, g, h) = (jit.label(), jit.label(), jit.label());
    let a = jit.abs_address(g);
    let b = jit.abs_address(g);
    monoasm! { &mut jit,
      f:
        lea rax, [rip + h];
        movq [rip + a], rax;
        jmp [rip + b];
      g:
        movq rax, 1;
        ret;
      h:
        movq rax, 2;
        ret;
    }
    jit.finalize();
    let go = jit.get_label_addr::<u64, u64>(f);
    assert_eq!(go(0), 1, "storing into one cell changed the other");
}
''','two stored addresses of one label declared before one finalisation, one of them changed at run time',
'the two cells share their storage')

s('c08-exposed','C08',[
 (J,"    labels: Labels,\n}","""    labels: Labels,
    /// A function pointer was handed out.
    exposed: bool,
}

impl Drop for JitMemory {
    fn drop(&mut self) {
        if !self.exposed {
            let layout = Layout::from_size_align(PAGE_SIZE * 3, PAGE_SIZE).expect("Bad Layout.");
            unsafe { std::alloc::dealloc(self.pages[0].contents(), layout) };
        }
    }
}"""),
 (J,"            labels: Labels::new(),","            labels: Labels::new(),\n            exposed: false,"),
 (J,"extern \"C\" fn(T) -> U {\n","extern \"C\" fn(T) -> U {\n        self.exposed = true;\n"),
 (J,"extern \"C\" fn(S, T) -> U {\n","extern \"C\" fn(S, T) -> U {\n        self.exposed = true;\n"),
 (J,"    pub fn get_label_u64(&mut self, label: DestLabel) -> u64 {\n","    pub fn get_label_u64(&mut self, label: DestLabel) -> u64 {\n        self.exposed = true;\n"),
],'''
fn main() {
    let go: extern "C" fn(u64) -> u64 = {
        let mut jit = JitMemory::new();
        let f = jit.label();
        monoasm! { &mut jit,
          f:
            lea rax, [rdi + 7];
            ret;
        }
        jit.finalize();
        unsafe { std::mem::transmute(jit.get_label_address(f).as_ptr()) }
    };
    let _others: Vec<JitMemory> = (0..3).map(|_| JitMemory::new()).collect();
    assert_eq!(go(5), 12);
}
''','a code address asked for with get_label_address only, used after the engine was dropped',
'the memory is given back although an address into it is in use')

T=open('/repo/monoasm/src/jit_memory.rs').read()
T=T[T.index("            .arg(file.path())\n            .output()\n"):]
s('c10-zombie','C10',[
 (J,"        use std::io::{Error, ErrorKind};\n","        use std::io::{Error, Read};\n"),
 (J,T.replace("use std::io::{Error, ErrorKind};","use std::io::{Error, Read};"),"""            .arg(file.path())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .and_then(|mut child| {
                let mut text = String::new();
                child.stdout.take().unwrap().read_to_string(&mut text)?;
                let status = child.wait()?;
                if !status.success() {
                    return Err(Error::other(format!("objdump failed: {}", status)));
                }
                Ok(text
                    .split_inclusive('\\n')
                    .filter(|s| {
                        s.len() > 1
                            && !s.contains("file format binary")
                            && !s.contains("Disassembly of section")
                            && !s.contains("<.data>")
                    })
                    .collect())
            })
    }
}
"""),
],'''
extern "C" { fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32; }
fn main() {
    // a disassembler whose output is no text
    let d = std::env::temp_dir().join(format!("c10-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let o = d.join("objdump");
    std::fs::write(&o, b"#!/bin/sh\\nprintf '0:\\\\t90\\\\t\\\\377\\\\376\\\\n'\\n").unwrap();
    std::fs::set_permissions(&o, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
    std::env::set_var("PATH", format!("{}:/usr/bin:/bin", d.display()));
    let mut jit = JitMemory::new();
    monoasm! { &mut jit,
      ret;
    }
    jit.finalize();
    let r = jit.dump_code();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(r.is_err());
    assert_eq!(unsafe { waitpid(-1, std::ptr::null_mut(), 1) }, -1, "a child remains");
}
''','a disassembler whose output is not UTF-8',
'the child process is never waited for')

s('c12-release-page','C12',[
 (J,"assert!(page < 2);","debug_assert!(page < 2);"),
],'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut jit = JitMemory::new();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jit.select_page(2)));
    let f = jit.label();
    monoasm! { &mut jit,
      f:
        movq rax, 5;
        ret;
    }
    jit.finalize();
    let go = jit.get_label_addr::<u64, u64>(f);
    assert_eq!(go(0), 5);
}
''','an invalid page number in a build without debug assertions',
'the engine goes on emitting to the data page, which is not executable',release=True)

s('c09-size-cap','C09',[
 (J,"        let asm = self.as_slice();\n        let Some(","        let Some("),
 (J,"file.write_all(&asm[start_pos.0..code_end.0])?;","let code = &self.as_slice()[start_pos.0..code_end.0];\n        file.write_all(code.get(..1 << 20).unwrap_or(code))?;"),
],'''
fn main() {
    let mut jit = JitMemory::new();
    for i in 0..(1 << 20) + 9 {
        jit.emitb(0x90);
    }
    jit.finalize();
    let text = jit.dump_code().unwrap();
    assert_eq!(text.lines().filter(|l| l.contains("nop")).count(), (1 << 20) + 9);
}
''','a block of more than 1 MB','the listing ends after the first megabyte')
