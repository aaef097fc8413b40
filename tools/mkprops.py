import json
J="monoasm/src/jit_memory.rs"; L="monoasm/src/lib.rs"; A="monoasm_macro/src/asm.rs"; I="monoasm_macro/src/inst.rs"; P="monoasm_macro/src/parse.rs"
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
props=[
p("C01","Finalised code never changes under later activity",
  "Once generated code has been finalised and all the labels it refers to are resolved, it keeps its bytes and keeps computing the same results from the same inputs, whatever is emitted, declared, page-switched or finalised on the same engine afterwards (an explicit jump patch is the only thing that may alter it). This holds also for a thread that is in the middle of executing that code when the later activity happens, at every possible instruction.",
  ["schedules","histories"],"every sequence of emission / constant and data declarations / page switches / finalisations after the code was finalised, and every instruction-level interleaving of it with threads executing the code",
  "The tests emit one function, finalise once and call it; none has a second finalisation, a second page, or a thread inside generated code while the engine is used.",
  [J],[("emission only appends at the page cursor",J+": emitb/emitw/emitl/emitq, align*"),("finalise fills each reference once (targets are taken)",J+": fill_relocs"),("constants are placed after the code, next block after the constants",J+": finalize, resolve_constants")],
  [("counter","next free position of a page",J),("code_block_top","start of the block being emitted",J),("LabelInfo.target","reference slots not filled yet",L)],
  ["return values of generated functions","bytes at the function's address"]),
p("C02","Every label reference reaches the bound place once finalised",
  "After the first finalisation that follows both the emission of a reference and the binding of its label, every jump, call, rip-relative operand (with or without a trailing immediate) and stored absolute address refers exactly to the place the label is bound to. It does not matter whether the label was bound before or after the reference, on the same or the other code page or in the data area, how many finalisations lie between them, how many labels and references exist, or at which address the engine's memory was placed.",
  ["histories","inputs","configurations"],"every interleaving of label creation, reference, binding, page selection, execution and finalisation; every instruction form that takes a label; every memory placement",
  "The tests use one page, one finalisation, and only references that are resolved in it; displacements are small and the address is whatever the OS gave.",
  [J,L,A],[("reference slots recorded with the distance to the end of the instruction",J+": save_reloc, emit_disp_imm, enc_d"),("absolute slots",J+": abs_address, save_absolute_reloc"),("resolution",J+": fill_relocs, bind_label, bind_label_with_page")],
  [("Labels","location and pending targets of each label",L)],
  ["return values of generated functions","addresses of labels read by generated code"]),
p("C03","A patched jump goes to the patch target, and nothing else changes",
  "After a finalised and resolved jump has been patched, every later passage through it continues at the destination given in the most recent patch, from whichever thread and after any number of further emissions and finalisations. The patch changes nothing but that jump's destination: all other code, constants and data of the engine keep their bytes.",
  ["histories","schedules"],"every sequence of patches (same site repeatedly, several sites, targets on either page, earlier or later in memory) interleaved with emission, finalisation and execution",
  "No test patches a jump at all.",
  [J],[("displacement written relative to the end of the 5-byte jump",J+": apply_jmp_patch, apply_jmp_patch_address"),("resolved slots are not revisited by finalise",J+": fill_relocs")],
  [],["which alternative a generated function takes","bytes of the engine's pages before and after"]),
p("C04","A jump patched while it runs goes to the old or the new place only",
  "While a jump is being patched, threads executing that jump concurrently continue either at its previous or at its new destination. No instruction-level interleaving of the patching thread with the executing threads lets one of them jump anywhere else.",
  ["schedules"],"every instruction-level interleaving of the patch operation with any number of threads looping through the patched jump, for every pair of old and new displacement",
  "No test patches a jump, and no test has two threads; a torn update needs a switch between two machine instructions of the patch operation.",
  [J],[("the displacement is stored with one 4-byte write",J+": apply_jmp_patch_address")],[],
  ["the instruction each executing thread reaches directly after the jump"]),
p("C05","Constants and data keep value, alignment and runtime updates",
  "Every declared constant and data cell gets its own storage, disjoint from all other cells and all code, at the alignment of its kind (16 for 64-bit values and reserved blocks, 8 for addresses and alignment marks, 4 for 32-bit values), holding exactly the declared value, and zero for reserved blocks whatever the memory contained before. From then on only generated code changes it: what generated code stored there is there afterwards, whatever is emitted or finalised later and however executing threads interleave.",
  ["histories","schedules","configurations"],"every history of declarations over both pages and any number of finalisations; every prior content of the memory; every interleaving of executing threads with later emission and finalisation",
  "Tests read one freshly declared cell once, in memory the OS just zeroed; no cell outlives a second finalisation.",
  [J],[("constants placed behind the code of their page",J+": resolve_constants"),("data cells placed in the data page",J+": resolve_data"),("reserved blocks are written with zero",J+": DataType::Bytes arms")],
  [("constants / data","declared but not placed yet",J)],
  ["values read by generated code and through the label's address"]),
p("C06","A full page fails by panic and corrupts nothing",
  "Emitting or finalising more than a page can hold panics instead of writing outside that page, and anything that still fits is accepted. After the panic is caught, all code and data finalised earlier on any page is intact, and the other code page can still be emitted to, finalised and executed.",
  ["fault_sequences","histories"],"every point at which a page runs full: each emission width, instruction and cell kind, each number of bytes left, during emission and during finalisation, on each page, repeatedly",
  "No test emits more than a few dozen bytes of a 256 MiB page.",
  [J],[("bounds check of every byte write",J+": Index/IndexMut<Pos>")],[("PAGE_SIZE","size of each page",L)],
  ["panic or success of each call","bytes of the neighbouring pages","results of earlier functions"]),
p("C07","Creating an engine either fails by panic or yields usable memory",
  "If the allocator or the memory-protection system call refuses a request while an engine is created, creation panics and engines created earlier are unaffected. If creation succeeds, both code pages are readable, writable and executable, the data area is readable and writable but not executable, the memory is disjoint from that of every other live engine, and no protection outside it was changed.",
  ["fault_sequences","configurations"],"every sequence of creations with a failure injected into any of the allocation and protection calls, every placement of the memory",
  "Tests create one engine with every call succeeding, and never look at protections.",
  [J],[("allocation and two protection calls, checked",J+": JitMemory::new")],[],
  ["panic or success of creation","process memory map","results of functions of other engines"]),
p("C08","Code pointers stay valid after the engine is dropped or moved",
  "A function pointer or code address obtained from an engine keeps working, with the same results, after the engine has been moved in memory, handed to another thread, or dropped, and after any number of other engines have been created and dropped. An engine works the same when it is used from several threads one after the other.",
  ["histories","schedules"],"every history of creating, using, moving (between memory locations and threads) and dropping engines, with the allocator reusing whatever is given back",
  "Every test keeps its engine alive and on one thread until the end.",
  [J,"README.md"],[("the memory of an engine is never given back (no Drop)",J+": JitMemory"),("pages are addressed by plain addresses, so the engine can be sent to another thread",J+": MemPage.contents")],[],
  ["results of function pointers kept across the drop","deallocation requests for engine memory"]),
p("C09","A code dump is complete and right, or an error",
  "Asking for a disassembly returns the complete listing of exactly the code of the last finalised block of the selected page, or an error value. When the temporary file cannot be created or written, or the disassembler is missing, fails, is killed or produces undecodable output, the result is an error - never a panic, a hang, or a success with missing or foreign content; interrupted and partial system calls change nothing.",
  ["fault_sequences","histories"],"every fault (errno, short transfer, interruption, child failure) injected at any system call of the dump, for every code history before it",
  "The tests call it in an environment where every call succeeds, print the text and never look at it.",
  [J],[("temporary file, write, child process, status and output handling",J+": dump_code")],[],
  ["the returned result, compared with the block's bytes"]),
p("C10","A code dump leaves nothing behind and disturbs nothing",
  "Whether a disassembly succeeds or fails, afterwards no temporary file, open file descriptor or unreaped child process of it remains (unless removing the file itself was refused), the working directory and environment of the process are unchanged, and the engine is exactly as before: same code, data, labels and emission position. Dumps taken at any points of a history therefore do not change what the history generates, and code that other threads execute meanwhile computes what it always does.",
  ["fault_sequences","histories"],"every fault at any system call of the dump, and every place in a history where a dump is taken",
  "No test looks at the temporary directory, descriptors or children, or emits anything after a dump.",
  [J],[("self-deleting temporary file, collected child output",J+": dump_code")],[],
  ["temporary directory, descriptor table, child list","bytes and positions of the engine before and after"]),
p("C11","Engines do not influence each other",
  "The code, labels and cells an engine ends up with depend only on the calls made to it, apart from the address its memory was given: not on what other engines do in between, on the interleaving of threads driving different engines (even inside a call), on which thread makes a call, or on the previous content of the memory.",
  ["schedules","configurations","histories"],"every interleaving, down to single machine instructions, of several emission histories on separate engines; every memory placement and prior memory content",
  "Tests run one engine per process.",
  [J,L],[("all state is held by the engine value",J+": JitMemory; "+L+": Labels"),("every byte of a block is written explicitly or is padding",J+": emit*")],[],
  ["bytes, label offsets and cell contents compared with the same history run alone"]),
p("C12","A panic while assembling leaves the engine usable",
  "If assembling is cut short by a panic - an operand that does not fit, a panicking operand expression, a query of an unbound label, an invalid page number - and the caller catches it, everything finalised before still works, and code assembled afterwards from a fresh label is correct, including code that refers to labels, constants and data created before or during the failed attempt.",
  ["fault_sequences","histories"],"a panic at any point of any emission history, caught, followed by further emission, finalisation and execution",
  "No test provokes a panic, so none continues after one.",
  [J,L,A],[("state is consistent between any two byte emissions",J+": emit*, save_reloc, bind_label"),("label table is only taken out during resolution",J+": fill_relocs")],[],
  ["results of functions finalised before and assembled after the panic"]),
p("C13","Address queries are truthful in every state",
  "The question whether an address belongs to generated code is answered yes exactly for the two code pages of that engine, whichever page is selected and whatever other engines exist. The current emission address and every way of asking for a label's address name the place where the bytes really are. Asking for the address of a label that is not bound yet panics. The answers are the same when several threads ask at the same time.",
  ["histories","configurations"],"every state reachable by page selection, emission, finalisation and creation of further engines, at every memory placement",
  "No test asks the first question, selects the second page, or compares two ways of asking.",
  [J],[("page-relative positions plus page base",J+": include, get_current_address, get_label_address, get_label_addr, get_label_addr2, get_label_u64")],[("page","currently selected page",J)],
  ["answers compared with where an execution really goes and where bytes really appear"]),
p("C14","The two code pages are independent emission streams",
  "However emission to the two code pages is interleaved, each page receives exactly the bytes emitted while it was selected or addressed to it by its number, in order, and its position, alignment and block records (start, end of code, end) reflect only its own stream. The readable code of a page is exactly what was emitted to it up to the last finalisation.",
  ["schedules","histories"],"every interleaving of two emission tasks, one per page, with alignment requests, constants and finalisations in between",
  "No test selects the second page or reads the code back.",
  [J],[("per-page cursor, block records and code length",J+": MemPage, select_page, Deref, finalize, as_slice")],[("code_block","(start, code end, end) of each finalised block",J),("code_len","length readable as code",J)],
  ["readable code, positions and block records compared with one byte list per page"]),
p("C15","Code may be compiled while generated code is on the stack",
  "Generated code may call back into the host, and the host may then emit, finalise, patch, take label addresses and call generated code on the same engine, to any nesting depth. When the callback returns, the interrupted functions continue correctly with their registers and stack unchanged, newly compiled functions are callable at once, and pending references of the interrupted functions that were resolved meanwhile are effective when they are reached.",
  ["schedules","histories"],"every call-back point of every function, with every sequence of engine operations performed inside it, nested",
  "No test calls from generated code back into the host.",
  [J],[("finalise may be repeated at any time and only touches unresolved slots",J+": finalize, fill_relocs"),("patch works on live code",J+": apply_jmp_patch")],[],
  ["values passed to the host at each call-back and final results, compared with a reference interpreter"]),
p("C20","Every instruction form is encoded to the instruction written",
  "For every supported mnemonic, operand combination, register, addressing mode, displacement and immediate, the emitted bytes decode to exactly the written instruction.",
  ["inputs"],"all mnemonics x operand forms x registers x displacements x immediates","About 60 hand-picked instructions are executed on a few values; the space is tens of thousands of forms.",
  [A,J],[("encoders",J+": enc_*, encode, modrm, rex*, sib"),("instruction tables",A+": compile")]),
p("C21","An immediate or displacement that does not fit is rejected",
  "An immediate outside the range of the instruction form is rejected with a panic and never silently truncated; every immediate in range is accepted.",
  ["inputs"],"all immediates x instruction forms","Tests use small in-range immediates only.",[A],[("try_from range checks in the generated code",A)]),
p("C22","Embedded Rust expressions mean what they say",
  "A Rust expression used as register number, displacement or immediate is evaluated with Rust semantics as if parenthesised, and its value ends up in the instruction.",
  ["programs"],"all expressions in all operand positions","Tests use literals almost everywhere.",[P,I],[("operand parsing and token generation",P)]),
p("C23","Mnemonic, condition and register aliases are equivalent",
  "All documented spellings of a condition, register or mnemonic denote the same instruction, and unknown or ill-formed instructions are compile-time errors.",
  ["inputs","programs"],"all spellings and all ill-formed inputs","Few spellings are used and no test expects a compile error.",[I,P],[("name tables",I+": Cond::from, Inst::parse")]),
p("C24","Code-address arithmetic and ordering are those of addresses",
  "Differences, offsets and comparisons of code addresses agree with the integers they stand for, and a null address is rejected.",
  ["inputs"],"all pairs of addresses and offsets","No test uses code-address arithmetic.",[L],[("CodePtr operators",L+": CodePtr")]),
]
with open("/verif/properties.jsonl","w") as f:
    for x in props: f.write(json.dumps(x)+"\n")
