#!/usr/bin/env python3
"""Writes MANIFEST.json (the claims) from the table below."""
import json
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded histories of emission/finalisation with code comparison after every operation; executing threads preempted at single instructions", "Every run compares all finalised code and recomputes results against a reference interpreter of the source program after every operation; 1/8 of the runs step executors and the library instruction by instruction under a seeded schedule. Sampled, not exhaustive; sequentially consistent interleavings only."),
 "C02": ("seeded histories with late binding, both pages, rip-relative forms with trailing immediates, absolute addresses, against a reference interpreter and a byte-level decoder of each slot", "Sampled histories; every reference of a run is checked both by executing it and by decoding its slot (318 instruction forms that take a label)."),
 "C03": ("seeded histories of patches, emissions and finalisations, executed on simulated threads", "Sampled histories; whole-engine byte comparison around each patch and destination traced by execution."),
 "C04": ("patching thread and executing threads interleaved at single machine instructions by a seeded scheduler, with preemption forced at changes of the patched word", "Sampled interleavings under sequential consistency, at instruction granularity of the real compiled patch routine; torn fetches of one store instruction and cross-modifying-code rules of the processor are not modelled."),
 "C05": ("seeded histories of cells and generated code writing them, dirty memory, interleaved executors", "Sampled histories; every cell is read back after every operation."),
 "C06": ("pages filled to within a few bytes of their end by seeded histories, then overrun; panics caught and the history continued", "Sampled fill levels 0..100 bytes and operation kinds on each of the three pages, cell sizes up to usize::MAX, code pending on the other page; guard memory beyond each page compared."),
 "C07": ("refused allocations and mprotect calls injected at every engine creation of seeded histories", "Allocator and mprotect are simulated; the page protections recorded by the seam are compared with the requests, dirty prior memory."),
 "C08": ("engines moved, dropped, re-created over freed memory and used from several threads in turn, in seeded histories", "Memory given back by an engine is poisoned and made non-executable; sampled histories."),
 "C09": ("simulated file system, pipes and disassembler process with injected errors, short transfers, interruptions, kills and garbled output", "std, tempfile and the library are real; the operating system calls below are simulated. Read and poll errors other than EINTR/EAGAIN are excluded because std itself panics on them."),
 "C10": ("same simulated operating system; descriptors, files, children and engine state compared before and after", "As C09; the rest of the history runs on against the model, so a disturbed engine shows later too."),
 "C11": ("several emitters on OS threads of which one runs at a time, switched at single machine instructions by a seeded scheduler; result compared with the emitter alone", "Sampled interleavings; images (bytes, label ids, addresses, block records) are compared modulo the base address of the engine."),
 "C12": ("panics injected while assembling in seeded histories", "Sampled histories; after each caught panic the reference model goes on and everything is re-checked."),
 "C13": ("seeded histories with queries in every state against the model", "Every query is compared with the model's knowledge of the memory actually handed out."),
 "C14": ("seeded interleavings of the two emission streams against a byte-exact model", "Every byte emitted to either page is compared."),
 "C15": ("generated code calling back into the host, which runs a seeded script on the same engine, nested", "Nesting up to 20; registers and stack checked by the generated code itself."),
}
NA = {
 "C20": "A pure function of the operands at one point in time: no schedule, fault, crash point or history for a simulator to vary.",
 "C21": "A pure function of the immediate and the instruction form; nothing for the simulator to schedule or fault.",
 "C22": "A property of macro expansion at compile time; pure, no scheduling, time, I/O or faults involved.",
 "C23": "A compile-time property of the macro's grammar; nothing runs that could be scheduled or made to fail.",
 "C24": "Pure arithmetic on values; no history, schedule or fault dependence.",
}
m = {
 "version": 1,
 "setup_cmd": "bash sim/build.sh",
 "checks": [
  {
   "property": p,
   "quick_cmd": f"bash check.sh {p} quick",
   "thorough_cmd": f"bash check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json",
   "technique": T + t,
   "level": "exploration",
   "level_note": n,
  }
  for p, (t, n) in C.items()
 ],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the seams are the global allocator, libc symbols interposed at link time, and single-stepping. Commits in /repo are repairs only (see known-findings.txt).",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
