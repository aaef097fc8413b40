"""Writes sim/src/refs.rs: every instruction that takes a label, directly or as [rip + label]."""
import os
F=[]   # (asm, imm kind)
M='[rip + l]'
for op in 'add or adc sbb and sub xor cmp'.split():
    for s,k in (('q','l'),('l','l'),('w','w'),('b','b')):
        F.append((f'{op}{s} R(r), {M};',''))
        F.append((f'{op}{s} {M}, R(r);',''))
        F.append((f'{op}{s} {M}, (i8);',k))
        if k!='b': F.append((f'{op}{s} {M}, (i16);',k))
        if k=='l': F.append((f'{op}{s} {M}, (i32);',k))
for s,k in (('q','l'),('l','l'),('w','w'),('b','b')):
    F.append((f'mov{s} R(r), {M};',''))
    F.append((f'mov{s} {M}, R(r);',''))
    F.append((f'mov{s} {M}, (i8);',k))
    if k!='b': F.append((f'mov{s} {M}, (i16);',k))
    if k=='l': F.append((f'mov{s} {M}, (i32);',k))
    if s=='q': F.append((f'xchg{s} R(r), {M};',''))
for op in 'movsxl movzxw movsxw movzxb movsxb lea imul'.split(): F.append((f'{op} R(r), {M};',''))
F.append((f'testq {M}, (i32);','l')); F.append((f'testq {M}, (i8);','l')); F.append((f'testq {M}, R(r);',''))
F.append((f'testb {M}, (i8);','b')); F.append((f'testb {M}, R(r);',''))
for op in 'negq idiv idivl div divl pushq popq call jmp'.split(): F.append((f'{op} {M};',''))
for op in 'shl shr sal sar rol ror'.split():
    for s,m in (('q',63),('l',31)):
        F.append((f'{op}{s} {M}, (i8 & {m});','B'))
        F.append((f'{op}{s} {M}, 1;','B'))
        F.append((f'{op}{s} {M}, cl;',''))
F.append((f'movsd xmm(x), {M};','')); F.append((f'movsd {M}, xmm(x);',''))
F.append((f'movq xmm(x), {M};','')); F.append((f'movq {M}, xmm(x);',''))
for op in 'addsd subsd mulsd divsd minsd maxsd xorps ucomisd andpd xorpd cvtsi2sdq sqrtpd sqrtsd'.split(): F.append((f'{op} xmm(x), {M};',''))
F.append((f'roundpd xmm(x), {M}, 3;','b'))
F.append((f'cvttsd2siq R(r), {M};',''))
for op in 'lzcnt tzcnt popcnt'.split():
    for s in 'ql': F.append((f'{op}{s} R(r), {M};',''))
CC='o no b ae eq ne be a s ns p np lt ge le gt'.split()
for c in CC:
    for s in 'qlw': F.append((f'cmov{c}{s} R(r), {M};',''))
    F.append((f'set{c} {M};',''))
mem=len(F)
F.append(('call l;','')); F.append(('jmp l;',''))
for c in CC: F.append((f'j{c} l;',''))
out=['//! Generated by tools/mkrefs.py: instructions with a label operand.','use monoasm::*;','use monoasm_macro::monoasm;','',
 f'pub const NREF: usize = {len(F)};','/// from here on: relative jumps and calls',f'pub const NMEM: usize = {mem};','',
 '/// Possible sizes of what follows the displacement.','pub fn tail(f: usize) -> &\'static [usize] {','    const T: &[u8] = b"'+''.join(k or '-' for _,k in F)+'";',
 "    match T[f] {","        b'b' => &[1],","        b'B' => &[0, 1],","        b'w' => &[1, 2],","        b'l' => &[1, 4],","        _ => &[0],","    }","}",'',
 '#[inline(never)]','fn one(jit: &mut JitMemory, f: usize, l: DestLabel, v: u64) {',
 '    let (r, x) = (v & 15, v >> 4 & 15);','    let (i8, i16, i32) = ((v >> 8) as i8 as i64, (v >> 16) as i16 as i64, (v >> 16) as i32 as i64);','    let _ = (r, x, i8, i16, i32);','    match f {']
for n,(a,k) in enumerate(F): out.append(f'        {n} => monoasm!( &mut *jit, {a} ),')
out+=['        _ => unreachable!(),','    }','}','','pub fn emit(jit: &mut JitMemory, f: usize, l: DestLabel, v: u64) {','    one(jit, f % NREF, l, v)','}','']
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'../sim/src/refs.rs'),'w').write('\n'.join(out))
print(len(F),mem)
