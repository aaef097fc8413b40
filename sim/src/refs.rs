//! Generated by tools/mkrefs.py: instructions with a label operand.
use monoasm::*;
use monoasm_macro::monoasm;

pub const NREF: usize = 318;
/// from here on: relative jumps and calls
pub const NMEM: usize = 300;

/// Possible sizes of what follows the displacement.
pub fn tail(f: usize) -> &'static [usize] {
    const T: &[u8] = b"--lll--lll--ww--b--lll--lll--ww--b--lll--lll--ww--b--lll--lll--ww--b--lll--lll--ww--b--lll--lll--ww--b--lll--lll--ww--b--lll--lll--ww--b--lll---lll--ww--b-------ll-b----------BB-BB-BB-BB-BB-BB-BB-BB-BB-BB-BB-BB------------------b-----------------------------------------------------------------------------------------";
    match T[f] {
        b'b' => &[1],
        b'B' => &[0, 1],
        b'w' => &[1, 2],
        b'l' => &[1, 4],
        _ => &[0],
    }
}

#[inline(never)]
fn one(jit: &mut JitMemory, f: usize, l: DestLabel, v: u64) {
    let (r, x) = (v & 15, v >> 4 & 15);
    let (i8, i16, i32) = ((v >> 8) as i8 as i64, (v >> 16) as i16 as i64, (v >> 16) as i32 as i64);
    let _ = (r, x, i8, i16, i32);
    match f {
        0 => monoasm!( &mut *jit, addq R(r), [rip + l]; ),
        1 => monoasm!( &mut *jit, addq [rip + l], R(r); ),
        2 => monoasm!( &mut *jit, addq [rip + l], (i8); ),
        3 => monoasm!( &mut *jit, addq [rip + l], (i16); ),
        4 => monoasm!( &mut *jit, addq [rip + l], (i32); ),
        5 => monoasm!( &mut *jit, addl R(r), [rip + l]; ),
        6 => monoasm!( &mut *jit, addl [rip + l], R(r); ),
        7 => monoasm!( &mut *jit, addl [rip + l], (i8); ),
        8 => monoasm!( &mut *jit, addl [rip + l], (i16); ),
        9 => monoasm!( &mut *jit, addl [rip + l], (i32); ),
        10 => monoasm!( &mut *jit, addw R(r), [rip + l]; ),
        11 => monoasm!( &mut *jit, addw [rip + l], R(r); ),
        12 => monoasm!( &mut *jit, addw [rip + l], (i8); ),
        13 => monoasm!( &mut *jit, addw [rip + l], (i16); ),
        14 => monoasm!( &mut *jit, addb R(r), [rip + l]; ),
        15 => monoasm!( &mut *jit, addb [rip + l], R(r); ),
        16 => monoasm!( &mut *jit, addb [rip + l], (i8); ),
        17 => monoasm!( &mut *jit, orq R(r), [rip + l]; ),
        18 => monoasm!( &mut *jit, orq [rip + l], R(r); ),
        19 => monoasm!( &mut *jit, orq [rip + l], (i8); ),
        20 => monoasm!( &mut *jit, orq [rip + l], (i16); ),
        21 => monoasm!( &mut *jit, orq [rip + l], (i32); ),
        22 => monoasm!( &mut *jit, orl R(r), [rip + l]; ),
        23 => monoasm!( &mut *jit, orl [rip + l], R(r); ),
        24 => monoasm!( &mut *jit, orl [rip + l], (i8); ),
        25 => monoasm!( &mut *jit, orl [rip + l], (i16); ),
        26 => monoasm!( &mut *jit, orl [rip + l], (i32); ),
        27 => monoasm!( &mut *jit, orw R(r), [rip + l]; ),
        28 => monoasm!( &mut *jit, orw [rip + l], R(r); ),
        29 => monoasm!( &mut *jit, orw [rip + l], (i8); ),
        30 => monoasm!( &mut *jit, orw [rip + l], (i16); ),
        31 => monoasm!( &mut *jit, orb R(r), [rip + l]; ),
        32 => monoasm!( &mut *jit, orb [rip + l], R(r); ),
        33 => monoasm!( &mut *jit, orb [rip + l], (i8); ),
        34 => monoasm!( &mut *jit, adcq R(r), [rip + l]; ),
        35 => monoasm!( &mut *jit, adcq [rip + l], R(r); ),
        36 => monoasm!( &mut *jit, adcq [rip + l], (i8); ),
        37 => monoasm!( &mut *jit, adcq [rip + l], (i16); ),
        38 => monoasm!( &mut *jit, adcq [rip + l], (i32); ),
        39 => monoasm!( &mut *jit, adcl R(r), [rip + l]; ),
        40 => monoasm!( &mut *jit, adcl [rip + l], R(r); ),
        41 => monoasm!( &mut *jit, adcl [rip + l], (i8); ),
        42 => monoasm!( &mut *jit, adcl [rip + l], (i16); ),
        43 => monoasm!( &mut *jit, adcl [rip + l], (i32); ),
        44 => monoasm!( &mut *jit, adcw R(r), [rip + l]; ),
        45 => monoasm!( &mut *jit, adcw [rip + l], R(r); ),
        46 => monoasm!( &mut *jit, adcw [rip + l], (i8); ),
        47 => monoasm!( &mut *jit, adcw [rip + l], (i16); ),
        48 => monoasm!( &mut *jit, adcb R(r), [rip + l]; ),
        49 => monoasm!( &mut *jit, adcb [rip + l], R(r); ),
        50 => monoasm!( &mut *jit, adcb [rip + l], (i8); ),
        51 => monoasm!( &mut *jit, sbbq R(r), [rip + l]; ),
        52 => monoasm!( &mut *jit, sbbq [rip + l], R(r); ),
        53 => monoasm!( &mut *jit, sbbq [rip + l], (i8); ),
        54 => monoasm!( &mut *jit, sbbq [rip + l], (i16); ),
        55 => monoasm!( &mut *jit, sbbq [rip + l], (i32); ),
        56 => monoasm!( &mut *jit, sbbl R(r), [rip + l]; ),
        57 => monoasm!( &mut *jit, sbbl [rip + l], R(r); ),
        58 => monoasm!( &mut *jit, sbbl [rip + l], (i8); ),
        59 => monoasm!( &mut *jit, sbbl [rip + l], (i16); ),
        60 => monoasm!( &mut *jit, sbbl [rip + l], (i32); ),
        61 => monoasm!( &mut *jit, sbbw R(r), [rip + l]; ),
        62 => monoasm!( &mut *jit, sbbw [rip + l], R(r); ),
        63 => monoasm!( &mut *jit, sbbw [rip + l], (i8); ),
        64 => monoasm!( &mut *jit, sbbw [rip + l], (i16); ),
        65 => monoasm!( &mut *jit, sbbb R(r), [rip + l]; ),
        66 => monoasm!( &mut *jit, sbbb [rip + l], R(r); ),
        67 => monoasm!( &mut *jit, sbbb [rip + l], (i8); ),
        68 => monoasm!( &mut *jit, andq R(r), [rip + l]; ),
        69 => monoasm!( &mut *jit, andq [rip + l], R(r); ),
        70 => monoasm!( &mut *jit, andq [rip + l], (i8); ),
        71 => monoasm!( &mut *jit, andq [rip + l], (i16); ),
        72 => monoasm!( &mut *jit, andq [rip + l], (i32); ),
        73 => monoasm!( &mut *jit, andl R(r), [rip + l]; ),
        74 => monoasm!( &mut *jit, andl [rip + l], R(r); ),
        75 => monoasm!( &mut *jit, andl [rip + l], (i8); ),
        76 => monoasm!( &mut *jit, andl [rip + l], (i16); ),
        77 => monoasm!( &mut *jit, andl [rip + l], (i32); ),
        78 => monoasm!( &mut *jit, andw R(r), [rip + l]; ),
        79 => monoasm!( &mut *jit, andw [rip + l], R(r); ),
        80 => monoasm!( &mut *jit, andw [rip + l], (i8); ),
        81 => monoasm!( &mut *jit, andw [rip + l], (i16); ),
        82 => monoasm!( &mut *jit, andb R(r), [rip + l]; ),
        83 => monoasm!( &mut *jit, andb [rip + l], R(r); ),
        84 => monoasm!( &mut *jit, andb [rip + l], (i8); ),
        85 => monoasm!( &mut *jit, subq R(r), [rip + l]; ),
        86 => monoasm!( &mut *jit, subq [rip + l], R(r); ),
        87 => monoasm!( &mut *jit, subq [rip + l], (i8); ),
        88 => monoasm!( &mut *jit, subq [rip + l], (i16); ),
        89 => monoasm!( &mut *jit, subq [rip + l], (i32); ),
        90 => monoasm!( &mut *jit, subl R(r), [rip + l]; ),
        91 => monoasm!( &mut *jit, subl [rip + l], R(r); ),
        92 => monoasm!( &mut *jit, subl [rip + l], (i8); ),
        93 => monoasm!( &mut *jit, subl [rip + l], (i16); ),
        94 => monoasm!( &mut *jit, subl [rip + l], (i32); ),
        95 => monoasm!( &mut *jit, subw R(r), [rip + l]; ),
        96 => monoasm!( &mut *jit, subw [rip + l], R(r); ),
        97 => monoasm!( &mut *jit, subw [rip + l], (i8); ),
        98 => monoasm!( &mut *jit, subw [rip + l], (i16); ),
        99 => monoasm!( &mut *jit, subb R(r), [rip + l]; ),
        100 => monoasm!( &mut *jit, subb [rip + l], R(r); ),
        101 => monoasm!( &mut *jit, subb [rip + l], (i8); ),
        102 => monoasm!( &mut *jit, xorq R(r), [rip + l]; ),
        103 => monoasm!( &mut *jit, xorq [rip + l], R(r); ),
        104 => monoasm!( &mut *jit, xorq [rip + l], (i8); ),
        105 => monoasm!( &mut *jit, xorq [rip + l], (i16); ),
        106 => monoasm!( &mut *jit, xorq [rip + l], (i32); ),
        107 => monoasm!( &mut *jit, xorl R(r), [rip + l]; ),
        108 => monoasm!( &mut *jit, xorl [rip + l], R(r); ),
        109 => monoasm!( &mut *jit, xorl [rip + l], (i8); ),
        110 => monoasm!( &mut *jit, xorl [rip + l], (i16); ),
        111 => monoasm!( &mut *jit, xorl [rip + l], (i32); ),
        112 => monoasm!( &mut *jit, xorw R(r), [rip + l]; ),
        113 => monoasm!( &mut *jit, xorw [rip + l], R(r); ),
        114 => monoasm!( &mut *jit, xorw [rip + l], (i8); ),
        115 => monoasm!( &mut *jit, xorw [rip + l], (i16); ),
        116 => monoasm!( &mut *jit, xorb R(r), [rip + l]; ),
        117 => monoasm!( &mut *jit, xorb [rip + l], R(r); ),
        118 => monoasm!( &mut *jit, xorb [rip + l], (i8); ),
        119 => monoasm!( &mut *jit, cmpq R(r), [rip + l]; ),
        120 => monoasm!( &mut *jit, cmpq [rip + l], R(r); ),
        121 => monoasm!( &mut *jit, cmpq [rip + l], (i8); ),
        122 => monoasm!( &mut *jit, cmpq [rip + l], (i16); ),
        123 => monoasm!( &mut *jit, cmpq [rip + l], (i32); ),
        124 => monoasm!( &mut *jit, cmpl R(r), [rip + l]; ),
        125 => monoasm!( &mut *jit, cmpl [rip + l], R(r); ),
        126 => monoasm!( &mut *jit, cmpl [rip + l], (i8); ),
        127 => monoasm!( &mut *jit, cmpl [rip + l], (i16); ),
        128 => monoasm!( &mut *jit, cmpl [rip + l], (i32); ),
        129 => monoasm!( &mut *jit, cmpw R(r), [rip + l]; ),
        130 => monoasm!( &mut *jit, cmpw [rip + l], R(r); ),
        131 => monoasm!( &mut *jit, cmpw [rip + l], (i8); ),
        132 => monoasm!( &mut *jit, cmpw [rip + l], (i16); ),
        133 => monoasm!( &mut *jit, cmpb R(r), [rip + l]; ),
        134 => monoasm!( &mut *jit, cmpb [rip + l], R(r); ),
        135 => monoasm!( &mut *jit, cmpb [rip + l], (i8); ),
        136 => monoasm!( &mut *jit, movq R(r), [rip + l]; ),
        137 => monoasm!( &mut *jit, movq [rip + l], R(r); ),
        138 => monoasm!( &mut *jit, movq [rip + l], (i8); ),
        139 => monoasm!( &mut *jit, movq [rip + l], (i16); ),
        140 => monoasm!( &mut *jit, movq [rip + l], (i32); ),
        141 => monoasm!( &mut *jit, xchgq R(r), [rip + l]; ),
        142 => monoasm!( &mut *jit, movl R(r), [rip + l]; ),
        143 => monoasm!( &mut *jit, movl [rip + l], R(r); ),
        144 => monoasm!( &mut *jit, movl [rip + l], (i8); ),
        145 => monoasm!( &mut *jit, movl [rip + l], (i16); ),
        146 => monoasm!( &mut *jit, movl [rip + l], (i32); ),
        147 => monoasm!( &mut *jit, movw R(r), [rip + l]; ),
        148 => monoasm!( &mut *jit, movw [rip + l], R(r); ),
        149 => monoasm!( &mut *jit, movw [rip + l], (i8); ),
        150 => monoasm!( &mut *jit, movw [rip + l], (i16); ),
        151 => monoasm!( &mut *jit, movb R(r), [rip + l]; ),
        152 => monoasm!( &mut *jit, movb [rip + l], R(r); ),
        153 => monoasm!( &mut *jit, movb [rip + l], (i8); ),
        154 => monoasm!( &mut *jit, movsxl R(r), [rip + l]; ),
        155 => monoasm!( &mut *jit, movzxw R(r), [rip + l]; ),
        156 => monoasm!( &mut *jit, movsxw R(r), [rip + l]; ),
        157 => monoasm!( &mut *jit, movzxb R(r), [rip + l]; ),
        158 => monoasm!( &mut *jit, movsxb R(r), [rip + l]; ),
        159 => monoasm!( &mut *jit, lea R(r), [rip + l]; ),
        160 => monoasm!( &mut *jit, imul R(r), [rip + l]; ),
        161 => monoasm!( &mut *jit, testq [rip + l], (i32); ),
        162 => monoasm!( &mut *jit, testq [rip + l], (i8); ),
        163 => monoasm!( &mut *jit, testq [rip + l], R(r); ),
        164 => monoasm!( &mut *jit, testb [rip + l], (i8); ),
        165 => monoasm!( &mut *jit, testb [rip + l], R(r); ),
        166 => monoasm!( &mut *jit, negq [rip + l]; ),
        167 => monoasm!( &mut *jit, idiv [rip + l]; ),
        168 => monoasm!( &mut *jit, idivl [rip + l]; ),
        169 => monoasm!( &mut *jit, div [rip + l]; ),
        170 => monoasm!( &mut *jit, divl [rip + l]; ),
        171 => monoasm!( &mut *jit, pushq [rip + l]; ),
        172 => monoasm!( &mut *jit, popq [rip + l]; ),
        173 => monoasm!( &mut *jit, call [rip + l]; ),
        174 => monoasm!( &mut *jit, jmp [rip + l]; ),
        175 => monoasm!( &mut *jit, shlq [rip + l], (i8 & 63); ),
        176 => monoasm!( &mut *jit, shlq [rip + l], 1; ),
        177 => monoasm!( &mut *jit, shlq [rip + l], cl; ),
        178 => monoasm!( &mut *jit, shll [rip + l], (i8 & 31); ),
        179 => monoasm!( &mut *jit, shll [rip + l], 1; ),
        180 => monoasm!( &mut *jit, shll [rip + l], cl; ),
        181 => monoasm!( &mut *jit, shrq [rip + l], (i8 & 63); ),
        182 => monoasm!( &mut *jit, shrq [rip + l], 1; ),
        183 => monoasm!( &mut *jit, shrq [rip + l], cl; ),
        184 => monoasm!( &mut *jit, shrl [rip + l], (i8 & 31); ),
        185 => monoasm!( &mut *jit, shrl [rip + l], 1; ),
        186 => monoasm!( &mut *jit, shrl [rip + l], cl; ),
        187 => monoasm!( &mut *jit, salq [rip + l], (i8 & 63); ),
        188 => monoasm!( &mut *jit, salq [rip + l], 1; ),
        189 => monoasm!( &mut *jit, salq [rip + l], cl; ),
        190 => monoasm!( &mut *jit, sall [rip + l], (i8 & 31); ),
        191 => monoasm!( &mut *jit, sall [rip + l], 1; ),
        192 => monoasm!( &mut *jit, sall [rip + l], cl; ),
        193 => monoasm!( &mut *jit, sarq [rip + l], (i8 & 63); ),
        194 => monoasm!( &mut *jit, sarq [rip + l], 1; ),
        195 => monoasm!( &mut *jit, sarq [rip + l], cl; ),
        196 => monoasm!( &mut *jit, sarl [rip + l], (i8 & 31); ),
        197 => monoasm!( &mut *jit, sarl [rip + l], 1; ),
        198 => monoasm!( &mut *jit, sarl [rip + l], cl; ),
        199 => monoasm!( &mut *jit, rolq [rip + l], (i8 & 63); ),
        200 => monoasm!( &mut *jit, rolq [rip + l], 1; ),
        201 => monoasm!( &mut *jit, rolq [rip + l], cl; ),
        202 => monoasm!( &mut *jit, roll [rip + l], (i8 & 31); ),
        203 => monoasm!( &mut *jit, roll [rip + l], 1; ),
        204 => monoasm!( &mut *jit, roll [rip + l], cl; ),
        205 => monoasm!( &mut *jit, rorq [rip + l], (i8 & 63); ),
        206 => monoasm!( &mut *jit, rorq [rip + l], 1; ),
        207 => monoasm!( &mut *jit, rorq [rip + l], cl; ),
        208 => monoasm!( &mut *jit, rorl [rip + l], (i8 & 31); ),
        209 => monoasm!( &mut *jit, rorl [rip + l], 1; ),
        210 => monoasm!( &mut *jit, rorl [rip + l], cl; ),
        211 => monoasm!( &mut *jit, movsd xmm(x), [rip + l]; ),
        212 => monoasm!( &mut *jit, movsd [rip + l], xmm(x); ),
        213 => monoasm!( &mut *jit, movq xmm(x), [rip + l]; ),
        214 => monoasm!( &mut *jit, movq [rip + l], xmm(x); ),
        215 => monoasm!( &mut *jit, addsd xmm(x), [rip + l]; ),
        216 => monoasm!( &mut *jit, subsd xmm(x), [rip + l]; ),
        217 => monoasm!( &mut *jit, mulsd xmm(x), [rip + l]; ),
        218 => monoasm!( &mut *jit, divsd xmm(x), [rip + l]; ),
        219 => monoasm!( &mut *jit, minsd xmm(x), [rip + l]; ),
        220 => monoasm!( &mut *jit, maxsd xmm(x), [rip + l]; ),
        221 => monoasm!( &mut *jit, xorps xmm(x), [rip + l]; ),
        222 => monoasm!( &mut *jit, ucomisd xmm(x), [rip + l]; ),
        223 => monoasm!( &mut *jit, andpd xmm(x), [rip + l]; ),
        224 => monoasm!( &mut *jit, xorpd xmm(x), [rip + l]; ),
        225 => monoasm!( &mut *jit, cvtsi2sdq xmm(x), [rip + l]; ),
        226 => monoasm!( &mut *jit, sqrtpd xmm(x), [rip + l]; ),
        227 => monoasm!( &mut *jit, sqrtsd xmm(x), [rip + l]; ),
        228 => monoasm!( &mut *jit, roundpd xmm(x), [rip + l], 3; ),
        229 => monoasm!( &mut *jit, cvttsd2siq R(r), [rip + l]; ),
        230 => monoasm!( &mut *jit, lzcntq R(r), [rip + l]; ),
        231 => monoasm!( &mut *jit, lzcntl R(r), [rip + l]; ),
        232 => monoasm!( &mut *jit, tzcntq R(r), [rip + l]; ),
        233 => monoasm!( &mut *jit, tzcntl R(r), [rip + l]; ),
        234 => monoasm!( &mut *jit, popcntq R(r), [rip + l]; ),
        235 => monoasm!( &mut *jit, popcntl R(r), [rip + l]; ),
        236 => monoasm!( &mut *jit, cmovoq R(r), [rip + l]; ),
        237 => monoasm!( &mut *jit, cmovol R(r), [rip + l]; ),
        238 => monoasm!( &mut *jit, cmovow R(r), [rip + l]; ),
        239 => monoasm!( &mut *jit, seto [rip + l]; ),
        240 => monoasm!( &mut *jit, cmovnoq R(r), [rip + l]; ),
        241 => monoasm!( &mut *jit, cmovnol R(r), [rip + l]; ),
        242 => monoasm!( &mut *jit, cmovnow R(r), [rip + l]; ),
        243 => monoasm!( &mut *jit, setno [rip + l]; ),
        244 => monoasm!( &mut *jit, cmovbq R(r), [rip + l]; ),
        245 => monoasm!( &mut *jit, cmovbl R(r), [rip + l]; ),
        246 => monoasm!( &mut *jit, cmovbw R(r), [rip + l]; ),
        247 => monoasm!( &mut *jit, setb [rip + l]; ),
        248 => monoasm!( &mut *jit, cmovaeq R(r), [rip + l]; ),
        249 => monoasm!( &mut *jit, cmovael R(r), [rip + l]; ),
        250 => monoasm!( &mut *jit, cmovaew R(r), [rip + l]; ),
        251 => monoasm!( &mut *jit, setae [rip + l]; ),
        252 => monoasm!( &mut *jit, cmoveqq R(r), [rip + l]; ),
        253 => monoasm!( &mut *jit, cmoveql R(r), [rip + l]; ),
        254 => monoasm!( &mut *jit, cmoveqw R(r), [rip + l]; ),
        255 => monoasm!( &mut *jit, seteq [rip + l]; ),
        256 => monoasm!( &mut *jit, cmovneq R(r), [rip + l]; ),
        257 => monoasm!( &mut *jit, cmovnel R(r), [rip + l]; ),
        258 => monoasm!( &mut *jit, cmovnew R(r), [rip + l]; ),
        259 => monoasm!( &mut *jit, setne [rip + l]; ),
        260 => monoasm!( &mut *jit, cmovbeq R(r), [rip + l]; ),
        261 => monoasm!( &mut *jit, cmovbel R(r), [rip + l]; ),
        262 => monoasm!( &mut *jit, cmovbew R(r), [rip + l]; ),
        263 => monoasm!( &mut *jit, setbe [rip + l]; ),
        264 => monoasm!( &mut *jit, cmovaq R(r), [rip + l]; ),
        265 => monoasm!( &mut *jit, cmoval R(r), [rip + l]; ),
        266 => monoasm!( &mut *jit, cmovaw R(r), [rip + l]; ),
        267 => monoasm!( &mut *jit, seta [rip + l]; ),
        268 => monoasm!( &mut *jit, cmovsq R(r), [rip + l]; ),
        269 => monoasm!( &mut *jit, cmovsl R(r), [rip + l]; ),
        270 => monoasm!( &mut *jit, cmovsw R(r), [rip + l]; ),
        271 => monoasm!( &mut *jit, sets [rip + l]; ),
        272 => monoasm!( &mut *jit, cmovnsq R(r), [rip + l]; ),
        273 => monoasm!( &mut *jit, cmovnsl R(r), [rip + l]; ),
        274 => monoasm!( &mut *jit, cmovnsw R(r), [rip + l]; ),
        275 => monoasm!( &mut *jit, setns [rip + l]; ),
        276 => monoasm!( &mut *jit, cmovpq R(r), [rip + l]; ),
        277 => monoasm!( &mut *jit, cmovpl R(r), [rip + l]; ),
        278 => monoasm!( &mut *jit, cmovpw R(r), [rip + l]; ),
        279 => monoasm!( &mut *jit, setp [rip + l]; ),
        280 => monoasm!( &mut *jit, cmovnpq R(r), [rip + l]; ),
        281 => monoasm!( &mut *jit, cmovnpl R(r), [rip + l]; ),
        282 => monoasm!( &mut *jit, cmovnpw R(r), [rip + l]; ),
        283 => monoasm!( &mut *jit, setnp [rip + l]; ),
        284 => monoasm!( &mut *jit, cmovltq R(r), [rip + l]; ),
        285 => monoasm!( &mut *jit, cmovltl R(r), [rip + l]; ),
        286 => monoasm!( &mut *jit, cmovltw R(r), [rip + l]; ),
        287 => monoasm!( &mut *jit, setlt [rip + l]; ),
        288 => monoasm!( &mut *jit, cmovgeq R(r), [rip + l]; ),
        289 => monoasm!( &mut *jit, cmovgel R(r), [rip + l]; ),
        290 => monoasm!( &mut *jit, cmovgew R(r), [rip + l]; ),
        291 => monoasm!( &mut *jit, setge [rip + l]; ),
        292 => monoasm!( &mut *jit, cmovleq R(r), [rip + l]; ),
        293 => monoasm!( &mut *jit, cmovlel R(r), [rip + l]; ),
        294 => monoasm!( &mut *jit, cmovlew R(r), [rip + l]; ),
        295 => monoasm!( &mut *jit, setle [rip + l]; ),
        296 => monoasm!( &mut *jit, cmovgtq R(r), [rip + l]; ),
        297 => monoasm!( &mut *jit, cmovgtl R(r), [rip + l]; ),
        298 => monoasm!( &mut *jit, cmovgtw R(r), [rip + l]; ),
        299 => monoasm!( &mut *jit, setgt [rip + l]; ),
        300 => monoasm!( &mut *jit, call l; ),
        301 => monoasm!( &mut *jit, jmp l; ),
        302 => monoasm!( &mut *jit, jo l; ),
        303 => monoasm!( &mut *jit, jno l; ),
        304 => monoasm!( &mut *jit, jb l; ),
        305 => monoasm!( &mut *jit, jae l; ),
        306 => monoasm!( &mut *jit, jeq l; ),
        307 => monoasm!( &mut *jit, jne l; ),
        308 => monoasm!( &mut *jit, jbe l; ),
        309 => monoasm!( &mut *jit, ja l; ),
        310 => monoasm!( &mut *jit, js l; ),
        311 => monoasm!( &mut *jit, jns l; ),
        312 => monoasm!( &mut *jit, jp l; ),
        313 => monoasm!( &mut *jit, jnp l; ),
        314 => monoasm!( &mut *jit, jlt l; ),
        315 => monoasm!( &mut *jit, jge l; ),
        316 => monoasm!( &mut *jit, jle l; ),
        317 => monoasm!( &mut *jit, jgt l; ),
        _ => unreachable!(),
    }
}

pub fn emit(jit: &mut JitMemory, f: usize, l: DestLabel, v: u64) {
    one(jit, f % NREF, l, v)
}
