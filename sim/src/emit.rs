//! Instruction forms with a label operand, and what they mean.
//!
//! Register convention of the generated functions: argument in rbx, accumulator in r12,
//! everything caller-saved is scratch.
use monoasm::*;
use monoasm_macro::monoasm;

#[derive(Clone, Copy, Debug)]
pub struct Form {
    /// bytes of the cell that are used
    pub w: usize,
    pub align: usize,
    pub write: bool,
    /// only adds to the cell (64: as a 64-bit, 32: as a 32-bit number)
    pub additive: u8,
    /// bits of the immediate (0: none)
    pub imm: u32,
}

pub const NFORM: u8 = 80;

pub fn form(f: u8) -> Option<Form> {
    let r = |w, imm| Some(Form { w, align: 1, write: false, additive: 0, imm });
    let ra = |imm| Some(Form { w: 8, align: 16, write: false, additive: 0, imm });
    let wr = |w, imm| Some(Form { w, align: 1, write: true, additive: 0, imm });
    let ad = |w, imm| Some(Form { w, align: 1, write: true, additive: w as u8 * 8, imm });
    match f {
        0..=8 => r(8, 0),
        9 | 10 => r(4, 0),
        11 | 12 => r(2, 0),
        13 | 14 => r(1, 0),
        15..=17 => r(8, 0),
        18 | 19 => r(8, 32),
        20 => r(4, 32),
        21 => r(2, 16),
        22 | 23 => r(1, 8),
        24 | 25 => r(8, 0),
        26 => ra(2),
        27 => ra(0),
        28..=31 => r(8, 0),
        32 => r(4, 0),
        33 => r(2, 0),
        34 => r(1, 0),
        35 | 36 => r(8, 0),
        37 => r(1, 0),
        38 => r(2, 0),
        39 => r(4, 0),
        40 => ad(8, 32),
        41 => ad(4, 32),
        42 => wr(2, 16),
        43 => wr(1, 8),
        44 => wr(8, 32),
        45 => wr(4, 32),
        46 => wr(2, 16),
        47 => wr(1, 8),
        48 => wr(8, 0),
        49 => wr(4, 0),
        50 => wr(2, 0),
        51 => wr(1, 0),
        52 => wr(8, 0),
        53 => ad(8, 32),
        54 | 55 => wr(8, 32),
        56 | 57 => wr(8, 6),
        58 => wr(8, 0),
        59 => wr(4, 5),
        60..=63 => wr(8, 0),
        64 => wr(1, 0),
        65 => wr(8, 0),
        66 => ad(8, 0),
        67 => ad(4, 0),
        68 => ad(4, 32),
        69 => wr(2, 16),
        70 => wr(4, 32),
        71 => wr(8, 0),
        72 => wr(4, 0),
        73 => wr(1, 8),
        74 => ra(0),
        75 => r(8, 0),
        76 => r(8, 0),
        77 => r(8, 0),
        _ => None,
    }
}

/// Fold an arbitrary value into the immediate range of the form.
pub fn fold(f: u8, imm: i64) -> i64 {
    match form(f).map(|x| x.imm).unwrap_or(0) {
        0 => 0,
        2 => imm & 3,
        5 => imm & 31,
        6 => imm & 63,
        b => (imm << (64 - b)) >> (64 - b),
    }
}

fn rd(c: &[u8], w: usize) -> u64 {
    let mut b = [0u8; 8];
    b[..w].copy_from_slice(&c[..w]);
    u64::from_le_bytes(b)
}

fn wrt(c: &mut [u8], w: usize, v: u64) {
    c[..w].copy_from_slice(&v.to_le_bytes()[..w]);
}

fn quiet(c: u64) -> u64 {
    c | 1 << 51
}

/// The meaning of a form: new accumulator; the cell is updated.
pub fn sem(f: u8, acc: u64, arg: u64, c: &mut [u8], imm: i64) -> u64 {
    let fm = form(f).unwrap();
    let w = fm.w;
    let v = rd(c, w);
    let b = |x: bool| acc.wrapping_add(x as u64);
    match f {
        0 | 3 | 4 | 5 | 7 | 8 => acc.wrapping_add(v),
        1 => acc.wrapping_sub(v),
        2 | 27 => acc ^ v,
        6 => b(acc > v),
        9 | 39 => acc.wrapping_add(v),
        10 => acc.wrapping_add(v as u32 as i32 as i64 as u64),
        11 | 38 => acc.wrapping_add(v),
        12 => acc.wrapping_add(v as u16 as i16 as i64 as u64),
        13 | 37 => acc.wrapping_add(v),
        14 => acc.wrapping_add(v as u8 as i8 as i64 as u64),
        15 => acc.wrapping_add(v.leading_zeros() as u64),
        16 => acc.wrapping_add(v.trailing_zeros() as u64),
        17 => acc.wrapping_add(v.count_ones() as u64),
        18 => b(v & imm as u64 != 0),
        19 => b((v as i64) < imm),
        20 => b((v as u32 as i32 as i64) < imm),
        21 => b((v as u16 as i16 as i64) < imm),
        22 => b((v as u8 as i8 as i64) < imm),
        23 => b(v as u8 & imm as u8 != 0),
        24 => acc.wrapping_add(acc.wrapping_mul(v)),
        25 => acc.wrapping_add(if arg != 0 { v } else { acc }),
        26 => {
            let x = f64::from_bits(v);
            let r = if x.is_nan() {
                quiet(v)
            } else {
                match imm {
                    0 => x.round_ties_even(),
                    1 => x.floor(),
                    2 => x.ceil(),
                    _ => x.trunc(),
                }
                .to_bits()
            };
            acc.wrapping_add(r)
        }
        28 => acc.wrapping_add((v as i64 as f64).to_bits()),
        29 => {
            let x = f64::from_bits(v);
            let r = if x.is_nan() { quiet(v) } else { ((arg as i64 as f64) + x).to_bits() };
            acc.wrapping_add(r)
        }
        30 => b((arg as i64 as f64) > f64::from_bits(v)),
        31 => {
            let x = f64::from_bits(v);
            let r = if x.is_nan() {
                quiet(v)
            } else if x < 0.0 {
                0xfff8_0000_0000_0000
            } else {
                x.sqrt().to_bits()
            };
            acc.wrapping_add(r)
        }
        32 => acc.wrapping_add((acc as u32).wrapping_add(v as u32) as u64),
        33 => acc.wrapping_add((acc & !0xffff) | (acc as u16).wrapping_add(v as u16) as u64),
        34 => acc.wrapping_add((acc & !0xff) | (acc as u8).wrapping_add(v as u8) as u64),
        35 => b(v >= acc),
        36 => b(v & acc != 0),
        // writes
        40 | 41 | 42 | 43 => {
            wrt(c, w, v.wrapping_add(imm as u64));
            acc
        }
        44 | 45 | 46 | 47 => {
            wrt(c, w, imm as u64);
            acc
        }
        48 | 49 | 50 | 51 | 61 | 62 | 63 => {
            wrt(c, w, acc);
            acc
        }
        52 => {
            wrt(c, w, v ^ acc);
            acc
        }
        53 | 68 => {
            wrt(c, w, v.wrapping_sub(imm as u64));
            acc
        }
        54 => {
            wrt(c, w, v | imm as u64);
            acc
        }
        55 => {
            wrt(c, w, v & imm as u64);
            acc
        }
        56 => {
            wrt(c, w, v << imm);
            acc
        }
        57 => {
            wrt(c, w, v.rotate_left(imm as u32));
            acc
        }
        58 => {
            wrt(c, w, v >> (arg & 63));
            acc
        }
        59 => {
            wrt(c, w, (v as u32).rotate_left(imm as u32) as u64);
            acc
        }
        60 => {
            wrt(c, w, (v as i64).wrapping_neg() as u64);
            acc
        }
        64 => {
            wrt(c, w, (arg != 0) as u64);
            acc
        }
        65 => {
            wrt(c, w, acc);
            v
        }
        66 | 67 => {
            wrt(c, w, v.wrapping_add(acc));
            acc
        }
        69 | 70 | 73 => {
            wrt(c, w, v ^ imm as u64);
            acc
        }
        71 => {
            wrt(c, w, v & acc);
            acc
        }
        72 => {
            wrt(c, w, v | acc);
            acc
        }
        74 => acc & v,
        75 => acc.wrapping_add(acc.wrapping_sub(v)),
        76 => acc | v,
        77 => {
            // 64-bit unsigned division of acc by (v|1) is not expressible; compare instead
            b((acc as i64) < (v as i64))
        }
        _ => unreachable!(),
    }
}

pub fn emit_form(jit: &mut JitMemory, f: u8, l: DestLabel, imm: i64) {
    match f {
        0 => monoasm!( &mut *jit, addq r12, [rip + l]; ),
        1 => monoasm!( &mut *jit, subq r12, [rip + l]; ),
        2 => monoasm!( &mut *jit, xorq r12, [rip + l]; ),
        3 => monoasm!( &mut *jit, movq rax, [rip + l]; addq r12, rax; ),
        4 => monoasm!( &mut *jit, movsd xmm0, [rip + l]; movq rax, xmm0; addq r12, rax; ),
        5 => monoasm!( &mut *jit, movq xmm1, [rip + l]; movq rax, xmm1; addq r12, rax; ),
        6 => monoasm!( &mut *jit, cmpq r12, [rip + l]; seta rax; movzxb rax, rax; addq r12, rax; ),
        7 => monoasm!( &mut *jit, lea rax, [rip + l]; addq r12, [rax]; ),
        8 => monoasm!( &mut *jit, pushq [rip + l]; popq rax; addq r12, rax; ),
        9 => monoasm!( &mut *jit, movl rax, [rip + l]; addq r12, rax; ),
        10 => monoasm!( &mut *jit, movsxl rax, [rip + l]; addq r12, rax; ),
        11 => monoasm!( &mut *jit, movzxw rax, [rip + l]; addq r12, rax; ),
        12 => monoasm!( &mut *jit, movsxw rax, [rip + l]; addq r12, rax; ),
        13 => monoasm!( &mut *jit, movzxb rax, [rip + l]; addq r12, rax; ),
        14 => monoasm!( &mut *jit, movsxb rax, [rip + l]; addq r12, rax; ),
        15 => monoasm!( &mut *jit, lzcntq rax, [rip + l]; addq r12, rax; ),
        16 => monoasm!( &mut *jit, tzcntq rax, [rip + l]; addq r12, rax; ),
        17 => monoasm!( &mut *jit, popcntq rax, [rip + l]; addq r12, rax; ),
        18 => monoasm!( &mut *jit, testq [rip + l], (imm); setne rax; movzxb rax, rax; addq r12, rax; ),
        19 => monoasm!( &mut *jit, cmpq [rip + l], (imm); setlt rax; movzxb rax, rax; addq r12, rax; ),
        20 => monoasm!( &mut *jit, cmpl [rip + l], (imm); setlt rax; movzxb rax, rax; addq r12, rax; ),
        21 => monoasm!( &mut *jit, cmpw [rip + l], (imm); setlt rax; movzxb rax, rax; addq r12, rax; ),
        22 => monoasm!( &mut *jit, cmpb [rip + l], (imm); setlt rax; movzxb rax, rax; addq r12, rax; ),
        23 => monoasm!( &mut *jit, testb [rip + l], (imm); setne rax; movzxb rax, rax; addq r12, rax; ),
        24 => monoasm!( &mut *jit, movq rax, r12; imul rax, [rip + l]; addq r12, rax; ),
        25 => monoasm!( &mut *jit, movq rax, r12; testq rbx, rbx; cmovneq rax, [rip + l]; addq r12, rax; ),
        26 => match imm {
            0 => monoasm!( &mut *jit, roundpd xmm0, [rip + l], 0; movq rax, xmm0; addq r12, rax; ),
            1 => monoasm!( &mut *jit, roundpd xmm0, [rip + l], 1; movq rax, xmm0; addq r12, rax; ),
            2 => monoasm!( &mut *jit, roundpd xmm0, [rip + l], 2; movq rax, xmm0; addq r12, rax; ),
            _ => monoasm!( &mut *jit, roundpd xmm0, [rip + l], 3; movq rax, xmm0; addq r12, rax; ),
        },
        27 => monoasm!( &mut *jit, movq xmm0, r12; xorpd xmm0, [rip + l]; movq rax, xmm0; movq r12, rax; ),
        28 => monoasm!( &mut *jit, cvtsi2sdq xmm0, [rip + l]; movq rax, xmm0; addq r12, rax; ),
        29 => monoasm!( &mut *jit, cvtsi2sdq xmm0, rbx; addsd xmm0, [rip + l]; movq rax, xmm0; addq r12, rax; ),
        30 => {
            monoasm!( &mut *jit, cvtsi2sdq xmm0, rbx; ucomisd xmm0, [rip + l]; seta rax; movzxb rax, rax; addq r12, rax; )
        }
        31 => monoasm!( &mut *jit, sqrtsd xmm0, [rip + l]; movq rax, xmm0; addq r12, rax; ),
        32 => monoasm!( &mut *jit, movq rax, r12; addl rax, [rip + l]; addq r12, rax; ),
        33 => monoasm!( &mut *jit, movq rax, r12; addw rax, [rip + l]; addq r12, rax; ),
        34 => monoasm!( &mut *jit, movq rax, r12; addb rax, [rip + l]; addq r12, rax; ),
        35 => monoasm!( &mut *jit, cmpq [rip + l], r12; setae rax; movzxb rax, rax; addq r12, rax; ),
        36 => monoasm!( &mut *jit, testq [rip + l], r12; setne rax; movzxb rax, rax; addq r12, rax; ),
        37 => monoasm!( &mut *jit, xorq rax, rax; movb rax, [rip + l]; addq r12, rax; ),
        38 => monoasm!( &mut *jit, xorq rax, rax; movw rax, [rip + l]; addq r12, rax; ),
        39 => monoasm!( &mut *jit, xorq r9, r9; movl r9, [rip + l]; addq r12, r9; ),
        40 => monoasm!( &mut *jit, addq [rip + l], (imm); ),
        41 => monoasm!( &mut *jit, addl [rip + l], (imm); ),
        42 => monoasm!( &mut *jit, addw [rip + l], (imm); ),
        43 => monoasm!( &mut *jit, addb [rip + l], (imm); ),
        44 => monoasm!( &mut *jit, movq [rip + l], (imm); ),
        45 => monoasm!( &mut *jit, movl [rip + l], (imm); ),
        46 => monoasm!( &mut *jit, movw [rip + l], (imm); ),
        47 => monoasm!( &mut *jit, movb [rip + l], (imm); ),
        48 => monoasm!( &mut *jit, movq [rip + l], r12; ),
        49 => monoasm!( &mut *jit, movl [rip + l], r12; ),
        50 => monoasm!( &mut *jit, movw [rip + l], r12; ),
        51 => monoasm!( &mut *jit, movb [rip + l], r12; ),
        52 => monoasm!( &mut *jit, xorq [rip + l], r12; ),
        53 => monoasm!( &mut *jit, subq [rip + l], (imm); ),
        54 => monoasm!( &mut *jit, orq [rip + l], (imm); ),
        55 => monoasm!( &mut *jit, andq [rip + l], (imm); ),
        56 => monoasm!( &mut *jit, shlq [rip + l], (imm); ),
        57 => monoasm!( &mut *jit, rolq [rip + l], (imm); ),
        58 => monoasm!( &mut *jit, movq rcx, rbx; shrq [rip + l], cl; ),
        59 => monoasm!( &mut *jit, roll [rip + l], (imm); ),
        60 => monoasm!( &mut *jit, negq [rip + l]; ),
        61 => monoasm!( &mut *jit, pushq r12; popq [rip + l]; ),
        62 => monoasm!( &mut *jit, movq xmm0, r12; movsd [rip + l], xmm0; ),
        63 => monoasm!( &mut *jit, movq xmm0, r12; movq [rip + l], xmm0; ),
        64 => monoasm!( &mut *jit, testq rbx, rbx; setne [rip + l]; ),
        65 => monoasm!( &mut *jit, xchgq r12, [rip + l]; ),
        66 => monoasm!( &mut *jit, addq [rip + l], r12; ),
        67 => monoasm!( &mut *jit, addl [rip + l], r12; ),
        68 => monoasm!( &mut *jit, subl [rip + l], (imm); ),
        69 => monoasm!( &mut *jit, xorw [rip + l], (imm); ),
        70 => monoasm!( &mut *jit, xorl [rip + l], (imm); ),
        71 => monoasm!( &mut *jit, andq [rip + l], r12; ),
        72 => monoasm!( &mut *jit, orl [rip + l], r12; ),
        73 => monoasm!( &mut *jit, xorb [rip + l], (imm); ),
        74 => monoasm!( &mut *jit, movq xmm0, r12; andpd xmm0, [rip + l]; movq r12, xmm0; ),
        75 => monoasm!( &mut *jit, movq rdx, r12; subq rdx, [rip + l]; addq r12, rdx; ),
        76 => monoasm!( &mut *jit, orq r12, [rip + l]; ),
        77 => monoasm!( &mut *jit, cmpq r12, [rip + l]; setlt rax; movzxb rax, rax; addq r12, rax; ),
        _ => unreachable!(),
    }
}
