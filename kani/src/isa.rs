//! RV32IM, one step, independent of the code under test.
pub const RAM_BASE: u32 = 1 << 18;

fn sx(v: u32, bits: u32) -> u32 {
    (((v << (32 - bits)) as i32) >> (32 - bits)) as u32
}
pub fn imm_i(w: u32) -> u32 { sx(w >> 20, 12) }
pub fn imm_s(w: u32) -> u32 { sx((w >> 25) << 5 | (w >> 7) & 31, 12) }
pub fn imm_b(w: u32) -> u32 { sx(((w >> 31) & 1) << 12 | ((w >> 7) & 1) << 11 | ((w >> 25) & 63) << 5 | ((w >> 8) & 15) << 1, 13) }
pub fn imm_j(w: u32) -> u32 { sx(((w >> 31) & 1) << 20 | ((w >> 12) & 0xff) << 12 | ((w >> 20) & 1) << 11 | ((w >> 21) & 0x3ff) << 1, 21) }
pub fn imm_u(w: u32) -> u32 { w & 0xffff_f000 }

pub fn op(w: u32) -> u32 { w & 0x7f }
pub fn f3(w: u32) -> u32 { (w >> 12) & 7 }
pub fn f7(w: u32) -> u32 { w >> 25 }
pub fn rd(w: u32) -> usize { ((w >> 7) & 31) as usize }
pub fn rs1(w: u32) -> usize { ((w >> 15) & 31) as usize }
pub fn rs2(w: u32) -> usize { ((w >> 20) & 31) as usize }

/// word is an RV32I computational, control-transfer, load or store instruction (no FENCE, no SYSTEM)
pub fn is_rv32i(w: u32) -> bool {
    match op(w) {
        0x37 | 0x17 | 0x6f => true,
        0x67 => f3(w) == 0,
        0x63 => f3(w) != 2 && f3(w) != 3,
        0x03 => f3(w) <= 2 || f3(w) == 4 || f3(w) == 5,
        0x23 => f3(w) <= 2,
        0x13 => match f3(w) {
            1 => f7(w) == 0,
            5 => f7(w) == 0 || f7(w) == 0x20,
            _ => true,
        },
        0x33 => f7(w) == 0 || (f7(w) == 0x20 && (f3(w) == 0 || f3(w) == 5)),
        _ => false,
    }
}
pub fn is_m(w: u32) -> bool { op(w) == 0x33 && f7(w) == 1 }

#[derive(PartialEq)]
pub enum Mem { None, Load, Store }
/// kind of access, address (absolute), size
pub fn access(w: u32, a: u32) -> (Mem, u32, u32) {
    let size = 1 << (f3(w) & 3);
    match op(w) {
        0x03 => (Mem::Load, a.wrapping_add(imm_i(w)), size),
        0x23 => (Mem::Store, a.wrapping_add(imm_s(w)), size),
        _ => (Mem::None, 0, 0),
    }
}

/// value written to rd (None: no destination); `loaded` is the addressed unit, zero extended
pub fn result(w: u32, a: u32, b: u32, pc: u32, loaded: u32) -> Option<u32> {
    let alu = |x: u32, y: u32, alt: bool| match f3(w) {
        0 => if alt { x.wrapping_sub(y) } else { x.wrapping_add(y) },
        1 => x << (y & 31),
        2 => ((x as i32) < y as i32) as u32,
        3 => (x < y) as u32,
        4 => x ^ y,
        5 => if alt { ((x as i32) >> (y & 31)) as u32 } else { x >> (y & 31) },
        6 => x | y,
        _ => x & y,
    };
    Some(match op(w) {
        0x37 => imm_u(w),
        0x17 => pc.wrapping_add(imm_u(w)),
        0x6f | 0x67 => pc.wrapping_add(4),
        0x13 => alu(a, imm_i(w), f3(w) == 5 && f7(w) == 0x20),
        0x33 => alu(a, b, f7(w) == 0x20),
        0x03 => match f3(w) {
            0 => sx(loaded, 8),
            1 => sx(loaded, 16),
            _ => loaded,
        },
        _ => return None,
    })
}

pub fn next_pc(w: u32, a: u32, b: u32, pc: u32) -> u32 {
    let taken = match op(w) {
        0x6f => return pc.wrapping_add(imm_j(w)),
        0x67 => return a.wrapping_add(imm_i(w)) & !1,
        0x63 => match f3(w) {
            0 => a == b,
            1 => a != b,
            4 => (a as i32) < b as i32,
            5 => a as i32 >= b as i32,
            6 => a < b,
            _ => a >= b,
        },
        _ => false,
    };
    pc.wrapping_add(if taken { imm_b(w) } else { 4 })
}
