//! The plain reference machine (compiler::interpreter::TestVM).
use crate::{isa, nd};
use compiler::interpreter::verif_hooks::phantom;

const RAM: usize = 16; // bytes
const ROM: usize = 2; // words

/// One step from any state of any instruction of one class = the ISA's step.
pub fn step(op: u32) {
    let w = (nd::u32() & !0x7f) | op;
    nd::assume(isa::is_rv32i(w));
    let slot = 1;
    let mut rom = vec![0u8; 4 * ROM];
    rom[4 * slot..4 * slot + 4].copy_from_slice(&w.to_le_bytes());
    let mut ram = vec![0u8; RAM];
    for x in ram.iter_mut() {
        *x = nd::u8();
    }
    let mut regs = [0u32; 32];
    for r in regs.iter_mut().skip(1) {
        *r = nd::u32();
    }
    let pc = 4 * slot as u32;
    let (a, b) = (regs[isa::rs1(w)], regs[isa::rs2(w)]);
    // the step is inside what the property speaks about
    let (kind, addr, size) = isa::access(w, a);
    let off = addr.wrapping_sub(isa::RAM_BASE);
    let mut loaded = 0u32;
    let mut want_ram: Vec<u8> = ram.clone();
    match kind {
        isa::Mem::None => {}
        _ => nd::assume(off % size == 0 && off < RAM as u32),
    }
    match kind {
        isa::Mem::None => {}
        isa::Mem::Load => {
            for i in 0..4 {
                if i < size {
                    loaded |= (ram[(off + i) as usize] as u32) << (8 * i);
                }
            }
        }
        isa::Mem::Store => {
            for i in 0..4 {
                if i < size {
                    want_ram[(off + i) as usize] = (b >> (8 * i)) as u8;
                }
            }
        }
    }
    let want_pc = isa::next_pc(w, a, b, pc);
    nd::assume(want_pc % 4 == 0);
    let mut want = regs;
    if let Some(v) = isa::result(w, a, b, pc, loaded) {
        if isa::rd(w) != 0 {
            want[isa::rd(w)] = v;
        }
    }

    let p = phantom(rom, isa::RAM_BASE as usize, ram, (isa::RAM_BASE as usize, 0), (isa::RAM_BASE as usize, 0));
    let mut vm = p.test_vm(1);
    vm.verif_set_state(&regs, pc);
    vm.execute();

    let have = vm.verif_registers();
    let i = nd::usize();
    nd::assume(i < 32);
    assert!(have[i] == want[i], "register");
    assert!(vm.verif_pc() == want_pc, "pc");
    let j = nd::usize();
    nd::assume(j < RAM);
    assert!(vm.verif_ram()[j] == want_ram[j], "ram");
    nd::reached();
    std::mem::forget(p);
    std::mem::forget(vm);
}

/// The same at any place of a program of `roms` words and anywhere in a memory of `rams` words; four symbolic
/// bytes of memory (at a symbolic place), the others zero; the registers an instruction can name are few.
pub fn far(op: u32, roms: usize, rams: usize, place: usize) {
    let w = (nd::u32() & !0x7f) | op;
    nd::assume(isa::is_rv32i(w));
    let slot = (nd::u16() as usize) % roms;
    let mut rom = vec![0u8; 4 * roms];
    let b4 = w.to_le_bytes();
    for i in 0..4 {
        rom[4 * slot + i] = b4[i];
    }
    let mut ram = vec![0u8; 4 * rams];
    let cell = nd::u32();
    for i in 0..4 {
        ram[place + i] = (cell >> (8 * i)) as u8;
    }
    let (a, b) = (nd::u32(), nd::u32());
    let (r1, r2) = (isa::rs1(w), isa::rs2(w));
    nd::assume((r1 == 5 || matches!(op, 0x17 | 0x37 | 0x6f)) && (r2 == 6 || !matches!(op, 0x63 | 0x23 | 0x33)));
    let mut regs = [0u32; 32];
    regs[5] = a;
    regs[6] = b;
    let pc = 4 * slot as u32;
    let (kind, addr, size) = isa::access(w, a);
    let off = addr.wrapping_sub(isa::RAM_BASE);
    let mut loaded = 0u32;
    let mut new = cell;
    if kind != isa::Mem::None {
        // (a store goes to the symbolic word)
        nd::assume(off % size == 0 && off < 4 * rams as u32 && (off as usize) & !3 == place);
        let sh = 8 * (off & 3);
        let mask = (((1u64 << (8 * size)) - 1) as u32) << sh;
        loaded = (cell & mask) >> sh;
        if kind == isa::Mem::Store {
            new = (cell & !mask) | ((b << sh) & mask);
        }
    }
    let want_pc = isa::next_pc(w, a, b, pc);
    nd::assume(want_pc % 4 == 0);
    let mut want = regs;
    if let Some(v) = isa::result(w, a, b, pc, loaded) {
        if isa::rd(w) != 0 {
            want[isa::rd(w)] = v;
        }
    }
    let p = phantom(rom, isa::RAM_BASE as usize, ram, (isa::RAM_BASE as usize, 0), (isa::RAM_BASE as usize, 0));
    let mut vm = p.test_vm(1);
    vm.verif_set_state(&regs, pc);
    vm.execute();

    let have = vm.verif_registers();
    let i = nd::usize();
    nd::assume(i < 32);
    assert!(have[i] == want[i], "register");
    assert!(vm.verif_pc() == want_pc, "pc");
    let j = nd::usize();
    nd::assume(j < 4 * rams);
    let want_byte = if j & !3 == place { (new >> (8 * (j & 3))) as u8 } else { 0 };
    assert!(vm.verif_ram()[j] == want_byte, "ram");
    nd::reached();
    std::mem::forget(p);
    std::mem::forget(vm);
}
pub fn far_load() { far(0x03, 1, 1024, 0xabc) }
pub fn far_load_top() { far(0x03, 1, 1024, 0xffc) }
pub fn far_store() { far(0x23, 1, 1024, 0xabc) }
pub fn far_store_top() { far(0x23, 1, 1024, 0xffc) }
pub fn far_auipc() { far(0x17, 1024, 1, 0) }
pub fn far_jal() { far(0x6f, 1024, 1, 0) }
pub fn far_jalr() { far(0x67, 1024, 1, 0) }
pub fn far_branch() { far(0x63, 1024, 1, 0) }
pub fn far_alu_imm() { far(0x13, 1024, 1, 0) }

/// One M instruction on two different registers.
pub fn m(f3: u32) {
    let w = 0x0200_0033 | f3 << 12 | 6 << 20 | 5 << 15 | 7 << 7;
    let mut regs = [0u32; 32];
    for r in regs.iter_mut().skip(1) {
        *r = nd::u32();
    }
    let p = phantom(w.to_le_bytes().to_vec(), isa::RAM_BASE as usize, vec![0; 4], (isa::RAM_BASE as usize, 0), (isa::RAM_BASE as usize, 0));
    let mut vm = p.test_vm(1);
    vm.verif_set_state(&regs, 0);
    vm.execute();
    let have = vm.verif_registers();
    crate::mext::check(f3, regs[5], regs[6], have[7]);
    let i = nd::usize();
    nd::assume(i < 32 && i != 7);
    assert!(have[i] == regs[i], "register");
    assert!(vm.verif_pc() == 4, "pc");
    nd::reached();
    std::mem::forget(p);
    std::mem::forget(vm);
}
/// any M instruction on any registers, which hold small (2-bit, signed) values
pub fn m_regs() {
    let w = (nd::u32() & 0x01ff_ff80) | 0x0200_0033;
    let mut regs = [0u32; 32];
    for r in regs.iter_mut().skip(1) {
        *r = ((((nd::u8() & 3) << 6) as i8) >> 6) as u32;
    }
    let p = phantom(w.to_le_bytes().to_vec(), isa::RAM_BASE as usize, vec![0; 4], (isa::RAM_BASE as usize, 0), (isa::RAM_BASE as usize, 0));
    let mut vm = p.test_vm(1);
    vm.verif_set_state(&regs, 0);
    vm.execute();
    let have = vm.verif_registers();
    let (a, b) = (regs[isa::rs1(w)] as i32 as i64, regs[isa::rs2(w)] as i32 as i64);
    let (ua, ub) = (a as u32 as i64, b as u32 as i64);
    let want = match isa::f3(w) {
        0 => a * b,
        1 => (a * b) >> 32,
        2 => (a * ub) >> 32,
        3 => ((ua as u64 * ub as u64) >> 32) as i64,
        4 => if b == 0 { -1 } else { a / b },
        5 => if b == 0 { -1 } else { ua / ub },
        6 => if b == 0 { a } else { a % b },
        _ => if b == 0 { ua } else { ua % ub },
    } as u32;
    let i = nd::usize();
    nd::assume(i < 32);
    let want_i = if i != 0 && i == isa::rd(w) { want } else { regs[i] };
    assert!(have[i] == want_i, "register");
    assert!(vm.verif_pc() == 4, "pc");
    nd::reached();
    std::mem::forget(p);
    std::mem::forget(vm);
}
pub fn m_mul() { m(0) }
pub fn m_mulh() { m(1) }
pub fn m_mulhsu() { m(2) }
pub fn m_mulhu() { m(3) }
pub fn m_div() { m(4) }
pub fn m_divu() { m(5) }
pub fn m_rem() { m(6) }
pub fn m_remu() { m(7) }

pub fn step_alu_imm() { step(0x13) }
pub fn step_alu_reg() { step(0x33) }
pub fn step_lui() { step(0x37) }
pub fn step_auipc() { step(0x17) }
pub fn step_jal() { step(0x6f) }
pub fn step_jalr() { step(0x67) }
pub fn step_branch() { step(0x63) }
pub fn step_load() { step(0x03) }
pub fn step_store() { step(0x23) }
