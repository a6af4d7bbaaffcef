//! The plaintext mirror interpreter (fhevm's debug machine) and the plain evaluation of instructions.
use crate::{isa, nd};
use fhevm::verif_hooks::{decode, eval_rd, DebugVm};
use fhevm::instructions::{Instruction, InstructionsParser};

const RAM: usize = 4; // words

pub fn step(op: u32, class: fn(u32) -> bool) {
    let w = (nd::u32() & !0x7f) | op;
    nd::assume(class(w));
    let mut ram = [0u32; RAM];
    for x in ram.iter_mut() {
        *x = nd::u32();
    }
    let mut regs = [0u32; 32];
    for r in regs.iter_mut().skip(1) {
        *r = nd::u32();
    }
    let pc = 4u32;
    let (a, b) = (regs[isa::rs1(w)], regs[isa::rs2(w)]);
    let (kind, addr, size) = isa::access(w, a);
    let off = addr.wrapping_sub(isa::RAM_BASE);
    match kind {
        isa::Mem::None => {}
        _ => nd::assume(off % size == 0 && off < 4 * RAM as u32),
    }
    let k = ((off >> 2) as usize) % RAM;
    let sh = 8 * (off & 3);
    let mask = ((1u64 << (8 * size)) - 1) as u32;
    let mut want_ram = ram;
    let mut loaded = 0;
    match kind {
        isa::Mem::None => {}
        isa::Mem::Load => loaded = (ram[k] >> sh) & mask,
        isa::Mem::Store => want_ram[k] = (ram[k] & !(mask << sh)) | ((b & mask) << sh),
    }
    let want_pc = isa::next_pc(w, a, b, pc);
    let mut want = regs;
    if let Some(v) = isa::result(w, a, b, pc, loaded) {
        if isa::rd(w) != 0 {
            want[isa::rd(w)] = v;
        }
    }

    let mut p = InstructionsParser::new();
    p.add(Instruction::new(0x13));
    p.add(Instruction::new(w));
    let mut vm = DebugVm::new(2, &ram);
    vm.set_instructions(&p);
    vm.set_state(&regs, pc);
    vm.step();

    let i = nd::usize();
    nd::assume(i < 32);
    assert!(vm.registers()[i] == want[i], "register");
    assert!(vm.pc() == want_pc, "pc");
    let j = nd::usize();
    nd::assume(j < RAM);
    assert!(vm.ram()[j] == want_ram[j], "ram");
    nd::reached();
    std::mem::forget(vm);
    std::mem::forget(p);
}
pub fn step_alu_imm() { step(0x13, isa::is_rv32i) }
pub fn step_alu_reg() { step(0x33, isa::is_rv32i) }
pub fn step_lui() { step(0x37, isa::is_rv32i) }
pub fn step_auipc() { step(0x17, isa::is_rv32i) }
pub fn step_jal() { step(0x6f, isa::is_rv32i) }
pub fn step_jalr() { step(0x67, isa::is_rv32i) }
pub fn step_branch() { step(0x63, isa::is_rv32i) }
pub fn step_load() { step(0x03, isa::is_rv32i) }
pub fn step_store() { step(0x23, isa::is_rv32i) }

/// the same step far from the origin: at the end of a longer program, in a larger memory of which one word is arbitrary
pub fn far(op: u32, rom: usize, size_ram: usize, at: usize) {
    let place = rom - 3;
    let w = (nd::u32() & !0x7f) | op;
    nd::assume(isa::is_rv32i(w));
    let x = nd::u32();
    let mut ram = vec![0x5a5a_5a5au32; size_ram];
    ram[at] = x;
    let mut regs = [0u32; 32];
    for r in regs.iter_mut().skip(1) {
        *r = nd::u32();
    }
    let pc = 4 * place as u32;
    let (a, b) = (regs[isa::rs1(w)], regs[isa::rs2(w)]);
    let (kind, addr, size) = isa::access(w, a);
    let off = addr.wrapping_sub(isa::RAM_BASE);
    let sh = 8 * (off & 3);
    let mask = ((1u64 << (8 * size)) - 1) as u32;
    let (mut loaded, mut want_x) = (0, x);
    match kind {
        isa::Mem::None => {}
        _ => nd::assume(off % size == 0 && (off >> 2) as usize == at),
    }
    match kind {
        isa::Mem::None => {}
        isa::Mem::Load => loaded = (x >> sh) & mask,
        isa::Mem::Store => want_x = (x & !(mask << sh)) | ((b & mask) << sh),
    }
    let want_pc = isa::next_pc(w, a, b, pc);
    let mut want = regs;
    if let Some(v) = isa::result(w, a, b, pc, loaded) {
        if isa::rd(w) != 0 {
            want[isa::rd(w)] = v;
        }
    }
    let mut p = InstructionsParser::new();
    for i in 0..rom {
        p.add(Instruction::new(if i == place { w } else { 0x13 }));
    }
    let mut vm = DebugVm::new(rom, &ram);
    vm.set_instructions(&p);
    vm.set_state(&regs, pc);
    vm.step();
    let i = nd::usize();
    nd::assume(i < 32);
    assert!(vm.registers()[i] == want[i], "register");
    assert!(vm.pc() == want_pc, "pc");
    assert!(vm.ram()[at] == want_x, "ram");
    for k in [0, 1, at - 1, size_ram - 2] {
        assert!(k == at || vm.ram()[k] == 0x5a5a_5a5a, "other memory");
    }
    nd::reached();
    std::mem::forget(vm);
    std::mem::forget(p);
}
pub fn far_load() { far(0x03, 6, 512, 343) }
pub fn far_store() { far(0x23, 6, 512, 343) }
pub fn far_load_top() { far(0x03, 6, 512, 511) }
pub fn far_store_top() { far(0x23, 6, 512, 511) }
pub fn far_jal() { far(0x6f, 70, 4, 3) }
pub fn far_auipc() { far(0x17, 70, 4, 3) }
pub fn far_branch() { far(0x63, 70, 4, 3) }

/// M extension: plain evaluation
pub fn m(f3: u32) {
    let w = (nd::u32() & 0x01ff_8f80) | 0x0200_0033 | f3 << 12;
    let (a, b) = (nd::u32(), nd::u32());
    let have = eval_rd(w, a, b, nd::u32(), nd::u32());
    crate::mext::check(f3, a, b, have);
    nd::reached();
}
pub fn m_mul() { m(0) }
pub fn m_mulh() { m(1) }
pub fn m_mulhsu() { m(2) }
pub fn m_mulhu() { m(3) }
pub fn m_div() { m(4) }
pub fn m_divu() { m(5) }
pub fn m_rem() { m(6) }
pub fn m_remu() { m(7) }

/// a word outside RV32IM (and outside the SYSTEM opcode and the reserved patterns of SLLI and JALR) is refused
pub fn refuse() {
    let w = nd::u32();
    nd::assume(!isa::is_rv32i(w) && !isa::is_m(w) && isa::op(w) != 0x73);
    nd::assume(isa::op(w) != 0x67);
    nd::assume(!(isa::op(w) == 0x13 && isa::f3(w) == 1));
    nd::reached();
    let d = decode(w);
    crate::nd::accepted(w, d[0]);
}
