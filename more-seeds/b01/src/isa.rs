//! RV32I: encodings and a concrete reference machine (the oracle). Independent of the code under test.
//! RAM is word indexed and starts at address RAM_BASE.
pub const RAM_BASE: u32 = 1 << 18;

#[allow(clippy::upper_case_acronyms)]
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    LUI, AUIPC, JAL, JALR, BEQ, BNE, BLT, BGE, BLTU, BGEU, LB, LH, LW, LBU, LHU, SB, SH, SW,
    ADDI, SLTI, SLTIU, XORI, ORI, ANDI, SLLI, SRLI, SRAI,
    ADD, SUB, SLL, SLT, SLTU, XOR, SRL, SRA, OR, AND, ECALL,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt { U, J, I, Sh, R, S, B, N }

pub const OPS: [Op; 38] = [
    LUI, AUIPC, JAL, JALR, BEQ, BNE, BLT, BGE, BLTU, BGEU, LB, LH, LW, LBU, LHU, SB, SH, SW,
    ADDI, SLTI, SLTIU, XORI, ORI, ANDI, SLLI, SRLI, SRAI,
    ADD, SUB, SLL, SLT, SLTU, XOR, SRL, SRA, OR, AND, ECALL,
];

impl Op {
    pub fn parse(s: &str) -> Op {
        *OPS.iter().find(|o| format!("{o:?}").eq_ignore_ascii_case(s)).unwrap_or_else(|| panic!("op {s}"))
    }
    /// (template, format)
    pub fn enc(self) -> (u32, Fmt) {
        let i = |op: u32, f3: u32| op | f3 << 12;
        match self {
            LUI => (0x37, Fmt::U),
            AUIPC => (0x17, Fmt::U),
            JAL => (0x6f, Fmt::J),
            JALR => (0x67, Fmt::I),
            BEQ => (i(0x63, 0), Fmt::B),
            BNE => (i(0x63, 1), Fmt::B),
            BLT => (i(0x63, 4), Fmt::B),
            BGE => (i(0x63, 5), Fmt::B),
            BLTU => (i(0x63, 6), Fmt::B),
            BGEU => (i(0x63, 7), Fmt::B),
            LB => (i(0x03, 0), Fmt::I),
            LH => (i(0x03, 1), Fmt::I),
            LW => (i(0x03, 2), Fmt::I),
            LBU => (i(0x03, 4), Fmt::I),
            LHU => (i(0x03, 5), Fmt::I),
            SB => (i(0x23, 0), Fmt::S),
            SH => (i(0x23, 1), Fmt::S),
            SW => (i(0x23, 2), Fmt::S),
            ADDI => (i(0x13, 0), Fmt::I),
            SLTI => (i(0x13, 2), Fmt::I),
            SLTIU => (i(0x13, 3), Fmt::I),
            XORI => (i(0x13, 4), Fmt::I),
            ORI => (i(0x13, 6), Fmt::I),
            ANDI => (i(0x13, 7), Fmt::I),
            SLLI => (i(0x13, 1), Fmt::Sh),
            SRLI => (i(0x13, 5), Fmt::Sh),
            SRAI => (i(0x13, 5) | 0x4000_0000, Fmt::Sh),
            ADD => (i(0x33, 0), Fmt::R),
            SUB => (i(0x33, 0) | 0x4000_0000, Fmt::R),
            SLL => (i(0x33, 1), Fmt::R),
            SLT => (i(0x33, 2), Fmt::R),
            SLTU => (i(0x33, 3), Fmt::R),
            XOR => (i(0x33, 4), Fmt::R),
            SRL => (i(0x33, 5), Fmt::R),
            SRA => (i(0x33, 5) | 0x4000_0000, Fmt::R),
            OR => (i(0x33, 6), Fmt::R),
            AND => (i(0x33, 7), Fmt::R),
            ECALL => (0x73, Fmt::N),
        }
    }
    /// bits of the word that hold operands
    pub fn operand_mask(self) -> u32 {
        let (rd, rs1, rs2) = (0x1f << 7, 0x1f << 15, 0x1f << 20);
        match self.enc().1 {
            Fmt::U | Fmt::J => 0xffff_f000 | rd,
            Fmt::I => 0xfff0_0000 | rs1 | rd,
            Fmt::Sh => rs2 | rs1 | rd,
            Fmt::R => rs2 | rs1 | rd,
            Fmt::S | Fmt::B => 0xfe00_0000 | rs2 | rs1 | rd,
            Fmt::N => 0,
        }
    }
    pub fn is_load(self) -> bool {
        matches!(self, LB | LH | LW | LBU | LHU)
    }
    pub fn is_store(self) -> bool {
        matches!(self, SB | SH | SW)
    }
    pub fn is_branch(self) -> bool {
        matches!(self, BEQ | BNE | BLT | BGE | BLTU | BGEU)
    }
    pub fn writes_rd(self) -> bool {
        !(self.is_store() || self.is_branch() || self == ECALL)
    }
    /// access size in bytes
    pub fn size(self) -> u32 {
        match self {
            LB | LBU | SB => 1,
            LH | LHU | SH => 2,
            _ => 4,
        }
    }
    pub fn decode(w: u32) -> Option<Op> {
        OPS.iter().copied().find(|o| {
            let (t, _) = o.enc();
            w & !o.operand_mask() == t
        })
    }
}

fn sx(v: u32, bits: u32) -> u32 {
    (((v << (32 - bits)) as i32) >> (32 - bits)) as u32
}
/// immediate of the word as the ISA manual defines it (U-type: already shifted)
pub fn imm(w: u32, f: Fmt) -> u32 {
    match f {
        Fmt::U => w & 0xffff_f000,
        Fmt::J => sx(((w >> 31) & 1) << 20 | ((w >> 12) & 0xff) << 12 | ((w >> 20) & 1) << 11 | ((w >> 21) & 0x3ff) << 1, 21),
        Fmt::I => sx(w >> 20, 12),
        Fmt::Sh => (w >> 20) & 31,
        Fmt::S => sx((w >> 25) << 5 | (w >> 7) & 31, 12),
        Fmt::B => sx(((w >> 31) & 1) << 12 | ((w >> 7) & 1) << 11 | ((w >> 25) & 63) << 5 | ((w >> 8) & 15) << 1, 13),
        Fmt::R | Fmt::N => 0,
    }
}

/// the bits of the word that hold this branch or jump offset
pub fn put_imm(v: u32, f: Fmt) -> u32 {
    let b = |i: u32, n: u32| (v >> i) & ((1 << n) - 1);
    match f {
        Fmt::B => b(12, 1) << 31 | b(5, 6) << 25 | b(1, 4) << 8 | b(11, 1) << 7,
        Fmt::J => b(20, 1) << 31 | b(1, 10) << 21 | b(11, 1) << 20 | b(12, 8) << 12,
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Vm {
    pub regs: [u32; 32],
    pub pc: u32,
    pub ram: Vec<u32>,
}

impl Vm {
    /// One instruction; Err if the step is outside what the properties speak about.
    pub fn step(&mut self, rom: &[u32]) -> Result<Op, String> {
        if self.pc % 4 != 0 || (self.pc / 4) as usize >= rom.len() {
            return Err(format!("pc {:#x} outside the program", self.pc));
        }
        let w = rom[(self.pc / 4) as usize];
        let op = Op::decode(w).ok_or(format!("word {w:08x}"))?;
        let im = imm(w, op.enc().1);
        let (rd, a, b) = (((w >> 7) & 31) as usize, self.regs[((w >> 15) & 31) as usize], self.regs[((w >> 20) & 31) as usize]);
        let mut next = self.pc.wrapping_add(4);
        let addr = a.wrapping_add(im).wrapping_sub(RAM_BASE);
        if op.is_load() || op.is_store() {
            if addr as usize >= self.ram.len() * 4 || addr % op.size() != 0 {
                return Err(format!("address {:#x}", addr.wrapping_add(RAM_BASE)));
            }
        }
        let sh = 8 * (addr & 3);
        let mem = |m: &Vec<u32>| m[(addr / 4) as usize] >> sh;
        let jump = self.pc.wrapping_add(im);
        let mut br = |c: bool| {
            if c {
                next = jump
            }
            0
        };
        let v = match op {
            LUI => im,
            AUIPC => jump,
            JAL => {
                br(true);
                self.pc.wrapping_add(4)
            }
            JALR => {
                next = a.wrapping_add(im) & !1;
                self.pc.wrapping_add(4)
            }
            BEQ => br(a == b),
            BNE => br(a != b),
            BLT => br((a as i32) < b as i32),
            BGE => br(a as i32 >= b as i32),
            BLTU => br(a < b),
            BGEU => br(a >= b),
            LB => sx(mem(&self.ram), 8),
            LH => sx(mem(&self.ram), 16),
            LW => mem(&self.ram),
            LBU => mem(&self.ram) & 0xff,
            LHU => mem(&self.ram) & 0xffff,
            SB | SH | SW => {
                let m: u32 = (((1u64 << (8 * op.size())) - 1) as u32) << sh;
                let c = &mut self.ram[(addr / 4) as usize];
                *c = (*c & !m) | ((b << sh) & m);
                0
            }
            ADDI => a.wrapping_add(im),
            SLTI => ((a as i32) < im as i32) as u32,
            SLTIU => (a < im) as u32,
            XORI => a ^ im,
            ORI => a | im,
            ANDI => a & im,
            SLLI => a << im,
            SRLI => a >> im,
            SRAI => ((a as i32) >> im) as u32,
            ADD => a.wrapping_add(b),
            SUB => a.wrapping_sub(b),
            SLL => a << (b & 31),
            SLT => ((a as i32) < b as i32) as u32,
            SLTU => (a < b) as u32,
            XOR => a ^ b,
            SRL => a >> (b & 31),
            SRA => ((a as i32) >> (b & 31)) as u32,
            OR => a | b,
            AND => a & b,
            ECALL => 0,
        };
        if op.writes_rd() && rd != 0 {
            self.regs[rd] = v;
        }
        self.pc = next;
        Ok(op)
    }
}
