//! The ISA specification over words of literals.
use crate::isa::{Fmt, Op, Op::*, RAM_BASE};
use crate::words::*;
use poulpy_hal::verif::{Aig, Lit, F, T};
use std::collections::HashMap;

#[derive(Clone)]
pub struct State {
    pub regs: Vec<W>,
    pub pc: W,
    pub ram: Vec<W>,
}

/// Cut points offered to the executor.
#[derive(Default)]
pub struct Cuts {
    pub names: Vec<String>,
    /// cut variable literal -> its definition
    pub defs: HashMap<Lit, Lit>,
    pub disabled: Vec<String>,
    /// the words as handed out
    pub words: Vec<(String, W)>,
}

impl Cuts {
    pub fn word(&mut self, g: &mut Aig, name: &str, w: &W) -> W {
        if self.disabled.iter().any(|d| d == name) {
            return *w;
        }
        let id = self.names.len() as u32;
        self.names.push(name.to_string());
        let mut r = *w;
        for i in 0..32 {
            let c = g.candidate(w[i], id);
            if c != w[i] {
                self.defs.insert(c & !1, w[i] ^ (c & 1));
            }
            r[i] = c;
        }
        self.words.push((name.to_string(), r));
        r
    }
}

pub fn imm(w: &W, f: Fmt) -> W {
    match f {
        Fmt::U => {
            let mut r = *w;
            r[..12].fill(F);
            r
        }
        Fmt::J => {
            let mut b = vec![F];
            b.extend_from_slice(&w[21..31]);
            b.push(w[20]);
            b.extend_from_slice(&w[12..20]);
            b.push(w[31]);
            sext(&b)
        }
        Fmt::I => sext(&w[20..32]),
        Fmt::Sh => {
            let mut r = [F; 32];
            r[..5].copy_from_slice(&w[20..25]);
            r
        }
        Fmt::S => {
            let mut b = w[7..12].to_vec();
            b.extend_from_slice(&w[25..32]);
            sext(&b)
        }
        Fmt::B => {
            let mut b = vec![F];
            b.extend_from_slice(&w[8..12]);
            b.extend_from_slice(&w[25..31]);
            b.push(w[7]);
            b.push(w[31]);
            sext(&b)
        }
        Fmt::R | Fmt::N => [F; 32],
    }
}

pub struct Step {
    pub next: State,
    /// which registers and memory words the instruction may change
    pub may_regs: Vec<Lit>,
    pub may_ram: Vec<Lit>,
    /// what has to hold for the step to be one the properties speak about
    pub assume: Lit,
}

pub fn bits_for(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    (usize::BITS - (n - 1).leading_zeros()) as usize
}

/// What is fetched: the operand fields and which instruction it is.
pub struct Fetched {
    /// immediate (U formats: the 20-bit field itself)
    pub imm: W,
    pub rs1: Vec<Lit>,
    pub rs2: Vec<Lit>,
    pub rd: Vec<Lit>,
    /// exactly one holds
    pub sel: Vec<(Op, Lit)>,
}

pub fn fields(op: Op, w: &W) -> (W, W) {
    let f = op.enc().1;
    let mut im = imm(w, f);
    if f == Fmt::U {
        im.copy_within(12..32, 0);
        im[20..].fill(F);
    }
    let mut r = [F; 32];
    if matches!(f, Fmt::I | Fmt::Sh | Fmt::R | Fmt::S | Fmt::B) {
        r[..5].copy_from_slice(&w[15..20]);
    }
    if matches!(f, Fmt::R | Fmt::S | Fmt::B) {
        r[5..10].copy_from_slice(&w[20..25]);
    }
    if op.writes_rd() {
        r[10..15].copy_from_slice(&w[7..12]);
    }
    (im, r)
}

/// Instruction at `pc` of the program (slots listed in `skip` are assumed not to be reached).
pub fn fetch(g: &mut Aig, rom: &[(Op, W)], pc: &W, skip: Option<usize>) -> Fetched {
    let n = bits_for(rom.len());
    let idx = &pc[2..2 + n];
    let mut ims = vec![];
    let mut rs = vec![];
    let mut ops: Vec<Op> = vec![];
    let last = rom.len() - 1;
    for (i, (op, w)) in rom.iter().enumerate() {
        let (op, w) = if Some(i) == skip { (&rom[last].0, &rom[last].1) } else { (op, w) };
        let (a, b) = fields(*op, w);
        ims.push(a);
        rs.push(b);
        if !ops.contains(op) {
            ops.push(*op);
        }
    }
    let imm = select(g, idx, &ims);
    let r = select(g, idx, &rs);
    let mut sel = vec![];
    if ops.len() == 1 {
        sel.push((ops[0], T));
    } else {
        for o in ops {
            let t: Vec<W> = rom
                .iter()
                .enumerate()
                .map(|(i, (op, _))| {
                    let op = if Some(i) == skip { rom[last].0 } else { *op };
                    bit_word((op == o) as u32)
                })
                .collect();
            let l = select(g, idx, &t)[0];
            if l != F {
                sel.push((o, l));
            }
        }
    }
    Fetched { imm, rs1: r[..5].to_vec(), rs2: r[5..10].to_vec(), rd: r[10..15].to_vec(), sel }
}

fn mux(g: &mut Aig, v: Vec<(Lit, W)>) -> W {
    let mut it = v.into_iter();
    let mut r = match it.next() {
        Some((_, w)) => w,
        None => return [F; 32],
    };
    for (c, w) in it {
        r = ite(g, c, &w, &r);
    }
    r
}

/// One step; `cuts` gets the intermediate words.
pub fn step(g: &mut Aig, f: &Fetched, st: &State, cuts: &mut Cuts, tag: &str) -> Step {
    let n = |s: &str| format!("{tag}{s}");
    // the fields themselves are bootstrapped bits of the machine
    let im = cuts.word(g, &n("imm"), &f.imm);
    let pad = |l: &[Lit]| {
        let mut w = [F; 32];
        w[..l.len()].copy_from_slice(l);
        w
    };
    let rs1 = cuts.word(g, &n("rs1 index"), &pad(&f.rs1));
    let rs2 = cuts.word(g, &n("rs2 index"), &pad(&f.rs2));
    let rd = cuts.word(g, &n("rd index"), &pad(&f.rd));
    let a0 = select(g, &rs1[..5], &st.regs);
    let b0 = select(g, &rs2[..5], &st.regs);
    let a = cuts.word(g, &n("rs1"), &a0);
    let b = cuts.word(g, &n("rs2"), &b0);
    let pc = st.pc;
    let mut imu = [F; 32];
    imu[12..].copy_from_slice(&im[..20]);

    let mut assume = T;
    let addr0 = {
        let t = add(g, &a, &im, F);
        sub(g, &t, &konst(RAM_BASE))
    };
    // for every instruction: the address signal exists in the machine
    let addr = cuts.word(g, &n("addr"), &addr0);
    let rb = bits_for(st.ram.len());
    let mut memw = [F; 32];
    let any_mem = f.sel.iter().any(|(o, _)| o.is_load() || o.is_store());
    if any_mem {
        let lt = ult(g, &addr, &konst(4 * st.ram.len() as u32));
        for (op, s) in &f.sel {
            if op.is_load() || op.is_store() {
                let mut ok = lt;
                for i in 0..2 {
                    if op.size() > 1 << i {
                        ok = g.and(ok, addr[i] ^ 1);
                    }
                }
                let x = g.or(*s ^ 1, ok);
                assume = g.and(assume, x);
            }
        }
        memw = select(g, &addr[2..2 + rb], &st.ram);
    }
    let sh = [F, F, F, addr[0], addr[1]];
    let link = add(g, &pc, &konst(4), F);
    let mut rdvs = vec![];
    let mut wr = F;
    for (op, s) in &f.sel {
        if !op.writes_rd() {
            continue;
        }
        wr = g.or(wr, *s);
        let v = match op {
            LUI => imu,
            AUIPC => add(g, &pc, &imu, F),
            JAL | JALR => link,
            LB | LH | LBU | LHU => {
                let ld = shift(g, &memw, &sh, 1);
                let k = 8 * op.size() as usize;
                if matches!(op, LB | LH) {
                    sext(&ld[..k])
                } else {
                    pad(&ld[..k])
                }
            }
            LW => memw,
            ADDI => add(g, &a, &im, F),
            SLTI => bit_word(slt(g, &a, &im)),
            SLTIU => bit_word(ult(g, &a, &im)),
            XORI => zip(g, &a, &im, Aig::xor),
            ORI => zip(g, &a, &im, Aig::or),
            ANDI => zip(g, &a, &im, Aig::and),
            SLLI => shift(g, &a, &im[..5], 0),
            SRLI => shift(g, &a, &im[..5], 1),
            SRAI => shift(g, &a, &im[..5], 2),
            ADD => add(g, &a, &b, F),
            SUB => sub(g, &a, &b),
            SLL => shift(g, &a, &b[..5], 0),
            SLT => bit_word(slt(g, &a, &b)),
            SLTU => bit_word(ult(g, &a, &b)),
            XOR => zip(g, &a, &b, Aig::xor),
            SRL => shift(g, &a, &b[..5], 1),
            SRA => shift(g, &a, &b[..5], 2),
            OR => zip(g, &a, &b, Aig::or),
            AND => zip(g, &a, &b, Aig::and),
            _ => unreachable!(),
        };
        rdvs.push((*s, v));
    }
    let mut regs = st.regs.clone();
    let mut may_regs = vec![F; 32];
    let mut may_ram = vec![F; st.ram.len()];
    if wr != F {
        let mut rdv0 = mux(g, rdvs);
        if wr != T {
            rdv0 = ite(g, wr, &rdv0, &[F; 32]);
        }
        let rdv = cuts.word(g, &n("rd"), &rdv0);
        for (j, r) in regs.iter_mut().enumerate().skip(1) {
            let e = eq(g, &rd[..5], &konst(j as u32)[..5]);
            // an instruction without destination has rd = 0 (see `fields`)
            may_regs[j] = e;
            *r = ite(g, e, &rdv, r);
        }
    }
    regs[0] = [F; 32];

    let mut ram = st.ram.clone();
    let mut news = vec![];
    let mut st_any = F;
    for (op, s) in &f.sel {
        if !op.is_store() {
            continue;
        }
        st_any = g.or(st_any, *s);
        let v = match op {
            SB => shift(g, &b, &sh, 0),
            SH => shift(g, &b, &[F, F, F, F, sh[4]], 0),
            _ => b,
        };
        let mut new = memw;
        for i in 0..32 {
            let byte = (i / 8) as u32;
            // is this byte written
            let wr = match op {
                SB => eq(g, &addr[..2], &konst(byte)[..2]),
                SH => eq(g, &addr[1..2], &konst(byte >> 1)[..1]),
                _ => T,
            };
            new[i] = g.ite(wr, v[i], memw[i]);
        }
        news.push((*s, new));
    }
    if st_any != F {
        let mut new = mux(g, news);
        if st_any != T {
            new = ite(g, st_any, &new, &memw);
        }
        let new = cuts.word(g, &n("store"), &new);
        for (j, m) in ram.iter_mut().enumerate() {
            let e = eq(g, &addr[2..2 + rb], &konst(j as u32)[..rb]);
            let e = g.and(e, st_any);
            may_ram[j] = e;
            *m = ite(g, e, &new, m);
        }
    }
    let mut npc = link;
    for (op, s) in &f.sel {
        let tgt = if op.is_branch() || *op == JAL {
            let taken = match op {
                JAL => T,
                BEQ => eq(g, &a, &b),
                BNE => eq(g, &a, &b) ^ 1,
                BLT => slt(g, &a, &b),
                BGE => slt(g, &a, &b) ^ 1,
                BLTU => ult(g, &a, &b),
                BGEU => ult(g, &a, &b) ^ 1,
                _ => unreachable!(),
            };
            let jump = add(g, &pc, &im, F);
            ite(g, taken, &jump, &link)
        } else if *op == JALR {
            let mut t = add(g, &a, &im, F);
            t[0] = F;
            t
        } else {
            continue;
        };
        npc = ite(g, *s, &tgt, &npc);
    }
    let npc = cuts.word(g, &n("next pc"), &npc);
    Step { next: State { regs, pc: npc, ram }, may_regs, may_ram, assume }
}
