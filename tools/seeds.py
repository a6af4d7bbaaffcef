F = 'fhevm/src/'
vm('b01', 'V06', 'a thread count that does not divide the 58 instruction-operand bits, and a destination register above x7',
   'the last bits of the destination register number are not refreshed: results go to the wrong register',
   [(F + 'prepare.rs', 'total_bit_count.div_ceil(threads);', '(total_bit_count / threads).max(1);')],
   [([I(5, 0, 0, 25), NOP], {}, [0] * 8, 1, 8)])
vm('b02', 'V07', 'a RAM whose size is not a power of two and an access above the largest power of two below it',
   'accesses to the upper part of the RAM read and write words of the lower part',
   [(F + 'memory.rs', '            retriever: GLWEBlindRetriever::alloc(infos, size),\n            bit_size: (usize::BITS - (size - 1).leading_zeros()) as usize,',
     '            retriever: GLWEBlindRetriever::alloc(infos, size),\n            bit_size: (size.ilog2() as usize).max(1),')],
   [([S(0, 6, 5, 2), NOP], {5: 0x40000 + 4 * 5, 6: 0x1234}, [9] * 6, 1, 8)])
vm('b03', 'V02', 'execution at a pc of at least the number of ROM words, i.e. in the upper three quarters of the program',
   'the two top bits of the pc are dropped after the first cycle: fetches wrap to the start of the program',
   [(F + 'interpreter.rs', 'self.rom_bits_size + 2, // PC is 4bytes aligned', 'self.rom_bits_size, // PC is 4bytes aligned')],
   [([I(1, 1, 0, 1), I(2, 1, 0, 1), I(3, 2, 0, 2), I(4, 3, 0, 3)], {}, [0] * 8, 4, 8)])
vm('b04', 'V04', 'a half-word store to the upper half of a word',
   'the upper half-word store is applied to bytes 1 and 2 / lower half of the word',
   [(F + 'ram_update.rs', 'cts.insert(i << 1, tmp);', 'cts.insert(i, tmp);')],
   [([S(2, 6, 5, 1), NOP], {5: 0x40000, 6: 0xBEEF}, [0x11223344] * 4, 1, 8)])
vm('b05', 'V05', 'an instruction with destination x0 that computes a non-zero value, followed by a reader of x0',
   'x0 keeps what an instruction wrote to it: zeroing happens before the write instead of after',
   [(F + 'interpreter.rs', '''            this_cycle_measurement.time_write_rd = measure_duration(|| {
''', '''            this_cycle_measurement.time_write_rd = measure_duration(|| {
                self.registers.zero(threads, module, 0, keys, scratch);

'''), (F + 'interpreter.rs', '''                    scratch,
                );

                self.registers.zero(threads, module, 0, keys, scratch);
            });
        });
''', '''                    scratch,
                );
            });
        });
''')],
   [([I(7, 0, 0, 0), R(0, 0, 0, 0, 3)], {}, [0] * 4, 2, 8)])
vm('b08', 'V08', 'an instruction with destination x0 in every fourth cycle of a run',
   'x0 is reset only in three of four cycles: a value written to it in the fourth cycle is read by the next instruction',
   [(F + 'interpreter.rs', '''                self.registers.zero(threads, module, 0, keys, scratch);
            });
        });
''', '''                if self.cycle % 4 != 3 {
                    self.registers.zero(threads, module, 0, keys, scratch);
                }
            });
        });
''')],
   [([NOP, NOP, NOP, I(7, 0, 0, 0), R(0, 0, 0, 0, 3)], {}, [0] * 4, 5, 8)])

vm('b06', 'V01', 'an instruction whose immediate has bit 31 set (negative immediates, LUI of the upper half)',
   'the top bit of the immediate is not refreshed and reads as zero',
   [(F + 'interpreter.rs', """                        4,
                        32,
                        self.reg_bit_size,""", """                        4,
                        31,
                        self.reg_bit_size,""")],
   [([I(-1, 1, 7, 2), NOP], {1: 0x80000005}, [0] * 4, 1, 8)])
vm('b07', 'V03', 'a load from the upper three quarters of the RAM',
   'the two top bits of the RAM address are not refreshed: the access goes to the lower quarter',
   [(F + 'interpreter.rs', 'self.ram_bit_size + 2, // ram_bit_size is 4bytes alined', 'self.ram_bit_size, // ram_bit_size is 4bytes alined')],
   [([LW(6, 5, 0), NOP], {5: 0x40000 + 24}, [1, 2, 3, 4, 5, 6, 7, 8], 1, 8)])

TV = 'compiler/src/interpreter/testvm.rs'
CI = 'compiler/src/interpreter.rs'
PH = """
use compiler::interpreter::verif_hooks::phantom;
const BASE: usize = 0x40000;
fn rom(words: &[u32]) -> Vec<u8> {
    words.iter().flat_map(|w| w.to_le_bytes()).collect()
}
"""
prog('c01', 'T01', 'a JALR whose destination is its own base register',
     'the link value is written before the target is computed, so the jump goes to the return address',
     [(TV, """                let jump_target = ((self.register(rs1).wrapping_add(imm)) >> 1) << 1;
                assert!(
                    jump_target % 4 == 0,
                    "Jump target={jump_target} is misaligned"
                );
                *self.register_mut(rd) = self.pc.wrapping_add(4);
                self.pc = jump_target;""", """                *self.register_mut(rd) = self.pc.wrapping_add(4);
                let jump_target = ((self.register(rs1).wrapping_add(imm)) >> 1) << 1;
                assert!(
                    jump_target % 4 == 0,
                    "Jump target={jump_target} is misaligned"
                );
                self.pc = jump_target;""")],
     PH + """
fn main() {
    // auipc x1, 0; jalr x1, 12(x1); addi x2, x0, 1 (skipped); sw x1, 0(x5); jump to self
    let words = [0x00000097, 0x00c080e7, 0x00100113, 0x000402b7, 0x0012a023, 0x0022a223, 0x0000006f];
    let p = phantom(rom(&words), BASE, vec![0; 4096], (BASE + 16, 4), (BASE, 8));
    let mut vm = p.test_vm(8);
    vm.read_input_tape(&[0; 4]);
    vm.execute();
    assert_eq!(vm.output_tape(), [8, 0, 0, 0, 0, 0, 0, 0]);
}
""")
prog('c02', 'T02', 'MULHSU with the second operand at or above 2^31',
     'the second operand is taken as signed',
     [(TV, """                *self.register_mut(rd) = (((((self.register(rs1) as i32) as i64)
                    .wrapping_mul(self.register(rs2) as i64))
                    as u64)""", """                *self.register_mut(rd) = (((((self.register(rs1) as i32) as i64)
                    .wrapping_mul((self.register(rs2) as i32) as i64))
                    as u64)""")],
     PH + """
fn main() {
    // lw x1, 0(x5); lw x2, 4(x5); mulhsu x3, x1, x2; sw x3, 8(x5)
    let words = [0x000402b7, 0x0002a083, 0x0042a103, 0x0220a1b3, 0x0032a423, 0x0000006f];
    let p = phantom(rom(&words), BASE, vec![0; 4096], (BASE, 8), (BASE + 8, 4));
    for (a, b) in [(3u32, 5u32), (u32::MAX, 7), (7, u32::MAX), (0x80000000, 0x80000000)] {
        let mut vm = p.test_vm(8);
        vm.read_input_tape(&[a.to_le_bytes(), b.to_le_bytes()].concat());
        vm.execute();
        let want = (((a as i32 as i128) * (b as i128)) >> 32) as u32;
        assert_eq!(vm.output_tape(), want.to_le_bytes());
    }
}
""")
prog('c03', 'T03', 'an input area whose size is not a multiple of four',
     'the last one to three bytes of the input tape are not written',
     [(TV, 'self.ram.load_memory(self.input_info.start_addr, tape);', """for (i, word) in tape.chunks_exact(4).enumerate() {
            self.ram.load_memory(self.input_info.start_addr + 4 * i, word);
        }""")],
     PH + """
fn main() {
    // lbu x1, 4(x5); sb x1, 8(x5)
    let words = [0x000402b7, 0x0042c083, 0x00128423, 0x0000006f];
    let p = phantom(rom(&words), BASE, vec![0; 4096], (BASE, 5), (BASE + 8, 1));
    let mut vm = p.test_vm(6);
    vm.read_input_tape(&[1, 2, 3, 4, 5]);
    vm.execute();
    assert_eq!(vm.output_tape(), [5]);
}
""")
prog('c04', 'E01', 'an output area that does not start on a word boundary',
     'the output of the encrypted run is read from the word that contains the start of the output area',
     [(CI, """        for i in 0..self.output_info.size {
            output.push(mem_bytes[(self.output_info.start_addr + i - self.ram_offset) % RAM_SIZE]);
        }""", """        let first = (self.output_info.start_addr - self.ram_offset) & !3;
        for i in 0..self.output_info.size {
            output.push(mem_bytes[(first + i) % RAM_SIZE]);
        }""")],
     PH + """
fn main() {
    let words = [0x0000006f, 0x0000006f];
    let ram: Vec<u8> = (0..4096u32).map(|i| (i * 7 + i / 256) as u8).collect();
    let p = phantom(rom(&words), BASE, ram.clone(), (BASE, 4), (BASE + 41, 6));
    let mut vm = p.encrypted_vm(&[0; 4], 0);
    vm.execute();
    assert_eq!(vm.output_tape(), ram[41..47].to_vec());
}
""")
ELF = """
const BASE: u32 = 0x40000;
fn elf(segs: &[(u32, u32, &[u8], u32)], secs: &[(&str, u32, u32)]) -> Vec<u8> {
    // segments: (address, flags, bytes, size in memory); sections: (name, address, size)
    let ph = 52;
    let mut data = ph + 32 * segs.len();
    let mut f = vec![0u8; data];
    let p4 = |f: &mut Vec<u8>, at: usize, v: u32| f[at..at + 4].copy_from_slice(&v.to_le_bytes());
    let p2 = |f: &mut Vec<u8>, at: usize, v: u16| f[at..at + 2].copy_from_slice(&v.to_le_bytes());
    for (i, (addr, flags, bytes, mem)) in segs.iter().enumerate() {
        let v = [1, data as u32, *addr, *addr, bytes.len() as u32, *mem, *flags, 4];
        for k in 0..8 {
            p4(&mut f, ph + 32 * i + 4 * k, v[k]);
        }
        f.extend_from_slice(bytes);
        data += bytes.len();
    }
    let mut names = vec![0u8];
    let mut at = vec![];
    for (n, _, _) in secs {
        at.push(names.len() as u32);
        names.extend_from_slice(n.as_bytes());
        names.push(0);
    }
    at.push(names.len() as u32);
    names.extend_from_slice(b".shstrtab\\0");
    let stroff = f.len() as u32;
    f.extend_from_slice(&names);
    let sh = f.len();
    f.resize(sh + 40 * (secs.len() + 2), 0);
    for (i, (_, addr, size)) in secs.iter().enumerate() {
        let v = [at[i], 1, 3, *addr, 0, *size, 0, 0, 4, 0];
        for k in 0..10 {
            p4(&mut f, sh + 40 * (i + 1) + 4 * k, v[k]);
        }
    }
    let v = [at[secs.len()], 3, 0, 0, stroff, names.len() as u32, 0, 0, 1, 0];
    for k in 0..10 {
        p4(&mut f, sh + 40 * (secs.len() + 1) + 4 * k, v[k]);
    }
    f[..7].copy_from_slice(&[0x7f, b'E', b'L', b'F', 1, 1, 1]);
    p2(&mut f, 16, 2);
    p2(&mut f, 18, 243);
    p4(&mut f, 20, 1);
    p4(&mut f, 28, ph as u32);
    p4(&mut f, 32, sh as u32);
    p2(&mut f, 40, 52);
    p2(&mut f, 42, 32);
    p2(&mut f, 44, segs.len() as u16);
    p2(&mut f, 46, 40);
    p2(&mut f, 48, secs.len() as u16 + 2);
    p2(&mut f, 50, secs.len() as u16 + 1);
    f
}
"""
prog('c05', 'L01', 'a program with a read-only data segment besides its writable one',
     'only writable segments are loaded: constants of the guest read as zero',
     [(CI, '.filter(|p| p.p_flags == PF_R || p.p_flags == PF_R + PF_W)', '.filter(|p| p.p_flags == PF_R + PF_W)')],
     ELF + """
fn main() {
    let f = elf(
        &[(0, 5, &[0x6f, 0, 0, 0], 4), (BASE, 6, &[1, 2, 3, 4, 5, 6, 7, 8], 8), (BASE + 8, 4, &[9, 10, 11, 12], 4)],
        &[(".inpdata", BASE, 4), (".outdata", BASE + 4, 4)],
    );
    let p = compiler::Phantom::from_elf(f);
    assert_eq!(p.boot_ram().data()[..12], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
}
""")
prog('c06', 'I01', 'an instruction with destination x0 followed by a reader of x0',
     'the mirror clears x0 before the write instead of after it',
     [(F + 'debug.rs', """        self.registers[self.rd_addr as usize] = self.rd_val;
        self.registers[0] = 0;""", """        self.registers[0] = 0;
        self.registers[self.rd_addr as usize] = self.rd_val;""")],
     """
use fhevm::{instructions::{Instruction, InstructionsParser}, verif_hooks::DebugVm};
fn main() {
    // addi x0, x0, 7; add x3, x0, x0
    let mut p = InstructionsParser::new();
    p.add(Instruction::new(0x00700013));
    p.add(Instruction::new(0x000001b3));
    let mut vm = DebugVm::new(2, &[0; 4]);
    vm.set_instructions(&p);
    vm.set_state(&[0; 32], 0);
    vm.step();
    vm.step();
    assert_eq!(vm.registers(), [0; 32]);
}
""", ('fhevm',))
prog('c08', 'A01', 'an allocation larger than what is left below the stack, starting well below it',
     'the distance to the stack is checked for the start of the allocation, not for its end',
     [('runtime/src/alloc.rs', 'let gap_check = heap_pos\n        .checked_add(MEMORY_GAP)', 'let gap_check = (ptr as usize)\n        .checked_add(MEMORY_GAP)')],
     """
// the guest allocator with the stack pointer read replaced
#[allow(static_mut_refs, dead_code, unused_unsafe)]
mod real {
    mod core {
        pub use ::core::*;
        pub mod arch {
            macro_rules! asm {
                ($t:literal, $($n:ident =)? out(reg) $v:ident $($rest:tt)*) => { $v = crate::sp() };
            }
            pub(crate) use asm;
        }
    }
    include!("@REPO@/runtime/src/alloc.rs");
}
#[no_mangle]
static ANCHOR: u8 = 0;
extern "C" {
    static _end: u8;
}
fn sp() -> usize {
    unsafe { &_end as *const u8 as usize + 0x800 }
}
fn main() {
    unsafe {
        let p = real::sys_alloc_aligned(0x100, 16) as usize;
        assert!(p % 16 == 0 && p + 0x100 + 0x100 <= sp());
        let q = std::panic::catch_unwind(|| p);
        assert!(q.is_ok());
        // no room for this one: it must not return
        let pid = libc_fork();
        if pid == 0 {
            let _ = real::sys_alloc_aligned(0x700, 4);
            std::process::exit(77);
        }
        let mut st = 0i32;
        waitpid(pid, &mut st, 0);
        assert!(st != 77 << 8, "memory handed out although it runs into the stack");
    }
}
extern "C" {
    #[link_name = "fork"]
    fn libc_fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
}
""", ())

prog('c07', 'D01', 'a word with opcode and funct3 of a right shift by an immediate and undefined upper bits',
     'reserved words are executed as SRAI',
     [(F + 'instructions/mod.rs', """                            0b0100000 => (RD_UPDATE::SRAI, RAM_UPDATE::NONE, PC_UPDATE::NONE),
                            _ =>""", """                            f7 if f7 & 0b0100000 != 0 => {
                                (RD_UPDATE::SRAI, RAM_UPDATE::NONE, PC_UPDATE::NONE)
                            }
                            _ =>""")],
     """
use fhevm::instructions::{Instruction, InstructionsParser};
fn main() {
    let add = |w: u32| {
        std::panic::catch_unwind(|| {
            let mut p = InstructionsParser::new();
            p.add(Instruction::new(w));
        })
    };
    assert!(add(0x4010d093).is_ok()); // srai x1, x1, 1
    assert!(add(0x0010d093).is_ok()); // srli x1, x1, 1
    for f7 in 0..128u32 {
        if f7 != 0 && f7 != 0x20 {
            assert!(add(0x0010d093 | f7 << 25).is_err(), "{f7:07b} accepted");
        }
    }
}
""", ('fhevm',))
