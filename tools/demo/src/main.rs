//! Runs programs on the real encrypted machine (real lattice arithmetic) and compares every final
//! state with the reference machine.  Input file: blocks of lines
//!   cycles N / threads N / rom w.. / regs w.. / ram w.. / end
//! Prints one line per block; exit 1 if any differs.
#[path = "isa.rs"]
#[allow(dead_code)]
mod isa;
#[path = "machine.rs"]
#[allow(dead_code)]
mod machine;

use isa::Vm;
use machine::Ctx;

fn main() {
    let path = std::env::args().nth(1).expect("input file");
    let text = std::fs::read_to_string(path).unwrap();
    let mut ctx = Ctx::new(7);
    let (mut cycles, mut threads) = (1usize, 8usize);
    let (mut fresh, mut verbose) = (false, false);
    let (mut rom, mut regs, mut ram): (Vec<u32>, Vec<u32>, Vec<u32>) = (vec![], vec![0; 32], vec![]);
    let mut bad = 0;
    let mut n = 0;
    for l in text.lines() {
        let mut t = l.split_whitespace();
        let key = t.next().unwrap_or("");
        let v: Vec<u32> = t.map(|x| x.parse().unwrap()).collect();
        match key {
            "cycles" => cycles = v[0] as usize,
            "threads" => threads = v[0] as usize,
            // registers as the machine creates them; timing report on
            "fresh" => fresh = v[0] == 1,
            "verbose" => verbose = v[0] == 1,
            "rom" => rom = v,
            "regs" => regs = v,
            "ram" => ram = v,
            "end" => {
                let run = std::panic::AssertUnwindSafe(|| {
                let mut want = Vm { regs: regs.clone().try_into().unwrap(), pc: 0, ram: ram.clone() };
                ctx.verbose = verbose;
                let mut it = ctx.interpreter(rom.len(), ram.len(), threads);
                ctx.load_rom(&mut it, &rom);
                if !fresh {
                    ctx.load_regs(&mut it, &regs);
                }
                ctx.load_ram(&mut it, &ram);
                let mut verdict = "agrees".to_string();
                // (round 0: what was loaded)
                for c in 0..=cycles {
                    let at = want.pc;
                    let mut op = None;
                    if c > 0 {
                        op = match want.step(&rom) {
                            Ok(op) => Some(op),
                            Err(e) => {
                                verdict = format!("outside the reference at cycle {c}: {e}");
                                break;
                            }
                        };
                        ctx.cycle(&mut it);
                    }
                    let have = Vm { regs: ctx.regs(&it).try_into().unwrap(), pc: ctx.pc(&it), ram: ctx.ram(&mut it, ram.len()) };
                    if have != want {
                        verdict = format!("DIFFERS after cycle {c} ({op:?} {:08x} at pc {at:#x}):", rom[(at / 4) as usize]);
                        for i in 0..32 {
                            if have.regs[i] != want.regs[i] {
                                verdict += &format!(" x{i}={:#010x} want {:#010x}", have.regs[i], want.regs[i]);
                            }
                        }
                        if have.pc != want.pc {
                            verdict += &format!(" pc={:#x} want {:#x}", have.pc, want.pc);
                        }
                        for i in 0..ram.len() {
                            if have.ram[i] != want.ram[i] {
                                verdict += &format!(" ram[{i}]={:#010x} want {:#010x}", have.ram[i], want.ram[i]);
                            }
                        }
                        break;
                    }
                }
                (verdict, n + 1)
                });
                let (verdict, k) = std::panic::catch_unwind(run).unwrap_or_else(|_| {
                    bad += 1;
                    (format!("PANICS"), n + 1)
                });
                bad += verdict.starts_with("DIFFERS") as i32;
                println!("case {n}: {verdict}");
                n = k;
            }
            "" => {}
            o => panic!("{o}"),
        }
    }
    std::process::exit((bad > 0) as i32);
}
