mod engine;
mod isa;
mod machine;
mod solve;
mod spec;
mod words;

use engine::{check, Family, Slot, LAUNCH};
use isa::Op;
use machine::Ctx;
use std::collections::HashMap;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let kv: HashMap<String, String> = a[2..]
        .iter()
        .filter_map(|s| s.split_once('=').map(|(k, v)| (k.to_string(), v.to_string())))
        .collect();
    let num = |k: &str, d: usize| kv.get(k).map(|v| v.parse().unwrap()).unwrap_or(d);
    let list = |k: &str| -> Vec<String> {
        kv.get(k).map(|v| v.split(',').map(|s| s.to_string()).collect()).unwrap_or_default()
    };
    let mut f = Family {
        name: a[1..].join(" "),
        slots: vec![],
        groups: 1,
        regs_mask: [u32::MAX; 32],
        ram: num("ram", 16),
        cycles: 1,
        threads: num("threads", 1),
        launch: false,
        timeout: num("timeout", 120) as u64,
        parts: list("parts"),
        each: num("each", 0) == 1,
        fresh: num("fresh", 0) == 1,
    };
    f.regs_mask[0] = 0;
    let launch = |f: &mut Family, rom: usize| {
        f.slots[0] = Slot { op: Op::JALR, base: LAUNCH, mask: 0, group: usize::MAX };
        f.launch = true;
        f.cycles = 2;
        f.regs_mask[31] = ((rom.next_power_of_two() as u32) * 4 - 1) & !3;
    };
    match a[1].as_str() {
        // one instruction, all operands, at any place of the program (or in the first cycle)
        "op" => {
            let op = Op::parse(&kv["op"]);
            let rom = num("rom", 8);
            f.slots = vec![Slot { op, base: op.enc().0, mask: op.operand_mask(), group: 0 }; rom];
            if num("first", 0) == 0 {
                launch(&mut f, rom);
            }
        }
        // every slot holds its own instruction (operations alternate), executed at any place
        "fetch" => {
            let ops: Vec<Op> = list("ops").iter().map(|s| Op::parse(s)).collect();
            let rom = num("rom", 8);
            f.groups = rom;
            f.slots = (0..rom)
                .map(|i| {
                    // an assignment of operations to slots that is not periodic in powers of two
                    let op = ops[(i % 7 + i / 7 + i / 64) % ops.len()];
                    Slot { op, base: op.enc().0, mask: op.operand_mask(), group: i }
                })
                .collect();
            launch(&mut f, rom);
        }
        // straight-line program of the given operations
        "seq" => {
            let ops: Vec<Op> = list("ops").iter().map(|s| Op::parse(s)).collect();
            f.cycles = ops.len();
            f.groups = ops.len();
            f.slots = ops
                .iter()
                .enumerate()
                .map(|(i, op)| Slot { op: *op, base: op.enc().0, mask: op.operand_mask(), group: i })
                .collect();
            let pad = Slot { op: Op::ADDI, base: 0x13, mask: 0, group: usize::MAX };
            while f.slots.len() < num("rom", 2).max(2) {
                f.slots.push(pad.clone());
            }
        }
        // no cycle at all: what was loaded is what is read
        "boot" => {
            let op = Op::ADDI;
            f.slots = vec![Slot { op, base: 0x13, mask: op.operand_mask(), group: 0 }; num("rom", 2)];
            f.cycles = 0;
        }
        // fixed instructions, all data
        "prog" => {
            f.slots = list("words")
                .iter()
                .map(|w| {
                    let w = u32::from_str_radix(w, 16).unwrap();
                    Slot { op: Op::decode(w).expect("instruction"), base: w, mask: 0, group: usize::MAX }
                })
                .collect();
            f.cycles = num("cycles", f.slots.len());
        }
        o => panic!("{o}"),
    }
    if f.fresh {
        f.regs_mask = [0; 32];
    }
    if num("sample", 0) == 1 {
        println!("{}", engine::sample(&f));
        return;
    }
    let mut ctx = Ctx::new(0);
    ctx.verbose = num("verbose", 0) == 1;
    println!("{}", check(&mut ctx, &f));
}
