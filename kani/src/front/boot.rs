//! Input tape in, cycles, output tape out: the plain machine and the encrypted front end.
use crate::{isa, nd};
use compiler::interpreter::verif_hooks::phantom;
use compiler::Phantom;

const BASE: usize = isa::RAM_BASE as usize;
const TAPE: usize = 8;
const RAM: usize = 32; // --cfg phantom_verif_small_ram

/// Memory of `n` bytes, arbitrary at `at..at + w` (zero elsewhere); areas (offset, size) inside that window.
fn tapes(n: usize, at: usize, w: usize, inp: (usize, usize), out: (usize, usize), run: fn(&Phantom, &[u8]) -> Vec<u8>) {
    let mut ram = vec![0u8; n];
    for x in ram[at..at + w].iter_mut() {
        *x = nd::u8();
    }
    let mut tape = [0u8; TAPE];
    for x in tape.iter_mut() {
        *x = nd::u8();
    }
    let rom = 0x0000_006fu32.to_le_bytes().to_vec();
    let p = phantom(rom, BASE, ram.clone(), (BASE + inp.0, inp.1), (BASE + out.0, out.1));
    let have = run(&p, &tape[..inp.1]);
    assert!(have.len() == out.1, "length");
    for j in 0..out.1 {
        let k = out.0 + j;
        let want = if k >= inp.0 && k < inp.0 + inp.1 { tape[k - inp.0] } else { ram[k] };
        assert!(have[j] == want, "output");
    }
    std::mem::forget((p, ram, have));
}

/// longer areas, bytes arbitrary at a few places
fn long(n: usize, inp: (usize, usize), out: (usize, usize), run: fn(&Phantom, &[u8]) -> Vec<u8>) {
    let mut ram = vec![0x3cu8; n];
    for k in [out.0, inp.0 - 1, inp.0 + 5, inp.0 + inp.1, out.0 + out.1 - 1] {
        ram[k] = nd::u8();
    }
    let mut tape = vec![0x7eu8; inp.1];
    for k in [0, 1, 31, 63, 127, 128, 254, 255, 256, inp.1 - 2, inp.1 - 1] {
        tape[k % inp.1] = nd::u8();
    }
    let rom = 0x0000_006fu32.to_le_bytes().to_vec();
    let p = phantom(rom, BASE, ram.clone(), (BASE + inp.0, inp.1), (BASE + out.0, out.1));
    let have = run(&p, &tape);
    assert!(have.len() == out.1, "length");
    for j in 0..out.1 {
        let k = out.0 + j;
        let want = if k >= inp.0 && k < inp.0 + inp.1 { tape[k - inp.0] } else { ram[k] };
        assert!(have[j] == want, "output");
    }
    std::mem::forget((p, ram, have, tape));
    nd::reached();
}
pub fn plain_long() { long(384, (46, 269), (41, 281), plain) }
pub fn enc_long() {
    nd::environment();
    long(128, (14, 70), (9, 80), encrypted)
}

fn plain(p: &Phantom, tape: &[u8]) -> Vec<u8> {
    let mut vm = p.test_vm(2);
    vm.read_input_tape(tape);
    vm.execute();
    let have = vm.output_tape();
    std::mem::forget(vm);
    have
}
fn encrypted(p: &Phantom, tape: &[u8]) -> Vec<u8> {
    let mut vm = p.encrypted_vm(tape, 0);
    let have = vm.output_tape();
    std::mem::forget(vm);
    have
}
fn plain_at(inp: (usize, usize), out: (usize, usize)) {
    tapes(24, 0, 24, inp, out, plain);
    nd::reached();
}
// (the output area shows the whole input area and bytes beside it, except in `apart`)
pub fn plain_low() { plain_at((0, 8), (0, 12)) }
pub fn plain_odd() { plain_at((5, 7), (3, 11)) }
pub fn plain_high() { plain_at((16, 8), (13, 11)) }
pub fn plain_apart() { plain_at((9, 3), (1, 6)) }
fn enc(inp: (usize, usize), out: (usize, usize)) {
    nd::environment();
    tapes(RAM, 0, RAM, inp, out, encrypted);
    nd::reached();
}
pub fn enc_low() { enc((0, 8), (0, 12)) }
pub fn enc_odd() { enc((5, 7), (3, 11)) }
pub fn enc_high() { enc((RAM - 8, 8), (RAM - 11, 11)) }
pub fn enc_apart() { enc((9, 3), (1, 6)) }

const IN: usize = 4;
const OUT: usize = 12;
/// out = in + imm + number of passes of the loop; 8 cycles reach the second pass
fn counter(imm: u32) -> [u32; 6] {
    [
        0x0004_02b7,                                   // lui x5, 0x40
        (IN as u32) << 20 | 5 << 15 | 2 << 12 | 6 << 7 | 3, // lw x6, IN(x5)
        (imm & 0xfff) << 20 | 6 << 15 | 6 << 7 | 0x13, // addi x6, x6, imm
        6 << 20 | 5 << 15 | 2 << 12 | (OUT as u32) << 7 | 0x23, // sw x6, OUT(x5)
        1 << 20 | 6 << 15 | 6 << 7 | 0x13,             // addi x6, x6, 1
        0xff9f_f06f,                                   // j -8
    ]
}
fn program(ram: usize, imm: u32) -> Phantom {
    let mut rom = Vec::new();
    for w in counter(imm) {
        rom.extend_from_slice(&w.to_le_bytes());
    }
    let mut data = vec![0u8; ram];
    data[OUT] = 0xa5;
    phantom(rom, BASE, data, (BASE + IN, 4), (BASE + OUT, 4))
}
fn want(tape: u32, imm: u32, cycles: usize) -> u32 {
    if cycles < 4 {
        return 0xa5;
    }
    tape.wrapping_add((((imm << 20) as i32) >> 20) as u32).wrapping_add(((cycles - 4) / 3) as u32)
}
fn check_run(out: &[u8], w: u32) {
    assert!(out.len() == 4, "length");
    let have = out[0] as u32 | (out[1] as u32) << 8 | (out[2] as u32) << 16 | (out[3] as u32) << 24;
    assert!(have == w, "output");
}
pub fn plain_run() {
    let tape = nd::u32();
    for (imm, n) in [(5u32, 0usize), (0x7ff, 3), (0xfff, 4), (0x800, 6), (1, 7), (0x123, 11)] {
        let p = program(16, imm);
        let mut vm = p.test_vm(n);
        vm.read_input_tape(&tape.to_le_bytes());
        vm.execute();
        let out = vm.output_tape();
        check_run(&out, want(tape, imm, n));
        std::mem::forget((p, vm, out));
    }
    nd::reached();
}
fn enc_run(imm: u32, n: usize) {
    nd::environment();
    let tape = nd::u32();
    let p = program(RAM, imm);
    let mut vm = p.encrypted_vm(&tape.to_le_bytes(), n);
    vm.execute();
    let out = vm.output_tape();
    check_run(&out, want(tape, imm, n));
    nd::reached();
    std::mem::forget((p, vm, out));
}
pub fn enc_run0() { enc_run(5, 0) }
pub fn enc_run4() { enc_run(0x801, 4) }
pub fn enc_run7() { enc_run(0x7ff, 7) }
