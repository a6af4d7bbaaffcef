//! The loader: boot images and tape areas are those of the ELF file.
use crate::nd;
use compiler::Phantom;

const PH: usize = 52;
const NPH: usize = 4;
const DATA: usize = 180; // file bytes segments may take their contents from
const NDATA: usize = 24;
const STR: usize = DATA + NDATA;
const NAMES: &[u8] = b"\0.inpdata\0.outdata\0.shstrtab\0.data\0";
const SH: usize = STR + 40;
const NSH: usize = 5;
const LEN: usize = SH + NSH * 40;
const RAM: usize = 32; // --cfg phantom_verif_small_ram

fn put4(f: &mut [u8], at: usize, v: u32) {
    let b = v.to_le_bytes();
    f[at] = b[0];
    f[at + 1] = b[1];
    f[at + 2] = b[2];
    f[at + 3] = b[3];
}
fn put2(f: &mut [u8], at: usize, v: u16) {
    let b = v.to_le_bytes();
    f[at] = b[0];
    f[at + 1] = b[1];
}

#[derive(Clone, Copy)]
struct Seg {
    ty: u32,
    off: u32,
    vaddr: u32,
    filesz: u32,
    memsz: u32,
    flags: u32,
}

fn seg(f: &mut [u8], i: usize, s: Seg) {
    let at = PH + 32 * i;
    // (the physical address is not where a segment lies)
    let v = [s.ty, s.off, s.vaddr, s.vaddr + 4, s.filesz, s.memsz, s.flags, 4];
    for k in 0..8 {
        put4(f, at + 4 * k, v[k]);
    }
}
fn sec(f: &mut [u8], i: usize, name: u32, ty: u32, addr: u32, off: u32, size: u32) {
    let at = SH + 40 * i;
    let v = [name, ty, 3, addr, off, size, 0, 0, 4, 0];
    for k in 0..10 {
        put4(f, at + 4 * k, v[k]);
    }
}

/// where things lie: (file offset in the data area, length) of text, two data segments and an unloaded one,
/// zero-initialised tails of the data segments, gap between them, base address, segment order, flags
#[derive(Clone, Copy)]
pub struct Layout {
    text: (u32, u32),
    d: [(u32, u32); 2],
    z: [u32; 2],
    gap: u32,
    base: u32,
    other: (u32, u32),
    order: [usize; 4],
    flags: [u32; 2],
    swap: bool,
    /// the fourth segment is loaded too, after the others
    third: bool,
}

fn load(l: Layout) {
    let mut f = vec![0u8; LEN];
    f[..7].copy_from_slice(&[0x7f, b'E', b'L', b'F', 1, 1, 1]);
    put2(&mut f, 16, 2);
    put2(&mut f, 18, 243);
    put4(&mut f, 20, 1);
    put4(&mut f, 28, PH as u32);
    put4(&mut f, 32, SH as u32);
    put2(&mut f, 40, 52);
    put2(&mut f, 42, 32);
    put2(&mut f, 44, NPH as u16);
    put2(&mut f, 46, 40);
    put2(&mut f, 48, NSH as u16);
    put2(&mut f, 50, 3);
    for i in 0..NDATA {
        f[DATA + i] = nd::u8();
    }
    f[STR..STR + NAMES.len()].copy_from_slice(NAMES);

    let at = |c: (u32, u32)| (DATA as u32 + c.0, c.1);
    let (toff, tn) = at(l.text);
    let text = Seg { ty: 1, off: toff, vaddr: 0, filesz: tn, memsz: tn, flags: 5 };
    let (o0, n0) = at(l.d[0]);
    let (o1, n1) = at(l.d[1]);
    let base = l.base;
    let v1 = base + n0 + l.z[0] + l.gap;
    let d0 = Seg { ty: 1, off: o0, vaddr: base, filesz: n0, memsz: n0 + l.z[0], flags: l.flags[0] };
    let d1 = Seg { ty: 1, off: o1, vaddr: v1, filesz: n1, memsz: n1 + l.z[1], flags: l.flags[1] };
    let (ox, nx) = at(l.other);
    // not loaded: PT_GNU_STACK
    let v2 = if l.third { v1 + n1 + l.z[1] } else { base };
    let other = Seg { ty: if l.third { 1 } else { 0x6474_e551 }, off: ox, vaddr: v2, filesz: nx, memsz: nx, flags: 6 };
    let all = [text, d0, d1, other];
    for i in 0..4 {
        seg(&mut f, i, all[l.order[i]]);
    }
    let (ia, is, oa, os) = (nd::u32(), nd::u32(), nd::u32(), nd::u32());
    sec(&mut f, 1, 29, 1, ia ^ 4, DATA as u32, 4);
    let (i, o) = if l.swap { (4, 2) } else { (2, 4) };
    sec(&mut f, i, 1, 1, ia, DATA as u32, is);
    sec(&mut f, o, 10, 8, oa, DATA as u32, os);
    sec(&mut f, 3, 19, 3, 0, STR as u32, NAMES.len() as u32);

    let file = f.clone();
    let p = Phantom::from_elf(f);

    assert!(*p.boot_rom().offset() == 0 && *p.boot_rom().size() == tn as usize, "rom size");
    assert!(p.boot_rom().data().len() == tn as usize, "rom length");
    for j in 0..tn as usize {
        assert!(p.boot_rom().data()[j] == file[toff as usize + j], "rom");
    }
    assert!(*p.boot_ram().offset() == base as usize, "ram offset");
    assert!(*p.boot_ram().size() == RAM && p.boot_ram().data().len() == RAM, "ram size");
    let k = (v1 - base) as usize;
    for j in 0..RAM {
        let want = if j < n0 as usize {
            file[o0 as usize + j]
        } else if j >= k && j < k + n1 as usize {
            file[o1 as usize + j - k]
        } else if l.third && j >= (v2 - base) as usize && j < (v2 - base + nx) as usize {
            file[ox as usize + j - (v2 - base) as usize]
        } else {
            0
        };
        assert!(p.boot_ram().data()[j] == want, "ram");
    }
    assert!(*p.input_info().start_addr() == ia as usize && *p.input_info().size() == is as usize, "input");
    assert!(*p.output_info().start_addr() == oa as usize && *p.output_info().size() == os as usize, "output");
    nd::reached();
    std::mem::forget((p, file));
}

pub fn plain() {
    load(Layout { text: (0, 12), d: [(12, 8), (20, 4)], z: [0, 0], gap: 0, base: 0x40000, other: (0, 0), order: [0, 1, 2, 3], flags: [4, 6], swap: false, third: false })
}
pub fn bss() {
    load(Layout { text: (0, 8), d: [(8, 5), (16, 7)], z: [3, 9], gap: 8, base: 0x40000, other: (3, 8), order: [3, 1, 0, 2], flags: [6, 6], swap: true, third: false })
}
pub fn only_bss() {
    load(Layout { text: (4, 16), d: [(0, 0), (20, 4)], z: [16, 0], gap: 1, base: 0x1000, other: (0, 4), order: [1, 2, 0, 3], flags: [6, 4], swap: false, third: false })
}
pub fn full() {
    load(Layout { text: (20, 4), d: [(0, 16), (4, 16)], z: [0, 0], gap: 0, base: 0x40010, other: (0, 24), order: [0, 3, 1, 2], flags: [4, 4], swap: true, third: false })
}
pub fn three() {
    load(Layout { text: (0, 8), d: [(8, 6), (15, 3)], z: [2, 1], gap: 4, base: 0x40000, other: (17, 7), order: [1, 0, 2, 3], flags: [4, 6], swap: false, third: true })
}
