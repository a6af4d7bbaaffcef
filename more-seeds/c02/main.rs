use compiler::interpreter::verif_hooks::phantom;
const BASE: usize = 0x40000;
fn rom(words: &[u32]) -> Vec<u8> {
    words.iter().flat_map(|w| w.to_le_bytes()).collect()
}

fn main() {
    // lw x1, 0(x5); lw x2, 4(x5); mulhsu x3, x1, x2; sw x3, 8(x5)
    let words = [0x000402b7, 0x0002a083, 0x0042a103, 0x0220a1b3, 0x0032a423, 0x0000006f];
    let p = phantom(rom(&words), BASE, vec![0; 4096], (BASE, 8), (BASE + 8, 4));
    for (a, b) in [(3u32, 5u32), (u32::MAX, 7), (7, u32::MAX), (0x80000000, 0x80000000)] {
        let mut vm = p.test_vm(8);
        vm.read_input_tape(&[a.to_le_bytes(), b.to_le_bytes()].concat());
        vm.execute();
        let want = (((a as i32 as i128) * (b as i128)) >> 32) as u32;
        assert_eq!(vm.output_tape(), want.to_le_bytes());
    }
}
