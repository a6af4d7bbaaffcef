use compiler::interpreter::verif_hooks::phantom;
const BASE: usize = 0x40000;
fn rom(words: &[u32]) -> Vec<u8> {
    words.iter().flat_map(|w| w.to_le_bytes()).collect()
}

fn main() {
    let words = [0x0000006f, 0x0000006f];
    let ram: Vec<u8> = (0..4096u32).map(|i| (i * 7 + i / 256) as u8).collect();
    let p = phantom(rom(&words), BASE, ram.clone(), (BASE, 4), (BASE + 41, 6));
    let mut vm = p.encrypted_vm(&[0; 4], 0);
    vm.execute();
    assert_eq!(vm.output_tape(), ram[41..47].to_vec());
}
