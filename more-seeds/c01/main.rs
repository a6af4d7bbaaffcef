use compiler::interpreter::verif_hooks::phantom;
const BASE: usize = 0x40000;
fn rom(words: &[u32]) -> Vec<u8> {
    words.iter().flat_map(|w| w.to_le_bytes()).collect()
}

fn main() {
    // auipc x1, 0; jalr x1, 12(x1); addi x2, x0, 1 (skipped); sw x1, 0(x5); jump to self
    let words = [0x00000097, 0x00c080e7, 0x00100113, 0x000402b7, 0x0012a023, 0x0022a223, 0x0000006f];
    let p = phantom(rom(&words), BASE, vec![0; 4096], (BASE + 16, 4), (BASE, 8));
    let mut vm = p.test_vm(8);
    vm.read_input_tape(&[0; 4]);
    vm.execute();
    assert_eq!(vm.output_tape(), [8, 0, 0, 0, 0, 0, 0, 0]);
}
