use fhevm::{instructions::{Instruction, InstructionsParser}, verif_hooks::DebugVm};
fn main() {
    // addi x0, x0, 7; add x3, x0, x0
    let mut p = InstructionsParser::new();
    p.add(Instruction::new(0x00700013));
    p.add(Instruction::new(0x000001b3));
    let mut vm = DebugVm::new(2, &[0; 4]);
    vm.set_instructions(&p);
    vm.set_state(&[0; 32], 0);
    vm.step();
    vm.step();
    assert_eq!(vm.registers(), [0; 32]);
}
