//! Harnesses over the compiler crate (loader, plain machine, encrypted front end).
pub mod alloc;
pub mod boot;
pub mod elf;
pub mod testvm;

harnesses! {
    t01_alu_imm crate::front::testvm::step_alu_imm, 34;
    t01_alu_reg crate::front::testvm::step_alu_reg, 34;
    t01_lui crate::front::testvm::step_lui, 34;
    t01_auipc crate::front::testvm::step_auipc, 34;
    t01_jal crate::front::testvm::step_jal, 34;
    t01_jalr crate::front::testvm::step_jalr, 34;
    t01_branch crate::front::testvm::step_branch, 34;
    t01_load crate::front::testvm::step_load, 34;
    t01_store crate::front::testvm::step_store, 34;
    #[kani::solver(z3)]
    t02_mul crate::front::testvm::m_mul, 34;
    #[kani::solver(z3)]
    t02_mulh crate::front::testvm::m_mulh, 34;
    #[kani::solver(z3)]
    t02_mulhsu crate::front::testvm::m_mulhsu, 34;
    #[kani::solver(z3)]
    t02_mulhu crate::front::testvm::m_mulhu, 34;
    #[kani::solver(z3)]
    t02_div crate::front::testvm::m_div, 34;
    #[kani::solver(z3)]
    t02_divu crate::front::testvm::m_divu, 34;
    #[kani::solver(z3)]
    t02_rem crate::front::testvm::m_rem, 34;
    #[kani::solver(z3)]
    t02_remu crate::front::testvm::m_remu, 34;
    t02_regs crate::front::testvm::m_regs, 34;
    t01_far_load_top crate::front::testvm::far_load_top, 34;
    t01_far_load crate::front::testvm::far_load, 34;
    t01_far_store_top crate::front::testvm::far_store_top, 34;
    t01_far_store crate::front::testvm::far_store, 34;
    t01_far_auipc crate::front::testvm::far_auipc, 34;
    t01_far_jal crate::front::testvm::far_jal, 34;
    t01_far_jalr crate::front::testvm::far_jalr, 34;
    t01_far_branch crate::front::testvm::far_branch, 34;
    t01_far_alu_imm crate::front::testvm::far_alu_imm, 34;
    t03_low crate::front::boot::plain_low, 34;
    t03_odd crate::front::boot::plain_odd, 34;
    t03_high crate::front::boot::plain_high, 34;
    t03_apart crate::front::boot::plain_apart, 34;
    t03_long crate::front::boot::plain_long, 390;
    t03_run crate::front::boot::plain_run, 26;
    #[kani::stub(std::env::var, crate::stubs::env_var)]
    e01_low crate::front::boot::enc_low, 36;
    #[kani::stub(std::env::var, crate::stubs::env_var)]
    e01_odd crate::front::boot::enc_odd, 36;
    #[kani::stub(std::env::var, crate::stubs::env_var)]
    e01_high crate::front::boot::enc_high, 36;
    #[kani::stub(std::env::var, crate::stubs::env_var)]
    e01_apart crate::front::boot::enc_apart, 36;
    #[kani::stub(std::env::var, crate::stubs::env_var)]
    e01_long crate::front::boot::enc_long, 132;
    #[kani::stub(std::env::var, crate::stubs::env_var)]
    e01_run0 crate::front::boot::enc_run0, 36;
    #[kani::stub(std::env::var, crate::stubs::env_var)]
    e01_run4 crate::front::boot::enc_run4, 36;
    #[kani::stub(std::env::var, crate::stubs::env_var)]
    e01_run7 crate::front::boot::enc_run7, 36;
    a01_fits crate::front::alloc::fits, 8;
    a01_full crate::front::alloc::full, 8;
    l01_plain crate::front::elf::plain, 46;
    l01_bss crate::front::elf::bss, 46;
    l01_only_bss crate::front::elf::only_bss, 46;
    l01_three crate::front::elf::three, 46;
    l01_full crate::front::elf::full, 46;
}
