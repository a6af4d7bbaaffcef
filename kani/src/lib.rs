#![cfg_attr(kani, feature(allocator_api))]
//! Harnesses over the instruction decoder and the plain mirror machine, checked here by Kani; the harnesses
//! of ../ke (front end) are also built here, against the real crates, to replay their counterexamples.
#[macro_use]
mod harness;
pub mod isa;
pub mod mext;
pub mod mirror;
pub mod nd;
pub mod stubs;

#[cfg(not(kani))]
pub mod front;

harnesses! {
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_alu_imm crate::mirror::step_alu_imm, 66;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_alu_reg crate::mirror::step_alu_reg, 66;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_lui crate::mirror::step_lui, 66;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_auipc crate::mirror::step_auipc, 66;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_jal crate::mirror::step_jal, 66;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_jalr crate::mirror::step_jalr, 66;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_branch crate::mirror::step_branch, 66;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_load crate::mirror::step_load, 66;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_store crate::mirror::step_store, 66;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_far_load crate::mirror::far_load, 520;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_far_store crate::mirror::far_store, 520;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_far_load_top crate::mirror::far_load_top, 520;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_far_store_top crate::mirror::far_store_top, 520;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_far_jal crate::mirror::far_jal, 75;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_far_auipc crate::mirror::far_auipc, 75;
    #[kani::stub(std::hash::RandomState::new, crate::stubs::random_state)]
    #[kani::stub(std::collections::HashMap::insert, crate::stubs::insert)]
    #[kani::stub(std::collections::HashMap::get, crate::stubs::Map::get)]
    i01_far_branch crate::mirror::far_branch, 75;
    #[kani::solver(z3)]
    i01_mul crate::mirror::m_mul, 4;
    #[kani::solver(z3)]
    i01_mulh crate::mirror::m_mulh, 4;
    #[kani::solver(z3)]
    i01_mulhsu crate::mirror::m_mulhsu, 4;
    #[kani::solver(z3)]
    i01_mulhu crate::mirror::m_mulhu, 4;
    #[kani::solver(z3)]
    i01_div crate::mirror::m_div, 4;
    #[kani::solver(z3)]
    i01_divu crate::mirror::m_divu, 4;
    #[kani::solver(z3)]
    i01_rem crate::mirror::m_rem, 4;
    #[kani::solver(z3)]
    i01_remu crate::mirror::m_remu, 4;
    d02_refuse crate::mirror::refuse, 8;
}
