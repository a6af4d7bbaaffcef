//! Stand-in for the encrypted machine: its contract (properties V01-V08), one RV32I step per cycle on
//! plain values. The instruction decoder is the real one.
#[path = "/repo/fhevm/src/instructions/mod.rs"]
pub mod instructions;
#[allow(unused_imports)]
pub(crate) use instructions::*;
#[path = "../../../../kani/src/isa.rs"]
#[allow(dead_code)]
mod isa;

use poulpy_core::layouts::{prepared::GLWESecretPrepared, Degree, GLWESecret, LWESecret, Rank};
use poulpy_hal::{layouts::{Module, Scratch}, source::Source};
use std::marker::PhantomData;

pub mod parameters {
    use super::*;
    pub struct CryptographicParameters<B>(Module<B>);
    impl<B> CryptographicParameters<B> {
        pub fn new() -> Self { Self(Module(PhantomData)) }
        pub fn module(&self) -> &Module<B> { &self.0 }
        pub fn n_glwe(&self) -> Degree { Degree }
        pub fn n_lwe(&self) -> Degree { Degree }
        pub fn rank(&self) -> Rank { Rank }
        pub fn lwe_block_size(&self) -> usize { 7 }
    }
}
use parameters::CryptographicParameters;

pub mod keys {
    use super::*;
    pub struct VMKeys<D, A>(PhantomData<(D, A)>);
    impl<D, A> VMKeys<D, A> {
        pub fn encrypt_sk<B>(_: &CryptographicParameters<B>, _: &LWESecret<D>, _: &GLWESecret<D>, _: &mut Source, _: &mut Source) -> Self { Self(PhantomData) }
    }
    pub struct VMKeysPrepared<D, A, B>(PhantomData<(D, A, B)>);
    impl<D, A, B> VMKeysPrepared<D, A, B> {
        pub fn alloc(_: &CryptographicParameters<B>) -> Self { Self(PhantomData) }
        pub fn prepare(&mut self, _: &Module<B>, _: &VMKeys<D, A>, _: &mut Scratch<B>) {}
    }
}
use keys::VMKeysPrepared;

pub struct Interpreter<B> {
    rom: Vec<u32>,
    ram: Vec<u32>,
    regs: [u32; 32],
    pc: u32,
    debug: bool,
    threads: usize,
    _b: PhantomData<B>,
}

impl<B> Interpreter<B> {
    pub fn new(_: &CryptographicParameters<B>, rom_size: usize, ram_size: usize) -> Self {
        Self { rom: vec![0; rom_size], ram: vec![0; ram_size], regs: [0; 32], pc: 0, debug: false, threads: 1, _b: PhantomData }
    }
    pub fn new_with_debug(p: &CryptographicParameters<B>, rom_size: usize, ram_size: usize) -> Self {
        let mut s = Self::new(p, rom_size, ram_size);
        s.debug = true;
        s
    }
    pub fn set_verbose_timings(&mut self, _: bool) {}
    pub fn set_threads(&mut self, threads: usize) { self.threads = threads; }
    pub fn threads(&self) -> usize { self.threads }
    pub fn instructions_encrypt_sk(&mut self, _: &Module<B>, p: &InstructionsParser, _: &GLWESecretPrepared<Vec<u8>, B>, _: &mut Source, _: &mut Source, _: &mut Scratch<B>) {
        if self.debug {
            assert!(p.instructions.len() == self.rom.len());
        }
        for i in 0..p.instructions.len() {
            self.rom[i] = p.get_raw(i).0;
        }
    }
    pub fn ram_encrypt_sk(&mut self, _: &Module<B>, data: &[u32], _: &GLWESecretPrepared<Vec<u8>, B>, _: &mut Source, _: &mut Source, _: &mut Scratch<B>) {
        assert!(data.len() <= self.ram.len() && (!self.debug || data.len() == self.ram.len()));
        self.ram[..data.len()].copy_from_slice(data);
    }
    pub fn ram_decrypt(&mut self, _: &Module<B>, data: &mut [u32], _: &GLWESecretPrepared<Vec<u8>, B>, _: &mut Scratch<B>) {
        assert!(data.len() == self.ram.len());
        data.copy_from_slice(&self.ram);
    }
    pub fn cycle<A>(&mut self, _: &Module<B>, _: &VMKeysPrepared<Vec<u8>, A, B>, _: &mut Scratch<B>) {
        self.step();
    }
    pub fn cycle_debug<A>(&mut self, _: &Module<B>, _: &VMKeysPrepared<Vec<u8>, A, B>, _: &GLWESecretPrepared<Vec<u8>, B>, _: &mut Scratch<B>) {
        assert!(self.debug);
        self.step();
    }
    fn step(&mut self) {
        assert!(self.threads > 0);
        let w = self.rom[(self.pc >> 2) as usize];
        let (a, b) = (self.regs[isa::rs1(w)], self.regs[isa::rs2(w)]);
        let (kind, addr, size) = isa::access(w, a);
        let mut loaded = 0;
        let off = addr.wrapping_sub(isa::RAM_BASE);
        let (k, sh) = ((off >> 2) as usize % self.ram.len(), 8 * (off & 3));
        let mask = ((1u64 << (8 * size)) - 1) as u32;
        match kind {
            isa::Mem::None => {}
            isa::Mem::Load => loaded = (self.ram[k] >> sh) & mask,
            isa::Mem::Store => self.ram[k] = (self.ram[k] & !(mask << sh)) | ((b & mask) << sh),
        }
        if let Some(v) = isa::result(w, a, b, self.pc, loaded) {
            self.regs[isa::rd(w)] = v;
            self.regs[0] = 0;
        }
        self.pc = isa::next_pc(w, a, b, self.pc);
    }
}
