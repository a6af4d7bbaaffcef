//! The machine under test, driven through its public API (plus two decrypting accessors).
use fhevm::{
    instructions::{Instruction, InstructionsParser},
    interpreter::Interpreter,
    keys::{VMKeys, VMKeysPrepared},
    parameters::CryptographicParameters,
};
use poulpy_core::layouts::{GLWEInfos, GLWESecret, GLWESecretPrepared, LWESecret};
use poulpy_cpu_avx::FFT64Avx as BE;
use poulpy_hal::{
    api::{ScratchOwnedAlloc, ScratchOwnedBorrow},
    layouts::ScratchOwned,
    source::Source,
};
use poulpy_schemes::bin_fhe::blind_rotation::CGGI;

pub struct Ctx {
    pub params: CryptographicParameters<BE>,
    skp: GLWESecretPrepared<Vec<u8>, BE>,
    kp: VMKeysPrepared<Vec<u8>, CGGI, BE>,
    scratch: ScratchOwned<BE>,
    xa: Source,
    xe: Source,
    pub verbose: bool,
}

impl Ctx {
    pub fn new(seed: u8) -> Self {
        let params = CryptographicParameters::<BE>::new();
        let module = params.module();
        let mut xs = Source::new([seed; 32]);
        let mut xa = Source::new([seed.wrapping_add(1); 32]);
        let mut xe = Source::new([seed.wrapping_add(2); 32]);
        let mut scratch: ScratchOwned<BE> = ScratchOwned::alloc(1 << 28);
        let mut sk = GLWESecret::alloc(params.n_glwe(), params.rank());
        sk.fill_ternary_prob(0.5, &mut xs);
        let mut sk_lwe = LWESecret::alloc(params.n_lwe());
        sk_lwe.fill_binary_block(params.lwe_block_size(), &mut xs);
        let mut skp: GLWESecretPrepared<Vec<u8>, BE> = GLWESecretPrepared::alloc(module, sk.rank());
        skp.prepare(module, &sk);
        let key: VMKeys<Vec<u8>, CGGI> = VMKeys::encrypt_sk(&params, &sk_lwe, &sk, &mut xa, &mut xe);
        let mut kp: VMKeysPrepared<Vec<u8>, CGGI, BE> = VMKeysPrepared::alloc(&params);
        kp.prepare(module, &key, scratch.borrow());
        Ctx { params, skp, kp, scratch, xa, xe, verbose: false }
    }
    pub fn interpreter(&self, rom: usize, ram: usize, threads: usize) -> Interpreter<BE> {
        let mut it = Interpreter::new(&self.params, rom, ram);
        it.set_threads(threads);
        it.set_verbose_timings(self.verbose);
        it
    }
    pub fn load_rom(&mut self, it: &mut Interpreter<BE>, rom: &[u32]) {
        let mut p = InstructionsParser::new();
        for w in rom {
            p.add(Instruction::new(*w));
        }
        it.instructions_encrypt_sk(self.params.module(), &p, &self.skp, &mut self.xa, &mut self.xe, self.scratch.borrow());
    }
    pub fn load_regs(&mut self, it: &mut Interpreter<BE>, regs: &[u32]) {
        it.init_registers(self.params.module(), regs, &self.skp, &mut self.xa, &mut self.xe, self.scratch.borrow());
    }
    pub fn load_ram(&mut self, it: &mut Interpreter<BE>, ram: &[u32]) {
        it.ram_encrypt_sk(self.params.module(), ram, &self.skp, &mut self.xa, &mut self.xe, self.scratch.borrow());
    }
    pub fn cycle(&mut self, it: &mut Interpreter<BE>) {
        it.cycle(self.params.module(), &self.kp, self.scratch.borrow());
    }
    pub fn regs(&mut self, it: &Interpreter<BE>) -> Vec<u32> {
        it.verif_registers(self.params.module(), &self.skp, self.scratch.borrow())
    }
    pub fn pc(&mut self, it: &Interpreter<BE>) -> u32 {
        it.verif_pc(self.params.module(), &self.skp, self.scratch.borrow())
    }
    pub fn ram(&mut self, it: &mut Interpreter<BE>, size: usize) -> Vec<u32> {
        let mut out = vec![0u32; size];
        it.ram_decrypt(self.params.module(), &mut out, &self.skp, self.scratch.borrow());
        out
    }
}
