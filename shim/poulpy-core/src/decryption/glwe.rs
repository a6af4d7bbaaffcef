use poulpy_hal::{
    api::{
        ModuleN, ScratchTakeBasic, SvpApplyDftToDftInplace, VecZnxBigAddInplace, VecZnxBigAddSmallInplace, VecZnxBigBytesOf,
        VecZnxBigNormalize, VecZnxDftApply, VecZnxDftBytesOf, VecZnxIdftApplyConsume, VecZnxNormalizeTmpBytes,
    },
    layouts::{Backend, DataRef, Module, Scratch, ZnxView, ZnxViewMut},
};

use crate::layouts::{
    GLWE, GLWEInfos, GLWEPlaintext, GLWEPlaintextToMut, GLWEToRef, LWEInfos,
    prepared::{GLWESecretPrepared, GLWESecretPreparedToRef},
};

impl GLWE<Vec<u8>> {
    pub fn decrypt_tmp_bytes<A, M, BE: Backend>(module: &M, a_infos: &A) -> usize
    where
        A: GLWEInfos,
        M: GLWEDecrypt<BE>,
    {
        module.glwe_decrypt_tmp_bytes(a_infos)
    }
}

impl<DataSelf: DataRef> GLWE<DataSelf> {
    pub fn decrypt<P, S, M, BE: Backend>(&self, module: &M, pt: &mut P, sk: &S, scratch: &mut Scratch<BE>)
    where
        P: GLWEPlaintextToMut,
        S: GLWESecretPreparedToRef<BE>,
        M: GLWEDecrypt<BE>,
        Scratch<BE>: ScratchTakeBasic,
    {
        module.glwe_decrypt(self, pt, sk, scratch);
    }
}

pub trait GLWEDecrypt<BE: Backend>
where
    Self: Sized
        + ModuleN
        + VecZnxDftBytesOf
        + VecZnxNormalizeTmpBytes
        + VecZnxBigBytesOf
        + VecZnxDftApply<BE>
        + SvpApplyDftToDftInplace<BE>
        + VecZnxIdftApplyConsume<BE>
        + VecZnxBigAddInplace<BE>
        + VecZnxBigAddSmallInplace<BE>
        + VecZnxBigNormalize<BE>,
{
    fn glwe_decrypt_tmp_bytes<A>(&self, infos: &A) -> usize
    where
        A: GLWEInfos,
    {
        let size: usize = infos.size();
        (self.vec_znx_normalize_tmp_bytes() | self.bytes_of_vec_znx_dft(1, size)) + self.bytes_of_vec_znx_dft(1, size)
    }

    fn glwe_decrypt<R, P, S>(&self, res: &R, pt: &mut P, sk: &S, scratch: &mut Scratch<BE>)
    where
        R: GLWEToRef,
        P: GLWEPlaintextToMut,
        S: GLWESecretPreparedToRef<BE>,
        Scratch<BE>: ScratchTakeBasic,
    {
        // VERIF-SHIM
        let res: &GLWE<&[u8]> = &res.to_ref();
        let pt: &mut GLWEPlaintext<&mut [u8]> = &mut pt.to_ref();
        let sk: &GLWESecretPrepared<&[u8], BE> = &sk.to_ref();
        assert_eq!(res.rank(), sk.rank());
        assert_eq!(res.n(), sk.n());
        assert_eq!(pt.n(), sk.n());
        let (_c0_big, _scratch_1) = scratch.take_vec_znx_big::<Self, BE>(self, 1, res.size());
        pt.data.at_mut(0, 0).copy_from_slice(res.data.at(0, 0));
        pt.base2k = res.base2k();
        pt.k = pt.k().min(res.k());
    }
}

impl<BE: Backend> GLWEDecrypt<BE> for Module<BE> where
    Self: ModuleN
        + VecZnxDftBytesOf
        + VecZnxNormalizeTmpBytes
        + VecZnxBigBytesOf
        + VecZnxDftApply<BE>
        + SvpApplyDftToDftInplace<BE>
        + VecZnxIdftApplyConsume<BE>
        + VecZnxBigAddInplace<BE>
        + VecZnxBigAddSmallInplace<BE>
        + VecZnxBigNormalize<BE>
{
}
