use std::collections::HashMap;

use poulpy_hal::{
    api::ModuleLogN,
    layouts::{Backend, GaloisElement, Module, Scratch, ZnxView, ZnxViewMut},
};

use crate::{
    GLWEAdd, GLWEAutomorphism, GLWECopy, GLWENormalize, GLWERotate, GLWEShift, GLWESub, GLWETrace, ScratchTakeCore,
    layouts::{GGLWEInfos, GGLWEPreparedToRef, GLWE, GLWEAutomorphismKeyHelper, GLWEInfos, GLWEToMut, GetGaloisElement},
};
pub trait GLWEPacking<BE: Backend> {
    fn glwe_pack_galois_elements(&self) -> Vec<i64>;

    fn glwe_pack_tmp_bytes<R, K>(&self, res: &R, key: &K) -> usize
    where
        R: GLWEInfos,
        K: GGLWEInfos;

    /// Packs [x_0: GLWE(m_0), x_1: GLWE(m_1), ..., x_i: GLWE(m_i)]
    /// to [0: GLWE(m_0 * X^x_0 + m_1 * X^x_1 + ... + m_i * X^x_i)]
    fn glwe_pack<R, A, K, H>(
        &self,
        res: &mut R,
        a: HashMap<usize, &mut A>,
        log_gap_out: usize,
        keys: &H,
        scratch: &mut Scratch<BE>,
    ) where
        R: GLWEToMut + GLWEInfos,
        A: GLWEToMut + GLWEInfos,
        K: GGLWEPreparedToRef<BE> + GetGaloisElement + GGLWEInfos,
        H: GLWEAutomorphismKeyHelper<K, BE>;
}

impl<BE: Backend> GLWEPacking<BE> for Module<BE>
where
    Self: GLWEAutomorphism<BE>
        + GaloisElement
        + ModuleLogN
        + GLWERotate<BE>
        + GLWESub
        + GLWEShift<BE>
        + GLWEAdd
        + GLWENormalize<BE>
        + GLWECopy
        + GLWETrace<BE>,
    Scratch<BE>: ScratchTakeCore<BE>,
{
    fn glwe_pack_galois_elements(&self) -> Vec<i64> {
        self.glwe_trace_galois_elements()
    }

    fn glwe_pack_tmp_bytes<R, K>(&self, res: &R, key: &K) -> usize
    where
        R: GLWEInfos,
        K: GGLWEInfos,
    {
        self.glwe_rotate_tmp_bytes()
            .max(self.glwe_rsh_tmp_byte())
            .max(self.glwe_normalize_tmp_bytes())
            .max(self.glwe_automorphism_tmp_bytes(res, res, key))
            + GLWE::bytes_of_from_infos(res)
    }

    /// Packs [x_0: GLWE(m_0), x_1: GLWE(m_1), ..., x_i: GLWE(m_i)]
    /// to [0: GLWE(m_0 * X^x_0 + m_1 * X^x_1 + ... + m_i * X^x_i)]
    fn glwe_pack<R, A, K, H>(
        &self,
        res: &mut R,
        mut a: HashMap<usize, &mut A>,
        log_gap_out: usize,
        keys: &H,
        scratch: &mut Scratch<BE>,
    ) where
        R: GLWEToMut + GLWEInfos,
        A: GLWEToMut + GLWEInfos,
        K: GGLWEPreparedToRef<BE> + GetGaloisElement + GGLWEInfos,
        H: GLWEAutomorphismKeyHelper<K, BE>,
    {
        assert!(*a.keys().max().unwrap() < self.n());

        let log_n: usize = self.log_n();

        // VERIF-SHIM: ideal packing
        let mut packed: Vec<i64> = vec![0i64; self.n()];
        for i in 0..(log_n - log_gap_out) {
            if i == 0 {
                let _: &K = keys.get_automorphism_key(-1).unwrap();
            } else {
                let _: &K = keys.get_automorphism_key(self.galois_element(1 << (i - 1))).unwrap();
            }
        }
        let gap: usize = 1 << log_gap_out;
        for (x, ct) in a.iter_mut() {
            let mut ct = ct.to_mut();
            if x % gap == 0 {
                packed[*x] = ct.data_mut().at(0, 0)[0];
            }
            // the inputs are consumed: what they hold afterwards is unspecified
            let poison: i64 = poulpy_hal::verif::aig().poison();
            ct.data_mut().at_mut(0, 0).fill(poison);
        }
        assert!(a.keys().any(|x| x % gap == 0));
        let mut tmp: GLWE<Vec<u8>> = GLWE::alloc_from_infos(res);
        tmp.data_mut().at_mut(0, 0).copy_from_slice(&packed);
        self.glwe_trace(res, log_n - log_gap_out, &tmp, keys, scratch);
    }
}

