//! VERIF-SHIM. Symbolic value domain that replaces the lattice arithmetic.
//!
//! Every plaintext coefficient is an element m of Z_4 (units of a quarter of the torus: the message
//! bit 1 at `TorusPrecision(2)` is m = 1).  m is a pair of literals (hi, lo) of one global and-inverter
//! style graph, packed in the i64 that the real library uses for limb 0 of column 0.
//! Literal = 2*node + sign; node 0 is the constant false, so zeroed memory is the value 0.
use std::collections::HashMap;
use std::sync::{Mutex, MutexGuard, OnceLock};

pub type Lit = u32;
pub const F: Lit = 0;
pub const T: Lit = 1;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const,
    Var(u32),
    And(Lit, Lit),
    Xor(Lit, Lit),
    Ite(Lit, Lit, Lit),
}

/// Number of 64-bit words of simulation patterns that every node carries.
pub const P: usize = 8;
pub type Pat = [u64; P];

/// How `encrypt` treats the bits it is given (symbolic inputs are fed through the public API in
/// several concrete passes, each of which carries one bit of the literal numbers; calls are matched
/// by their order).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EncMode {
    Concrete,
    /// symbolic bits are 0
    Base,
    /// symbolic bits carry bit k of their literal
    Pass(u32),
    /// write the literals
    Finish,
    /// compare the bits with the literals' simulation pattern number k
    Check(usize),
}

/// What `decode` returns.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DecMode {
    /// The value has to be a constant.
    Concrete,
    /// Bit k of the literal of the low bit; hi is recorded as an obligation.
    Bit(u32),
}

/// L was replaced by C, which is defined to be S.
#[derive(Clone, Copy, Debug)]
pub struct Cut {
    pub l: Lit,
    pub c: Lit,
    pub s: Lit,
    pub group: u32,
}

pub struct Aig {
    pub nodes: Vec<Node>,
    pub sim: Vec<Pat>,
    uniq: HashMap<Node, u32>,
    pub nvars: u32,
    pub enc: EncMode,
    enc_seq: usize,
    enc_log: Vec<Vec<u32>>,
    pub enc_mismatch: u64,
    pub enc_checked: u64,
    pub dec: DecMode,
    pub boots: u64,
    /// literals that have to be 0 (bit 1 of a message that has to be a bit)
    pub hi_obl: Vec<(Lit, u8)>,
    pub hi_tag: u8,
    /// pattern -> (literal of the cut, its definition, group)
    cand: HashMap<Pat, (Lit, Lit, u32)>,
    pub cuts: Vec<Cut>,
    pub uncut: u64,
    pub ops: u64,
    /// no simulation patterns
    pub nosim: bool,
    poison: i64,
    rng: u64,
}

fn neg_pat(p: &Pat) -> Pat {
    let mut r = *p;
    for x in r.iter_mut() {
        *x = !*x;
    }
    r
}

impl Aig {
    pub fn new() -> Self {
        Aig {
            nodes: vec![Node::Const],
            sim: vec![[0u64; P]],
            uniq: HashMap::new(),
            nvars: 0,
            enc: EncMode::Concrete,
            enc_seq: 0,
            enc_log: vec![],
            enc_mismatch: 0,
            enc_checked: 0,
            dec: DecMode::Concrete,
            boots: 0,
            hi_obl: vec![],
            hi_tag: 0,
            cand: HashMap::new(),
            cuts: vec![],
            uncut: 0,
            ops: 0,
            nosim: false,
            poison: 0,
            rng: 0x9E3779B97F4A7C15,
        }
    }
    pub fn pat(&self, l: Lit) -> Pat {
        let p = &self.sim[(l >> 1) as usize];
        if l & 1 == 1 {
            neg_pat(p)
        } else {
            *p
        }
    }
    fn mk_pat(&mut self, n: Node, p: Pat) -> Lit {
        let i = self.nodes.len() as u32;
        assert!(i < (1 << 30));
        self.nodes.push(n);
        self.sim.push(p);
        self.uniq.insert(n, i);
        i << 1
    }
    fn mk(&mut self, n: Node) -> Lit {
        if let Some(i) = self.uniq.get(&n) {
            return *i << 1;
        }
        let mut p = [0u64; P];
        match n {
            _ if self.nosim => {}
            Node::And(a, b) => {
                let (a, b) = (self.pat(a), self.pat(b));
                for i in 0..P {
                    p[i] = a[i] & b[i];
                }
            }
            Node::Xor(a, b) => {
                let (a, b) = (self.pat(a), self.pat(b));
                for i in 0..P {
                    p[i] = a[i] ^ b[i];
                }
            }
            Node::Ite(c, a, b) => {
                let (c, a, b) = (self.pat(c), self.pat(a), self.pat(b));
                for i in 0..P {
                    p[i] = (c[i] & a[i]) | (!c[i] & b[i]);
                }
            }
            _ => unreachable!(),
        }
        self.mk_pat(n, p)
    }
    pub fn var_with(&mut self, p: Pat) -> Lit {
        let v = self.nvars;
        self.nvars += 1;
        self.mk_pat(Node::Var(v), p)
    }
    pub fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D)
    }
    /// content of a ciphertext that has been consumed
    pub fn poison(&mut self) -> i64 {
        if self.poison == 0 {
            let mut p = [[0u64; P]; 2];
            for q in p.iter_mut() {
                for x in q.iter_mut() {
                    *x = self.rnd();
                }
            }
            let a = self.var_with(p[0]);
            let b = self.var_with(p[1]);
            self.poison = pack(a, b);
        }
        self.poison
    }
    /// Registers a specification bit: a bootstrapped bit with the same pattern is replaced by the
    /// returned cut literal (and the equality recorded as an obligation).
    pub fn candidate(&mut self, s: Lit, group: u32) -> Lit {
        let neg = s & 1;
        let s0 = s ^ neg;
        let leaf = matches!(self.nodes[(s0 >> 1) as usize], Node::Const | Node::Var(_));
        let p = self.pat(s0);
        let c0 = if leaf {
            s0
        } else {
            // one cut per definition
            match self.cand.get(&p) {
                Some((c, d, _)) if *d == s0 => *c,
                Some((c, d, _)) if *d == s0 ^ 1 => *c ^ 1,
                _ => self.var_with(p),
            }
        };
        let np = neg_pat(&p);
        if !self.cand.contains_key(&p) && !self.cand.contains_key(&np) {
            self.cand.insert(p, (c0, s0, group));
            self.cand.insert(np, (c0 ^ 1, s0 ^ 1, group));
        }
        c0 ^ neg
    }
    pub fn clear_candidates(&mut self) {
        self.cand.clear();
        let p = [0u64; P];
        self.cand.insert(p, (F, F, u32::MAX));
        self.cand.insert(neg_pat(&p), (T, T, u32::MAX));
    }
    /// Ideal circuit bootstrapping of a message bit.
    pub fn boot(&mut self, lo: Lit, hi: Lit) -> Lit {
        self.boots += 1;
        if hi != F {
            let t = self.hi_tag;
            self.hi_obl.push((hi, t));
        }
        if matches!(self.nodes[(lo >> 1) as usize], Node::Const | Node::Var(_)) {
            return lo;
        }
        let p = self.pat(lo);
        match self.cand.get(&p) {
            Some((c, s, g)) => {
                let cut = Cut { l: lo, c: *c, s: *s, group: *g };
                self.cuts.push(cut);
                cut.c
            }
            None => {
                self.uncut += 1;
                lo
            }
        }
    }
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if a == F || a == (b ^ 1) {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        self.mk(Node::And(a, b))
    }
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let s = (a ^ b) & 1;
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        if a == F {
            return b ^ s;
        }
        if a == b {
            return s;
        }
        self.mk(Node::Xor(a, b)) ^ s
    }
    pub fn ite(&mut self, c: Lit, t: Lit, e: Lit) -> Lit {
        if t == e {
            return t;
        }
        if c == T {
            return t;
        }
        if c == F {
            return e;
        }
        let (c, mut t, mut e) = if c & 1 == 1 { (c ^ 1, e, t) } else { (c, t, e) };
        // same condition below
        if let Node::Ite(c2, t2, _) = self.nodes[(t >> 1) as usize] {
            if c2 == c {
                t = t2 ^ (t & 1);
            }
        }
        if let Node::Ite(c2, _, e2) = self.nodes[(e >> 1) as usize] {
            if c2 == c {
                e = e2 ^ (e & 1);
            }
        }
        if t == e {
            return t;
        }
        if t == T || t == c {
            return self.or(c, e);
        }
        if t == F || t == (c ^ 1) {
            return self.and(c ^ 1, e);
        }
        if e == T || e == (c ^ 1) {
            return self.or(c ^ 1, t);
        }
        if e == F || e == c {
            return self.and(c, t);
        }
        if t == (e ^ 1) {
            return self.xor(c, e);
        }
        let s = t & 1;
        self.mk(Node::Ite(c, t ^ s, e ^ s)) ^ s
    }
    pub fn z_add(&mut self, a: i64, b: i64) -> i64 {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let (ah, al) = unpack(a);
        let (bh, bl) = unpack(b);
        let lo = self.xor(al, bl);
        let cy = self.and(al, bl);
        let h = self.xor(ah, bh);
        let hi = self.xor(h, cy);
        pack(hi, lo)
    }
    pub fn z_neg(&mut self, a: i64) -> i64 {
        if a == 0 {
            return 0;
        }
        let (h, l) = unpack(a);
        let hi = self.xor(h, l);
        pack(hi, l)
    }
    pub fn z_sub(&mut self, a: i64, b: i64) -> i64 {
        if a == b {
            return 0;
        }
        let nb = self.z_neg(b);
        self.z_add(a, nb)
    }
    pub fn z_ite(&mut self, c: Lit, a: i64, b: i64) -> i64 {
        if a == b {
            return a;
        }
        let (ah, al) = unpack(a);
        let (bh, bl) = unpack(b);
        let lo = self.ite(c, al, bl);
        let hi = self.ite(c, ah, bh);
        pack(hi, lo)
    }
    pub fn set_enc(&mut self, m: EncMode) {
        self.enc = m;
        self.enc_seq = 0;
        if m == EncMode::Base {
            self.enc_log.clear();
        }
    }
}

pub fn pack(hi: Lit, lo: Lit) -> i64 {
    (((hi as u64) << 32) | lo as u64) as i64
}
pub fn unpack(v: i64) -> (Lit, Lit) {
    (((v as u64) >> 32) as u32, v as u64 as u32)
}

static AIG: OnceLock<Mutex<Aig>> = OnceLock::new();

pub fn aig() -> MutexGuard<'static, Aig> {
    AIG.get_or_init(|| Mutex::new(Aig::new()))
        .lock()
        .unwrap_or_else(|e| e.into_inner())
}

/// m (an integer encoded at precision k) as a Z_4 constant.
pub fn encode(k: usize, m: i64) -> i64 {
    let z = match k {
        2 => m & 3,
        1 => (m & 1) << 1,
        _ => {
            assert!(m == 0, "VERIF-SHIM: encoding at precision {k} is not supported");
            0
        }
    };
    pack(((z >> 1) & 1) as u32, (z & 1) as u32)
}

pub fn decode(k: usize, v: i64) -> i64 {
    assert!(k == 2, "VERIF-SHIM: decoding at precision {k} is not supported");
    let mut g = aig();
    let (hi, lo) = unpack(v);
    match g.dec {
        DecMode::Concrete => {
            assert!(hi < 2 && lo < 2, "VERIF-SHIM: concrete decode of a symbolic value");
            [0i64, 1, -2, -1][((hi << 1) | lo) as usize]
        }
        DecMode::Bit(k) => {
            if k == 0 && hi != 0 {
                let t = g.hi_tag;
                g.hi_obl.push((hi, t));
            }
            ((lo >> k) & 1) as i64
        }
    }
}

/// Encryption of one polynomial of (constant) plaintext coefficients.
pub fn encrypt_poly(dst: &mut [i64], pt: &[i64]) {
    let mut g = aig();
    let mode = g.enc;
    if mode == EncMode::Concrete {
        dst.copy_from_slice(pt);
        return;
    }
    let seq = g.enc_seq;
    g.enc_seq += 1;
    let bits: Vec<u32> = pt
        .iter()
        .map(|v| {
            let (hi, lo) = unpack(*v);
            assert!(hi == 0 && lo < 2, "VERIF-SHIM: symbolic input that is not a bit");
            lo
        })
        .collect();
    match mode {
        EncMode::Base => {
            assert!(g.enc_log.len() == seq);
            g.enc_log.push(bits);
        }
        EncMode::Pass(k) => {
            let log = &mut g.enc_log[seq];
            assert!(log.len() == bits.len());
            // base bit in bit 31, literal in bits 0..31
            if k == 0 {
                for l in log.iter_mut() {
                    *l <<= 31;
                }
            }
            for (l, b) in log.iter_mut().zip(&bits) {
                *l |= ((*l >> 31) ^ b) << k;
            }
        }
        EncMode::Finish => {
            for (d, l) in dst.iter_mut().zip(&g.enc_log[seq]) {
                *d = pack(0, (l & 0x7FFF_FFFF) ^ (l >> 31));
            }
        }
        EncMode::Check(k) => {
            let mut bad = 0;
            for (b, l) in bits.iter().zip(&g.enc_log[seq]) {
                let lit = (l & 0x7FFF_FFFF) ^ (l >> 31);
                if lit >= (g.nodes.len() as u32) * 2 {
                    bad += 1;
                    continue;
                }
                let v = (g.pat(lit)[k / 64] >> (k % 64)) & 1;
                if v as u32 != *b {
                    bad += 1;
                }
            }
            g.enc_mismatch += bad;
            g.enc_checked += bits.len() as u64;
        }
        EncMode::Concrete => unreachable!(),
    }
}

pub fn vec_ite(c: Lit, res: &mut [i64], t: &[i64], e: &[i64]) {
    let mut g = aig();
    g.ops += 1;
    for ((r, t), e) in res.iter_mut().zip(t).zip(e) {
        *r = if *t == *e { *t } else { g.z_ite(c, *t, *e) };
    }
}
pub fn vec_add(res: &mut [i64], a: &[i64], b: &[i64]) {
    let mut g = aig();
    g.ops += 1;
    for ((r, a), b) in res.iter_mut().zip(a).zip(b) {
        *r = g.z_add(*a, *b);
    }
}
pub fn vec_sub(res: &mut [i64], a: &[i64], b: &[i64]) {
    let mut g = aig();
    g.ops += 1;
    for ((r, a), b) in res.iter_mut().zip(a).zip(b) {
        *r = g.z_sub(*a, *b);
    }
}
/// res = a * X^k mod X^n + 1
pub fn vec_rotate(k: i64, res: &mut [i64], a: &[i64]) {
    let mut g = aig();
    g.ops += 1;
    let n = a.len() as i64;
    for (i, x) in a.iter().enumerate() {
        let p = (i as i64 + k).rem_euclid(2 * n);
        if p < n {
            res[p as usize] = *x;
        } else {
            res[(p - n) as usize] = g.z_neg(*x);
        }
    }
}
/// X -> X^p
pub fn vec_automorphism(p: i64, res: &mut [i64], a: &[i64]) {
    let mut g = aig();
    let n = a.len() as i64;
    for (i, x) in a.iter().enumerate() {
        let q = (i as i64 * p).rem_euclid(2 * n);
        if q < n {
            res[q as usize] = *x;
        } else {
            res[(q - n) as usize] = g.z_neg(*x);
        }
    }
}
