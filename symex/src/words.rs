//! 32-bit words of literals.
use poulpy_hal::verif::{Aig, Lit, F, T};

pub type W = [Lit; 32];

pub fn konst(v: u32) -> W {
    let mut w = [F; 32];
    for i in 0..32 {
        w[i] = (v >> i) & 1;
    }
    w
}
pub fn add(g: &mut Aig, a: &W, b: &W, mut c: Lit) -> W {
    let mut r = [F; 32];
    for i in 0..32 {
        let x = g.xor(a[i], b[i]);
        r[i] = g.xor(x, c);
        let t = g.and(a[i], b[i]);
        let u = g.and(x, c);
        c = g.or(t, u);
    }
    r
}
pub fn not(a: &W) -> W {
    let mut r = *a;
    for x in r.iter_mut() {
        *x ^= 1;
    }
    r
}
pub fn sub(g: &mut Aig, a: &W, b: &W) -> W {
    add(g, a, &not(b), T)
}
pub fn ult(g: &mut Aig, a: &W, b: &W) -> Lit {
    // borrow out of a - b
    let mut c = F;
    for i in 0..32 {
        let x = g.xor(a[i], b[i]);
        c = g.ite(x, b[i], c);
    }
    c
}
pub fn slt(g: &mut Aig, a: &W, b: &W) -> Lit {
    let (mut x, mut y) = (*a, *b);
    x[31] ^= 1;
    y[31] ^= 1;
    ult(g, &x, &y)
}
pub fn eq(g: &mut Aig, a: &[Lit], b: &[Lit]) -> Lit {
    let mut r = T;
    for i in 0..a.len() {
        let x = g.xor(a[i], b[i]);
        r = g.and(r, x ^ 1);
    }
    r
}
pub fn ite(g: &mut Aig, c: Lit, a: &W, b: &W) -> W {
    let mut r = [F; 32];
    for i in 0..32 {
        r[i] = g.ite(c, a[i], b[i]);
    }
    r
}
pub fn zip(g: &mut Aig, a: &W, b: &W, f: fn(&mut Aig, Lit, Lit) -> Lit) -> W {
    let mut r = [F; 32];
    for i in 0..32 {
        r[i] = f(g, a[i], b[i]);
    }
    r
}
/// kind: 0 left, 1 right logical, 2 right arithmetic
pub fn shift(g: &mut Aig, a: &W, sh: &[Lit], kind: u8) -> W {
    let mut r = *a;
    for k in 0..5 {
        let d = 1usize << k;
        let mut t = [F; 32];
        for i in 0..32 {
            t[i] = match kind {
                0 => {
                    if i >= d {
                        r[i - d]
                    } else {
                        F
                    }
                }
                _ => {
                    if i + d < 32 {
                        r[i + d]
                    } else if kind == 2 {
                        a[31]
                    } else {
                        F
                    }
                }
            };
        }
        r = ite(g, sh[k], &t, &r);
    }
    r
}
/// table[idx], entries past the end repeat the last one
pub fn select(g: &mut Aig, idx: &[Lit], table: &[W]) -> W {
    let mut cur: Vec<W> = table.to_vec();
    for b in idx {
        let mut nxt = Vec::with_capacity(cur.len().div_ceil(2));
        for p in cur.chunks(2) {
            nxt.push(if p.len() == 2 { ite(g, *b, &p[1], &p[0]) } else { p[0] });
        }
        cur = nxt;
    }
    assert!(cur.len() == 1);
    cur[0]
}
pub fn bit_word(l: Lit) -> W {
    let mut r = [F; 32];
    r[0] = l;
    r
}
pub fn sext(a: &[Lit]) -> W {
    let mut r = [*a.last().unwrap(); 32];
    r[..a.len()].copy_from_slice(a);
    r
}
