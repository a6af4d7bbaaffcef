//! RV32M results. Where the product's upper half is asked for, several equal ways of writing it are
//! accepted: they denote the same number, and the solver closes the goal on the one the code resembles.
fn hi(p: u64) -> [u32; 2] {
    [(p >> 32) as u32, ((p as i64) >> 32) as u32]
}
/// the same products, 128 bits wide
fn wide(p: u128) -> [u32; 2] {
    [(p >> 32) as u32, ((p as i128) >> 32) as u32]
}
fn any(have: u32, forms: &[[u32; 2]]) -> bool {
    let mut ok = false;
    let mut i = 0;
    while i < forms.len() {
        ok = ok || have == forms[i][0] || have == forms[i][1];
        i += 1;
    }
    ok
}
pub fn check(f3: u32, a: u32, b: u32, have: u32) {
    let (sa, sb) = (a as i32 as i64, b as i32 as i64);
    let (ua, ub) = (a as u64, b as u64);
    match f3 {
        0 => assert!(have == a.wrapping_mul(b) || have == ua.wrapping_mul(ub) as u32, "mul"),
        1 => assert!(any(have, &[hi(sa.wrapping_mul(sb) as u64), hi(sb.wrapping_mul(sa) as u64), wide((sa as i128).wrapping_mul(sb as i128) as u128)]), "mulh"),
        2 => assert!(any(have, &[hi(sa.wrapping_mul(ub as i64) as u64), hi((ub as i64).wrapping_mul(sa) as u64), wide((sa as i128).wrapping_mul(ub as i128) as u128)]), "mulhsu"),
        3 => assert!(any(have, &[hi(ua.wrapping_mul(ub)), hi(ub.wrapping_mul(ua)), wide((ua as u128).wrapping_mul(ub as u128))]), "mulhu"),
        4 => assert!(have == if b == 0 { u32::MAX } else { (a as i32).wrapping_div(b as i32) as u32 }, "div"),
        5 => assert!(have == if b == 0 { u32::MAX } else { a / b }, "divu"),
        6 => assert!(have == if b == 0 { a } else { (a as i32).wrapping_rem(b as i32) as u32 }, "rem"),
        _ => assert!(have == if b == 0 { a } else { a % b }, "remu"),
    }
}
