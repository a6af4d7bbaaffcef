pub fn znx_zero_ref(res: &mut [i64]) {
    res.fill(0);
}
