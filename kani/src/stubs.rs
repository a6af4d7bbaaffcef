//! Models of library code that is not part of what is decided.
#![cfg(kani)]
use std::collections::HashMap;
use std::hash::RandomState;

/// HashMap with u32/usize-sized keys: an association list, newest entry first. Maps are told apart by address.
const CAP: usize = 64;
static mut TAB: [(usize, u32, u32); CAP] = [(0, 0, 0); CAP];
static mut N: usize = 0;

pub fn random_state() -> RandomState {
    unsafe { std::mem::transmute::<[u64; 2], RandomState>([1, 2]) }
}
pub fn insert<K, V, S, A: std::alloc::Allocator>(m: &mut HashMap<K, V, S, A>, k: K, v: V) -> Option<V> {
    assert!(std::mem::size_of::<K>() == 4 && std::mem::size_of::<V>() == 4);
    unsafe {
        assert!(N < CAP);
        TAB[N] = (m as *const _ as usize, std::mem::transmute_copy(&k), std::mem::transmute_copy(&v));
        N += 1;
    }
    None
}
pub struct Map<K, V, S, A>(K, V, S, A);
impl<K, V, S, A: std::alloc::Allocator> Map<K, V, S, A> {
    pub fn get<'a, Q: ?Sized>(m: &'a HashMap<K, V, S, A>, k: &Q) -> Option<&'a V> {
        get_(m, k)
    }
}
fn get_<'a, K, V, S, A: std::alloc::Allocator, Q: ?Sized>(m: &'a HashMap<K, V, S, A>, k: &Q) -> Option<&'a V>
{
    unsafe {
        let key = *(k as *const Q as *const u32);
        let mut i = N;
        while i > 0 {
            i -= 1;
            if TAB[i].0 == m as *const _ as usize && TAB[i].1 == key {
                return Some(&*(&raw const TAB[i].2 as *const V));
            }
        }
    }
    None
}
