//! Nondeterministic values: symbolic under Kani, taken from a list (a counterexample) otherwise.
#[cfg(not(kani))]
thread_local! { pub static VALS: std::cell::RefCell<std::collections::VecDeque<Vec<u8>>> = Default::default(); }

#[cfg(not(kani))]
fn pop(n: usize) -> Vec<u8> {
    VALS.with(|v| v.borrow_mut().pop_front()).unwrap_or(vec![0; n])
}

macro_rules! nd {
    ($($f:ident $t:ty),*) => { $(
        #[cfg(kani)]
        pub fn $f() -> $t { kani::any() }
        #[cfg(not(kani))]
        pub fn $f() -> $t { let b = pop(std::mem::size_of::<$t>()); <$t>::from_le_bytes(b.try_into().expect("width")) }
    )* };
}
nd!(u8 u8, u16 u16, u32 u32, usize usize);

pub fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c {
        println!("outside the assumptions");
        std::process::exit(3);
    }
}

/// the end of the harness is reachable (checked, so that no verdict is vacuous)
pub fn reached() {
    #[cfg(kani)]
    kani::cover!(true, "reached");
}

/// what must be refused was accepted
pub fn accepted(_w: u32, _d: u32) {
    #[cfg(kani)]
    kani::cover!(true, "accepted");
    #[cfg(not(kani))]
    {
        println!("{_w:#x} is accepted");
        std::process::exit(1);
    }
}

/// the switches read from the environment (debug mode, timings, threads): all unset or all "1"
#[cfg(kani)]
pub static mut ENV: bool = false;
pub fn environment() {
    let on = u8() & 1 == 1;
    #[cfg(kani)]
    unsafe {
        ENV = on;
    }
    #[cfg(not(kani))]
    if on {
        for k in ["PHANTOM_DEBUG", "PHANTOM_VERBOSE_TIMINGS", "PHANTOM_THREADS"] {
            std::env::set_var(k, "1");
        }
    }
}
