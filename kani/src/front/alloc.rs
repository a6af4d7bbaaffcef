//! The guest runtime's allocator, its real source; the stack pointer is whatever the harness says.
use crate::nd;

#[allow(static_mut_refs, dead_code, unused_unsafe, non_upper_case_globals)]
mod real {
    /// `core` with reading the stack pointer replaced
    #[allow(unused_imports)]
    mod core {
        pub use ::core::*;
        pub mod arch {
            macro_rules! asm {
                ($t:literal, out(reg) $v:ident $($rest:tt)*) => { $v = $crate::front::alloc::stack_pointer() };
                ($t:literal, $n:ident = out(reg) $v:ident $($rest:tt)*) => { $v = $crate::front::alloc::stack_pointer() };
            }
            pub(crate) use asm;
        }
    }
    include!("/repo/runtime/src/alloc.rs");
}

static mut SP: usize = 0;
fn stack_pointer() -> usize {
    unsafe { SP }
}
const GAP: usize = 0x100;
const ROOM: usize = 1 << 20;

extern "C" {
    static _end: u8;
}

/// five allocations that fit: aligned, above the program's data, apart from each other, below the stack's reserve
pub fn fits() {
    let end = unsafe { &raw const _end as usize };
    let room = nd::u32() as usize;
    nd::assume(room <= ROOM);
    unsafe { SP = end + room };
    let mut free = end;
    for _ in 0..5 {
        let size = nd::u32() as usize;
        let align = 1usize << (nd::u8() % 13);
        let at = (free + align - 1) & !(align - 1);
        nd::assume(at + size + GAP <= end + room);
        let p = unsafe { real::sys_alloc_aligned(size, align) } as usize;
        assert!(p % align == 0, "alignment");
        assert!(p >= free, "overlap");
        assert!(p + size + GAP <= end + room, "stack");
        free = p + size;
    }
    nd::reached();
}
/// an allocation that would run into the stack's reserve does not return
pub fn full() {
    let end = unsafe { &raw const _end as usize };
    let room = nd::u32() as usize;
    nd::assume(room <= ROOM);
    unsafe { SP = end + room };
    let first = nd::u32() as usize;
    nd::assume(first + GAP <= room);
    let p = unsafe { real::sys_alloc_aligned(first, 1) } as usize;
    let size = nd::u32() as usize;
    nd::assume(p + first + size + GAP > end + room);
    nd::reached();
    let _ = unsafe { real::sys_alloc_aligned(size, 1usize << (nd::u8() % 13)) };
    nd::accepted(size as u32, 0);
}
