macro_rules! harnesses {
    ($($(#[$a:meta])* $name:ident $f:path, $unwind:literal;)*) => {
        /// runs a harness on the values in nd::VALS
        pub fn run(name: &str) -> bool {
            match name {
                $(stringify!($name) => $f(),)*
                _ => return false,
            }
            true
        }
        #[cfg(kani)]
        mod proofs { $(
            #[kani::proof]
            #[kani::unwind($unwind)]
            $(#[$a])*
            fn $name() { $f() }
        )* }
    };
}
