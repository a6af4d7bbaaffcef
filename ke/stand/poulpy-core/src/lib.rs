//! Stand-in: only the names the front end uses.
pub mod layouts {
    use poulpy_hal::source::Source;
    use std::marker::PhantomData;
    #[derive(Clone, Copy)] pub struct Degree;
    #[derive(Clone, Copy)] pub struct Rank;
    pub struct GLWESecret<D>(PhantomData<D>);
    impl<D> GLWESecret<D> {
        pub fn alloc(_: Degree, _: Rank) -> Self { Self(PhantomData) }
        pub fn fill_ternary_prob(&mut self, _: f64, _: &mut Source) {}
    }
    pub struct LWESecret<D>(PhantomData<D>);
    impl<D> LWESecret<D> {
        pub fn alloc(_: Degree) -> Self { Self(PhantomData) }
        pub fn fill_binary_block(&mut self, _: usize, _: &mut Source) {}
    }
    pub mod prepared {
        use std::marker::PhantomData;
        pub struct GLWESecretPrepared<D, B>(PhantomData<(D, B)>);
        impl<D, B> GLWESecretPrepared<D, B> {
            pub fn alloc(_: &poulpy_hal::layouts::Module<B>, _: super::Rank) -> Self { Self(PhantomData) }
            pub fn prepare(&mut self, _: &poulpy_hal::layouts::Module<B>, _: &super::GLWESecret<D>) {}
        }
    }
}
