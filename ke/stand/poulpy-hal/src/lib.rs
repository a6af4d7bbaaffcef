//! Stand-in: only the names the front end uses.
pub mod api {
    pub trait ScratchOwnedAlloc { fn alloc(size: usize) -> Self; }
    pub trait ScratchOwnedBorrow { type S; fn borrow(&mut self) -> &mut Self::S; }
}
pub mod layouts {
    pub struct Scratch<B>(std::marker::PhantomData<B>);
    pub struct ScratchOwned<B>(Scratch<B>);
    impl<B> super::api::ScratchOwnedAlloc for ScratchOwned<B> {
        fn alloc(_: usize) -> Self { ScratchOwned(Scratch(std::marker::PhantomData)) }
    }
    impl<B> super::api::ScratchOwnedBorrow for ScratchOwned<B> {
        type S = Scratch<B>;
        fn borrow(&mut self) -> &mut Scratch<B> { &mut self.0 }
    }
    pub struct Module<B>(pub std::marker::PhantomData<B>);
}
pub mod source {
    pub struct Source;
    impl Source { pub fn new(_: [u8; 32]) -> Self { Source } }
}
