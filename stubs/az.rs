//! Stand-in for az: the trait only; implemented for rug's Integer stand-in.
pub trait SaturatingAs { fn saturating_as<T>(self) -> T where Self: SaturatingCast<T>, Self: Sized { self.saturating_cast() } }
pub trait SaturatingCast<T> { fn saturating_cast(self) -> T; }
impl<S> SaturatingAs for S {}
