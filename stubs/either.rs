//! Stand-in for the `either` crate with its `serde` feature (that feature is not among the prebuilt libraries).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Either<L, R> { Left(L), Right(R) }
pub use Either::{Left, Right};
pub mod serde_untagged {
    use super::Either;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    #[derive(Deserialize)]
    #[serde(untagged)]
    enum Untagged<L, R> { Left(L), Right(R) }
    pub fn serialize<L: Serialize, R: Serialize, S: Serializer>(e: &Either<L, R>, s: S) -> Result<S::Ok, S::Error> {
        match e { Either::Left(l) => l.serialize(s), Either::Right(r) => r.serialize(s) }
    }
    pub fn deserialize<'de, L: Deserialize<'de>, R: Deserialize<'de>, D: Deserializer<'de>>(d: D) -> Result<Either<L, R>, D::Error> {
        Untagged::deserialize(d).map(|u| match u { Untagged::Left(l) => Either::Left(l), Untagged::Right(r) => Either::Right(r) })
    }
}
