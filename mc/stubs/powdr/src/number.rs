//! Field elements, as powdr prints them.
use std::fmt::{Debug, Display};
use std::hash::Hash;

pub type DegreeType = u64;
pub const MODULUS: u64 = 0xffff_ffff_0000_0001;

pub trait FieldElement: 'static + Copy + Clone + Debug + Display + Default + PartialEq + Eq + Hash + Send + Sync + From<u64> + From<bool> {
    const BITS: u32;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn from_bytes_le(b: &[u8]) -> Self;
    fn to_degree(&self) -> DegreeType;
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct GoldilocksField(pub u64);
impl From<u64> for GoldilocksField {
    fn from(v: u64) -> Self {
        GoldilocksField(v % MODULUS)
    }
}
impl From<bool> for GoldilocksField {
    fn from(v: bool) -> Self {
        GoldilocksField(v as u64)
    }
}
impl Display for GoldilocksField {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl FieldElement for GoldilocksField {
    const BITS: u32 = 64;
    fn to_bytes_le(&self) -> Vec<u8> {
        self.0.to_le_bytes().to_vec()
    }
    fn from_bytes_le(b: &[u8]) -> Self {
        let mut w = [0; 8];
        w[..b.len()].copy_from_slice(b);
        u64::from_le_bytes(w).into()
    }
    fn to_degree(&self) -> DegreeType {
        self.0
    }
}
