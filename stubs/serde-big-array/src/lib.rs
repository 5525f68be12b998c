//! Stand-in for serde-big-array: arrays as sequences. Deserialisation is not needed and refused.
pub trait BigArray<'de>: Sized {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<'de, T: serde::Serialize + serde::Deserialize<'de>, const N: usize> BigArray<'de> for [T; N] {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_seq(self.iter()) }
    fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> { Err(serde::de::Error::custom("stand-in")) }
}
