//! Stand-in for serde-hex's strict prefixed form: bytes as "0x" and two
//! lower-case hex digits each (assumed contract: reading inverts writing).
use serde::{de::Error, Deserialize, Deserializer, Serializer};
pub struct StrictPfx;
fn write(b: &[u8]) -> String { b.iter().fold("0x".to_string(), |s, x| s + &format!("{x:02x}")) }
fn read<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s = String::deserialize(d)?;
    let h = s.strip_prefix("0x").ok_or_else(|| D::Error::custom("no prefix"))?;
    if h.len() % 2 != 0 || !h.is_ascii() {
        return Err(D::Error::custom("not bytes"));
    }
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).map_err(D::Error::custom)).collect()
}
pub trait SerHex<C>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C, const N: usize> SerHex<C> for [u8; N] {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&write(self)) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        read(d)?.try_into().map_err(|_| D::Error::custom("wrong length"))
    }
}
pub trait SerHexSeq<C>: Sized {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
impl<C> SerHexSeq<C> for Vec<u8> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&write(self)) }
    fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { read(d) }
}
