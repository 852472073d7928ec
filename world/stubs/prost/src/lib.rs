//! Stand-in for `prost`: same trait surface used by the repository, bincode wire image.
pub use serde;
use serde::{de::DeserializeOwned, Serialize};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DecodeError(pub String);
impl std::fmt::Display for DecodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "failed to decode: {}", self.0) } }
impl std::error::Error for DecodeError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct EncodeError(pub String);
impl std::fmt::Display for EncodeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "failed to encode: {}", self.0) } }
impl std::error::Error for EncodeError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct UnknownEnumValue(pub i32);
impl std::fmt::Display for UnknownEnumValue { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "unknown enumeration value {}", self.0) } }
impl std::error::Error for UnknownEnumValue {}
pub trait Message: Serialize + DeserializeOwned + Default + Sized {
    fn encode_to_vec(&self) -> Vec<u8> { bincode::serialize(self).unwrap() }
    fn encoded_len(&self) -> usize { self.encode_to_vec().len() }
    fn encode(&self, buf: &mut Vec<u8>) -> Result<(), EncodeError> { buf.extend_from_slice(&self.encode_to_vec()); Ok(()) }
    fn decode(b: impl Buf) -> Result<Self, DecodeError> { bincode::deserialize(b.raw()).map_err(|e| DecodeError(e.to_string())) }
}

pub trait Buf { fn raw(&self) -> &[u8]; }
impl Buf for &[u8] { fn raw(&self) -> &[u8] { self } }
