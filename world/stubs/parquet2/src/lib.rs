//! Stand-in for the parts of parquet2 the storage crate names outside its page merger.
pub mod error { #[derive(Debug, Clone, PartialEq)] pub struct Error(pub String); impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } } impl std::error::Error for Error {} }
pub mod compression { #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct ZstdLevel(i32); impl ZstdLevel { pub fn try_new(l: i32) -> Result<Self, crate::error::Error> { Ok(Self(l)) } }
  #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum CompressionOptions { Uncompressed, Snappy, Zstd(Option<ZstdLevel>) } }
pub mod metadata { #[derive(Debug, Clone)] pub struct ColumnDescriptor { pub path_in_schema: Vec<String> } }
