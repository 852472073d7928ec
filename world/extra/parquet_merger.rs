//! Stand-in for the page-level merger: merging parts during compaction is outside this world.
use crate::{error::Result, Fs}; use std::{io::{Read, Seek}, path::PathBuf, sync::Arc};
pub struct Options { pub index_cols: usize, pub is_replacing: bool, pub data_page_size_limit_bytes: Option<usize>, pub row_group_values_limit: usize, pub array_page_size: usize, pub out_part_id: usize, pub merge_max_page_size: usize, pub max_part_size_bytes: Option<usize> }
pub struct MergedFile { pub path: PathBuf, pub size_bytes: u64, pub values: usize, pub min: Vec<super::ParquetValue>, pub max: Vec<super::ParquetValue> }
pub fn merge<R: Read + Seek>(_: Vec<R>, _: Arc<Fs>, _: PathBuf, _: usize, _: &str, _: usize, _: Options) -> Result<Vec<MergedFile>> { Err(crate::error::StoreError::NotYetSupported("merge".into())) }
