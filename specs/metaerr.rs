//@rule storage :: error :: StoreError =>> ExtError
//@rule rocksdb :: Error =>> ExtError
//@rule bincode :: Error =>> ExtError
//@rule std :: io :: Error =>> ExtError
//@rule prost :: DecodeError =>> ExtError
//@rule anyhow :: Error =>> ExtError
#[derive(Debug)] pub struct ExtError { x: u8 }
pub type FromUtf8Error = ExtError;
//@item src/metadata/src/error.rs MetadataError | vis=pub
pub type Result<T> = core::result::Result<T, MetadataError>;
