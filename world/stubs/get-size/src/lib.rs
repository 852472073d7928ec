pub use get_size_derive::GetSize;
pub trait GetSize { fn get_size(&self) -> usize { 64 } }
impl<T> GetSize for Vec<T> {}
