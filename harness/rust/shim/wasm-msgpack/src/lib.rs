pub mod decode { #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self,f:&mut std::fmt::Formatter<'_>)->std::fmt::Result{f.write_str("stub")} } pub fn from_slice<'de,T:serde::Deserialize<'de>>(_:&'de [u8])->Result<T,Error>{Err(Error)} }
pub mod encode { #[derive(Debug)] pub struct Error; impl std::fmt::Display for Error { fn fmt(&self,f:&mut std::fmt::Formatter<'_>)->std::fmt::Result{f.write_str("stub")} } pub mod serde { pub fn to_array<T:?Sized+::serde::Serialize>(_:&T,_:&mut [u8])->Result<usize,super::Error>{Err(super::Error)} } }
pub mod timestamp { #[derive(Debug,Clone,Copy)] pub struct Timestamp; }
