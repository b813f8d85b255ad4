//! A facade over `std` for symbolic execution: everything is std itself except
//! hash collections (whose hashing of symbolic keys no solver can follow, and
//! whose iteration order is unspecified), the file system and printing. With the
//! feature "native" (replays), only the latter two are replaced.
#![allow(ambiguous_glob_reexports)]
pub use ::std::*;
#[cfg(not(feature = "native"))]
pub mod collections {
    pub use ::std::collections::*;
    pub use crate::hashset::HashSet;
    pub use crate::hashmap::HashMap;
    pub mod hash_map {
        pub use crate::hashmap::*;
    }
    pub mod hash_set {
        pub use crate::hashset::*;
    }
}
#[cfg(not(feature = "native"))]
pub mod hashset;
#[cfg(not(feature = "native"))]
pub mod hashmap;
#[cfg(not(feature = "native"))]
pub mod table;
pub mod fs;
/// the arguments of the program are those the harness sets
pub mod env {
    pub use ::std::env::*;
    pub fn current_dir() -> ::std::io::Result<::std::path::PathBuf> {
        Ok(::std::path::PathBuf::from("/work"))
    }
    pub fn args() -> ::std::vec::IntoIter<String> {
        crate::fs::vfs().args.clone().into_iter()
    }
}
#[cfg(not(feature = "native"))]
pub mod qs;

#[macro_export]
macro_rules! println {
    () => { $crate::fs::emit(::core::format_args!(""), true) };
    ($($a:tt)*) => { $crate::fs::emit(::core::format_args!($($a)*), true) };
}
#[macro_export]
macro_rules! print {
    ($($a:tt)*) => { $crate::fs::emit(::core::format_args!($($a)*), false) };
}
