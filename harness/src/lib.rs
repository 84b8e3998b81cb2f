pub mod engine;
pub use engine::*;
pub mod b;
pub mod elf;
pub mod elfrel;
pub mod elfdyn;
pub mod elfmodel;
pub mod coff;
pub mod coffchk;
pub mod dump;
pub mod macho;
pub mod machomodel;
pub mod pe;
pub mod xcoff;
pub mod sink;
pub mod wasm;
pub mod wobj;
