//! Independent model of Lua 5.0 / 5.1 byte code: codec, virtual machines,
//! code generators, loader checks and the product explorer. Shares no code
//! with the implementation under verification.
pub mod ast;
pub mod chunk;
pub mod gen;
pub mod ops;
pub mod parse;
pub mod product;
pub mod verify;
pub mod vm;
