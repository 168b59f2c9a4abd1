//! Structured Text front end and executor: the declared (ST) half of the library is lowered to a small typed
//! tree and executed on real byte memory, calling the library's exported symbols through the C ABI.
pub mod exec;
pub mod lower;
pub mod parse;
pub use exec::{Fault, Vm};
pub use lower::{Program, SymFn};
pub use parse::{parse, El, Kind, Sec, Ty};
