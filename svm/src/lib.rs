//! A deterministic in-process Solana runtime for model checking.
//!
//! Executes native builds of programs on a persistent (structurally shared) account bank.
pub mod data;
pub mod exec;
pub mod explore;
pub mod report;
pub mod codec;
pub mod layout;
pub mod subst;

pub use data::*;
pub use exec::*;
pub use explore::*;
pub use report::{tick, Check};
