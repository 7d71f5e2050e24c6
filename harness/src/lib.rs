//! Bounded exhaustive exploration framework shared by all checks.
//!
//! Every check enumerates a finite space of inputs / operation histories
//! completely, executes the real midi2 code on each one and compares with a
//! small reference model. This file contains the bookkeeping only.
pub mod buf;
pub mod agg;
pub mod bg;
pub mod code;
pub mod spec;
pub mod ctx;
pub mod hints;
pub mod long;
pub mod sx;
pub use ctx::*;
pub mod touch;
pub mod types;
