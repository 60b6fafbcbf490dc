//! Shared machinery of the checks; the laws of each group of properties are a binary of their own
//! (src/bin), so that a check builds only what it needs.
pub mod cli;
pub mod det;
pub mod fw;
pub mod gen;
pub mod refmath;
pub mod vssx;
pub mod dkgx;
pub mod mutate;
pub mod net;
pub mod leak;
