#![allow(clippy::all, unused_imports)]
pub mod sym;
include!("all.rs");
