#![allow(clippy::all, unused_imports)]
#[path = "../../sx/src/sym.rs"]
pub mod sym;
include!("../../sx/src/all.rs");
