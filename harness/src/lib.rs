#![allow(clippy::all)]
mod nd;
mod img;
mod elfout;
include!("props.rs");
