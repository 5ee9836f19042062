#![cfg_attr(kani, feature(formatting_options, io_const_error))]
#![allow(dead_code)]
#[macro_use]
pub mod sym;
#[macro_use]
pub mod model;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c21")]
pub mod c21;
#[cfg(feature = "c22")]
pub mod c22;
#[cfg(feature = "c23")]
pub mod c23;
#[cfg(feature = "c24")]
pub mod c24;
#[cfg(feature = "c25")]
pub mod c25;
#[cfg(feature = "c26")]
pub mod c26;
#[cfg(feature = "c27")]
pub mod c27;
#[cfg(feature = "c28")]
pub mod c28;
#[cfg(feature = "c29")]
pub mod c29;
#[cfg(feature = "c30")]
pub mod c30;
#[cfg(feature = "c31")]
pub mod c31;
