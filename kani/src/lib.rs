//! Contracts over the real code of cordy-sys, discharged by Kani (CBMC). Each harness states, for one function or one
//! representation invariant, `requires` (kani::assume on symbolic arguments) and `ensures` (assert), and calls the
//! function of /repo as compiled from its working tree.
#![cfg(kani)]
#![recursion_limit = "512"]
#![allow(dead_code, unused_imports)]

mod common;
#[cfg(feature = "c01")] mod c01;
#[cfg(feature = "c01b")] mod c01b;
#[cfg(feature = "c02")] mod c02;
#[cfg(feature = "c02b")] mod c02b;
#[cfg(feature = "c03")] mod c03;
#[cfg(feature = "c04")] mod c04;
#[cfg(feature = "c05")] mod c05;
#[cfg(feature = "c07")] mod c07;
#[cfg(feature = "c08")] mod c08;
#[cfg(feature = "c11")] mod c11;
#[cfg(feature = "c12")] mod c12;
#[cfg(feature = "c17")] mod c17;
#[cfg(feature = "c18")] mod c18;
