//! C08: the table of native functions
use crate::common::*;
use cordy_sys::core::{verif_info, NativeFunction as N, Argument};

/// Looking a function up in the table gives its own entry
#[kani::proof]
fn c08_table() {
    let n: u8 = kani::any(); kani::assume((n as usize) < N::total());
    let f: N = unsafe { std::mem::transmute(n) };
    assert!(verif_info(f).0 == f);
}
#[kani::proof]
fn c08_canary() {
    let n: u8 = kani::any(); kani::assume((n as usize) < N::total());
    let f: N = unsafe { std::mem::transmute(n) };
    assert!(matches!(verif_info(f).1, Argument::Arg0 | Argument::Arg1 | Argument::Arg2 | Argument::Unique | Argument::Iter | Argument::IterNonEmpty | Argument::UniqueNonEmpty | Argument::Invalid));
}
