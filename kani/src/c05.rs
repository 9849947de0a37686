//! C05: construction of ranges
use crate::common::*;
use cordy_sys::vm::value::range::Range;

fn range_prefix<T: cordy_sys::vm::value::Value>(v: &ValuePtr) -> &Prefix<T> {
    assert!(std::mem::size_of::<T>() == std::mem::size_of::<Range>(), "unexpected access to a shared value");
    unsafe { &*m_ptr::<T>(v) }
}
macro_rules! rproof {
    ($name:ident, $body:block) => {
        #[kani::proof]
        #[kani::solver(cadical)]
        #[kani::unwind(9)]
        #[kani::stub(<cordy_sys::vm::ValuePtr as std::ops::Drop>::drop, no_drop)]
        #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::as_prefix, range_prefix)]
        #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::as_ptr, m_ptr)]
        #[kani::stub(cordy_sys::vm::value::ptr::from_shared, m_shared)]
        fn $name() $body
    };
}

// range(start, stop, step): an error exactly for step zero; otherwise the parts as given, except that a range with no
// elements has step zero. This establishes the invariant `wf` of verus/c05.vt, for any arguments which are ints
rproof!(construct, {
    let (start, stop, step) = (int(), int(), int());
    let r = ValuePtr::range(start, stop, step);
    if step == 0 { assert!(is_err(r)); return }
    let v = r.as_result().ok().unwrap();
    let (a, b, c) = v.as_range().verif_parts();
    let nonempty = if step > 0 { start < stop } else { start > stop };
    if nonempty { assert!(a == start && b == stop && c == step); }
    else { assert!(c == 0); }
});

rproof!(canary_construct, {
    let (start, stop, step) = (int(), int(), int());
    let r = ValuePtr::range(start, stop, step);
    assert!(is_err(r) == (step == 0) && start < stop);
});
