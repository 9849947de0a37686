pub use cordy_sys::vm::{ComplexType, IntoValue, Type, ValuePtr, ValueResult};
pub use cordy_sys::vm::operator::{self, BinaryOp, CompareOp, UnaryOp};
pub use cordy_sys::vm::value::ptr::Prefix;
pub use cordy_sys::vm::value::collections::{Dict, Heap, List, Set, Vector};
use num_integer::Integer;

/// Every value of the 63-bit integer type
pub fn int() -> i64 {
    let x: i64 = kani::any();
    kani::assume(x >= ValuePtr::MIN_INT && x <= ValuePtr::MAX_INT);
    x
}

/// Signed 63-bit two's complement reduction of a mathematical integer (given modulo 2^64)
pub fn wrap63(x: i64) -> i64 { (x << 1) >> 1 }

/// Every int-like value: an int, or a bool. Returns the value, and the integer it counts as.
pub fn operand() -> (ValuePtr, i64) {
    if kani::any() {
        let b: bool = kani::any();
        (b.to_value(), b as i64)
    } else {
        let x = int();
        (x.to_value(), x)
    }
}

// ===== Stubs ===== //
// `no_drop` replaces the release of values, which these harnesses do not observe (C11 does).
// The others replace the access to a container by a failure: a harness only succeeds if none is reachable.

pub fn no_drop(_: &mut ValuePtr) {}
pub fn no_prefix<T: cordy_sys::vm::value::Value>(_: &ValuePtr) -> &Prefix<T> { panic!("unexpected access to a shared value") }

/// A model of the heap: shared values are numbered in order of their allocation, instead of identified by their address.
/// (The real functions are subject to contracts of their own, in c04 and c11)
static mut HEAP: [*mut u8; 6] = [std::ptr::null_mut(); 6];
static mut HEAP_LEN: usize = 0;
pub fn m_shared<T: cordy_sys::vm::value::Value>(value: Prefix<T>) -> ValuePtr {
    unsafe {
        assert!(HEAP_LEN < 6, "unexpected access to a shared value");
        HEAP[HEAP_LEN] = Box::into_raw(Box::new(value)) as *mut u8;
        HEAP_LEN += 1;
        std::mem::transmute(((HEAP_LEN - 1) << 2) | 3)
    }
}
pub unsafe fn m_ptr<T: cordy_sys::vm::value::Value>(v: &ValuePtr) -> *mut Prefix<T> {
    let tag = v.as_ptr_value();
    assert!(tag & 3 == 3, "access to an inline value as if it was shared");
    let i = tag >> 2;
    if i == 0 { HEAP[0] as *mut Prefix<T> } else if i == 1 { HEAP[1] as *mut Prefix<T> } else if i == 2 { HEAP[2] as *mut Prefix<T> } else if i == 3 { HEAP[3] as *mut Prefix<T> } else if i == 4 { HEAP[4] as *mut Prefix<T> } else { HEAP[5] as *mut Prefix<T> }
}
pub fn no_str(_: &ValuePtr) -> &str { panic!("unexpected access to a string") }
pub fn no_to_str<'a>(_: &'a ValuePtr) -> std::borrow::Cow<'a, str> { panic!("unexpected conversion to a string") }

/// An uninterpreted binary function: `f(A, B) == R`, for symbolic A, B, R, and anything elsewhere. A harness which
/// replaces a function by one of these, and proves a result for (A, B, R), has proven it for any such function.
pub static mut UF: (i64, i64, i64) = (0, 0, 0);
pub fn uf_set(a: i64, b: i64) -> i64 { let r: i64 = kani::any(); unsafe { UF = (a, b, r) }; r }
pub fn uf(a: i64, b: i64) -> i64 { unsafe { if a == UF.0 && b == UF.1 { UF.2 } else { kani::any() } } }
/// As above, for a function known to be commutative
pub fn uf_comm(a: i64, b: i64) -> i64 { unsafe { if (a == UF.0 && b == UF.1) || (a == UF.1 && b == UF.0) { UF.2 } else { kani::any() } } }
/// As above, with the signature of the functions of num_integer
pub fn uf_int<T: Integer>(a: T, b: T) -> T {
    unsafe {
        assert!(std::mem::size_of::<T>() == 8);
        let r = uf(std::mem::transmute_copy(&a), std::mem::transmute_copy(&b));
        std::mem::transmute_copy(&r)
    }
}

pub fn int_of(r: ValueResult) -> i64 {
    let v = r.as_result().ok().unwrap();
    assert!(v.is_precise_int());
    v.as_precise_int()
}
pub fn bool_of(r: ValueResult) -> bool {
    let v = r.as_result().ok().unwrap();
    assert!(v.is_bool());
    v.as_bool()
}
pub fn is_err(r: ValueResult) -> bool { r.as_result().is_err() }

/// Every complex value, with its parts
pub fn complex() -> (ValuePtr, i64, i64) {
    let (re, im) = (int(), int());
    kani::assume(im != 0);
    let v = ComplexType::new(re, im).to_value();
    (v, re, im)
}
/// The value's parts, with its representation: a plain integer exactly if the imaginary part is zero
pub fn parts(v: ValuePtr) -> (i64, i64) {
    if v.is_precise_int() { (v.as_precise_int(), 0) } else {
        assert!(v.ty() == Type::Complex);
        let c = *v.as_complex();
        assert!(c.im != 0 && c.im == wrap63(c.im) && c.re == wrap63(c.re));
        (c.re, c.im)
    }
}
pub fn parts_of(r: ValueResult) -> (i64, i64) { parts(r.as_result().ok().unwrap()) }
/// Access to complex values only
pub fn complex_prefix<T: cordy_sys::vm::value::Value>(v: &ValuePtr) -> &Prefix<T> {
    assert!(std::mem::size_of::<T>() == std::mem::size_of::<ComplexType>() && !std::mem::needs_drop::<T>(), "unexpected access to a shared value");
    unsafe { &*m_ptr::<T>(v) }
}
/// A contract on an operation over inline values
#[macro_export]
macro_rules! proof {
    ($name:ident, $(stub($f:ty, $g:ident),)* $body:block) => { proof!($name, #[kani::solver(cadical)] $(stub($f, $g),)* $body); };
    ($name:ident, $(#[$m:meta])+ $(stub($f:ty, $g:ident),)* $body:block) => {
        #[kani::proof]
        $(#[$m])+
        #[kani::stub(<cordy_sys::vm::ValuePtr as std::ops::Drop>::drop, no_drop)]
        #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::as_prefix, no_prefix)]
        #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::as_ptr, m_ptr)]
        #[kani::stub(cordy_sys::vm::value::ptr::from_shared, m_shared)]
        #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::as_str_slice, no_str)]
        #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::to_str, no_to_str)]
        $(#[kani::stub($f, $g)])*
        fn $name() $body
    };
}
/// As above, where complex numbers are accessible
#[macro_export]
macro_rules! cproof {
    ($name:ident, $(stub($f:ty, $g:ident),)* $body:block) => { cproof!($name, #[kani::solver(cadical)] $(stub($f, $g),)* $body); };
    ($name:ident, $(#[$m:meta])+ $(stub($f:ty, $g:ident),)* $body:block) => {
        #[kani::proof]
        $(#[$m])+
        #[kani::stub(<cordy_sys::vm::ValuePtr as std::ops::Drop>::drop, no_drop)]
        #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::as_prefix, complex_prefix)]
        #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::as_ptr, m_ptr)]
        #[kani::stub(cordy_sys::vm::value::ptr::from_shared, m_shared)]
        #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::as_str_slice, no_str)]
        #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::to_str, no_to_str)]
        $(#[kani::stub($f, $g)])*
        fn $name() $body
    };
}
