//! C03: equality, order and hash of scalar values
use crate::common::*;
use crate::proof;
use crate::cproof;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use cordy_sys::core::NativeFunction;

/// What hash() feeds into a hasher
struct Rec { n: usize, acc: [u64; 4] }
impl Rec {
    fn of(v: &ValuePtr) -> Rec { let mut r = Rec { n: 0, acc: [0; 4] }; v.hash(&mut r); r }
    fn push(&mut self, x: u64) { assert!(self.n < 4); self.acc[self.n] = x; self.n += 1; }
}
fn same_hash(a: &ValuePtr, b: &ValuePtr) { let (x, y) = (Rec::of(a), Rec::of(b)); assert!(x.n == y.n && x.acc[0] == y.acc[0] && x.acc[1] == y.acc[1] && x.acc[2] == y.acc[2] && x.acc[3] == y.acc[3]); }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, _: &[u8]) { panic!("unexpected conversion to a string") }
    fn write_u8(&mut self, x: u8) { self.push(x as u64) }
    fn write_u32(&mut self, x: u32) { self.push(x as u64) }
    fn write_u64(&mut self, x: u64) { self.push(x) }
    fn write_i64(&mut self, x: i64) { self.push(x as u64) }
    fn write_usize(&mut self, x: usize) { self.push(x as u64) }
}

/// The order of numbers: by imaginary part, then by value, then nil < bool < int
type Key = (i64, i64, u8);
fn scalar() -> (ValuePtr, Key) {
    match kani::any::<u8>() % 3 {
        0 => (ValuePtr::nil(), (0, 0, 0)),
        1 => { let b: bool = kani::any(); (b.to_value(), (0, b as i64, 1)) },
        _ => { let x = int(); (x.to_value(), (0, x, 2)) },
    }
}

fn lt(k: Key, l: Key) -> bool { k.0 < l.0 || k.0 == l.0 && (k.1 < l.1 || k.1 == l.1 && k.2 < l.2) }
fn is_order(a: &ValuePtr, k: Key, b: &ValuePtr, l: Key) {
    let o = a.cmp(b);
    if o == Ordering::Less { assert!(lt(k, l)); }
    if o == Ordering::Greater { assert!(lt(l, k)); }
    if o == Ordering::Equal { assert!(k == l); }
}

// cmp is the order of the keys; hence it is total, and symmetric
proof!(order_scalar, #[kani::unwind(2)] #[kani::solver(cadical)] { let (a, k) = scalar(); let (b, l) = scalar(); is_order(&a, k, &b, l); });
cproof!(order_complex_scalar, #[kani::unwind(3)] #[kani::solver(cadical)] { let (a, x, y) = complex(); let (b, l) = scalar(); is_order(&a, (y, x, 3), &b, l); });
cproof!(order_scalar_complex, #[kani::unwind(3)] #[kani::solver(cadical)] { let (a, x, y) = complex(); let (b, l) = scalar(); is_order(&b, l, &a, (y, x, 3)); });
cproof!(order_complex, #[kani::unwind(3)] #[kani::solver(cadical)] { let (a, x, y) = complex(); let (b, u, v) = complex(); is_order(&a, (y, x, 3), &b, (v, u, 3)); });

// == is equality of the keys, and equal values hash the same
proof!(equal_scalar, #[kani::unwind(2)] #[kani::solver(cadical)] { let (a, k) = scalar(); let (b, l) = scalar(); assert!((a == b) == (k == l)); assert!((a != b) == (k != l)); if a == b { same_hash(&a, &b); } });
cproof!(equal_complex, { let (a, x, y) = complex(); let (b, u, v) = complex(); assert!((a == b) == (x == u && y == v)); });
cproof!(hash_complex, #[kani::unwind(2)] #[kani::solver(cadical)] { let (x, y) = (int(), int()); kani::assume(y != 0); same_hash(&ComplexType::new(x, y).to_value(), &ComplexType::new(x, y).to_value()); });
cproof!(equal_complex_scalar, { let (a, _, _) = complex(); let (b, _) = scalar(); assert!(a != b && b != a); });

// Values without heap memory of different types are never equal, and not ordered, except for numbers
fn inline() -> (ValuePtr, u8, u64) {
    match kani::any::<u8>() % 6 {
        0 => (ValuePtr::nil(), 0, 0),
        1 => { let b: bool = kani::any(); (b.to_value(), 1, b as u64) },
        2 => { let x = int(); (x.to_value(), 2, x as u64) },
        3 => { let n: u8 = kani::any(); kani::assume(n < 5); let f = [NativeFunction::Print, NativeFunction::Len, NativeFunction::Map, NativeFunction::Sum, NativeFunction::Int][n as usize]; (f.to_value(), 3, n as u64) },
        4 => { let c: char = kani::any(); (c.to_value(), 4, c as u64) },
        _ => { let f: u32 = kani::any(); (ValuePtr::field(f), 5, f as u64) },
    }
}
proof!(equal_inline, #[kani::unwind(8)] #[kani::solver(cadical)] { let (a, t, x) = inline(); let (b, u, y) = inline(); assert!((a == b) == (t == u && x == y)); });
proof!(unordered_inline, #[kani::unwind(2)] #[kani::solver(cadical)] { let (a, t, _) = inline(); let (b, u, _) = inline(); kani::assume(t != u && (t > 2 || u > 2)); assert!(a.cmp(&b) == Ordering::Equal && b.cmp(&a) == Ordering::Equal); });

cproof!(vacuity_canary, #[kani::unwind(3)] #[kani::solver(cadical)] { let (a, _, _) = complex(); let (b, _) = scalar(); let _ = a.cmp(&b); assert!(false); });

// Strings stored inline are ordered by their bytes (for UTF-8, this is the order of the code points)
#[kani::proof]
#[kani::unwind(9)]
#[kani::solver(cadical)]
#[kani::stub(<cordy_sys::vm::ValuePtr as std::ops::Drop>::drop, no_drop)]
#[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::as_prefix, no_prefix)]
#[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::as_ptr, m_ptr)]
#[kani::stub(cordy_sys::vm::value::ptr::from_shared, m_shared)]
#[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::ty, short_ty)]
fn order_short_str() {
    let (x, y): ([u8; 7], [u8; 7]) = (kani::any(), kani::any());
    let (n, m): (usize, usize) = (kani::any(), kani::any());
    kani::assume(n <= 7 && m <= 7);
    let (s, t) = unsafe { (std::str::from_utf8_unchecked(&x[..n]), std::str::from_utf8_unchecked(&y[..m])) };
    let (a, b) = (s.to_value(), t.to_value());
    let o = a.cmp(&b);
    let mut k = 0;
    while k < 7 && k < n && k < m && x[k] == y[k] { k += 1 }
    let lt = k == n && k < m || k < n && k < m && x[k] < y[k];
    let gt = k == m && k < n || k < n && k < m && x[k] > y[k];
    if o == Ordering::Less { assert!(lt); }
    if o == Ordering::Greater { assert!(gt); }
    if o == Ordering::Equal { assert!(!lt && !gt); }
}
/// The contract of `ty` on strings stored inline (see c04)
fn short_ty(v: &ValuePtr) -> Type { assert!(v.as_ptr_value() & 0b11111 == 0b10001, "the precondition of short_ty"); Type::ShortStr }
