//! As c02.rs, for contracts which refer to private functions by name. Those are replaced by arbitrary functions; that they
//! compute the product, the floor of the quotient and the power is in verus/c02.vt.
use crate::common::*;
use crate::cproof;

type C = ComplexType;
static mut F: (C, C, C, i64) = (C::new(0, 0), C::new(0, 0), C::new(0, 0), 0);
/// Expects the function to be called with exactly these arguments, in order, and chooses any result
fn expect(a: (i64, i64), b: (i64, i64), n: i64) -> (i64, i64) {
    let r: (i64, i64) = (kani::any(), kani::any());
    unsafe { F = (C::new(a.0, a.1), C::new(b.0, b.1), C::new(r.0, r.1), n); }
    (wrap63(r.0), wrap63(r.1))
}
fn f_cc(a: C, b: C) -> C { unsafe { assert!(a == F.0 && b == F.1); F.2 } }
fn f_div(a: C, b: C) -> C { assert!(a.re == wrap63(a.re) && a.im == wrap63(a.im) && b.re == wrap63(b.re) && b.im == wrap63(b.im), "the precondition of c64_div_floor"); assert!(b.re != 0 || b.im != 0, "the precondition of c64_div_floor"); f_cc(a, b) }
fn f_pow(a: C, n: i64) -> C { assert!(n >= 0, "the precondition of c64_pow"); unsafe { assert!(a == F.0 && n == F.3); F.2 } }

cproof!(mul_cc_uf, stub(cordy_sys::vm::operator::c64_mul, f_cc), { let (a, x, y) = complex(); let (b, u, v) = complex(); let r = expect((x, y), (u, v), 0); assert!(parts_of(operator::binary_mul(a, b)) == r); });
cproof!(mul_ci_uf, stub(cordy_sys::vm::operator::c64_mul, f_cc), { let (a, x, y) = complex(); let (b, u) = operand(); let r = expect((x, y), (u, 0), 0); assert!(parts_of(operator::binary_mul(a, b)) == r); });
cproof!(mul_ic_uf, stub(cordy_sys::vm::operator::c64_mul, f_cc), { let (a, x, y) = complex(); let (b, u) = operand(); let r = expect((u, 0), (x, y), 0); assert!(parts_of(operator::binary_mul(b, a)) == r); });
cproof!(div_cc_uf, stub(cordy_sys::vm::operator::c64_div_floor, f_div), { let (a, x, y) = complex(); let (b, u, v) = complex(); let r = expect((x, y), (u, v), 0); assert!(parts_of(operator::binary_div(a, b)) == r); });
cproof!(div_ci_uf, stub(cordy_sys::vm::operator::c64_div_floor, f_div), { let (a, x, y) = complex(); let (b, u) = operand(); kani::assume(u != 0); let r = expect((x, y), (u, 0), 0); assert!(parts_of(operator::binary_div(a, b)) == r); });
cproof!(div_ic_uf, stub(cordy_sys::vm::operator::c64_div_floor, f_div), { let (a, x, y) = complex(); let (b, u) = operand(); let r = expect((u, 0), (x, y), 0); assert!(parts_of(operator::binary_div(b, a)) == r); });
cproof!(pow_ci_uf, stub(cordy_sys::vm::operator::c64_pow, f_pow), stub(cordy_sys::vm::operator::i64_pow, f_ipow), { let (a, x, y) = complex(); let (b, n) = operand(); kani::assume(n >= 0); let r = expect((x, y), (0, 0), n); assert!(parts_of(operator::binary_pow(a, b)) == r); });
cproof!(pow_negative_uf, stub(cordy_sys::vm::operator::c64_pow, f_pow), stub(cordy_sys::vm::operator::i64_pow, f_ipow), { let (a, _, _) = complex(); let (b, u) = operand(); kani::assume(u < 0); assert!(is_err(operator::binary_pow(a, b))); });
fn f_ipow(_: i64, _: i64) -> i64 { panic!("the power of integers") }
