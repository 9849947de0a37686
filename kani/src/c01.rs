use crate::common::*;
use crate::proof;

// + - * : exact result reduced to 63 bits. Arithmetic modulo 2^64, then reduced to 63 bits, is arithmetic modulo 2^63.
proof!(add, { let (a, x) = operand(); let (b, y) = operand(); assert!(int_of(operator::binary_add(a, b)) == wrap63(x.wrapping_add(y))); });
proof!(sub, { let (a, x) = operand(); let (b, y) = operand(); assert!(int_of(operator::binary_sub(a, b)) == wrap63(x.wrapping_sub(y))); });
proof!(mul_uf, stub(i64::wrapping_mul, uf_comm), { let (a, x) = operand(); let (b, y) = operand(); let r = uf_set(x, y); assert!(int_of(operator::binary_mul(a, b)) == wrap63(r)); });
proof!(neg, { let (a, x) = operand(); assert!(int_of(operator::unary_sub(a)) == wrap63(x.wrapping_neg())); });

// ! & | ^ : bitwise on the two's complement representation, logical between two booleans
proof!(not_int, { let x = int(); assert!(int_of(operator::unary_not(x.to_value())) == -x - 1); });
proof!(not_bool, { let x: bool = kani::any(); assert!(bool_of(operator::unary_not(x.to_value())) == !x); });
fn bitwise(op: fn(ValuePtr, ValuePtr) -> ValueResult, f: fn(i64, i64) -> i64) {
    let (a, x) = operand();
    let (b, y) = operand();
    let (is_bool, z) = (a.is_bool() && b.is_bool(), f(x, y));
    let v = op(a, b).as_result().ok().unwrap();
    if is_bool {
        assert!(v.is_bool() && v.as_bool() == (z == 1));
    } else {
        assert!(v.is_precise_int() && v.as_precise_int() == z);
    }
}
proof!(and, { bitwise(operator::binary_bitwise_and, |x, y| x & y); });
proof!(or, { bitwise(operator::binary_bitwise_or, |x, y| x | y); });
proof!(xor, { bitwise(operator::binary_bitwise_xor, |x, y| x ^ y); });

// << >> : multiplication by, or floor division by, a power of two. Any amount which is at least the width gives 0 or the sign.
fn shl(x: i64, n: i64) -> i64 {
    if n >= 63 { 0 } else if n >= 0 { wrap63(x << n) } else if n <= -63 { if x < 0 { -1 } else { 0 } } else { x >> -n }
}
proof!(left_shift, { let (a, x) = operand(); let (b, y) = operand(); assert!(int_of(operator::binary_left_shift(a, b)) == shl(x, y)); });
proof!(right_shift, { let (a, x) = operand(); let (b, y) = operand(); assert!(int_of(operator::binary_right_shift(a, b)) == shl(x, -y)); });

// / % : floor division, and the modulus with the sign of the divisor, in terms of the contract of num_integer
proof!(div_uf, stub(num_integer::div_floor, uf_int), { let (a, x) = operand(); let (b, y) = operand(); kani::assume(y != 0); let r = uf_set(x, y); assert!(int_of(operator::binary_div(a, b)) == wrap63(r)); });
proof!(modulo_uf, stub(num_integer::mod_floor, uf_int), { let (a, x) = operand(); let (b, y) = operand(); kani::assume(y != 0); let r = uf_set(x, y); assert!(int_of(operator::binary_mod(a, b)) == wrap63(r)); });
proof!(div_zero, { let (a, _) = operand(); let (b, y) = operand(); kani::assume(y == 0); assert!(is_err(operator::binary_div(a, b))); });
proof!(mod_zero, { let (a, _) = operand(); let (b, y) = operand(); kani::assume(y == 0); assert!(is_err(operator::binary_mod(a, b))); });

// The contract of num_integer: floor division and modulus in terms of truncating ones. (That this is the mathematical
// result: lemmas in verus/c01.rs)
proof!(dep_div_floor, #[kani::solver(z3)] { let (x, y) = (int(), int()); kani::assume(y != 0); let (q, r) = (x / y, x % y); assert!(num_integer::div_floor(x, y) == if r != 0 && (r < 0) != (y < 0) { q - 1 } else { q }); });
proof!(dep_mod_floor, #[kani::solver(z3)] { let (x, y) = (int(), int()); kani::assume(y != 0); let r = x % y; assert!(num_integer::mod_floor(x, y) == if r != 0 && (r < 0) != (y < 0) { r + y } else { r }); });

// Comparisons: by value, then false < 0 and true < 1
proof!(order, #[kani::unwind(2)] { let (a, x) = operand(); let (b, y) = operand(); assert!(a.cmp(&b) == x.cmp(&y).then(b.is_bool().cmp(&a.is_bool()))); });
proof!(equality, #[kani::unwind(2)] { let (a, x) = operand(); let (b, y) = operand(); assert!((a == b) == (x == y && a.is_bool() == b.is_bool())); });

// ... and each comparison operator is that order, or equality. (The order is replaced by that of integers only: contract `order`)
fn ord_stub(a: &ValuePtr, b: &ValuePtr) -> Ordering { a.as_precise_int().cmp(&b.as_precise_int()) }
proof!(compare_operators, #[kani::unwind(2)] stub(<cordy_sys::vm::ValuePtr as std::cmp::Ord>::cmp, ord_stub), {
    let (x, y) = (int(), int());
    let (a, b) = (x.to_value(), y.to_value());
    assert!(CompareOp::LessThan.apply(&a, &b) == (x < y));
    assert!(CompareOp::LessThanEqual.apply(&a, &b) == (x <= y));
    assert!(CompareOp::GreaterThan.apply(&a, &b) == (x > y));
    assert!(CompareOp::GreaterThanEqual.apply(&a, &b) == (x >= y));
    assert!(CompareOp::Equal.apply(&a, &b) == (x == y));
    assert!(CompareOp::NotEqual.apply(&a, &b) == (x != y));
});
use std::cmp::Ordering;

// Guard against vacuity: must fail
proof!(vacuity_canary, { let (a, _) = operand(); let (b, _) = operand(); let _ = operator::binary_add(a, b); assert!(false); });
