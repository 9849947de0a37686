//! As c01.rs, for contracts which refer to private functions by name
use crate::common::*;
use crate::proof;

fn uf_pow(a: i64, b: i64) -> i64 { assert!(b >= 0, "the precondition of i64_pow"); uf(a, b) }

// ** : a negative exponent is an error, otherwise it is i64_pow, whose contract (the power, modulo 2^64) is in verus/c01.rs
proof!(pow_uf, stub(cordy_sys::vm::operator::i64_pow, uf_pow), { let (a, x) = operand(); let (b, y) = operand(); kani::assume(y >= 0); let r = uf_set(x, y); assert!(int_of(operator::binary_pow(a, b)) == wrap63(r)); });
proof!(pow_negative_uf, stub(cordy_sys::vm::operator::i64_pow, uf_pow), { let (a, _) = operand(); let (b, y) = operand(); kani::assume(y < 0); assert!(is_err(operator::binary_pow(a, b))); });

// BinaryOp::apply and UnaryOp::apply select the function of the operator, with the operands in order. (The functions are
// replaced by recorders, their contracts are in c01.rs)
fn rec(tag: i64, l: ValuePtr, r: ValuePtr) -> ValueResult { (tag * 10_000 + l.as_int() * 100 + r.as_int()).to_value().ok() }
fn d_mul(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(1, l, r) }
fn d_div(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(2, l, r) }
fn d_pow(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(3, l, r) }
fn d_mod(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(4, l, r) }
fn d_is(l: ValuePtr, r: ValuePtr, invert: bool) -> ValueResult { rec(if invert { 6 } else { 5 }, l, r) }
fn d_add(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(7, l, r) }
fn d_sub(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(8, l, r) }
fn d_shl(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(9, l, r) }
fn d_shr(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(10, l, r) }
fn d_and(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(11, l, r) }
fn d_or(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(12, l, r) }
fn d_xor(l: ValuePtr, r: ValuePtr) -> ValueResult { rec(13, l, r) }
fn d_in(l: ValuePtr, r: ValuePtr, invert: bool) -> ValueResult { rec(if invert { 15 } else { 14 }, l, r) }
fn d_neg(l: ValuePtr) -> ValueResult { rec(16, l, 0i64.to_value()) }
fn d_not(l: ValuePtr) -> ValueResult { rec(17, l, 0i64.to_value()) }
fn d_lnot(l: ValuePtr) -> ValueResult { rec(18, l, 0i64.to_value()) }
macro_rules! dispatch { ($name:ident, $(#[$m:meta])+ $body:block) => { proof!($name, $(#[$m])+
    stub(cordy_sys::vm::operator::binary_mul, d_mul), stub(cordy_sys::vm::operator::binary_div, d_div), stub(cordy_sys::vm::operator::binary_pow, d_pow),
    stub(cordy_sys::vm::operator::binary_mod, d_mod), stub(cordy_sys::vm::operator::binary_is, d_is), stub(cordy_sys::vm::operator::binary_add, d_add),
    stub(cordy_sys::vm::operator::binary_sub, d_sub), stub(cordy_sys::vm::operator::binary_left_shift, d_shl), stub(cordy_sys::vm::operator::binary_right_shift, d_shr),
    stub(cordy_sys::vm::operator::binary_bitwise_and, d_and), stub(cordy_sys::vm::operator::binary_bitwise_or, d_or), stub(cordy_sys::vm::operator::binary_bitwise_xor, d_xor),
    stub(cordy_sys::vm::operator::binary_in, d_in),
    stub(<cordy_sys::vm::ValuePtr as std::cmp::Ord>::cmp, ord_stub),
    $body); } }
dispatch!(dispatch_binary, #[kani::unwind(16)] {
    let (x, y): (i64, i64) = (kani::any(), kani::any());
    kani::assume(x >= 0 && x < 100 && y >= 0 && y < 100);
    let ops = [BinaryOp::Mul, BinaryOp::Div, BinaryOp::Pow, BinaryOp::Mod, BinaryOp::Is, BinaryOp::IsNot, BinaryOp::Add, BinaryOp::Sub, BinaryOp::LeftShift, BinaryOp::RightShift, BinaryOp::And, BinaryOp::Or, BinaryOp::Xor, BinaryOp::In, BinaryOp::NotIn];
    let mut i = 0;
    while i < 15 {
        assert!(int_of(ops[i].apply(x.to_value(), y.to_value())) == (i as i64 + 1) * 10_000 + x * 100 + y);
        i += 1;
    }
});
proof!(dispatch_unary, stub(cordy_sys::vm::operator::unary_sub, d_neg), stub(cordy_sys::vm::operator::unary_not, d_not), stub(cordy_sys::vm::operator::unary_logical_not, d_lnot), {
    let x: i64 = kani::any();
    kani::assume(x >= 0 && x < 100);
    assert!(int_of(UnaryOp::Neg.apply(x.to_value())) == 160_000 + x * 100);
    assert!(int_of(UnaryOp::Not.apply(x.to_value())) == 170_000 + x * 100);
    assert!(int_of(UnaryOp::LogicalNot.apply(x.to_value())) == 180_000 + x * 100);
});
fn ord_stub(a: &ValuePtr, b: &ValuePtr) -> std::cmp::Ordering { a.as_precise_int().cmp(&b.as_precise_int()) }
dispatch!(dispatch_compare, #[kani::unwind(2)] {
    let (x, y) = (int(), int());
    let r = |op: BinaryOp| bool_of(op.apply(x.to_value(), y.to_value()));
    assert!(r(BinaryOp::LessThan) == (x < y));
    assert!(r(BinaryOp::LessThanEqual) == (x <= y));
    assert!(r(BinaryOp::GreaterThan) == (x > y));
    assert!(r(BinaryOp::GreaterThanEqual) == (x >= y));
    assert!(r(BinaryOp::Equal) == (x == y));
    assert!(r(BinaryOp::NotEqual) == (x != y));
    assert!(int_of(BinaryOp::Max.apply(x.to_value(), y.to_value())) == x.max(y));
    assert!(int_of(BinaryOp::Min.apply(x.to_value(), y.to_value())) == x.min(y));
});
