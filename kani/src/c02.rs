//! C02: complex numbers, all of whose parts are 63-bit integers
use crate::common::*;
use crate::{cproof, proof};

// Construction: both parts reduced to 63 bits, an integer if the imaginary part is zero, and read back the same
cproof!(construct, { let (re, im): (i64, i64) = (kani::any(), kani::any()); assert!(parts(ComplexType::new(re, im).to_value()) == (wrap63(re), wrap63(im))); });
cproof!(operand_to_complex, { let (a, x) = operand(); let c = a.to_complex(); assert!(c.re == x && c.im == 0); let (b, re, im) = complex(); let c = b.to_complex(); assert!(c.re == re && c.im == im); });

// + - unary -
cproof!(add_cc, { let (a, x, y) = complex(); let (b, u, v) = complex(); assert!(parts_of(operator::binary_add(a, b)) == (wrap63(x + u), wrap63(y + v))); });
cproof!(add_ci, { let (a, x, y) = complex(); let (b, u) = operand(); assert!(parts_of(operator::binary_add(a, b)) == (wrap63(x + u), wrap63(y))); });
cproof!(add_ic, { let (a, x, y) = complex(); let (b, u) = operand(); assert!(parts_of(operator::binary_add(b, a)) == (wrap63(x + u), wrap63(y))); });
cproof!(sub_cc, { let (a, x, y) = complex(); let (b, u, v) = complex(); assert!(parts_of(operator::binary_sub(a, b)) == (wrap63(x - u), wrap63(y - v))); });
cproof!(sub_ci, { let (a, x, y) = complex(); let (b, u) = operand(); assert!(parts_of(operator::binary_sub(a, b)) == (wrap63(x - u), wrap63(y))); });
cproof!(sub_ic, { let (a, x, y) = complex(); let (b, u) = operand(); assert!(parts_of(operator::binary_sub(b, a)) == (wrap63(u - x), wrap63(-y))); });
cproof!(neg, { let (a, x, y) = complex(); assert!(parts_of(operator::unary_sub(a)) == (wrap63(-x), wrap63(-y))); });

// % by an integer: the modulus of each part, in terms of the contract of num_integer (see c01)
pub static mut MODS: [(i64, i64, i64); 2] = [(0, 0, 0); 2];
fn mod_stub<T: num_integer::Integer>(a: T, b: T) -> T { unsafe {
    assert!(std::mem::size_of::<T>() == 8);
    let (x, y): (i64, i64) = (std::mem::transmute_copy(&a), std::mem::transmute_copy(&b));
    let r = if (x, y) == (MODS[0].0, MODS[0].1) { MODS[0].2 } else if (x, y) == (MODS[1].0, MODS[1].1) { MODS[1].2 } else { kani::any() };
    std::mem::transmute_copy(&r)
} }
cproof!(mod_ci_uf, stub(num_integer::mod_floor, mod_stub), { let (a, x, y) = complex(); let (b, u) = operand(); kani::assume(u != 0);
    let (p, q) = (int(), int());
    kani::assume(x != y || p == q);
    unsafe { MODS = [(x, u, p), (y, u, q)]; }
    assert!(parts_of(operator::binary_mod(a, b)) == (p, q));
});
cproof!(mod_zero, { let (a, _, _) = complex(); let (b, u) = operand(); kani::assume(u == 0); assert!(is_err(operator::binary_mod(a, b))); });
cproof!(div_zero, { let (a, _, _) = complex(); let (b, u) = operand(); kani::assume(u == 0); assert!(is_err(operator::binary_div(a, b))); });

cproof!(vacuity_canary, { let (a, _, _) = complex(); let (b, _, _) = complex(); let _ = operator::binary_add(a, b); assert!(false); });
