//! C04: the representation of values as one tagged word
use crate::common::*;
use crate::proof;
use cordy_sys::core::NativeFunction;
use cordy_sys::vm::value::Value;
use std::cmp::Ordering;

#[derive(PartialEq, Clone, Copy)]
enum K { Nil, Bool, Int, Str, Native, Field }

/// All predicates agree with the one kind of the value
fn kind(v: &ValuePtr, k: K) {
    assert!(v.is_nil() == (k == K::Nil));
    assert!(v.is_bool() == (k == K::Bool));
    assert!(v.is_precise_int() == (k == K::Int));
    assert!(v.is_int() == (k == K::Int || k == K::Bool));
    assert!(v.is_short_str() == (k == K::Str));
    assert!(v.is_native() == (k == K::Native));
    assert!(v.is_field() == (k == K::Field));
    assert!(v.as_ptr_value() & 3 != 3); // Not a pointer
    let t = match k { K::Nil => Type::Nil, K::Bool => Type::Bool, K::Int => Type::Int, K::Str => Type::ShortStr, K::Native => Type::NativeFunction, K::Field => Type::GetField };
    assert!(v.ty() == t);
    // A copy is the same word
    let w = v.clone();
    assert!(w.as_ptr_value() == v.as_ptr_value());
    assert!(w.ty() == t);
}

proof!(nil, { kind(&ValuePtr::nil(), K::Nil); kind(&ValuePtr::default(), K::Nil); });
proof!(boolean, { let b: bool = kani::any(); let v = b.to_value(); kind(&v, K::Bool); assert!(v.as_bool() == b && v.is_true() == b && v.as_int() == b as i64); });
proof!(integer, { let x: i64 = kani::any(); let v = x.to_value(); kind(&v, K::Int); assert!(v.as_precise_int() == wrap63(x) && v.as_int() == wrap63(x)); assert!(!v.is_true()); if x >= -(1 << 62) && x < 1 << 62 { assert!(v.as_int() == x); } });
proof!(unsigned, { let x: usize = kani::any(); let v = x.to_value(); kind(&v, K::Int); assert!(v.as_precise_int() == wrap63(x as i64)); });
proof!(native, { let n: u8 = kani::any(); kani::assume((n as usize) < NativeFunction::total()); let f: NativeFunction = unsafe { std::mem::transmute(n) }; let v = f.to_value(); kind(&v, K::Native); assert!(v.as_native() as u8 == n); });
proof!(field, { let n: u32 = kani::any(); let v = ValuePtr::field(n); kind(&v, K::Field); assert!(v.as_field() == n); });
proof!(bounds, { assert!(ValuePtr::MIN_INT == -(1 << 62) && ValuePtr::MAX_INT == (1 << 62) - 1); });

// Distinct constants and kinds never share a word
proof!(injective, {
    let w = |k: u8| -> (usize, u64, u8) { match k % 5 {
        0 => (ValuePtr::nil().as_ptr_value(), 0, 0),
        1 => { let b: bool = kani::any(); (b.to_value().as_ptr_value(), b as u64, 1) },
        2 => { let x = int(); (x.to_value().as_ptr_value(), x as u64, 2) },
        3 => { let n: u8 = kani::any(); kani::assume((n as usize) < NativeFunction::total()); let f: NativeFunction = unsafe { std::mem::transmute(n) }; (f.to_value().as_ptr_value(), n as u64, 3) },
        _ => { let n: u32 = kani::any(); (ValuePtr::field(n).as_ptr_value(), n as u64, 4) },
    } };
    let (a, b) = (w(kani::any()), w(kani::any()));
    assert!((a.0 == b.0) == (a.1 == b.1 && a.2 == b.2));
});

// ===== Strings ===== //

/// Any content of at most N bytes. (The representation does not depend on it being UTF-8)
struct Buf<const N: usize>([u8; N], usize);
impl<const N: usize> Buf<N> {
    fn any(min: usize) -> Buf<N> { let b = Buf(kani::any(), kani::any()); kani::assume(b.1 >= min && b.1 <= N); b }
    fn str(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.0[..self.1]) } }
}
fn same(a: &str, b: &str) { let (a, b) = (a.as_bytes(), b.as_bytes()); assert!(a.len() == b.len()); let i: usize = kani::any(); kani::assume(i < a.len()); assert!(a[i] == b[i]); }

macro_rules! sproof {
    ($name:ident, $body:block) => {
        #[kani::proof]
        #[kani::unwind(10)]
        #[kani::solver(cadical)]
        #[kani::stub(<cordy_sys::vm::ValuePtr as std::ops::Drop>::drop, no_drop)]
        fn $name() $body
    };
}

// A short string has exactly the bytes it was made of
sproof!(short_str, { let b = Buf::<7>::any(0); let v = b.str().to_value(); kind(&v, K::Str); assert!(v.is_str()); same(v.as_str_slice(), b.str()); });
sproof!(short_str_owned, { let b = Buf::<7>::any(0); let v = b.str().to_value(); let s = v.as_str_owned(); same(&s, b.str()); });
sproof!(empty_str, { let v = ValuePtr::str(); kind(&v, K::Str); assert!(v.as_str_slice().len() == 0); assert!(v.as_ptr_value() == "".to_value().as_ptr_value()); });
sproof!(character, { let c: char = kani::any(); let v = c.to_value(); kind(&v, K::Str); let mut b = [0; 4]; same(v.as_str_slice(), c.encode_utf8(&mut b)); });
// The words are equal if and only if the contents are (== compares the words: c03)
sproof!(short_str_eq, { let (a, b) = (Buf::<7>::any(0), Buf::<7>::any(0)); let (v, w) = (a.str().to_value(), b.str().to_value()); let e = a.1 == b.1 && (0..7).all(|i| i >= a.1 || a.0[i] == b.0[i]); assert!((v.as_ptr_value() == w.as_ptr_value()) == e); });
// Longer strings are kept on the heap
sproof!(long_str_bounded, { let b = Buf::<9>::any(8); let v = b.str().to_value(); assert!(v.ty() == Type::LongStr && v.is_str() && !v.is_short_str() && !v.is_int() && !v.is_nil() && !v.is_native() && !v.is_field()); same(v.as_str_slice(), b.str()); });

// ===== Shared values ===== //

// The word of a shared value leads back to its type and its contents
sproof!(shared_complex, {
    let (re, im) = (int(), int()); kani::assume(im != 0);
    let v = ComplexType::new(re, im).to_value();
    assert!(v.ty() == Type::Complex && !v.is_int() && !v.is_precise_int() && !v.is_nil() && !v.is_bool() && !v.is_short_str() && !v.is_native() && !v.is_field() && !v.is_str());
    let w = v.clone();
    assert!(w.as_ptr_value() == v.as_ptr_value() && w.ty() == Type::Complex);
    assert!(v.as_complex().re == re && v.as_complex().im == im && w.as_complex().re == re);
});
sproof!(shared_two, {
    let (a, b) = (ComplexType::new(1, int() | 1).to_value(), ComplexType::new(2, 1).to_value());
    assert!(a.as_ptr_value() != b.as_ptr_value());
    assert!(a.as_complex().re == 1 && b.as_complex().re == 2);
});
sproof!(shared_list, { let v = std::collections::VecDeque::new().to_value(); assert!(v.ty() == Type::List && v.is_list() && !v.is_int() && !v.is_str()); assert!(v.as_list().borrow().len() == 0); });
sproof!(shared_vector, { let x: i64 = int(); let v = vec![x.to_value(), ValuePtr::nil()].to_value(); assert!(v.ty() == Type::Vector && v.is_vector() && !v.is_list()); assert!(v.as_vector().borrow().len() == 2 && v.as_vector().borrow()[0].as_precise_int() == x && v.as_vector().borrow()[1].is_nil()); });

sproof!(vacuity_canary, { let b = Buf::<7>::any(0); let v = b.str().to_value(); kind(&v, K::Str); assert!(false); });
