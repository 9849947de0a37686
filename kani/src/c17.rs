//! C17: type tests
use crate::common::*;
use cordy_sys::core::NativeFunction as N;
use cordy_sys::core::verif_type_of;

/// A value of any type, other than structs. A shared one has a header, but no contents: none may be accessed
fn value() -> (ValuePtr, Type) {
    let t: u8 = kani::any();
    kani::assume(t < Type::Error as u8 && t != Type::Struct as u8 && t != Type::StructType as u8);
    let t: Type = unsafe { std::mem::transmute(t) };
    (match t {
        Type::Nil => ValuePtr::nil(),
        Type::Bool => kani::any::<bool>().to_value(),
        Type::Int => int().to_value(),
        Type::NativeFunction => native().to_value(),
        Type::GetField => ValuePtr::field(kani::any()),
        Type::ShortStr => kani::any::<char>().to_value(),
        _ => shared(t)
    }, t)
}
fn shared(t: Type) -> ValuePtr { unsafe { std::mem::transmute(Box::into_raw(Box::new(Prefix::<()>::new(t, ()))) as usize | 3) } }
fn native() -> N { let n: u8 = kani::any(); kani::assume((n as usize) < N::total()); unsafe { std::mem::transmute(n) } }

/// Whether values of type t belong to the type named by the function, if it names any
fn belongs(t: Type, n: N) -> Option<bool> {
    use Type::*;
    Some(match n {
        N::Bool => matches!(t, Bool),
        N::Int => matches!(t, Bool | Int),
        N::Complex => matches!(t, Bool | Int | Complex),
        N::Rational => matches!(t, Bool | Int | Rational),
        N::Str => matches!(t, ShortStr | LongStr),
        N::Function => matches!(t, NativeFunction | GetField | StructType | Slice | Memoized | Function | PartialFunction | PartialNativeFunction | Closure),
        N::List => matches!(t, List),
        N::Set => matches!(t, Set),
        N::Dict => matches!(t, Dict),
        N::Heap => matches!(t, Heap),
        N::Vector => matches!(t, Vector),
        N::Iterable => matches!(t, ShortStr | LongStr | List | Set | Dict | Heap | Vector | Range | Enumerate),
        N::Range => matches!(t, Range),
        N::Enumerate => matches!(t, Enumerate),
        N::Any => true,
        _ => return None
    })
}

macro_rules! tproof {
    ($name:ident, $body:block) => {
        #[kani::proof]
        #[kani::unwind(9)]
        #[kani::solver(cadical)]
        #[kani::stub(<cordy_sys::vm::ValuePtr as std::ops::Drop>::drop, no_drop)]
        fn $name() $body
    };
}

// `x is T` for every x and every native function T
tproof!(is_native, {
    let (x, t) = value(); let n = native(); let invert: bool = kani::any();
    let r = operator::binary_is(x, n.to_value(), invert);
    match belongs(t, n) { Some(b) => assert!(bool_of(r) == (b != invert)), None => assert!(is_err(r)) }
});
// `x is nil`
tproof!(is_nil, {
    let (x, t) = value(); let invert: bool = kani::any();
    assert!(bool_of(operator::binary_is(x, ValuePtr::nil(), invert)) == ((t == Type::Nil) != invert));
});
// Anything else on the right is an error
tproof!(is_not_a_type, {
    let (x, _) = value(); let (y, u) = value(); kani::assume(u != Type::Nil && u != Type::NativeFunction);
    assert!(is_err(operator::binary_is(x, y, kani::any())));
});
// x is typeof(x). (typeof(x) names the type of x)
tproof!(is_typeof, {
    let (x, t) = value(); kani::assume(t != Type::Iter);
    let w = x.as_ptr_value(); let y: ValuePtr = unsafe { std::mem::transmute(w) };
    let ty = verif_type_of(x);
    if t == Type::Nil { assert!(ty.is_nil()); } else { assert!(ty.is_native() && belongs(t, ty.as_native()) == Some(true)); assert!(ty.as_native() as u8 != N::Any as u8 && ty.as_native() as u8 != N::Iterable as u8); if t == Type::Int { assert!(ty.as_native() as u8 == N::Int as u8); } }
    assert!(bool_of(operator::binary_is(y, ty, false)));
});
// The operators deliver their operands
tproof!(is_operator, {
    let (x, t) = value(); let n = native();
    let w = x.as_ptr_value(); let y: ValuePtr = unsafe { std::mem::transmute(w) };
    let (a, b) = (BinaryOp::Is.apply(x, n.to_value()), BinaryOp::IsNot.apply(y, n.to_value()));
    match belongs(t, n) { Some(c) => assert!(bool_of(a) == c && bool_of(b) != c), None => assert!(is_err(a) && is_err(b)) }
});
// Structs: exactly the instances of the same declaration
tproof!(is_struct, {
    use cordy_sys::vm::StructTypeImpl;
    let (i, j, k, l): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
    let p = StructTypeImpl::new(String::new(), Vec::new(), Vec::new(), i, k, kani::any()).to_value();
    let q = StructTypeImpl::new(String::new(), Vec::new(), Vec::new(), j, l, kani::any()).to_value();
    let invert: bool = kani::any();
    let x = ValuePtr::instance(p, Vec::new());
    let w = x.as_ptr_value(); let y: ValuePtr = unsafe { std::mem::transmute(w) };
    assert!(bool_of(operator::binary_is(x, q, invert)) == ((i == j) != invert));
    let z: ValuePtr = unsafe { std::mem::transmute(w) };
    let t = verif_type_of(y);
    assert!(t.ty() == Type::StructType);
    assert!(bool_of(operator::binary_is(z, t, false)));
});
tproof!(is_struct_other, {
    use cordy_sys::vm::StructTypeImpl;
    let (x, _) = value(); let invert: bool = kani::any();
    let p = StructTypeImpl::new(String::new(), Vec::new(), Vec::new(), kani::any(), kani::any(), kani::any()).to_value();
    assert!(bool_of(operator::binary_is(x, p, invert)) == invert);
});
tproof!(vacuity_canary, { let (x, _) = value(); let n = native(); let _ = operator::binary_is(x, n.to_value(), false); assert!(false); });
