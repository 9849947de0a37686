//! C11: the reference count and the borrow lock of shared values
use crate::common::*;
use cordy_sys::core::NativeFunction;
use cordy_sys::vm::RuntimeError;
use cordy_sys::vm::value::Value;
use cordy_sys::vm::value::ptr::{Ref, RefMut};
use cordy_sys::vm::value as v;
use std::cell::Cell;

/// A value which counts how often it is dropped. The functions on `Prefix<T>` are generic, and do not depend on `T`
static mut DROPPED: u32 = 0;
struct Probe(u64);
impl Value for Probe {}
impl Drop for Probe { fn drop(&mut self) { unsafe { DROPPED += 1 } } }
fn dropped() -> u32 { unsafe { DROPPED } }

/// The types of shared values
const SHARED: [Type; 20] = [Type::LongStr, Type::Complex, Type::Rational, Type::List, Type::Set, Type::Dict, Type::Heap, Type::Vector, Type::Struct, Type::StructType, Type::Range, Type::Enumerate,
    Type::Slice, Type::Memoized, Type::Function, Type::PartialFunction, Type::PartialNativeFunction, Type::Closure, Type::Iter, Type::Error];
fn shared_ty() -> Type { let i: usize = kani::any(); kani::assume(i < 20); SHARED[i] }

macro_rules! hproof {
    ($name:ident, $(#[$m:meta])* $body:block) => { #[kani::proof] #[kani::unwind(3)] #[kani::solver(cadical)] $(#[$m])* fn $name() $body };
}

// ===== The lock =====
// With r readers and no writer the lock is r + 1, with a writer it is 0. Each operation is a step between these states, which
// is what keeps it for every history: a reader is let in unless there is a writer, a writer only if there is nobody else.
hproof!(lock_try_borrow, {
    let p = Prefix::new(Type::List, Probe(kani::any()));
    let lock: u16 = kani::any(); let refs: u32 = kani::any(); kani::assume(lock < u16::MAX);
    p.verif_set(lock, refs);
    let x = unsafe { p.borrow_const_unsafe() } as *const Probe;
    match p.try_borrow() {
        None => assert!(lock == 0 && p.verif_lock() == 0), // Only a writer keeps readers out
        Some(r) => {
            assert!(lock != 0 && p.verif_lock() == lock + 1);
            assert!(&*r as *const Probe == x); // of this value
            drop(r);
            assert!(p.verif_lock() == lock); // Returned
        }
    }
    assert!(p.verif_refs() == refs && p.verif_ty() == Type::List && dropped() == 0);
});
hproof!(lock_try_borrow_mut, {
    let p = Prefix::new(Type::List, Probe(kani::any()));
    let lock: u16 = kani::any(); let refs: u32 = kani::any();
    p.verif_set(lock, refs);
    let x = unsafe { p.borrow_const_unsafe() } as *const Probe;
    match p.try_borrow_mut() {
        None => assert!(lock != 1 && p.verif_lock() == lock), // Readers or a writer
        Some(mut r) => {
            assert!(lock == 1 && p.verif_lock() == 0);
            assert!(&*r as *const Probe == x && &mut *r as *mut Probe as *const Probe == x);
            let n: u64 = kani::any(); r.0 = n;
            drop(r);
            assert!(p.verif_lock() == 1 && unsafe { p.borrow_const_unsafe() }.0 == n);
        }
    }
    assert!(p.verif_refs() == refs && p.verif_ty() == Type::List && dropped() == 0);
});
hproof!(lock_borrow, {
    let p = Prefix::new(Type::List, Probe(7));
    let lock: u16 = kani::any(); kani::assume(lock < u16::MAX && lock != 0);
    p.verif_set(lock, 1);
    let r = p.borrow();
    assert!(r.0 == 7 && p.verif_lock() == lock + 1);
    drop(r);
    assert!(p.verif_lock() == lock);
});
hproof!(lock_borrow_mut, {
    let p = Prefix::new(Type::List, Probe(7));
    let mut r = p.borrow_mut(); // It is free at first
    assert!(r.0 == 7 && p.verif_lock() == 0);
    r.0 = 8;
    drop(r);
    assert!(p.verif_lock() == 1 && p.borrow().0 == 8);
});
// The combinations which are refused
hproof!(lock_borrow_refused, #[kani::should_panic] { let p = Prefix::new(Type::List, Probe(7)); p.verif_set(0, 1); let r = p.borrow(); std::mem::forget(r); });
hproof!(lock_borrow_mut_refused_read, { let p = Prefix::new(Type::List, Probe(7)); let lock: u16 = kani::any(); kani::assume(lock > 1); p.verif_set(lock, 1); assert!(p.try_borrow_mut().is_none()); });
hproof!(lock_borrow_mut_refused, #[kani::should_panic] { let p = Prefix::new(Type::List, Probe(7)); p.verif_set(0, 1); let r = p.borrow_mut(); std::mem::forget(r); });
hproof!(lock_together, {
    // Two readers at a time, each returns its own borrow
    let p = Prefix::new(Type::List, Probe(7));
    let a = p.borrow(); let b = p.borrow();
    assert!(p.verif_lock() == 3 && p.try_borrow_mut().is_none() && p.verif_lock() == 3);
    if kani::any() { drop(a); assert!(p.verif_lock() == 2 && p.try_borrow_mut().is_none() && b.0 == 7); drop(b); } else { drop(b); assert!(p.verif_lock() == 2 && p.try_borrow_mut().is_none() && a.0 == 7); drop(a); }
    assert!(p.verif_lock() == 1);
    let w = p.borrow_mut();
    assert!(p.try_borrow().is_none() && p.try_borrow_mut().is_none() && p.verif_lock() == 0);
    drop(w);
    assert!(p.verif_lock() == 1);
});
hproof!(new_prefix, { let t = shared_ty(); let p = Prefix::new(t, Probe(3)); assert!(p.verif_ty() == t && p.verif_lock() == 1 && p.verif_refs() == 1 && dropped() == 0); drop(p); assert!(dropped() == 1); });

// ===== The reference count =====
// `drop_value` is used by its contract: it is given once the last copy goes away, of the type the value was made of
static mut FREED: u32 = 0;
static mut FREED_AT: usize = 0;
static mut FREED_AS: &str = "";
unsafe fn m_drop_value<T: Value>(v: &ValuePtr) { FREED += 1; FREED_AT = v.as_ptr_value(); FREED_AS = std::any::type_name::<T>(); }
macro_rules! rproof {
    ($name:ident, $(#[$m:meta])* $body:block) => { #[kani::proof] #[kani::unwind(3)] #[kani::solver(cadical)] #[kani::stub(cordy_sys::vm::value::ptr::ValuePtr::drop_value, m_drop_value)] $(#[$m])* fn $name() $body };
}
fn freed() -> u32 { unsafe { FREED } }

// Copies of a value of every type count, and are the same value
rproof!(count_clone, {
    let t = shared_ty();
    let v = Prefix::new(t, Probe(5)).verif_share();
    let p = v.verif_prefix::<Probe>();
    let refs: u32 = kani::any(); let lock: u16 = kani::any(); kani::assume(refs >= 1 && refs < u32::MAX);
    p.verif_set(lock, refs);
    let w = v.clone();
    assert!(w.as_ptr_value() == v.as_ptr_value() && p.verif_refs() == refs + 1 && p.verif_lock() == lock && p.verif_ty() == t && freed() == 0 && dropped() == 0);
    drop(w);
    assert!(p.verif_refs() == refs && p.verif_lock() == lock && p.verif_ty() == t && freed() == 0 && dropped() == 0 && unsafe { p.borrow_const_unsafe() }.0 == 5);
    std::mem::forget(v);
});
// Copies of other values own nothing
rproof!(count_inline, {
    let v = match kani::any::<u8>() { 0 => ValuePtr::nil(), 1 => kani::any::<bool>().to_value(), 2 => int().to_value(), 3 => ValuePtr::field(kani::any()), 4 => { let n: u8 = kani::any(); kani::assume((n as usize) < NativeFunction::total()); let f: NativeFunction = unsafe { std::mem::transmute(n) }; f.to_value() } _ => kani::any::<char>().to_value() };
    let word = v.as_ptr_value();
    let w = v.clone();
    assert!(w.as_ptr_value() == word);
    drop(w);
    assert!(v.as_ptr_value() == word && freed() == 0);
    drop(v);
    assert!(freed() == 0);
});
// As long as there are other copies nothing is freed, with the last one it is, once
rproof!(count_drop, {
    let t = shared_ty();
    let v = Prefix::new(t, Probe(5)).verif_share();
    let p = unsafe { &*(v.verif_prefix::<Probe>() as *const Prefix<Probe>) };
    let word = v.as_ptr_value();
    let refs: u32 = kani::any(); kani::assume(refs >= 1);
    p.verif_set(1, refs);
    drop(v);
    assert!(p.verif_refs() == refs - 1);
    assert!(freed() == (refs == 1) as u32);
    assert!(refs > 1 || unsafe { FREED_AT } == word);
});
fn same(a: &str, b: &str) -> bool { a.len() == b.len() && a.as_ptr() == b.as_ptr() || a == b }
/// The last copy of a value with the type frees it as a `T`
fn frees<T: Value>(t: Type) {
    let v = Prefix::new(t, Probe(5)).verif_share();
    drop(v);
    assert!(freed() == 1);
    let (a, b) = (unsafe { FREED_AS }.as_bytes(), std::any::type_name::<T>().as_bytes());
    assert!(a.len() == b.len());
    let i: usize = kani::any(); kani::assume(i < a.len());
    assert!(a[i] == b[i]);
}
macro_rules! frees { ($($name:ident: $t:ident, $ty:ty;)*) => { $( rproof!($name, { frees::<$ty>(Type::$t) }); )* } }
frees! {
    free_str: LongStr, String; free_complex: Complex, v::number::Complex; free_rational: Rational, v::number::Rational; free_list: List, List; free_set: Set, Set; free_dict: Dict, Dict; free_heap: Heap, Heap; free_vector: Vector, Vector;
    free_struct: Struct, v::StructImpl; free_struct_type: StructType, v::StructTypeImpl; free_range: Range, v::range::Range; free_enumerate: Enumerate, v::range::Enumerate; free_slice: Slice, v::slice::Slice; free_memoized: Memoized, v::MemoizedImpl;
    free_function: Function, v::func::Function; free_partial: PartialFunction, v::func::PartialFunction; free_partial_native: PartialNativeFunction, v::func::PartialNativeFunction; free_closure: Closure, v::func::Closure; free_iter: Iter, v::Iterable; free_error: Error, RuntimeError;
}
// and a `T` is made into a value with that type
macro_rules! makes { ($($name:ident: $t:ident, $make:expr;)*) => { $( rproof!($name, { let v = $make.to_value(); assert!(v.ty() == Type::$t && v.verif_prefix::<()>().verif_refs() == 1 && v.verif_prefix::<()>().verif_lock() == 1); std::mem::forget(v); }); )* } }
fn any<T>() -> T { unsafe { std::mem::MaybeUninit::<T>::zeroed().assume_init() } }
makes! {
    make_complex: Complex, ComplexType::new(int(), 1); make_list: List, std::collections::VecDeque::<ValuePtr>::new(); make_vector: Vector, Vec::<ValuePtr>::new();
    make_error: Error, RuntimeError::ValueErrorStepCannotBeZero;
}

// Freeing drops the contents, once, and gives the memory back
hproof!(free_contents, {
    let v = Prefix::new(Type::List, Probe(5)).verif_share();
    unsafe { v.verif_drop_value::<Probe>() };
    assert!(dropped() == 1);
    std::mem::forget(v);
});

hproof!(lock_canary, { let p = Prefix::new(Type::List, Probe(7)); let a = p.borrow(); drop(a); assert!(false); });
rproof!(count_canary, { let v = Prefix::new(Type::List, Probe(5)).verif_share(); drop(v); assert!(freed() == 0); });
