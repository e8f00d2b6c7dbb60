use super::*;
#[cfg(not(kani))]
use super::kani;
use autocxx::{AsCppMutRef, AsCppRef, CppMutRef, CppPin, CppRef, CppUniquePtrPin};
/// C++ references made from a pinned object all denote that one object, however they are made and copied.
#[cfg_attr(kani, kani::proof)]
pub fn cpp_pin() {
    let v: u64 = kani::any();
    let w: u64 = kani::any();
    let b = unsafe { Pin::into_inner_unchecked(boxed(v)) };
    let at: *const Obj = &*b;
    let mut p = if kani::any() { CppPin::from_box(b) } else { CppPin::from_pinned_box(unsafe { Pin::new_unchecked(b) }) };
    assert!(std::ptr::eq(p.as_ptr(), at), "pinning a boxed object must not move it");
    let m = p.as_cpp_mut_ref();
    let n = m;
    let r: CppRef<Obj> = p.as_cpp_ref();
    let s: CppRef<Obj> = n.into();
    assert!(std::ptr::eq(m.as_mut_ptr(), at) && std::ptr::eq(n.as_mut_ptr(), at), "mutable references denote the object");
    assert!(std::ptr::eq(r.as_ptr(), at) && std::ptr::eq(s.as_ptr(), at), "const references denote the object");
    assert!(std::ptr::eq(r.const_cast().as_mut_ptr(), at) && std::ptr::eq(m.as_cpp_ref().as_ptr(), at), "conversions keep the object");
    unsafe { (*m.as_mut_ptr()).v = w; }
    assert!(unsafe { r.as_ref().v } == w, "a change through one reference is seen through the others");
    assert!(unsafe { p.as_ref().v } == w && std::ptr::eq(p.as_mut_ptr(), at));
    if kani::any() {
        let back = unsafe { p.extract() };
        assert!(std::ptr::eq(&*back, at) && back.v == w, "extract gives back the object itself");
        assert!(dead() == 0);
        drop(back);
    } else { drop(p); }
    assert!(made() == 1 && dead() == 1 && sound(), "the object must be destroyed exactly once");
}
#[cfg_attr(kani, kani::proof)]
pub fn cpp_pin_new() {
    let v: u64 = kani::any();
    let w: u64 = kani::any();
    let mut p = CppPin::new(v);
    let m = p.as_cpp_mut_ref();
    let mut q = p;
    assert!(std::ptr::eq(m.as_mut_ptr(), q.as_ptr()), "moving the pin must not move the object");
    assert!(unsafe { *m.as_mut_ptr() } == v);
    unsafe { *m.as_mut_ptr() = w; }
    assert!(unsafe { *q.as_ref() } == w && unsafe { *q.as_mut() } == w);
}
#[cfg_attr(kani, kani::proof)]
pub fn cpp_unique_ptr_pin() {
    let v: u64 = kani::any();
    let u = unique(v);
    let at: *const Obj = &*u;
    let mut p = CppUniquePtrPin::new(u);
    assert!(std::ptr::eq(p.as_ptr(), at), "pinning must not move the object");
    let m: CppMutRef<Obj> = p.as_cpp_mut_ref();
    assert!(std::ptr::eq(m.as_mut_ptr(), at) && std::ptr::eq(p.as_cpp_ref().as_ptr(), at), "references denote the object");
    drop(p);
    assert!(made() == 1 && dead() == 1 && sound(), "the object must be destroyed exactly once");
}
