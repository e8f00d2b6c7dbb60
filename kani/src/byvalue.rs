use super::*;
#[cfg(not(kani))]
use super::kani;
use moveit::AsMove;
/// What the generated wrapper does with a parameter of C++ class type (the text of that wrapper is under
/// contract in contracts/wrapper.vrs), around a call of a C++ function which reads and then spoils its argument.
fn call<VP: ValueParam<Obj>>(param: VP) -> (u64, bool, *const Obj) {
    let mut space = ValueParamHandler::<Obj, VP>::default();
    let mut space = unsafe { Pin::new_unchecked(&mut space) };
    unsafe { space.as_mut().populate(param) };
    let p = space.as_mut().get_ptr();
    let o = unsafe { &mut *p };
    let r = (o.v, o.ok(), p as *const Obj);
    o.v = 0xdead;
    r
}
fn rcall<VP: RValueParam<Obj>>(param: VP) -> (u64, bool, *const Obj) {
    let mut space = RValueParamHandler::<Obj, VP>::default();
    let mut space = unsafe { Pin::new_unchecked(&mut space) };
    unsafe { space.as_mut().populate(param) };
    let p = space.as_mut().get_ptr();
    let o = unsafe { &mut *p };
    let r = (o.v, o.ok(), p as *const Obj);
    o.v = 0xdead;
    r
}
macro_rules! borrowed { ($n:ident, $mk:expr) => {
    /// A borrowed object: C++ gets one copy, which is destroyed once; the original is untouched.
    #[cfg_attr(kani, kani::proof)]
    pub fn $n() {
        let v: u64 = kani::any();
        let o = $mk(v);
        let before: *const Obj = &*o;
        {
            let (seen, ok, at) = call(&o);
            assert!(seen == v && ok, "C++ must see the borrowed object's value, in a live object");
            assert!(!std::ptr::eq(at, before), "C++ must get a copy, not the borrowed object itself");
        }
        assert!(copied() == 1 && moved() == 0 && made() == 2, "exactly one copy");
        assert!(dead() == 1, "the copy must be destroyed exactly once, after the call");
        let after: *const Obj = &*o;
        assert!(std::ptr::eq(before, after), "the borrowed object must stay where it was");
        assert!(unsafe { (*after).v == v && (*after).ok() }, "the borrowed object must be unchanged");
        drop(o);
        assert!(dead() == 2 && sound(), "every object destroyed once, where it was made");
    }
} }
borrowed!(value_from_ref_unique_ptr, unique);
borrowed!(value_from_ref_pin_box, boxed);
#[cfg_attr(kani, kani::proof)]
pub fn value_from_ref() {
    let v: u64 = kani::any();
    let o = boxed(v);
    let r: &Obj = &o;
    let (seen, ok, at) = call(r);
    assert!(seen == v && ok, "C++ must see the borrowed object's value, in a live object");
    assert!(!std::ptr::eq(at, r), "C++ must get a copy, not the borrowed object itself");
    assert!(copied() == 1 && moved() == 0 && made() == 2 && dead() == 1, "one copy, destroyed once after the call");
    assert!(o.v == v && o.ok(), "the borrowed object must be unchanged");
    drop(o);
    assert!(dead() == 2 && sound(), "every object destroyed once, where it was made");
}
/// An owned object: C++ gets that very object, which is destroyed once, after the call.
#[cfg_attr(kani, kani::proof)]
pub fn value_from_unique_ptr() {
    let v: u64 = kani::any();
    let o = unique(v);
    let before: *const Obj = &*o;
    let (seen, ok, at) = call(o);
    assert!(seen == v && ok && std::ptr::eq(at, before), "C++ must get the owned object itself");
    assert!(made() == 1 && dead() == 1 && sound(), "the owned object must be destroyed exactly once");
}
#[cfg_attr(kani, kani::proof)]
pub fn value_from_pin_box() {
    let v: u64 = kani::any();
    let o = boxed(v);
    let before: *const Obj = &*o;
    let (seen, ok, at) = call(o);
    assert!(seen == v && ok && std::ptr::eq(at, before), "C++ must get the owned object itself");
    assert!(made() == 1 && dead() == 1 && sound(), "the owned object must be destroyed exactly once");
}
#[cfg_attr(kani, kani::proof)]
pub fn value_from_new() {
    let v: u64 = kani::any();
    let (seen, ok, _) = call(as_new(Obj::build(v)));
    assert!(seen == v && ok, "C++ must get the newly constructed object");
    assert!(made() == 1 && dead() == 1 && sound(), "constructed once, destroyed once, where it was made");
}
#[cfg_attr(kani, kani::proof)]
pub fn value_from_copy() {
    let v: u64 = kani::any();
    let o = boxed(v);
    let (seen, ok, at) = call(as_copy(&*o));
    assert!(seen == v && ok && !std::ptr::eq(at, &*o), "C++ must get a copy");
    assert!(copied() == 1 && moved() == 0 && made() == 2 && dead() == 1, "one copy, destroyed once");
    assert!(o.v == v && o.ok(), "the original must be unchanged");
    drop(o);
    assert!(dead() == 2 && sound(), "every object destroyed once, where it was made");
}
#[cfg_attr(kani, kani::proof)]
pub fn value_from_mov() {
    let v: u64 = kani::any();
    let o = boxed(v);
    let (seen, ok, _) = call(as_mov(o));
    assert!(seen == v && ok, "C++ must get the moved value");
    assert!(moved() == 1 && copied() == 0 && made() == 2, "moved exactly once");
    assert!(dead() == 2 && sound(), "both halves of the move destroyed once");
}
/// A handler which was never filled (a panic between its creation and the call) destroys nothing.
#[cfg_attr(kani, kani::proof)]
pub fn value_unfilled() {
    if kani::any() { let _s = ValueParamHandler::<Obj, &Obj>::default(); } else { let _s = ValueParamHandler::<Obj, UniquePtr<Obj>>::default(); }
    assert!(made() == 0 && dead() == 0);
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::should_panic)]
pub fn value_null_unique_ptr() { let _ = call(UniquePtr::<Obj>::null()); }
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::should_panic)]
pub fn value_null_ref_unique_ptr() { let u = UniquePtr::<Obj>::null(); let _ = call(&u); }
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::should_panic)]
pub fn rvalue_null_unique_ptr() { let _ = rcall(UniquePtr::<Obj>::null()); }
#[cfg_attr(kani, kani::proof)]
pub fn rvalue_from_unique_ptr() {
    let v: u64 = kani::any();
    let o = unique(v);
    let before: *const Obj = &*o;
    let (seen, ok, at) = rcall(o);
    assert!(seen == v && ok && std::ptr::eq(at, before), "C++ must get the owned object itself");
    assert!(made() == 1 && dead() == 1 && sound(), "the owned object must be destroyed exactly once");
}
#[cfg_attr(kani, kani::proof)]
pub fn rvalue_from_pin_box() {
    let v: u64 = kani::any();
    let o = boxed(v);
    let before: *const Obj = &*o;
    let (seen, ok, at) = rcall(o);
    assert!(seen == v && ok && std::ptr::eq(at, before), "C++ must get the owned object itself");
    assert!(made() == 1 && dead() == 1 && sound(), "the owned object must be destroyed exactly once");
}
#[cfg_attr(kani, kani::proof)]
pub fn rvalue_from_move_ref() {
    let v: u64 = kani::any();
    {
        moveit::slot!(#[dropping] storage);
        let m = boxed(v).as_move(storage);
        let before: *const Obj = &*m;
        let (seen, ok, at) = rcall(m);
        assert!(seen == v && ok && std::ptr::eq(at, before), "C++ must get the referenced object itself");
    }
    assert!(made() == 1 && dead() == 1 && sound(), "the object must be destroyed exactly once");
}
